// The writer stack.
/// `acc` is every byte a sink has accepted, in order; `sunk` the same for the sink below a codec or a close-ignoring writer;
/// `fx` what no operation changes: `base` is a length (for a writer that counts: how much the sink below held at its position 0), `start` what the
/// bottom sink held when a codec was put on it, `winv` an invariant, `opn` says that nobody has closed the sink below and
/// `keeps` that closing this writer does not close it, `fin` what holds once closing has succeeded, and `kin` that two
/// writers hold their sink in the same place.
pub trait AsyncWrite: Sized {
    spec fn acc(&self) -> Seq<u8>;
    spec fn sunk(&self) -> Seq<u8>;
    spec fn fx(&self) -> WFix;
    spec fn winv(&self) -> bool;
    spec fn opn(&self) -> bool;
    spec fn fin(&self) -> bool;
    #[verifier::prophetic]
    spec fn kin(&self, o: &Self) -> bool;
    proof fn kin_refl(&self) ensures self.kin(self);
    proof fn kin_trans(&self, b: &Self, c: &Self) requires self.kin(b), b.kin(c) ensures self.kin(c);
    fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).opn() == (*old(self)).opn(), wrote((*old(self)).acc(), (*final(self)).acc(), buf@, r), (*old(self)).fx().sure ==> !(r matches Poll::Ready(Err(_)));
    fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).opn() == (*old(self)).opn(), (*final(self)).acc() == (*old(self)).acc(), (*old(self)).fx().sure ==> !(r matches Poll::Ready(Err(_)));
    fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>)
        requires (*old(self)).winv(),
        ensures
            (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).acc() == (*old(self)).acc(),
            (*old(self)).fx().keeps ==> (*final(self)).opn() == (*old(self)).opn(),
            (*old(self)).fx().sure ==> !(r matches Poll::Ready(Err(_))),
            r matches Poll::Ready(Ok(_)) ==> (*final(self)).fin();
    fn poll_write_vectored(&mut self, cx: &mut Context, bufs: &[IoSlice]) -> (r: Poll<IoResult<usize>>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).opn() == (*old(self)).opn(), wrote((*old(self)).acc(), (*final(self)).acc(), gather(bufs@), r), (*old(self)).fx().sure ==> !(r matches Poll::Ready(Err(_))),
    // futures_io: the default writes the first buffer that is not empty
    {
        let mut i: usize = 0;
        proof { lemma_gather_empty(bufs@, 0); }
        while i < bufs.len()
            invariant i <= bufs@.len(), forall|k: int| 0 <= k < i ==> bufs@[k].b@.len() == 0, *self == *old(self), (*self).winv(),
            decreases bufs.len() - i
        {
            if bufs[i].b.len() != 0 {
                proof { lemma_gather_empty(bufs@, i as int); lemma_gather_head(bufs@.skip(i as int)); assert(bufs@.skip(i as int)[0] == bufs@[i as int]); }
                let r = (*self).poll_write(cx, bufs[i].b);
                proof { if let Poll::Ready(Ok(n)) = r { assert(gather(bufs@).take(n as int) =~= bufs@[i as int].b@.take(n as int)); } }
                return r;
            }
            i = i + 1;
        }
        let e: [u8; 0] = [];
        let r = (*self).poll_write(cx, e.as_slice());
        proof { if let Poll::Ready(Ok(n)) = r { assert(gather(bufs@).take(n as int) =~= e@.take(n as int)); } }
        r
    }
}
/// `sure`: the sink never reports an error.
pub struct WFix { pub base: int, pub below: int, pub start: Seq<u8>, pub keeps: bool, pub sure: bool }
pub open spec fn grown(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn lemma_grows(a: Seq<u8>)
    ensures grown(a, a), forall|b: Seq<u8>, c: Seq<u8>| grown(a, b) ==> grown(a, #[trigger] (b + c)), forall|b: Seq<u8>, c: Seq<u8>| grown(a, b) && #[trigger] grown(b, c) ==> grown(a, c)
{
    lemma_grown(a);
    assert forall|b: Seq<u8>, c: Seq<u8>| grown(a, b) implies grown(a, #[trigger] (b + c)) by { assert((b + c).take(a.len() as int) =~= b.take(a.len() as int)); }
    assert forall|b: Seq<u8>, c: Seq<u8>| grown(a, b) && #[trigger] grown(b, c) implies grown(a, c) by { assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
}
pub proof fn lemma_grown(a: Seq<u8>) ensures grown(a, a) { assert(a.take(a.len() as int) =~= a); }
/// One poll_write: a prefix of what was offered is appended, or nothing. No sink ever accepts 2^64 bytes.
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, buf: Seq<u8>, r: Poll<IoResult<usize>>) -> bool {
    match r {
        Poll::Ready(Ok(n)) => n <= buf.len() && b == a + buf.take(n as int) && b.len() <= u64::MAX,
        _ => b == a,
    }
}
/// std::io::IoSlice
pub struct IoSlice<'a> { pub b: &'a [u8] }
pub open spec fn gather(s: Seq<IoSlice>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].b@ + gather(s.skip(1)) } }
pub proof fn lemma_gather_head(s: Seq<IoSlice>)
    requires s.len() > 0
    ensures s[0].b@.len() <= gather(s).len(), gather(s).take(s[0].b@.len() as int) == s[0].b@
{ assert(gather(s).take(s[0].b@.len() as int) =~= s[0].b@); }
pub proof fn lemma_gather_empty(s: Seq<IoSlice>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| 0 <= k < i ==> s[k].b@.len() == 0
    ensures gather(s) == gather(s.skip(i))
    decreases i
{
    if i == 0 { assert(s.skip(0) =~= s); } else {
        assert forall|k: int| 0 <= k < i - 1 implies s.skip(1)[k].b@.len() == 0 by { assert(s.skip(1)[k] == s[k + 1]); }
        lemma_gather_empty(s.skip(1), i - 1);
        assert(s.skip(1).skip(i - 1) =~= s.skip(i));
        assert(s[0].b@ + gather(s.skip(1)) =~= gather(s.skip(1)));
    }
}
impl<W: AsyncWrite> AsyncWrite for &mut W {
    open spec fn acc(&self) -> Seq<u8> { (**self).acc() }
    open spec fn sunk(&self) -> Seq<u8> { (**self).sunk() }
    open spec fn fx(&self) -> WFix { (**self).fx() }
    open spec fn winv(&self) -> bool { (**self).winv() }
    open spec fn opn(&self) -> bool { (**self).opn() }
    open spec fn fin(&self) -> bool { (**self).fin() }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { *final(*self) == *final(*o) && (**self).kin(&**o) }
    proof fn kin_refl(&self) { (**self).kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { (**self).kin_trans(&**b, &**c); }
    fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { (**self).poll_write(cx, buf) }
    fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { (**self).poll_flush(cx) }
    fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { (**self).poll_close(cx) }
    fn poll_write_vectored(&mut self, cx: &mut Context, bufs: &[IoSlice]) -> (r: Poll<IoResult<usize>>) { (**self).poll_write_vectored(cx, bufs) }
}
/// The helpers of futures_lite over poll_write and poll_close.
pub trait AsyncWriteExt: AsyncWrite {
    fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>)
        requires (*old(self)).winv(),
        ensures
            (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).opn() == (*old(self)).opn(),
            (*old(self)).fx().sure ==> r is Ok,
            match r {
                Ok(_) => (*final(self)).acc() == (*old(self)).acc() + buf@,
                Err(_) => exists|n: int| 0 <= n <= buf@.len() && (*final(self)).acc() == (*old(self)).acc() + #[trigger] buf@.take(n),
            };
    fn close(&mut self) -> (r: IoResult<()>)
        requires (*old(self)).winv(),
        ensures
            (*final(self)).winv(), (*final(self)).fx() == (*old(self)).fx(), (*old(self)).kin(&*final(self)), grown((*old(self)).sunk(), (*final(self)).sunk()), (*final(self)).acc() == (*old(self)).acc(),
            (*old(self)).fx().keeps ==> (*final(self)).opn() == (*old(self)).opn(),
            (*old(self)).fx().sure ==> r is Ok,
            r is Ok ==> (*final(self)).fin();
}
impl<W: AsyncWrite> AsyncWriteExt for W {
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body] fn close(&mut self) -> (r: IoResult<()>) { unimplemented!() }
}
/// what a codec holds beside its sink
#[verifier::external_body] pub struct CodecState { x: u8 }
/// the codecs: `start0` is what the sink held at creation
#[verifier::reject_recursive_types(W)]
pub struct DeflateEncoder<W> { pub w: W, pub x: CodecState }
impl<W: AsyncWrite> DeflateEncoder<W> {
    pub open spec fn inner(&self) -> W { self.w }
    pub uninterp spec fn start0(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(writer: W) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quality(writer: W, level: Level) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner() { unimplemented!() }
}
impl<W: AsyncWrite> AsyncWrite for DeflateEncoder<W> {
    uninterp spec fn acc(&self) -> Seq<u8>;
    open spec fn sunk(&self) -> Seq<u8> { self.inner().sunk() }
    open spec fn fx(&self) -> WFix { WFix { start: self.start0(), ..self.inner().fx() } }
    open spec fn winv(&self) -> bool { self.inner().winv() && grown(self.start0(), self.inner().sunk()) }
    open spec fn opn(&self) -> bool { self.inner().opn() }
    open spec fn fin(&self) -> bool { is_stream(Compression::Deflate, self.inner().sunk().skip(self.start0().len() as int), self.acc()) }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner().kin(&o.inner()) && o.inner().fx() == self.inner().fx() }
    proof fn kin_refl(&self) { self.inner().kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner().kin_trans(&b.inner(), &c.inner()); }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
pub struct BzEncoder<W> { pub w: W, pub x: CodecState }
impl<W: AsyncWrite> BzEncoder<W> {
    pub open spec fn inner(&self) -> W { self.w }
    pub uninterp spec fn start0(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(writer: W) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quality(writer: W, level: Level) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner() { unimplemented!() }
}
impl<W: AsyncWrite> AsyncWrite for BzEncoder<W> {
    uninterp spec fn acc(&self) -> Seq<u8>;
    open spec fn sunk(&self) -> Seq<u8> { self.inner().sunk() }
    open spec fn fx(&self) -> WFix { WFix { start: self.start0(), ..self.inner().fx() } }
    open spec fn winv(&self) -> bool { self.inner().winv() && grown(self.start0(), self.inner().sunk()) }
    open spec fn opn(&self) -> bool { self.inner().opn() }
    open spec fn fin(&self) -> bool { is_stream(Compression::Bz, self.inner().sunk().skip(self.start0().len() as int), self.acc()) }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner().kin(&o.inner()) && o.inner().fx() == self.inner().fx() }
    proof fn kin_refl(&self) { self.inner().kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner().kin_trans(&b.inner(), &c.inner()); }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
pub struct LzmaEncoder<W> { pub w: W, pub x: CodecState }
impl<W: AsyncWrite> LzmaEncoder<W> {
    pub open spec fn inner(&self) -> W { self.w }
    pub uninterp spec fn start0(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(writer: W) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quality(writer: W, level: Level) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner() { unimplemented!() }
}
impl<W: AsyncWrite> AsyncWrite for LzmaEncoder<W> {
    uninterp spec fn acc(&self) -> Seq<u8>;
    open spec fn sunk(&self) -> Seq<u8> { self.inner().sunk() }
    open spec fn fx(&self) -> WFix { WFix { start: self.start0(), ..self.inner().fx() } }
    open spec fn winv(&self) -> bool { self.inner().winv() && grown(self.start0(), self.inner().sunk()) }
    open spec fn opn(&self) -> bool { self.inner().opn() }
    open spec fn fin(&self) -> bool { is_stream(Compression::Lzma, self.inner().sunk().skip(self.start0().len() as int), self.acc()) }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner().kin(&o.inner()) && o.inner().fx() == self.inner().fx() }
    proof fn kin_refl(&self) { self.inner().kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner().kin_trans(&b.inner(), &c.inner()); }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
pub struct ZstdEncoder<W> { pub w: W, pub x: CodecState }
impl<W: AsyncWrite> ZstdEncoder<W> {
    pub open spec fn inner(&self) -> W { self.w }
    pub uninterp spec fn start0(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(writer: W) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quality(writer: W, level: Level) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner() { unimplemented!() }
}
impl<W: AsyncWrite> AsyncWrite for ZstdEncoder<W> {
    uninterp spec fn acc(&self) -> Seq<u8>;
    open spec fn sunk(&self) -> Seq<u8> { self.inner().sunk() }
    open spec fn fx(&self) -> WFix { WFix { start: self.start0(), ..self.inner().fx() } }
    open spec fn winv(&self) -> bool { self.inner().winv() && grown(self.start0(), self.inner().sunk()) }
    open spec fn opn(&self) -> bool { self.inner().opn() }
    open spec fn fin(&self) -> bool { is_stream(Compression::Zstd, self.inner().sunk().skip(self.start0().len() as int), self.acc()) }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner().kin(&o.inner()) && o.inner().fx() == self.inner().fx() }
    proof fn kin_refl(&self) { self.inner().kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner().kin_trans(&b.inner(), &c.inner()); }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
pub struct XzEncoder<W> { pub w: W, pub x: CodecState }
impl<W: AsyncWrite> XzEncoder<W> {
    pub open spec fn inner(&self) -> W { self.w }
    pub uninterp spec fn start0(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(writer: W) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quality(writer: W, level: Level) -> (r: Self)
        requires writer.winv(),
        ensures r.inner() == writer, r.start0() == writer.sunk(), r.acc() == Seq::<u8>::empty(), r.winv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner() { unimplemented!() }
}
impl<W: AsyncWrite> AsyncWrite for XzEncoder<W> {
    uninterp spec fn acc(&self) -> Seq<u8>;
    open spec fn sunk(&self) -> Seq<u8> { self.inner().sunk() }
    open spec fn fx(&self) -> WFix { WFix { start: self.start0(), ..self.inner().fx() } }
    open spec fn winv(&self) -> bool { self.inner().winv() && grown(self.start0(), self.inner().sunk()) }
    open spec fn opn(&self) -> bool { self.inner().opn() }
    open spec fn fin(&self) -> bool { is_stream(Compression::Xz, self.inner().sunk().skip(self.start0().len() as int), self.acc()) }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner().kin(&o.inner()) && o.inner().fx() == self.inner().fx() }
    proof fn kin_refl(&self) { self.inner().kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner().kin_trans(&b.inner(), &c.inner()); }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
/// e is one complete stream of method m, holding the data d
pub open spec fn is_stream(m: Compression, e: Seq<u8>, d: Seq<u8>) -> bool { decoded(m, e) == d && stream_len(m, e) == e.len() }
