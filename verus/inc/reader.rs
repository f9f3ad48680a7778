// The reader stack: codecs, checksum, entry readers.
pub open spec fn beyond(d: Seq<u8>, p: int) -> bool { p > d.len() }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct DeflateDecoder<R> { x: R }
impl<R: AsyncBufRead> DeflateDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Deflate, rest(&reader)), r.endp() == reader.pos() + stream_len(Compression::Deflate, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for DeflateDecoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Deflate64Decoder<R> { x: R }
impl<R: AsyncBufRead> Deflate64Decoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Deflate64, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for Deflate64Decoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BzDecoder<R> { x: R }
impl<R: AsyncBufRead> BzDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Bz, rest(&reader)), r.endp() == reader.pos() + stream_len(Compression::Bz, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for BzDecoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct LzmaDecoder<R> { x: R }
impl<R: AsyncBufRead> LzmaDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Lzma, rest(&reader)), r.endp() == reader.pos() + stream_len(Compression::Lzma, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for LzmaDecoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ZstdDecoder<R> { x: R }
impl<R: AsyncBufRead> ZstdDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Zstd, rest(&reader)), r.endp() == reader.pos() + stream_len(Compression::Zstd, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for ZstdDecoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct XzDecoder<R> { x: R }
impl<R: AsyncBufRead> XzDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn endp(&self) -> int;
    #[verifier::external_body]
    pub fn new(reader: R) -> (r: Self)
        requires reader.pos() >= 0,
        ensures r.inner() == reader, r.pos() == 0, within(r), r.dlv() == Seq::<u8>::empty(), r.data() == decoded(Compression::Xz, rest(&reader)), r.endp() == reader.pos() + stream_len(Compression::Xz, rest(&reader)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncRead for XzDecoder<R> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn nofail(&self) -> bool;
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().fixed().0, self.endp(), self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.endp() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn is_def(&self) -> bool; }
impl VxDefault for Hasher { open spec fn is_def(&self) -> bool { self.seen() == Seq::<u8>::empty() } }
#[verifier::external_body]
pub fn vx_mem_take<T: VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), (*final(x)).is_def() { unimplemented!() }

pub open spec fn odata<'a, R: AsyncBufRead>(o: OwnedReader<'a, R>) -> R { match o { OwnedReader::Owned(r) => r, OwnedReader::Borrow(r) => *r } }
pub open spec fn cinner<R: AsyncBufRead>(c: CompressedReader<R>) -> R {
    match c {
        CompressedReader::Stored(r) => r,
        CompressedReader::Deflate(d) => d.inner(),
        CompressedReader::Deflate64(d) => d.inner(),
        CompressedReader::Bz(d) => d.inner(),
        CompressedReader::Lzma(d) => d.inner(),
        CompressedReader::Zstd(d) => d.inner(),
        CompressedReader::Xz(d) => d.inner(),
    }
}
/// the source at the bottom of an entry reader
pub open spec fn bottom<'a, R: AsyncBufRead, E>(z: ZipEntryReader<'a, R, E>) -> R { odata(cinner(z.reader.reader).inner()) }
pub open spec fn variant_is<R>(c: CompressedReader<R>, m: Compression) -> bool {
    match c {
        CompressedReader::Stored(_) => m is Stored,
        CompressedReader::Deflate(_) => m is Deflate,
        CompressedReader::Deflate64(_) => m is Deflate64,
        CompressedReader::Bz(_) => m is Bz,
        CompressedReader::Lzma(_) => m is Lzma,
        CompressedReader::Zstd(_) => m is Zstd,
        CompressedReader::Xz(_) => m is Xz,
    }
}
/// the checksum that an entry records, for readers that know their entry
pub uninterp spec fn ecrc<E>(e: E) -> u32;
pub broadcast axiom fn axiom_ecrc<'a>(e: WithEntry<'a>) ensures #[trigger] ecrc::<WithEntry<'a>>(e) == oentry(e.0).crc32;
pub open spec fn bottom_c<'a, R: AsyncBufRead>(c: CompressedReader<Take<OwnedReader<'a, R>>>) -> R { odata(cinner(c).inner()) }
pub open spec fn oentry<'a>(o: OwnedEntry<'a>) -> ZipEntry { match o { OwnedEntry::Owned(e) => e, OwnedEntry::Borrow(e) => *e } }
/// z reads the entry of method m whose data take up to n bytes of the source d from p on
pub open spec fn zr_at<'a, R: AsyncBufRead, E>(z: ZipEntryReader<'a, R, E>, d: Seq<u8>, p: int, m: Compression, n: int, owned: bool) -> bool {
    &&& rest(&z) == payload(m, tk(d, p, n)) && z.pos() >= 0
    &&& variant_is(z.reader.reader, m) && bottom(z).data() == d && bottom(z).pos() == p
    &&& z.dlv() == Seq::<u8>::empty()
    &&& z.fixed().0 == d && z.fixed().2 == owned
    &&& (!beyond(d, p) ==> within(z))
    &&& (!(m is Deflate64) && !beyond(d, p) ==> z.fixed().1 == p + used(m, tk(d, p, n)))
}
/// it has not been positioned beyond its end
pub open spec fn within<R: AsyncRead>(z: R) -> bool { 0 <= z.pos() <= z.data().len() }
