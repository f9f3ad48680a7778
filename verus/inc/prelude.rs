// Stand-ins for std and for dependencies. Everything marked external_body here is TRUSTED and is listed in DESIGN.md.
use vstd::std_specs::convert::FromSpecImpl;
// 64-bit targets only
global size_of usize == 8;

pub struct VxTryErr;
#[verifier::external]
impl core::fmt::Debug for VxTryErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }

pub struct IoError { pub code: u64 }
#[verifier::external]
impl core::fmt::Debug for IoError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub type IoResult<T> = Result<T, IoError>;
pub type ZResult<T> = Result<T, ZipError>;
pub struct Context;
pub enum Poll<T> { Ready(T), Pending }

#[derive(Clone, Copy)]
pub enum Level { Fastest, Best, Default, Precise(i32) }

// ---- little endian ---------------------------------------------------------------------------------------------
pub open spec fn le2(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, (x >> 8) as u8] }
pub open spec fn le4(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, (x >> 24) as u8] }
pub open spec fn le8(x: u64) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
         ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, (x >> 56) as u8]
}
pub open spec fn un2(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub open spec fn un4(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
pub open spec fn un8(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
    | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub trait VxToLe<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    fn vx_to_le(self) -> (r: [u8; N])
        ensures r@ == self.le();
}
impl VxToLe<2> for u16 {
    open spec fn le(self) -> Seq<u8> { le2(self) }
    #[verifier::external_body] fn vx_to_le(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
impl VxToLe<4> for u32 {
    open spec fn le(self) -> Seq<u8> { le4(self) }
    #[verifier::external_body] fn vx_to_le(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
impl VxToLe<8> for u64 {
    open spec fn le(self) -> Seq<u8> { le8(self) }
    #[verifier::external_body] fn vx_to_le(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body] pub fn vx_u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == un2(b@) { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == un4(b@) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u64_from_le(b: [u8; 8]) -> (r: u64) ensures r == un8(b@) { u64::from_le_bytes(b) }

// ---- conversions -----------------------------------------------------------------------------------------------
pub trait VxTryInto<T>: Sized {
    spec fn try_post(self, r: Result<T, VxTryErr>) -> bool;
    fn vx_try_into(self) -> (r: Result<T, VxTryErr>)
        ensures self.try_post(r);
}
impl<const N: usize> VxTryInto<[u8; N]> for &[u8] {
    open spec fn try_post(self, r: Result<[u8; N], VxTryErr>) -> bool {
        if self@.len() == N { r is Ok && r->Ok_0@ == self@ } else { r is Err }
    }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; N], VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u16> for usize {
    open spec fn try_post(self, r: Result<u16, VxTryErr>) -> bool { if self <= 0xffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u32> for usize {
    open spec fn try_post(self, r: Result<u32, VxTryErr>) -> bool { if self <= 0xffff_ffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u16> for u64 {
    open spec fn try_post(self, r: Result<u16, VxTryErr>) -> bool { if self <= 0xffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u32> for u64 {
    open spec fn try_post(self, r: Result<u32, VxTryErr>) -> bool { if self <= 0xffff_ffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u16> for u32 {
    open spec fn try_post(self, r: Result<u16, VxTryErr>) -> bool { if self <= 0xffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<u16> for i32 {
    open spec fn try_post(self, r: Result<u16, VxTryErr>) -> bool { if 0 <= self <= 0xffff { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u16, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}
impl VxTryInto<usize> for u64 {
    open spec fn try_post(self, r: Result<usize, VxTryErr>) -> bool { if self <= usize::MAX { r is Ok && r->Ok_0 == self } else { r is Err } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, VxTryErr>) { self.try_into().map_err(|_| VxTryErr) }
}

// ---- slices, vectors, options ----------------------------------------------------------------------------------
pub trait VxToVec { spec fn tv(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv(); }
impl VxToVec for [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl<const N: usize> VxToVec for [u8; N] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl VxToVec for Vec<u8> {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.clone() }
}
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for Vec<u8> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }

#[verifier::external_body]
pub fn vx_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.vx_le_spec(b) { b } else { a }) { if a.vx_le_(&b) { b } else { a } }
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.vx_le_spec(b) { a } else { b }) { if a.vx_le_(&b) { a } else { b } }
pub trait VxOrd: Sized { spec fn vx_le_spec(self, o: Self) -> bool; fn vx_le_(&self, o: &Self) -> (r: bool) ensures r == (*self).vx_le_spec(*o); }
impl VxOrd for u16 { open spec fn vx_le_spec(self, o: u16) -> bool { self <= o } fn vx_le_(&self, o: &u16) -> (r: bool) { *self <= *o } }
impl VxOrd for u32 { open spec fn vx_le_spec(self, o: u32) -> bool { self <= o } fn vx_le_(&self, o: &u32) -> (r: bool) { *self <= *o } }
impl VxOrd for u64 { open spec fn vx_le_spec(self, o: u64) -> bool { self <= o } fn vx_le_(&self, o: &u64) -> (r: bool) { *self <= *o } }
impl VxOrd for usize { open spec fn vx_le_spec(self, o: usize) -> bool { self <= o } fn vx_le_(&self, o: &usize) -> (r: bool) { *self <= *o } }

// a panic is a proof obligation: it must be unreachable
#[verifier::external_body] pub fn vx_panic() -> (r: !) requires false, { panic!() }
pub fn vx_assert(b: bool) requires b, { }

// ---- readers ---------------------------------------------------------------------------------------------------
/// `data` is everything the source holds, `pos` the position of the next byte, `nofail` says that it never reports an
/// error of its own (so that only the end of the data can make a read fail), `dlv` are the bytes it has delivered since
/// its log was last emptied (a log that reading only ever appends to), `fixed` is a value that reading never changes and
/// `at_end` what holds of a reader that has reported the end of its data.
pub trait AsyncRead: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn nofail(&self) -> bool;
    spec fn dlv(&self) -> Seq<u8>;
    spec fn fixed(&self) -> (Seq<u8>, int, bool, u32);
    spec fn at_end(&self) -> bool;
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            final(self).fixed() == old(self).fixed(),
            final(buf)@.len() == old(buf)@.len(),
            polled(old(self).data(), old(self).pos(), old(self).dlv(), final(self).pos(), final(self).dlv(), final(self).at_end(), old(buf)@, final(buf)@, r),
            old(self).nofail() ==> !(r matches Poll::Ready(Err(_)));
}
/// One poll_read: a prefix of the rest is delivered, or nothing.
pub open spec fn polled(data: Seq<u8>, pos: int, dlv: Seq<u8>, pos2: int, dlv2: Seq<u8>, end2: bool, b: Seq<u8>, b2: Seq<u8>, r: Poll<IoResult<usize>>) -> bool {
    match r {
        Poll::Ready(Ok(n)) => {
            &&& n <= b.len() && n <= avail(data, pos)
            &&& (n == 0 ==> b.len() == 0 || (avail(data, pos) == 0 && end2))
            &&& pos2 == pos + n
            &&& b2.subrange(0, n as int) == data.subrange(pos, pos + n)
            &&& b2.subrange(n as int, b.len() as int) == b.subrange(n as int, b.len() as int)
            &&& dlv2 == dlv + data.subrange(pos, pos + n)
        },
        _ => dlv2 == dlv,
    }
}
/// The helpers of futures_lite over poll_read.
pub trait AsyncReadExt: AsyncRead {
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            final(self).fixed() == old(self).fixed(),
            final(buf)@.len() == old(buf)@.len(),
            old(self).nofail() ==> r is Ok,
            r matches Ok(n) ==> (n == 0 && old(buf)@.len() > 0 ==> final(self).at_end())
                && final(self).dlv() == old(self).dlv() + old(self).data().subrange(old(self).pos(), old(self).pos() + n),
            r matches Ok(n) ==> {
                &&& n <= old(buf)@.len()
                &&& n <= avail(old(self).data(), old(self).pos())
                &&& (n == 0 ==> old(buf)@.len() == 0 || avail(old(self).data(), old(self).pos()) == 0)
                &&& final(self).pos() == old(self).pos() + n
                &&& forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).pos() + i]
                &&& forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i]
            };
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            final(buf)@.len() == old(buf)@.len(),
            old(self).nofail() ==> (r is Ok <==> old(buf)@.len() <= avail(old(self).data(), old(self).pos())),
            r is Ok ==> {
                &&& old(buf)@.len() <= avail(old(self).data(), old(self).pos())
                &&& final(self).pos() == old(self).pos() + old(buf)@.len()
                &&& final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len())
            };
    fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            old(self).nofail() ==> r is Ok,
            r matches Ok(k) ==> {
                &&& k == min(n as int, avail(old(self).data(), old(self).pos()))
                &&& final(self).pos() == old(self).pos() + k
                &&& final(buf)@ == old(buf)@ + old(self).data().subrange(old(self).pos(), old(self).pos() + k)
            };
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            final(self).fixed() == old(self).fixed(),
            old(self).nofail() ==> r is Ok,
            r matches Ok(n) ==> {
                &&& final(buf)@ == old(buf)@ + rest(old(self))
                &&& n == rest(old(self)).len()
                &&& final(self).dlv() == old(self).dlv() + rest(old(self))
                &&& rest(final(self)).len() == 0 && final(self).at_end()
            };
    /// the buffer has to be empty (futures_lite says so with a debug assertion); data that are not UTF-8 are an error
    fn read_to_string(&mut self, buf: &mut VString) -> (r: IoResult<usize>)
        requires old(self).pos() >= 0, old(buf).sv().len() == 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            final(self).fixed() == old(self).fixed(),
            old(self).nofail() ==> (r is Ok <==> utf8_valid(rest(old(self)))),
            r matches Ok(n) ==> {
                &&& final(buf).sv() == rest(old(self)) && utf8_valid(rest(old(self)))
                &&& n == rest(old(self)).len()
                &&& final(self).dlv() == old(self).dlv() + rest(old(self))
                &&& rest(final(self)).len() == 0 && final(self).at_end()
            };
    fn take(self, n: u64) -> (r: Take<Self>)
        requires self.pos() >= 0,
        ensures r.inner() == self, r.tend() == self.pos() + n;
}
impl<R: AsyncRead> AsyncReadExt for R {
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_to_string(&mut self, buf: &mut VString) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn take(self, n: u64) -> (r: Take<Self>) { unimplemented!() }
}
/// what a reader has yet to deliver
pub open spec fn rest<R: AsyncRead>(r: &R) -> Seq<u8> { r.data().subrange(r.pos(), r.pos() + avail(r.data(), r.pos())) }
/// futures_lite::io::Take: the reader below, cut off at the absolute position tend
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Take<R> { x: R }
impl<R: AsyncRead> Take<R> {
    pub uninterp spec fn inner(&self) -> R;
    pub uninterp spec fn tend(&self) -> int;
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
impl<R: AsyncRead> AsyncRead for Take<R> {
    open spec fn data(&self) -> Seq<u8> { cut(self.inner().data(), self.tend()) }
    open spec fn pos(&self) -> int { self.inner().pos() }
    open spec fn nofail(&self) -> bool { self.inner().nofail() }
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.inner().data(), cut(self.inner().data(), self.tend()).len() as int, self.inner().fixed().2, 0) }
    open spec fn at_end(&self) -> bool { self.inner().pos() == self.fixed().1 || self.inner().pos() > self.inner().data().len() }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
impl<R: AsyncBufRead> AsyncBufRead for Take<R> {
    #[verifier::external_body]
    fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<IoResult<&[u8]>>) { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, amt: usize) { unimplemented!() }
}
/// everything before the absolute position end
pub open spec fn cut(d: Seq<u8>, end: int) -> Seq<u8> { d.subrange(0, if 0 <= end <= d.len() { end } else { d.len() as int }) }
pub open spec fn avail(data: Seq<u8>, pos: int) -> int { if pos <= data.len() { data.len() - pos } else { 0 } }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the next n bytes of a source
pub open spec fn nxt(data: Seq<u8>, pos: int, n: int) -> Seq<u8> { data.subrange(pos, pos + n) }
pub trait AsyncBufRead: AsyncRead {
    fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<IoResult<&[u8]>>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).fixed() == old(self).fixed(),
            final(self).pos() >= 0, final(self).dlv() == old(self).dlv(),
            r matches Poll::Ready(Ok(s)) ==> {
                &&& final(self).pos() == old(self).pos()
                &&& s@.len() <= avail(old(self).data(), old(self).pos())
                &&& s@ == old(self).data().subrange(old(self).pos(), old(self).pos() + s@.len())
                &&& (s@.len() == 0 ==> avail(old(self).data(), old(self).pos()) == 0)
            };
    fn consume(&mut self, amt: usize)
        requires old(self).pos() >= 0, amt <= avail(old(self).data(), old(self).pos()),
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).fixed() == old(self).fixed(),
            final(self).pos() == old(self).pos() + amt,
            final(self).dlv() == old(self).dlv() + old(self).data().subrange(old(self).pos(), old(self).pos() + amt);
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait AsyncSeek: AsyncRead {
    fn seek(&mut self, to: SeekFrom) -> (r: IoResult<u64>)
        requires old(self).pos() >= 0,
        ensures
            final(self).data() == old(self).data(), final(self).nofail() == old(self).nofail(), final(self).pos() >= 0,
            old(self).nofail() && seek_target(old(self).data(), old(self).pos(), to) >= 0
                && seek_target(old(self).data(), old(self).pos(), to) <= u64::MAX ==> r is Ok,
            r matches Ok(p) ==> {
                &&& p == seek_target(old(self).data(), old(self).pos(), to)
                &&& final(self).pos() == p
            };
}
pub open spec fn seek_target(data: Seq<u8>, pos: int, to: SeekFrom) -> int {
    match to {
        SeekFrom::Start(p) => p as int,
        SeekFrom::End(d) => data.len() + d,
        SeekFrom::Current(d) => pos + d,
    }
}

// ---- errors ----------------------------------------------------------------------------------------------------
impl FromSpecImpl<IoError> for ZipError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> ZipError { ZipError::UpstreamReadError(e) }
}
impl From<IoError> for ZipError { fn from(e: IoError) -> (r: ZipError) { ZipError::UpstreamReadError(e) } }
// i32::from(u16) is the value (vstd has the unsigned ones only)
pub assume_specification[<i32 as core::convert::From<u16>>::from](v: u16) -> (r: i32) ensures r == v as i32;
pub trait VxInto32: Sized { fn vx_into_i32(self) -> (r: i32) ensures self.vi() == r; spec fn vi(self) -> i32; }
impl VxInto32 for u16 { open spec fn vi(self) -> i32 { self as i32 } fn vx_into_i32(self) -> (r: i32) { self as i32 } }
// the conversion of errors that `?` makes (thiserror: #[from])
pub trait VxErrFrom<E>: Sized { spec fn ef(e: E) -> Self; fn ef_exec(e: E) -> (r: Self) ensures r == Self::ef(e); }
impl VxErrFrom<IoError> for ZipError { open spec fn ef(e: IoError) -> ZipError { ZipError::UpstreamReadError(e) } fn ef_exec(e: IoError) -> (r: ZipError) { ZipError::UpstreamReadError(e) } }
impl VxErrFrom<ZipError> for ZipError { open spec fn ef(e: ZipError) -> ZipError { e } fn ef_exec(e: ZipError) -> (r: ZipError) { e } }
impl VxErrFrom<IoError> for IoError { open spec fn ef(e: IoError) -> IoError { e } fn ef_exec(e: IoError) -> (r: IoError) { e } }
pub fn vx_err<E, F: VxErrFrom<E>>(e: E) -> (r: F) ensures r == F::ef(e) { F::ef_exec(e) }
pub trait VxAsRef<T> { spec fn ar(&self) -> Seq<T>; fn vx_as_ref(&self) -> (r: &[T]) ensures r@ == self.ar(); }
impl<T> VxAsRef<T> for Vec<T> { open spec fn ar(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self } }
impl<T> VxAsRef<T> for [T] { open spec fn ar(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> VxAsRef<T> for [T; N] { open spec fn ar(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self } }
// ---- iteration by mutable reference ----------------------------------------------------------------------------------
pub trait VxMutSeq<T> { spec fn ms(&self) -> Seq<T>; }
impl<T> VxMutSeq<T> for Vec<T> { open spec fn ms(&self) -> Seq<T> { self@ } }
impl<T> VxMutSeq<T> for [T] { open spec fn ms(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vx_as_mut_slice<T, V: VxMutSeq<T> + ?Sized>(v: &mut V) -> (r: &mut [T])
    ensures r@ == (*old(v)).ms(), (*final(v)).ms() == final(r)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_split_first_mut<T>(s: &mut [T]) -> (r: Option<(&mut T, &mut [T])>)
    ensures match r {
        None => old(s)@.len() == 0 && final(s)@ == old(s)@,
        Some((f, t)) => old(s)@.len() > 0 && *f == old(s)@[0] && t@ == old(s)@.skip(1) && final(s)@ == seq![*final(f)] + final(t)@,
    },
{ s.split_first_mut() }
// ---- <Vec<T> as AsMut<Vec<T>>> ---------------------------------------------------------------------------------------
pub trait VxAsMut<T> { fn vx_as_mut(&mut self) -> (r: &mut Vec<T>); }
impl<T> VxAsMut<T> for Vec<T> { fn vx_as_mut(&mut self) -> (r: &mut Vec<T>) ensures *r == *old(self), *final(r) == *final(self) { self } }
