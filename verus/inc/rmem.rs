// futures_lite::io::Cursor over bytes in memory: it never fails
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { x: T }
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; }
impl VxBytes for &Vec<u8> { open spec fn vb(&self) -> Seq<u8> { (**self)@ } }
impl VxBytes for &[u8] { open spec fn vb(&self) -> Seq<u8> { (**self)@ } }
impl<T: VxBytes> Cursor<T> {
    pub uninterp spec fn cpos(&self) -> int;
    pub uninterp spec fn cdata(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(t: T) -> (r: Cursor<T>) ensures r.cpos() == 0, r.cdata() == t.vb(), r.cdata().len() <= usize::MAX { unimplemented!() }
}
impl<T: VxBytes> AsyncRead for Cursor<T> {
    open spec fn data(&self) -> Seq<u8> { self.cdata() }
    open spec fn pos(&self) -> int { self.cpos() }
    open spec fn nofail(&self) -> bool { true }
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.cdata(), 0, false, 0) }
    open spec fn at_end(&self) -> bool { true }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
impl<T: VxBytes> AsyncBufRead for Cursor<T> {
    #[verifier::external_body]
    fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<IoResult<&[u8]>>) { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, amt: usize) { unimplemented!() }
}
impl<T: VxBytes> AsyncSeek for Cursor<T> {
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: IoResult<u64>) { unimplemented!() }
}
pub use std::sync::Arc;
