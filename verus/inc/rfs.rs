// Files: what a path names is taken not to change between one opening and the next; reading a file may fail.
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct Path { x: u8 }
pub trait VxPath { spec fn vx_file(&self) -> Seq<u8>; }
impl VxPath for PathBuf { uninterp spec fn vx_file(&self) -> Seq<u8>; }
impl VxPath for Path { uninterp spec fn vx_file(&self) -> Seq<u8>; }
impl Path {
    #[verifier::external_body] pub fn to_owned(&self) -> (r: PathBuf) ensures r.vx_file() == self.vx_file() { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.vx_file() == self.vx_file() { unimplemented!() }
}
pub trait VxAsPath: VxPath { fn vx_as_ref(&self) -> (r: &Path) ensures r.vx_file() == self.vx_file(); }
#[verifier::external_body] pub struct File { x: u8 }
impl File {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open<P: VxPath>(p: &P) -> (r: IoResult<File>) ensures r matches Ok(f) ==> f.content() == p.vx_file() && f.content().len() <= u64::MAX { unimplemented!() }
    #[verifier::external_body] pub fn compat(self) -> (r: Compat<File>) ensures r.cdata() == self.content(), r.cpos() == 0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufReader<T> { x: T }
impl BufReader<File> {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(f: File) -> (r: BufReader<File>) ensures r.content() == f.content() { unimplemented!() }
    #[verifier::external_body] pub fn compat(self) -> (r: Compat<BufReader<File>>) ensures r.cdata() == self.content(), r.cpos() == 0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Compat<T> { x: T }
impl<T> Compat<T> {
    pub uninterp spec fn cpos(&self) -> int;
    pub uninterp spec fn cdata(&self) -> Seq<u8>;
}
impl<T> AsyncRead for Compat<T> {
    open spec fn data(&self) -> Seq<u8> { self.cdata() }
    open spec fn pos(&self) -> int { self.cpos() }
    open spec fn nofail(&self) -> bool { false }
    uninterp spec fn dlv(&self) -> Seq<u8>;
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.cdata(), 0, false, 0) }
    open spec fn at_end(&self) -> bool { true }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
impl<T> AsyncBufRead for Compat<T> {
    #[verifier::external_body]
    fn poll_fill_buf(&mut self, cx: &mut Context) -> (r: Poll<IoResult<&[u8]>>) { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, amt: usize) { unimplemented!() }
}
impl<T> AsyncSeek for Compat<T> {
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: IoResult<u64>) { unimplemented!() }
}
pub use std::sync::Arc;
