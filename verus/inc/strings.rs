// Text: String and str are opaque byte strings that are valid UTF-8; which byte strings are valid is uninterpreted.
pub uninterp spec fn utf8_valid(s: Seq<u8>) -> bool;
pub open spec fn all_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub broadcast axiom fn axiom_ascii_is_utf8(s: Seq<u8>) requires all_ascii(s) ensures #[trigger] utf8_valid(s);
#[verifier::external_body] pub struct VString { b: Vec<u8> }
#[verifier::external_body] pub struct VStr { b: Vec<u8> }
impl VString {
    pub uninterp spec fn sv(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: VString) ensures r.sv() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.sv().len() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.sv(), utf8_valid(r@) { unimplemented!() }
    #[verifier::external_body] pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.sv(), utf8_valid(r@) { unimplemented!() }
    #[verifier::external_body] pub fn from_utf8(b: Vec<u8>) -> (r: Result<VString, VxTryErr>)
        ensures r is Ok <==> utf8_valid(b@), r matches Ok(s) ==> s.sv() == b@ { unimplemented!() }
    #[verifier::external_body] pub fn from_utf8_unchecked(b: Vec<u8>) -> (r: VString) requires utf8_valid(b@) ensures r.sv() == b@ { unimplemented!() }
}
impl VStr {
    pub uninterp spec fn sv(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.sv(), utf8_valid(r@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_ends_with(&self, c: char) -> (r: bool)
        ensures (c as u32) < 0x80 ==> r == (self.sv().len() > 0 && self.sv().last() == c as u8) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&VStr, VxTryErr>)
    ensures r is Ok <==> utf8_valid(b@), r matches Ok(s) ==> s.sv() == b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_from_utf8_unchecked(b: &[u8]) -> (r: &VStr) requires utf8_valid(b@) ensures r.sv() == b@ { unimplemented!() }

/// the CRC-32 of a byte string; only its being a function of the bytes matters
pub uninterp spec fn crc_of(s: Seq<u8>) -> u32;
#[verifier::external_body] pub fn crc32_hash(b: &[u8]) -> (r: u32) ensures r == crc_of(b@) { unimplemented!() }

/// crc32fast::Hasher
#[verifier::external_body]
pub struct Hasher { x: u8 }
impl Hasher {
    pub uninterp spec fn seen(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Hasher) ensures r.seen() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Hasher) ensures r.seen() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).seen() == old(self).seen() + b@ { unimplemented!() }
    #[verifier::external_body] pub fn reset(&mut self) ensures final(self).seen() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Hasher) ensures r.seen() == self.seen() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: u32) ensures r == crc_of(self.seen()) { unimplemented!() }
}
/// Value view of a ZipString.
pub struct ZS { pub utf8: bool, pub raw: Seq<u8>, pub alt: Option<Seq<u8>> }
pub open spec fn optv(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn opts(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn zv(s: ZipString) -> ZS { ZS { utf8: s.encoding is Utf8, raw: s.raw@, alt: optv(s.alternative) } }
/// the soundness invariant of ZipString: it claims UTF-8 only if it is
pub open spec fn zs_ok(s: ZipString) -> bool { s.encoding is Utf8 ==> utf8_valid(s.raw@) }

/// How the bytes of a name or comment are to be read: as UTF-8 if the flag says so and they are; else by the first
/// version-1 Unicode field (kind: path or comment) over exactly these bytes, if it holds UTF-8; else ASCII or raw.
pub open spec fn dec_plain(raw: Seq<u8>) -> ZS { ZS { utf8: utf8_valid(raw), raw, alt: None } }
pub open spec fn uni_of(x: XF, path: bool, raw: Seq<u8>) -> Option<Seq<u8>> {
    match x {
        XF::Path { version, crc, bytes } => if path && version == 1 && crc == crc_of(raw) { Some(bytes) } else { None },
        XF::Comment { version, crc, bytes } => if !path && version == 1 && crc == crc_of(raw) { Some(bytes) } else { None },
        _ => None,
    }
}
pub open spec fn first_uni(xs: Seq<XF>, path: bool, raw: Seq<u8>) -> Option<Seq<u8>> decreases xs.len() {
    if xs.len() == 0 { None }
    else if first_uni(xs.drop_last(), path, raw) is Some { first_uni(xs.drop_last(), path, raw) }
    else { uni_of(xs.last(), path, raw) }
}
pub open spec fn decode(raw: Seq<u8>, flag: bool, xs: Seq<XF>, path: bool) -> ZS {
    if flag { dec_plain(raw) }
    else {
        match first_uni(xs, path, raw) {
            Some(t) if utf8_valid(t) => ZS { utf8: true, raw: t, alt: Some(raw) },
            _ => ZS { utf8: all_ascii(raw), raw, alt: None },
        }
    }
}
pub trait VxAsDeref { spec fn ad(&self) -> Option<Seq<u8>>; fn vx_as_deref(&self) -> (r: Option<&[u8]>) ensures opts(r) == self.ad(); }
impl VxAsDeref for Option<Vec<u8>> {
    open spec fn ad(&self) -> Option<Seq<u8>> { optv(*self) }
    #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&[u8]>) { self.as_deref() }
}
pub trait VxIsAscii { spec fn ia(&self) -> Seq<u8>; fn vx_is_ascii(&self) -> (r: bool) ensures r == all_ascii(self.ia()); }
impl VxIsAscii for Vec<u8> { open spec fn ia(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() } }
impl VxIsAscii for [u8] { open spec fn ia(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() } }
