// Identifiers (APPNOTE 4.4.2, 4.4.3, 4.4.5) and MS-DOS dates (4.4.6).
pub open spec fn method_id(c: Compression) -> u16 {
    match c {
        Compression::Stored => 0, Compression::Deflate => 8, Compression::Deflate64 => 9, Compression::Bz => 12,
        Compression::Lzma => 14, Compression::Zstd => 93, Compression::Xz => 95,
    }
}
pub open spec fn method_of(v: u16) -> Option<Compression> {
    if v == 0 { Some(Compression::Stored) } else if v == 8 { Some(Compression::Deflate) } else if v == 9 { Some(Compression::Deflate64) }
    else if v == 12 { Some(Compression::Bz) } else if v == 14 { Some(Compression::Lzma) } else if v == 93 { Some(Compression::Zstd) }
    else if v == 95 { Some(Compression::Xz) } else { None }
}
pub open spec fn needed(c: Compression, dir: bool) -> u16 {
    let v: u16 = match c { Compression::Deflate => 20, Compression::Deflate64 => 21, Compression::Bz => 46, Compression::Lzma => 63, _ => 10 };
    if dir && v < 20 { 20 } else { v }
}
pub open spec fn is_dir(s: ZS) -> bool { s.utf8 && s.raw.len() > 0 && s.raw.last() == 0x2f }
pub open spec fn made_by() -> u16 { 0x33f }

pub open spec fn dt_year(d: ZipDateTime) -> int { 1980 + d.date as int / 512 }
pub open spec fn dt_month(d: ZipDateTime) -> int { d.date as int / 32 % 16 }
pub open spec fn dt_day(d: ZipDateTime) -> int { d.date as int % 32 }
pub open spec fn dt_hour(d: ZipDateTime) -> int { d.time as int / 2048 }
pub open spec fn dt_minute(d: ZipDateTime) -> int { d.time as int / 32 % 64 }
pub open spec fn dt_second(d: ZipDateTime) -> int { d.time as int % 32 * 2 }
impl ZipDateTime {
    // derive(Default)
    #[verifier::external_body] pub fn default() -> (r: ZipDateTime) ensures r.date == 0, r.time == 0 { unimplemented!() }
}
// chrono: a moment in UTC has these components; the way back is a function of the six components.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { t: T }
pub struct Utc;
#[verifier::external_body] pub struct NaiveDate { x: u8 }
#[verifier::external_body] pub struct NaiveTime { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LocalResult<T> { t: T }
impl<T> DateTime<T> {
    pub uninterp spec fn nd(&self) -> NaiveDate;
    pub uninterp spec fn nt(&self) -> NaiveTime;
    #[verifier::external_body] pub fn date_naive(&self) -> (r: NaiveDate) ensures r == self.nd() { unimplemented!() }
    #[verifier::external_body] pub fn time(&self) -> (r: NaiveTime) ensures r == self.nt() { unimplemented!() }
}
impl NaiveDate {
    pub uninterp spec fn y(&self) -> i32;
    pub uninterp spec fn mo(&self) -> u32;
    pub uninterp spec fn d(&self) -> u32;
    #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures r == self.y() { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: u32) ensures r == self.mo(), 1 <= r <= 12 { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: u32) ensures r == self.d(), 1 <= r <= 31 { unimplemented!() }
}
impl NaiveTime {
    pub uninterp spec fn h(&self) -> u32;
    pub uninterp spec fn mi(&self) -> u32;
    pub uninterp spec fn s(&self) -> u32;
    #[verifier::external_body] pub fn hour(&self) -> (r: u32) ensures r == self.h(), r <= 23 { unimplemented!() }
    #[verifier::external_body] pub fn minute(&self) -> (r: u32) ensures r == self.mi(), r <= 59 { unimplemented!() }
    #[verifier::external_body] pub fn second(&self) -> (r: u32) ensures r == self.s(), r <= 59 { unimplemented!() }
}
pub uninterp spec fn utc_of(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> LocalResult<DateTime<Utc>>;
impl Utc {
    #[verifier::external_body] pub fn with_ymd_and_hms(&self, y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> (r: LocalResult<DateTime<Utc>>)
        ensures r == utc_of(y, mo, d, h, mi, s) { unimplemented!() }
}
/// the components of a moment as the MS-DOS format keeps them (even seconds)
pub open spec fn dt_is(r: ZipDateTime, v: DateTime<Utc>) -> bool {
    dt_year(r) == v.nd().y() && dt_month(r) == v.nd().mo() && dt_day(r) == v.nd().d()
        && dt_hour(r) == v.nt().h() && dt_minute(r) == v.nt().mi() && dt_second(r) == v.nt().s() as int / 2 * 2
}
