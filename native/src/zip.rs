//! The ZIP format, written from APPNOTE and from the property statements, independently of the crate under test.
use crate::util::*;

pub const LFH: u32 = 0x04034b50;
pub const CDH: u32 = 0x02014b50;
pub const EOCD: u32 = 0x06054b50;
pub const Z64E: u32 = 0x06064b50;
pub const Z64L: u32 = 0x07064b50;
pub const DD: u32 = 0x08074b50;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lfh { pub ver: u16, pub flags: u16, pub method: u16, pub time: u16, pub date: u16, pub crc: u32, pub cs: u32, pub us: u32, pub name: Vec<u8>, pub extra: Vec<u8> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cdr {
    pub made: u16, pub need: u16, pub flags: u16, pub method: u16, pub time: u16, pub date: u16, pub crc: u32, pub cs: u32, pub us: u32,
    pub name: Vec<u8>, pub extra: Vec<u8>, pub comment: Vec<u8>, pub disk: u16, pub iattr: u16, pub eattr: u32, pub off: u32,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Eocd { pub disk: u16, pub cd_disk: u16, pub n_disk: u16, pub n: u16, pub size: u32, pub off: u32, pub comment_len: u16 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Eocd64 { pub rec_size: u64, pub made: u16, pub need: u16, pub disk: u32, pub cd_disk: u32, pub n_disk: u64, pub n: u64, pub size: u64, pub off: u64 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Loc64 { pub disk: u32, pub off: u64, pub total: u32 }

pub trait Put { fn p2(&mut self, v: u16); fn p4(&mut self, v: u32); fn p8(&mut self, v: u64); }
impl Put for Vec<u8> {
    fn p2(&mut self, v: u16) { self.push(v as u8); self.push((v >> 8) as u8); }
    fn p4(&mut self, v: u32) { self.p2(v as u16); self.p2((v >> 16) as u16); }
    fn p8(&mut self, v: u64) { self.p4(v as u32); self.p4((v >> 32) as u32); }
}
pub fn g2(d: &[u8], i: usize) -> u16 { d[i] as u16 + 256 * d[i + 1] as u16 }
pub fn g4(d: &[u8], i: usize) -> u32 { g2(d, i) as u32 + 65536 * g2(d, i + 2) as u32 }
pub fn g8(d: &[u8], i: usize) -> u64 { g4(d, i) as u64 + (1u64 << 32) * g4(d, i + 4) as u64 }

impl Lfh {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = vec![];
        v.p4(LFH); v.p2(self.ver); v.p2(self.flags); v.p2(self.method); v.p2(self.time); v.p2(self.date); v.p4(self.crc); v.p4(self.cs); v.p4(self.us);
        v.p2(self.name.len() as u16); v.p2(self.extra.len() as u16);
        v.extend(&self.name); v.extend(&self.extra);
        v
    }
    /// parses at p; returns the header and where the data start
    pub fn parse(d: &[u8], p: usize) -> R<(Lfh, usize)> {
        if p.checked_add(30).map_or(true, |e| e > d.len()) { return Err(format!("local header at {p} beyond the end {}", d.len())); }
        if g4(d, p) != LFH { return Err(format!("no local header signature at {p}: {:08x}", g4(d, p))); }
        let (n, m) = (g2(d, p + 26) as usize, g2(d, p + 28) as usize);
        if p + 30 + n + m > d.len() { return Err(format!("local header at {p}: name/extra beyond the end")); }
        Ok((Lfh { ver: g2(d, p + 4), flags: g2(d, p + 6), method: g2(d, p + 8), time: g2(d, p + 10), date: g2(d, p + 12), crc: g4(d, p + 14), cs: g4(d, p + 18), us: g4(d, p + 22),
            name: d[p + 30..p + 30 + n].to_vec(), extra: d[p + 30 + n..p + 30 + n + m].to_vec() }, p + 30 + n + m))
    }
}
impl Cdr {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = vec![];
        v.p4(CDH); v.p2(self.made); v.p2(self.need); v.p2(self.flags); v.p2(self.method); v.p2(self.time); v.p2(self.date); v.p4(self.crc); v.p4(self.cs); v.p4(self.us);
        v.p2(self.name.len() as u16); v.p2(self.extra.len() as u16); v.p2(self.comment.len() as u16); v.p2(self.disk); v.p2(self.iattr); v.p4(self.eattr); v.p4(self.off);
        v.extend(&self.name); v.extend(&self.extra); v.extend(&self.comment);
        v
    }
    pub fn parse(d: &[u8], p: usize) -> R<(Cdr, usize)> {
        if p.checked_add(46).map_or(true, |e| e > d.len()) { return Err(format!("central header at {p} beyond the end {}", d.len())); }
        if g4(d, p) != CDH { return Err(format!("no central header signature at {p}: {:08x}", g4(d, p))); }
        let (n, m, k) = (g2(d, p + 28) as usize, g2(d, p + 30) as usize, g2(d, p + 32) as usize);
        let q = p + 46;
        if q + n + m + k > d.len() { return Err(format!("central header at {p}: name/extra/comment beyond the end")); }
        Ok((Cdr { made: g2(d, p + 4), need: g2(d, p + 6), flags: g2(d, p + 8), method: g2(d, p + 10), time: g2(d, p + 12), date: g2(d, p + 14), crc: g4(d, p + 16), cs: g4(d, p + 20),
            us: g4(d, p + 24), disk: g2(d, p + 34), iattr: g2(d, p + 36), eattr: g4(d, p + 38), off: g4(d, p + 42),
            name: d[q..q + n].to_vec(), extra: d[q + n..q + n + m].to_vec(), comment: d[q + n + m..q + n + m + k].to_vec() }, q + n + m + k))
    }
}
impl Eocd {
    pub fn ser(&self) -> Vec<u8> { let mut v = vec![]; v.p4(EOCD); v.p2(self.disk); v.p2(self.cd_disk); v.p2(self.n_disk); v.p2(self.n); v.p4(self.size); v.p4(self.off); v.p2(self.comment_len); v }
    pub fn parse(d: &[u8], p: usize) -> R<Eocd> {
        if p.checked_add(22).map_or(true, |e| e > d.len()) { return Err(format!("end record at {p} beyond the end {}", d.len())); }
        if g4(d, p) != EOCD { return Err(format!("no end record signature at {p}: {:08x}", g4(d, p))); }
        Ok(Eocd { disk: g2(d, p + 4), cd_disk: g2(d, p + 6), n_disk: g2(d, p + 8), n: g2(d, p + 10), size: g4(d, p + 12), off: g4(d, p + 16), comment_len: g2(d, p + 20) })
    }
}
impl Eocd64 {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = vec![];
        v.p4(Z64E); v.p8(self.rec_size); v.p2(self.made); v.p2(self.need); v.p4(self.disk); v.p4(self.cd_disk); v.p8(self.n_disk); v.p8(self.n); v.p8(self.size); v.p8(self.off);
        v
    }
    pub fn parse(d: &[u8], p: usize) -> R<Eocd64> {
        if p.checked_add(56).map_or(true, |e| e > d.len()) { return Err(format!("ZIP64 end record at {p} beyond the end {}", d.len())); }
        if g4(d, p) != Z64E { return Err(format!("no ZIP64 end record signature at {p}: {:08x}", g4(d, p))); }
        Ok(Eocd64 { rec_size: g8(d, p + 4), made: g2(d, p + 12), need: g2(d, p + 14), disk: g4(d, p + 16), cd_disk: g4(d, p + 20), n_disk: g8(d, p + 24), n: g8(d, p + 32), size: g8(d, p + 40), off: g8(d, p + 48) })
    }
}
impl Loc64 {
    pub fn ser(&self) -> Vec<u8> { let mut v = vec![]; v.p4(Z64L); v.p4(self.disk); v.p8(self.off); v.p4(self.total); v }
    pub fn parse(d: &[u8], p: usize) -> R<Loc64> {
        if p.checked_add(20).map_or(true, |e| e > d.len()) { return Err(format!("ZIP64 locator at {p} beyond the end {}", d.len())); }
        if g4(d, p) != Z64L { return Err(format!("no ZIP64 locator signature at {p}: {:08x}", g4(d, p))); }
        Ok(Loc64 { disk: g4(d, p + 4), off: g8(d, p + 8), total: g4(d, p + 16) })
    }
}

// ---- extra fields ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct X { pub id: u16, pub data: Vec<u8> }
impl X {
    pub fn ser(&self) -> Vec<u8> { let mut v = vec![]; v.p2(self.id); v.p2(self.data.len() as u16); v.extend(&self.data); v }
}
pub fn ser_xs(xs: &[X]) -> Vec<u8> { xs.iter().flat_map(|x| x.ser()).collect() }
/// strict split of an extra block: Err(claimed, remaining) for an over-long field; fewer than 4 bytes at the end are dropped
pub fn split_xs(d: &[u8]) -> Result<Vec<X>, (u16, usize)> {
    let mut v = vec![];
    let mut c = 0;
    while d.len() - c >= 4 {
        let n = g2(d, c + 2);
        if n as usize > d.len() - c - 4 { return Err((n, d.len() - c - 4)); }
        v.push(X { id: g2(d, c), data: d[c + 4..c + 4 + n as usize].to_vec() });
        c += 4 + n as usize;
    }
    Ok(v)
}
/// Known finding last-four-bytes: the readers ignore a field header that takes up the last four bytes of the block.
pub static QUIRK_LAST: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
/// Known finding overlong-extra-field: the place of the underflow ("" if there is none)
pub static QUIRK_PANIC: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn known_panic(at: &str) -> bool { QUIRK_PANIC.get().is_some_and(|l| !l.is_empty() && l == at) }
/// split_xs as far as the readers (with the known finding) look
pub fn read_xs(d: &[u8]) -> Result<Vec<X>, (u16, usize)> {
    if QUIRK_LAST.get() != Some(&true) { return split_xs(d); }
    let mut c = 0;
    while d.len() - c > 4 {
        let n = g2(d, c + 2) as usize;
        if n > d.len() - c - 4 { break; }
        c += 4 + n;
    }
    split_xs(if d.len() - c == 4 { &d[..c] } else { d })
}
pub const XZ64: u16 = 1;
pub const XCOM: u16 = 0x6375;
pub const XPATH: u16 = 0x7075;
pub fn unicode_ok(d: &[u8]) -> bool { !d.is_empty() && (d[0] != 1 || d.len() >= 5) }
pub fn unicode_x(id: u16, basic: &[u8], text: &[u8]) -> X { let mut d = vec![1]; d.p4(crc(basic)); d.extend(text); X { id, data: d } }
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Z64 { pub us: Option<u64>, pub cs: Option<u64>, pub off: Option<u64>, pub disk: Option<u32> }
/// a ZIP64 field next to 32-bit sizes, as the readers take it
pub fn z64(d: &[u8], us: u32, cs: u32) -> Z64 {
    let mut i = 0;
    let mut t = |want: bool| if want && d.len() >= i + 8 { i += 8; Some(g8(d, i - 8)) } else { None };
    let us = t(us == u32::MAX);
    let cs = t(cs == u32::MAX);
    let off = t(true);
    let disk = if d.len() >= i + 4 { Some(g4(d, i)) } else { None };
    Z64 { us, cs, off, disk }
}
/// sizes and offset of a written directory record by APPNOTE 4.5.3: only values which are all ones are in the field
pub fn z64_strict(xs: &[X], us: u32, cs: u32, off: Option<u32>) -> R<(u64, u64, u64, bool)> {
    let f: Vec<&X> = xs.iter().filter(|x| x.id == XZ64).collect();
    if f.len() > 1 { return Err(format!("{} ZIP64 fields in one header", f.len())); }
    let (mut u, mut c, mut o) = (us as u64, cs as u64, off.unwrap_or(0) as u64);
    if let Some(f) = f.first() {
        let d = &f.data;
        let mut i = 0;
        if us == u32::MAX { if d.len() < i + 8 { return Err("ZIP64 field lacks the uncompressed size".into()); } u = g8(d, i); i += 8; }
        if cs == u32::MAX { if d.len() < i + 8 { return Err("ZIP64 field lacks the compressed size".into()); } c = g8(d, i); i += 8; }
        if off == Some(u32::MAX) { if d.len() < i + 8 { return Err("ZIP64 field lacks the offset".into()); } o = g8(d, i); i += 8; }
        if i == 0 { return Err("ZIP64 field although no value is all ones".into()); }
    }
    Ok((u, c, o, !f.is_empty()))
}

// ---- what a reader must report --------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Ek { Locate, Eof, Spanned, Header(u32, u32), Method(u16), Extra(u16, usize), UniComment, UniPath, Unsupported, Other(String) }
#[derive(Clone, Debug, PartialEq)]
pub struct OStr { pub utf8: bool, pub raw: Vec<u8>, pub alt: Option<Vec<u8>> }
#[derive(Clone, Debug, PartialEq)]
pub struct OEntry {
    pub name: OStr, pub comment: OStr, pub method: u16, pub crc: u32, pub us: u64, pub cs: u64, pub date: u16, pub time: u16,
    pub iattr: u16, pub eattr: u32, pub xs: Vec<X>, pub off: u64, pub dd: bool, pub hsize: u64,
}
#[derive(Clone, Debug)]
pub struct OFile { pub entries: Vec<OEntry>, pub comment: OStr, pub zip64: bool }

pub const METHODS: [(u16, &str); 7] = [(0, "stored"), (8, "deflate"), (9, "deflate64"), (12, "bzip2"), (14, "lzma"), (93, "zstd"), (95, "xz")];
pub fn method_ok(m: u16) -> bool { METHODS.iter().any(|x| x.0 == m) }

pub fn ostr(raw: &[u8]) -> OStr { OStr { utf8: std::str::from_utf8(raw).is_ok(), raw: raw.to_vec(), alt: None } }
pub fn decode(raw: &[u8], flag: bool, xs: &[X], id: u16) -> OStr {
    if flag { return ostr(raw); }
    for x in xs {
        if x.id == id && unicode_ok(&x.data) && x.data[0] == 1 && g4(&x.data, 1) == crc(raw) {
            if std::str::from_utf8(&x.data[5..]).is_ok() { return OStr { utf8: true, raw: x.data[5..].to_vec(), alt: Some(raw.to_vec()) }; }
            break;
        }
    }
    OStr { utf8: raw.is_ascii(), raw: raw.to_vec(), alt: None }
}
fn xs_errors(extra: &[u8]) -> (Vec<X>, Vec<Ek>) {
    // fields before an over-long one are still looked at
    let mut e = vec![];
    let xs = match read_xs(extra) { Ok(x) => x, Err((n, left)) => { e.push(Ek::Extra(n, left)); let mut v = vec![]; let mut c = 0;
        while extra.len() - c >= 4 { let k = g2(extra, c + 2) as usize; if k > extra.len() - c - 4 { break; } v.push(X { id: g2(extra, c), data: extra[c + 4..c + 4 + k].to_vec() }); c += 4 + k; } v } };
    for x in &xs {
        if x.id == XCOM && !unicode_ok(&x.data) { e.push(Ek::UniComment); }
        if x.id == XPATH && !unicode_ok(&x.data) { e.push(Ek::UniPath); }
    }
    (xs, e)
}
/// Err: the errors that may be reported
pub fn o_record(d: &[u8], p: &mut usize) -> Result<OEntry, Vec<Ek>> {
    let q = *p;
    if q > d.len() || d.len() - q < 4 { return Err(vec![Ek::Eof]); }
    if g4(d, q) != CDH { return Err(vec![Ek::Header(g4(d, q), CDH)]); }
    if d.len() - q < 46 { return Err(vec![Ek::Eof]); }
    let (n, m, k) = (g2(d, q + 28) as usize, g2(d, q + 30) as usize, g2(d, q + 32) as usize);
    // a name, extra block or comment cut off by the end of the source is taken as far as it goes
    let cut = |a: usize, l: usize| -> &[u8] { let a = a.min(d.len()); &d[a..(a + l).min(d.len())] };
    let name = cut(q + 46, n);
    let extra = cut(q + 46 + n, m);
    let comment = cut(q + 46 + n + m, k);
    *p = (q + 46 + n + m + k).min(d.len());
    let method = g2(d, q + 10);
    let (xs, mut errs) = xs_errors(extra);
    if !method_ok(method) { errs.push(Ek::Method(method)); }
    if !errs.is_empty() { return Err(errs); }
    let (cs, us, off) = (g4(d, q + 20), g4(d, q + 24), g4(d, q + 42));
    let z = xs.iter().find(|x| x.id == XZ64).map(|x| z64(&x.data, us, cs)).unwrap_or_default();
    let flags = g2(d, q + 8);
    Ok(OEntry {
        name: decode(name, flags & 0x800 != 0, &xs, XPATH), comment: decode(comment, flags & 0x800 != 0, &xs, XCOM), method, crc: g4(d, q + 16),
        us: z.us.unwrap_or(us as u64), cs: z.cs.unwrap_or(cs as u64), date: g2(d, q + 14), time: g2(d, q + 12), iattr: g2(d, q + 36), eattr: g4(d, q + 38), xs,
        off: if off == u32::MAX { z.off.unwrap_or(off as u64) } else { off as u64 }, dd: flags & 8 != 0, hsize: 30 + n as u64 + m as u64,
    })
}
pub fn last_sig(d: &[u8]) -> Option<usize> { if d.len() < 4 { return None; } (0..=d.len() - 4).rev().find(|&i| d[i] == 0x50 && g4(d, i) == EOCD) }
/// None: the property leaves the outcome open (signature further than 65,557 bytes from the end)
pub fn o_open(d: &[u8]) -> Option<Result<OFile, Vec<Ek>>> {
    let p = match last_sig(d) { None => return Some(Err(vec![Ek::Locate])), Some(p) => p };
    if p + 65557 < d.len() { return None; }
    Some(o_open_at(d, p))
}
pub fn o_open_at(d: &[u8], p: usize) -> Result<OFile, Vec<Ek>> {
    if d.len() - p < 22 { return Err(vec![Ek::Eof]); }
    let e = Eocd::parse(d, p).unwrap();
    let comment = ostr(&d[p + 22..(p + 22 + e.comment_len as usize).min(d.len())]);
    let mut zip64 = false;
    let (mut disk, mut cd_disk, mut nd, mut n, mut off) = (e.disk as u64, e.cd_disk as u64, e.n_disk as u64, e.n as u64, e.off as u64);
    if p >= 20 && g4(d, p - 20) == Z64L {
        zip64 = true;
        let l = Loc64::parse(d, p - 20).unwrap();
        let q = match l.off.checked_add(4) { None => return Err(vec![Ek::Locate]), Some(_) => l.off };
        // 52 bytes after where the signature is
        if q + 4 > d.len() as u64 || d.len() as u64 - q - 4 < 52 { return Err(vec![Ek::Eof]); }
        let mut rec = d[q as usize..q as usize + 56].to_vec();
        rec[..4].copy_from_slice(&Z64E.to_le_bytes());
        let z = Eocd64::parse(&rec, 0).unwrap();
        if e.disk == 0xffff { disk = z.disk as u64; }
        if e.cd_disk == 0xffff { cd_disk = z.cd_disk as u64; }
        if e.n_disk == 0xffff { nd = z.n_disk; }
        if e.n == 0xffff { n = z.n; }
        if e.off == u32::MAX { off = z.off; }
    }
    if disk != cd_disk || nd != n { return Err(vec![Ek::Spanned]); }
    let mut entries = vec![];
    let mut q = off.min(d.len() as u64) as usize;
    for _ in 0..n { entries.push(o_record(d, &mut q)?); }
    Ok(OFile { entries, comment, zip64 })
}

// ---- codecs --------------------------------------------------------------------------------------------------------
pub fn encode(method: u16, data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    match method {
        0 => data.to_vec(),
        8 => { let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level.min(9))); w.write_all(data).unwrap(); w.finish().unwrap() }
        9 => deflate64(data),
        12 => { let mut w = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(level.clamp(1, 9))); w.write_all(data).unwrap(); w.finish().unwrap() }
        14 => {
            let o = liblzma::stream::LzmaOptions::new_preset(level.min(6)).unwrap();
            let mut w = liblzma::write::XzEncoder::new_stream(vec![], liblzma::stream::Stream::new_lzma_encoder(&o).unwrap());
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        93 => zstd::stream::encode_all(data, level.clamp(1, 9) as i32).unwrap(),
        95 => { let mut w = liblzma::write::XzEncoder::new(vec![], level.min(6)); w.write_all(data).unwrap(); w.finish().unwrap() }
        _ => unreachable!(),
    }
}
/// decodes one complete stream which must fill the input exactly
pub fn decode_exact(method: u16, z: &[u8]) -> R<Vec<u8>> {
    use std::io::Read;
    let mut out = vec![];
    let left = match method {
        0 => { out = z.to_vec(); 0 }
        8 => { let mut r = flate2::bufread::DeflateDecoder::new(z); r.read_to_end(&mut out).map_err(|e| format!("not deflate: {e}"))?; r.into_inner().len() }
        12 => { let mut r = bzip2::bufread::BzDecoder::new(z); r.read_to_end(&mut out).map_err(|e| format!("not bzip2: {e}"))?; r.into_inner().len() }
        14 => { let mut r = liblzma::bufread::XzDecoder::new_stream(z, liblzma::stream::Stream::new_lzma_decoder(1 << 30).unwrap()); r.read_to_end(&mut out).map_err(|e| format!("not lzma: {e}"))?; r.into_inner().len() }
        93 => { let mut r = zstd::stream::read::Decoder::with_buffer(z).map_err(|e| e.to_string())?.single_frame(); r.read_to_end(&mut out).map_err(|e| format!("not zstd: {e}"))?; r.finish().len() }
        95 => { let mut r = liblzma::bufread::XzDecoder::new(z); r.read_to_end(&mut out).map_err(|e| format!("not xz: {e}"))?; r.into_inner().len() }
        _ => return Err(format!("method {method}")),
    };
    if left != 0 { return Err(format!("{left} bytes after the end of the compressed stream")); }
    Ok(out)
}
/// Deflate64 with fixed codes; runs use length symbol 285 with its 16 extra bits, which plain deflate would misread.
fn deflate64(data: &[u8]) -> Vec<u8> {
    let (mut out, mut acc, mut nb) = (vec![], 0u64, 0u32);
    let mut bits = |v: u32, n: u32, rev: bool| {
        let v = if rev { v.reverse_bits() >> (32 - n) } else { v };
        acc |= (v as u64) << nb;
        nb += n;
        while nb >= 8 { out.push(acc as u8); acc >>= 8; nb -= 8; }
    };
    bits(1, 1, false);
    bits(1, 2, false);
    let mut i = 0;
    while i < data.len() {
        let b = data[i] as u32;
        let mut run = 0;
        if i > 0 { while i + run < data.len() && data[i + run] == data[i - 1] && run < 65538 { run += 1; } }
        if run >= 3 {
            bits(0b11000101, 8, true); // symbol 285
            bits(run as u32 - 3, 16, false);
            bits(0, 5, true); // distance 1
            i += run;
            continue;
        }
        if b < 144 { bits(0x30 + b, 8, true) } else { bits(0x190 + b - 144, 9, true) }
        i += 1;
    }
    bits(0, 7, true);
    bits(0, 7, false);
    out
}
