//! Writer side: scenarios of entries written over scheduled and failing sinks; the bytes are taken apart by the oracle.
use crate::ck;
use crate::data::{check_with, slurp, tokio_rt, Tmp};
use crate::rd::*;
use crate::util::*;
use crate::zip::*;
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::{Zip64ErrorCase, ZipError};
use async_zip::{Compression, DeflateOption, StringEncoding, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipString};
use futures_lite::io::{AsyncWrite, AsyncWriteExt};

const M32: u64 = u32::MAX as u64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Whole, WholePre, Stream, StreamPre, StreamDrop }
#[derive(Clone, Debug)]
pub enum Dat { Bytes(Vec<u8>), Zeros(u64) }
impl Dat { pub fn len(&self) -> u64 { match self { Dat::Bytes(b) => b.len() as u64, Dat::Zeros(n) => *n } } }
#[derive(Clone)]
pub struct WSpec {
    pub mode: Mode, pub name: OStr, pub comment: OStr, pub method: u16, pub level: Option<i32>, pub date: u16, pub time: u16, pub iattr: u16, pub eattr: u32,
    pub xs: Vec<X>,
    /// what is handed to the writer
    pub data: Dat,
    /// of the plain data, for precompressed entries
    pub crc: u32, pub us: u64,
    pub preset_cs: u64,
    /// the entry to copy, or the entry to take the extra fields from
    pub base: Option<ZipEntry>, pub copy: bool,
}
impl std::fmt::Debug for WSpec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let t = |s: &OStr| format!("{}{}{}", if s.utf8 { "" } else { "raw " }, hex(&s.raw[..s.raw.len().min(40)]), s.alt.as_ref().map_or(String::new(), |a| format!(" alt {}", hex(&a[..a.len().min(40)]))));
        write!(f, "{:?} name[{}]={} comment[{}]={} method={} level={:?} data={} us={} xs={:?} copy={}", self.mode, self.name.raw.len(), t(&self.name), self.comment.raw.len(), t(&self.comment), self.method, self.level,
            match &self.data { Dat::Bytes(b) => format!("{} bytes {}", b.len(), hex(&b[..b.len().min(40)])), Dat::Zeros(n) => format!("{n} zeros") }, self.us,
            self.xs.iter().map(|x| (x.id, x.data.len())).collect::<Vec<_>>(), self.copy)
    }
}
impl WSpec {
    pub fn pre(&self) -> bool { matches!(self.mode, Mode::WholePre | Mode::StreamPre) }
    pub fn stream(&self) -> bool { matches!(self.mode, Mode::Stream | Mode::StreamPre | Mode::StreamDrop) }
    pub fn plain(&self) -> bool { self.name.utf8 && self.name.alt.is_none() && self.comment.utf8 && self.comment.alt.is_none() }
    pub fn nb(&self) -> &[u8] { self.name.alt.as_deref().unwrap_or(&self.name.raw) }
    pub fn cb(&self) -> &[u8] { self.comment.alt.as_deref().unwrap_or(&self.comment.raw) }
    /// extra fields without the ZIP64 field
    pub fn xs_out(&self) -> Vec<X> {
        let mut v: Vec<X> = self.xs.iter().filter(|x| x.id != XZ64).cloned().collect();
        if !self.plain() {
            for (s, b, id) in [(&self.name, self.nb(), XPATH), (&self.comment, self.cb(), XCOM)] {
                if s.utf8 && !s.raw.is_empty() {
                    let x = unicode_x(id, b, &s.raw);
                    match v.iter_mut().find(|y| y.id == id && y.data[0] == 1) { Some(y) => *y = x, None => v.push(x) }
                }
            }
        }
        v
    }
    pub fn ver(&self) -> u16 {
        let v = match self.method { 8 => 20, 9 => 21, 12 => 46, 14 => 63, _ => 10 };
        if self.name.utf8 && self.name.raw.ends_with(b"/") { v.max(20) } else { v }
    }
    pub fn zs(s: &OStr) -> ZipString {
        match &s.alt {
            Some(a) => ZipString::new_with_alternative(String::from_utf8(s.raw.clone()).unwrap(), a.clone()),
            None => ZipString::new(s.raw.clone(), if s.utf8 { StringEncoding::Utf8 } else { StringEncoding::Raw }),
        }
    }
    pub fn builder(&self) -> ZipEntryBuilder {
        if self.copy { return ZipEntryBuilder::from(self.base.clone().unwrap()); }
        let (y, mo, d, h, mi, s) = dos(self.date, self.time);
        let date = ZipDateTimeBuilder::new().year(y).month(mo).day(d).hour(h).minute(mi).second(s).build();
        let mut b = ZipEntryBuilder::new(WSpec::zs(&self.name), comp(self.method)).comment(WSpec::zs(&self.comment)).last_modification_date(date)
            .internal_file_attribute(self.iattr).external_file_attribute(self.eattr);
        if let Some(e) = &self.base { b = b.extra_fields(e.extra_fields().to_vec()); }
        if let Some(l) = self.level { b = b.deflate_option(match l { -1 => DeflateOption::Normal, -2 => DeflateOption::Maximum, -3 => DeflateOption::Fast, -4 => DeflateOption::Super, l => DeflateOption::Other(l) }); }
        if self.pre() { b = b.crc32(self.crc).uncompressed_size(self.us).compressed_size(self.preset_cs); }
        b
    }
    /// for the plain data
    pub fn want(&self) -> (u32, u64) {
        if self.pre() { (self.crc, self.us) } else { match &self.data { Dat::Bytes(b) => (crc(b), b.len() as u64), Dat::Zeros(n) => (crc_zeros(*n), *n) } }
    }
}
pub fn crc_zeros(n: u64) -> u32 {
    // append zeros by repeated squaring of the one-zero-byte operator
    fn mul(m: &[u32; 32], v: u32) -> u32 { (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]) }
    let mut op = [0u32; 32];
    for i in 0..32 { let mut c = 1u32 << i; for _ in 0..8 { c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; } op[i] = c; }
    let (mut c, mut n) = (!0u32, n);
    while n > 0 {
        if n & 1 == 1 { c = mul(&op, c); }
        let o = op;
        for i in 0..32 { op[i] = mul(&o, o[i]); }
        n >>= 1;
    }
    !c
}
/// an entry that carries these extra fields, made by reading an archive with them
pub fn carrier(xs: &[X]) -> R<ZipEntry> {
    // a field that the known finding lets the reader ignore protects an empty one before it
    let mut extra = ser_xs(xs);
    if xs.last().is_some_and(|x| x.data.is_empty()) && QUIRK_LAST.get() == Some(&true) { extra.extend([0xfe, 0xca, 0, 0]); }
    let c = Cdr { name: b"carrier".to_vec(), us: u32::MAX, cs: u32::MAX, extra, ..Default::default() };
    let m = block(mem::ZipFileReader::new(Ends::plain(vec![], vec![c.ser()], vec![]).ser())).map_err(|e| format!("reading extra fields {xs:?} fails: {e:?}"))?;
    Ok((*m.file().entries()[0]).clone())
}
#[derive(Clone, Copy, Default)]
pub struct Gen { pub modes: u8, pub methods: bool, pub texts: bool, pub extras: bool }
pub const ALL: u8 = 15;
fn text(rng: &mut Rng, alt_ok: bool) -> OStr {
    let mut raw = gen_text(rng);
    let utf8 = std::str::from_utf8(&raw).is_ok() && rng.p(5, 6);
    if utf8 && alt_ok && rng.p(1, 4) {
        if raw.is_empty() { raw = b"t".to_vec(); }
        return OStr { utf8: true, raw, alt: Some(gen_text(rng)) };
    }
    OStr { utf8, raw, alt: None }
}
pub fn gen_spec(rng: &mut Rng, g: Gen) -> R<WSpec> {
    let modes = [Mode::Whole, Mode::WholePre, Mode::Stream, Mode::StreamPre];
    let mode = loop { let k = rng.us(4); if g.modes >> k & 1 == 1 { break modes[k]; } };
    let pre = matches!(mode, Mode::WholePre | Mode::StreamPre);
    let mut method = if g.methods { METHODS[rng.us(7)].0 } else { *rng.pick(&[0u16, 0, 8]) };
    if method == 9 && !pre { method = 8; }
    let plain = gen_data(rng);
    let data = if pre { encode(method, &plain, rng.below(10) as u32) } else { plain.clone() };
    let name = if g.texts { text(rng, true) } else { ostr(format!("n{}{}", rng.below(1000), if rng.p(1, 5) { "/" } else { "" }).as_bytes()) };
    let comment = if g.texts && rng.p(1, 2) { text(rng, true) } else { ostr(b"") };
    let xs = if g.extras && rng.p(1, 2) { let nb = name.alt.clone().unwrap_or(name.raw.clone()); let cb = comment.alt.clone().unwrap_or(comment.raw.clone()); gen_xs(rng, &nb, &cb) } else { vec![] };
    let mut xs = xs;
    // with the known finding last-four-bytes an empty field at the end does not come back
    while QUIRK_LAST.get() == Some(&true) {
        match xs.iter().rposition(|x| x.id != XZ64) { Some(i) if xs[i].data.is_empty() => { xs.remove(i); } _ => break }
    }
    let base = if xs.is_empty() { None } else { Some(carrier(&xs)?) };
    let date = (rng.range(0, 127) << 9 | rng.range(1, 12) << 5 | rng.range(1, 31)) as u16;
    let time = (rng.range(0, 23) << 11 | rng.range(0, 59) << 5 | rng.range(0, 29)) as u16;
    let level = if rng.p(1, 2) { None } else { Some(rng.range(0, 10) as i32 - 4) };
    let preset_cs = if pre { *rng.pick(&[0u64, data.len() as u64, 12345]) } else { 0 };
    Ok(WSpec { mode, name, comment, method, level, date, time, iattr: rng.u16x(), eattr: rng.u32x(), xs, crc: crc(&plain), us: plain.len() as u64, data: Dat::Bytes(data), preset_cs, base, copy: false })
}
#[derive(Clone, Debug)]
pub struct Done { pub k: usize, pub start: u64, pub end: u64, pub ok: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Z { Auto, Never, Always }

#[derive(Clone, Debug, PartialEq)]
enum We { Name, Comment, Extra, Large, Many, Io, Other(String) }
fn we(e: &ZipError) -> We {
    match e {
        ZipError::FileNameTooLarge => We::Name,
        ZipError::CommentTooLarge => We::Comment,
        ZipError::ExtraFieldTooLarge => We::Extra,
        ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) => We::Large,
        ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles) => We::Many,
        ZipError::UpstreamReadError(e) if e.to_string() == "injected" => We::Io,
        e => We::Other(format!("{e:?}")),
    }
}
/// errors this entry must be refused with; the flag: before any byte is emitted (whole entries)
fn refusals(s: &WSpec, off: u64, z: Z, listed: usize) -> (Vec<We>, bool) {
    let (mut v, mut early) = (vec![], false);
    let xl = ser_xs(&s.xs_out()).len() as u64;
    let (_, us) = s.want();
    let cs = if s.pre() || s.method == 0 { s.data.len() } else { 0 };
    let big = |x: u64| x > M32;
    if s.nb().len() > 65535 { v.push(We::Name); early = true; }
    if s.cb().len() > 65535 { v.push(We::Comment); early = true; }
    if s.stream() {
        let (l, c) = if z == Z::Never { (0, 0) } else { (20, 28) };
        if xl + l > 65535 || xl + c > 65535 { v.push(We::Extra); }
        if z == Z::Never && (big(us) || big(cs) || big(off) || s.pre() && big(s.preset_cs)) { v.push(We::Large); }
    } else {
        let m = if big(off) { M32 - 1 } else { M32 };
        let sizes = us > m || cs > m;
        // an all-ones value next to a ZIP64 field must be in it
        let l = if sizes { 20 + if off >= M32 { 8 } else { 0 } } else { 0 };
        let c = if sizes { l } else if big(off) { 12 } else { 0 };
        if xl + l > 65535 { v.push(We::Extra); early = true; } else if xl + c > 65535 { v.push(We::Extra); }
        if z == Z::Never && (sizes || big(off)) { v.push(We::Large); early = true; }
    }
    if z == Z::Never && listed >= 65535 { v.push(We::Many); }
    (v, early)
}
async fn feed<W: AsyncWrite + Unpin>(w: &mut W, d: &[u8], rng: &mut Rng) -> std::io::Result<()> {
    let max = *rng.pick(&[1usize, 3, 100, 5000, usize::MAX]);
    let max = if d.len() > 20000 { max.max(1000) } else { max };
    let mut i = 0;
    while i < d.len() {
        let n = 1 + rng.us((d.len() - i).min(max));
        match rng.below(6) {
            0 => w.flush().await?,
            1 => { let k = rng.us(n + 1); let n = w.write_vectored(&[std::io::IoSlice::new(&d[i..i + k]), std::io::IoSlice::new(&d[i + k..i + n])]).await?; i += n; }
            2 => { i += w.write(&d[i..i + n]).await?; }
            3 if rng.p(1, 4) => { let n = w.write(&[]).await?; assert_eq!(n, 0); }
            _ => { w.write_all(&d[i..i + n]).await?; i += n; }
        }
    }
    if rng.p(1, 6) { w.flush().await?; }
    Ok(())
}
async fn put<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &WSpec, rng: &mut Rng) -> Result<(), ZipError> {
    let zeros;
    let d: &[u8] = match &s.data { Dat::Bytes(b) => b, Dat::Zeros(n) => { zeros = vec![0u8; *n as usize]; &zeros } };
    match s.mode {
        Mode::Whole => if rng.p(1, 2) { w.write_entry_whole(s.builder(), d).await } else { w.write_entry_whole(s.builder().build(), d).await },
        Mode::WholePre => w.write_entry_whole_precompressed(s.builder(), d).await,
        _ => {
            let mut e = if s.pre() { w.write_entry_stream_precompressed(s.builder()).await? } else { w.write_entry_stream(s.builder()).await? };
            match &s.data { Dat::Bytes(_) => feed(&mut e, d, rng).await?, Dat::Zeros(_) => e.write_all(d).await? }
            if s.mode == Mode::StreamDrop { return Err(ZipError::EOFNotReached); }
            e.close().await
        }
    }
}
/// writes the entries one after another, whatever becomes of each
pub async fn run<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, sink: &Sink, specs: &[WSpec], z: Z, rng: &mut Rng) -> R<Vec<Done>> {
    let (mut v, mut listed) = (vec![], 0);
    for (k, s) in specs.iter().enumerate() {
        let (start, failed) = (sink.len(), sink.failed());
        let r = put(w, s, rng).await;
        let (end, f) = (sink.len(), sink.failed() > failed);
        let (why, early) = refusals(s, start, z, listed);
        let w = || format!("entry {k} ({s:?}) at {start} in mode {z:?} after {listed} entries");
        match &r {
            Ok(()) => { ck!(!f, "{}: written successfully although the sink failed", w()); ck!(why.is_empty(), "{}: written successfully, must fail with one of {why:?}", w()); }
            Err(_) if s.mode == Mode::StreamDrop => {}
            Err(e) => {
                let x = we(e);
                ck!(x == We::Io && f || why.contains(&x), "{}: fails with {e:?}, {}", w(), if why.is_empty() { "must succeed".into() } else { format!("must fail with one of {why:?}") });
                ck!(f || !early || s.stream() || end == start, "{}: refused with {e:?} after {} bytes were emitted", w(), end - start);
            }
        }
        if r.is_ok() { listed += 1; }
        v.push(Done { k, start, end, ok: r.is_ok() });
    }
    Ok(v)
}
fn at(s: &Sparse, p: u64, n: u64) -> R<Vec<u8>> {
    ck!(p.checked_add(n).map_or(false, |e| e <= s.len), "{n} bytes wanted at {p} but the archive has {}", s.len);
    let mut b = vec![0; n as usize];
    s.fill(p, &mut b);
    Ok(b)
}
fn lfh_at(s: &Sparse, p: u64) -> R<(Lfh, u64)> {
    let h = at(s, p, 30)?;
    let n = 30 + g2(&h, 26) as u64 + g2(&h, 28) as u64;
    let (l, _) = Lfh::parse(&at(s, p, n)?, 0).map_err(|e| format!("at {p}: {e}"))?;
    Ok((l, p + n))
}
fn cdr_at(s: &Sparse, p: u64) -> R<(Cdr, u64)> {
    let h = at(s, p, 46)?;
    let n = 46 + g2(&h, 28) as u64 + g2(&h, 30) as u64 + g2(&h, 32) as u64;
    let (c, _) = Cdr::parse(&at(s, p, n)?, 0).map_err(|e| format!("at {p}: {e}"))?;
    Ok((c, p + n))
}
fn ck_xs(what: &str, extra: &[u8], s: &WSpec) -> R<Vec<X>> {
    let xs = split_xs(extra).map_err(|(n, k)| format!("{what}: an extra field of {n} bytes where {k} are left: {}", hex(extra)))?;
    ck!(ser_xs(&xs).len() == extra.len(), "{what}: stray bytes after the extra fields: {}", hex(extra));
    let want = s.xs_out();
    for id in [XPATH, XCOM, 0] {
        let f = |v: &[X]| v.iter().filter(|x| if id == 0 { ![XZ64, XPATH, XCOM].contains(&x.id) } else { x.id == id }).cloned().collect::<Vec<_>>();
        ck!(f(&xs) == f(&want), "{what}: extra fields {:?}, must be {:?}", f(&xs), f(&want));
    }
    Ok(xs)
}
/// the local record and data of one entry; returns header, checksum, sizes
fn ck_local(sp: &Sparse, s: &WSpec, d: &Done, z: Z) -> R<(Lfh, u64, u64)> {
    let (l, q) = lfh_at(sp, d.start)?;
    ck!(l.name == s.nb(), "local name {}, must be {}", hex(&l.name), hex(s.nb()));
    ck!(l.method == s.method, "local method {}, must be {}", l.method, s.method);
    ck!(l.ver == s.ver(), "local version {}, must be {}", l.ver, s.ver());
    ck!((l.date, l.time) == (s.date, s.time), "local date {:04x}/{:04x}, must be {:04x}/{:04x}", l.date, l.time, s.date, s.time);
    let flags = if s.plain() { 0x800 } else { 0 } | if s.stream() { 8 } else { 0 };
    ck!(l.flags == flags, "local flags {:04x}, must be {flags:04x}", l.flags);
    let xs = ck_xs("local header", &l.extra, s)?;
    let (c, us) = s.want();
    let (lu, lc, _, has) = z64_strict(&xs, l.us, l.cs, None).map_err(|e| format!("local header: {e}"))?;
    let end = if s.stream() { d.end.checked_sub(16).filter(|e| *e >= q).ok_or(format!("no room for a descriptor between {q} and {}", d.end))? } else { d.end };
    ck!(end >= q, "data would end at {end} before they start at {q}");
    let cs = end - q;
    if s.stream() {
        ck!(has == (z != Z::Never), "local header of a streamed entry: ZIP64 field present is {has} in mode {z:?}");
        let t = at(sp, end, 16)?;
        ck!(g4(&t, 0) == DD, "no descriptor signature after the data: {}", hex(&t));
        ck!(g4(&t, 4) == c, "descriptor checksum {:08x}, must be {c:08x}", g4(&t, 4));
        for (n, v, w) in [("compressed", g4(&t, 8), cs), ("uncompressed", g4(&t, 12), us)] {
            ck!(v as u64 == w || v == u32::MAX && z != Z::Never, "descriptor {n} size {v}, must be {w}");
        }
    } else {
        ck!(l.crc == c, "local checksum {:08x}, must be {c:08x}", l.crc);
        ck!(lu == us, "local uncompressed size {lu}, must be {us}");
        ck!(lc == cs, "local compressed size {lc}, but {cs} bytes of data are there");
        let m = if d.start > M32 { M32 - 1 } else { M32 };
        ck!(has == (us > m || cs > m), "local header: ZIP64 field present is {has} for sizes {us} and {cs} at {}", d.start);
    }
    // the data
    match &s.data {
        Dat::Zeros(n) => ck!(cs == *n, "{cs} bytes of data, must be {n}"),
        Dat::Bytes(b) => {
            let z = at(sp, q, cs)?;
            if s.pre() || s.method == 0 { ck!(z == *b, "data {}, must be {}", hex(&z), hex(b)); }
            else { let p = decode_exact(s.method, &z)?; ck!(p == *b, "data decode to {}, must be {}", hex(&p), hex(b)); }
        }
    }
    Ok((l, us, cs))
}
pub struct Fin { pub comment: Option<String>, pub cd_start: u64 }
pub fn walk(sp: &Sparse, specs: &[WSpec], dones: &[Done], z: Z, fin: &Fin) -> R {
    let mut p = fin.cd_start;
    let mut need64 = z == Z::Always;
    let mut n = 0u64;
    for d in dones.iter().filter(|d| d.ok) {
        let s = &specs[d.k];
        let w = |e: String| format!("entry {} ({s:?}) at {}: {e}", d.k, d.start);
        let (l, us, cs) = ck_local(sp, s, d, z).map_err(w)?;
        let (c, q) = cdr_at(sp, p).map_err(|e| w(format!("directory: {e}")))?;
        (|| -> R {
            ck!(c.name == l.name && c.method == l.method && c.flags == l.flags && c.time == l.time && c.date == l.date && c.need == l.ver, "directory record {c:?} disagrees with the local header {l:?}");
            ck!(c.made == 0x033f, "made by {:04x}", c.made);
            ck!(c.crc == s.want().0, "directory checksum {:08x}, must be {:08x}", c.crc, s.want().0);
            ck!(c.comment == s.cb(), "directory comment {}, must be {}", hex(&c.comment), hex(s.cb()));
            ck!(c.disk == 0 && c.iattr == s.iattr && c.eattr == s.eattr, "directory disk {}, attributes {:04x} {:08x}, must be {:04x} {:08x}", c.disk, c.iattr, c.eattr, s.iattr, s.eattr);
            let xs = ck_xs("directory record", &c.extra, s)?;
            let (u, cc, o, has) = z64_strict(&xs, c.us, c.cs, Some(c.off)).map_err(|e| format!("directory record: {e}"))?;
            ck!(u == us, "directory uncompressed size {u}, must be {us}");
            ck!(cc == cs, "directory compressed size {cc}, must be {cs}");
            ck!(o == d.start, "directory offset {o}, but the entry is at {}", d.start);
            let m = if d.start > M32 { M32 - 1 } else { M32 };
            let big = us > m || cs > m || d.start > M32;
            if has { need64 = true; }
            if !s.stream() { ck!(has == big, "directory record: ZIP64 field present is {has} for sizes {us} and {cs} at {}", d.start); }
            ck!(!(has && z == Z::Never), "ZIP64 field although ZIP64 is forbidden");
            Ok(())
        })().map_err(w)?;
        p = q;
        n += 1;
    }
    let size = p - fin.cd_start;
    let must = need64 || n > 65535 || size > M32 || fin.cd_start > M32;
    let sig = g4(&at(sp, p, 4).map_err(|e| format!("end records: {e}"))?, 0);
    let has = sig == Z64E;
    ck!(has || sig == EOCD, "after {n} directory records there is {sig:08x}");
    ck!(has || !must, "no ZIP64 end records although needed: {n} entries, directory of {size} bytes at {}, mode {z:?}", fin.cd_start);
    ck!(!has || z != Z::Never, "ZIP64 end records although forbidden");
    ck!(!has || must || specs.iter().any(|s| s.stream() || s.want().1 >= M32 || s.data.len() >= M32) || dones.iter().any(|d| d.start >= M32), "ZIP64 end records although nothing needs them");
    if has {
        let e = Eocd64::parse(&at(sp, p, 56)?, 0)?;
        ck!(e == Eocd64 { rec_size: 44, made: e.made, need: e.need, disk: 0, cd_disk: 0, n_disk: n, n, size, off: fin.cd_start }, "ZIP64 end record {e:?}, must be for {n} entries, {size} bytes at {}", fin.cd_start);
        ck!(e.made == 0x033f && e.need >= 45, "ZIP64 end record versions {} {}", e.made, e.need);
        let l = Loc64::parse(&at(sp, p + 56, 20)?, 0)?;
        ck!(l == Loc64 { disk: 0, off: p, total: 1 }, "ZIP64 locator {l:?}, must point at {p}");
        p += 76;
    }
    let e = Eocd::parse(&at(sp, p, 22)?, 0)?;
    let com = fin.comment.clone().unwrap_or_default();
    let fit = |v: u64, w: u64, max: u64| v == w && w <= max || has && v == max;
    ck!(e.disk == 0 && e.cd_disk == 0 && fit(e.n as u64, n, 65535) && fit(e.n_disk as u64, n, 65535) && fit(e.size as u64, size, M32) && fit(e.off as u64, fin.cd_start, M32),
        "end record {e:?}, must be for {n} entries, {size} bytes at {}", fin.cd_start);
    ck!(e.comment_len as usize == com.len(), "end record announces a comment of {} bytes, must be {}", e.comment_len, com.len());
    let t = at(sp, p + 22, sp.len - p - 22)?;
    ck!(t == com.as_bytes(), "after the end record there is {}, must be {}", hex(&t), hex(com.as_bytes()));
    Ok(())
}
pub struct Out { pub sp: Sparse, pub dones: Vec<Done>, pub fin: Fin }
pub fn mode_writer<W: AsyncWrite + Unpin>(w: W, z: Z) -> ZipFileWriter<W> {
    let w = ZipFileWriter::new(w);
    match z { Z::Auto => w, Z::Never => w.force_no_zip64(), Z::Always => w.force_zip64() }
}
/// writes, closes, takes apart; None if closing was refused or failed as it must be
pub fn scenario(specs: &[WSpec], sink: Sink, z: Z, comment: Option<String>, rng: &mut Rng) -> R<Option<Out>> {
    let dump = |e: String| { let b = if sink.len() < 1 << 20 { format!("\narchive: {}", hex(&sink.bytes())) } else { String::new() }; format!("{e}\nentries: {specs:#?}\nmode {z:?}{b}") };
    let r: R<Option<(Vec<Done>, Fin)>> = block(async {
        macro_rules! go { ($w:expr) => {{
            let mut w = $w;
            let dones = run(&mut w, &sink, specs, z, rng).await?;
            if let Some(c) = &comment { if rng.p(1, 3) { w.comment("replaced".into()); } w.comment(c.clone()); }
            let (cd_start, failed) = (sink.len(), sink.failed());
            let r = w.close().await.map(|_| ());
            let f = sink.failed() > failed;
            let long = comment.as_ref().map_or(false, |c| c.len() > 65535);
            let large = z == Z::Never && cd_start > M32;
            match r {
                Ok(()) => { ck!(!f, "closing succeeds although the sink failed"); ck!(!long, "closing with a comment of {} bytes succeeds", comment.as_ref().unwrap().len()); ck!(!large, "closing succeeds with the directory at {cd_start} although ZIP64 is forbidden"); }
                Err(e) => { let x = we(&e); ck!(f && x == We::Io || long && x == We::Comment || large && x == We::Large, "closing fails with {e:?}"); return Ok(None); }
            }
            Ok(Some((dones, Fin { comment: comment.clone(), cd_start })))
        }}}
        if z == Z::Auto && rng.p(1, 8) {
            use tokio_util::compat::FuturesAsyncWriteCompatExt;
            go!(ZipFileWriter::with_tokio(sink.clone().compat_write()))
        } else { go!(mode_writer(sink.clone(), z)) }
    });
    let Some((dones, fin)) = r.map_err(&dump)? else { return Ok(None) };
    let sp = sink.sparse();
    walk(&sp, specs, &dones, z, &fin).map_err(&dump)?;
    Ok(Some(Out { sp, dones, fin }))
}
fn bytes_of(sp: &Sparse) -> Vec<u8> { let mut b = vec![0; sp.len as usize]; sp.fill(0, &mut b); b }
fn gen_specs(rng: &mut Rng, g: Gen, max: usize) -> R<Vec<WSpec>> { (0..rng.us(max + 1)).map(|_| gen_spec(rng, g)).collect() }
fn gen_z(rng: &mut Rng) -> Z { *rng.pick(&[Z::Auto, Z::Auto, Z::Auto, Z::Never, Z::Always]) }
fn note(cx: &mut Cx, specs: &[WSpec], z: Z, o: &Option<Out>) {
    if let Some(o) = o { if o.sp.len < 1 << 20 { cx.eval(&bytes_of(&o.sp)); } else { cx.eval(&o.sp.isl); } } else { cx.eval(&format!("{specs:?}{z:?}")); }
    cx.sample(|| format!("mode {z:?}, entries {specs:?}"));
}
// ---- C09 -------------------------------------------------------------------------------------------------------------
pub fn c09(rng: &mut Rng, cx: &mut Cx) -> R {
    let specs = gen_specs(rng, Gen { modes: ALL, methods: true, texts: false, extras: false }, 5)?;
    let (z, mut sink) = (gen_z(rng), Sink::rnd(rng));
    if rng.p(1, 3) { sink = Sink::with(Sched::Rand(Rng(rng.next())), (0..1 + rng.us(3)).map(|_| 1 + rng.below(40)).collect(), true); }
    let o = scenario(&specs, sink.clone(), z, None, rng)?;
    ck!(sink.0.lock().unwrap().closed == 0, "closing entries or the archive closes the sink");
    note(cx, &specs, z, &o);
    Ok(())
}
fn simple(rng: &mut Rng, cx: &mut Cx, g: Gen, max: usize, com: bool) -> R {
    let specs = gen_specs(rng, g, max)?;
    let (z, sink) = (gen_z(rng), Sink::rnd(rng));
    let comment = if com && rng.p(1, 2) { Some(String::from_utf8_lossy(&gen_text(rng)).into_owned()) } else { None };
    let o = scenario(&specs, sink, z, comment, rng)?;
    note(cx, &specs, z, &o);
    Ok(())
}
pub fn c10(rng: &mut Rng, cx: &mut Cx) -> R { simple(rng, cx, Gen { modes: 3, methods: true, texts: true, extras: true }, 4, false) }
pub fn c11(rng: &mut Rng, cx: &mut Cx) -> R { simple(rng, cx, Gen { modes: 12, methods: true, texts: true, extras: true }, 4, false) }
pub fn c12(rng: &mut Rng, cx: &mut Cx) -> R {
    if cx.index % 50 == 7 {
        let n = 200 + rng.us(2000);
        let specs: Vec<WSpec> = (0..n).map(|_| { let mut s = gen_spec(rng, Gen { modes: 1, ..Default::default() })?; s.data = Dat::Bytes(vec![]); s.method = 0; Ok(s) }).collect::<R<_>>()?;
        let o = scenario(&specs, Sink::new(), gen_z(rng), Some("many".into()), rng)?;
        note(cx, &[], Z::Auto, &o);
        return Ok(());
    }
    simple(rng, cx, Gen { modes: ALL, methods: false, texts: true, extras: true }, 10, true)
}
// ---- C13 -------------------------------------------------------------------------------------------------------------
fn big_spec(rng: &mut Rng, cs: u64, us: u64, mode: Mode) -> R<WSpec> {
    let (texts, extras) = (rng.p(1, 4), rng.p(1, 3));
    let mut s = gen_spec(rng, Gen { modes: if mode == Mode::WholePre { 2 } else { 8 }, methods: true, texts, extras })?;
    s.mode = mode;
    if mode == Mode::Stream { s.method = 0; }
    s.data = Dat::Zeros(cs);
    s.us = us;
    Ok(s)
}
fn edge(rng: &mut Rng) -> u64 { let d = *rng.pick(&[0u64, 1, 2, 40, 100000]); if rng.p(1, 2) { M32 - d } else { M32 + d } }
pub fn c13(rng: &mut Rng, cx: &mut Cx) -> R {
    let i = cx.index;
    let z = match i % 7 { 5 => Z::Never, 6 => Z::Always, _ => Z::Auto };
    // many entries, once or twice per run
    if i == 0 || i == 1 || i == 2 {
        let n = [65535usize, 65536, 65537][i as usize];
        for z in if i == 1 { vec![Z::Auto, Z::Never] } else { vec![Z::Auto] } {
            let stream_last = rng.p(1, 2);
            let specs: Vec<WSpec> = (0..n).map(|k| { let mut s = gen_spec(rng, Gen { modes: if k + 1 == n && stream_last { 4 } else { 1 }, ..Default::default() })?; s.data = Dat::Bytes(vec![]); s.method = 0; s.level = None; Ok(s) }).collect::<R<_>>()?;
            let o = scenario(&specs, Sink::new(), z, None, rng).map_err(|e| e.lines().next().unwrap_or("").to_string())?;
            cx.evals += 1;
            cx.sample(|| format!("{n} entries, mode {z:?}, closed {}", o.is_some()));
        }
        return Ok(());
    }
    let mut specs = vec![];
    match rng.below(5) {
        // sizes of one entry, at an offset that fits
        0 => { let (c, u) = match rng.below(4) { 0 => (edge(rng), edge(rng)), 1 => (edge(rng), rng.below(1000)), 2 => (rng.below(1000), edge(rng)), _ => (rng.below(2000), rng.u64x()) }; specs.push(big_spec(rng, c, u, Mode::WholePre)?); }
        // the offset of the next one at the limit, with small or large sizes
        1 | 2 => {
            let mut s = big_spec(rng, 0, 5, Mode::WholePre)?;
            s.base = None; s.xs = vec![]; s.name = ostr(b"big"); s.comment = ostr(b"");
            s.data = Dat::Zeros(edge(rng) - 33);
            if rng.p(1, 4) { s.data = Dat::Zeros(edge(rng)) }
            specs.push(s);
            let (c, u) = match rng.below(4) { 0 => (edge(rng), edge(rng)), 1 => (rng.below(100), edge(rng)), 2 => (edge(rng), rng.below(100)), _ => (rng.below(100), rng.below(100)) };
            specs.push(big_spec(rng, c, u, Mode::WholePre)?);
        }
        3 => {
            // streamed entries behind 4 GiB; rarely one of more than 4 GiB
            let mut s = big_spec(rng, 0, 5, Mode::WholePre)?;
            s.data = Dat::Zeros(edge(rng));
            specs.push(s);
            specs.push(gen_spec(rng, Gen { modes: 12, methods: true, texts: true, extras: true })?);
            if i % 23 == 3 { let n = edge(rng); let m = if rng.p(1, 2) { Mode::Stream } else { Mode::StreamPre }; let mut s = big_spec(rng, n, n, m)?; s.preset_cs = *rng.pick(&[0u64, M32 + 1]); let k = rng.us(2); specs.insert(k, s); }
        }
        _ => { let mut s = big_spec(rng, rng.clone().below(100), 7, Mode::StreamPre)?; s.us = rng.u64x(); s.preset_cs = rng.u64x(); specs.push(s); }
    }
    for _ in 0..rng.us(3) { let s = gen_spec(rng, Gen { modes: ALL, methods: false, texts: true, extras: true })?; let k = rng.us(specs.len() + 1); if rng.p(1, 2) { specs.push(s) } else { specs.insert(k, s) } }
    let o = scenario(&specs, Sink::with(Sched::All, vec![], false), z, None, rng)?;
    note(cx, &specs, z, &o);
    // readers agree with what was written
    if let Some(o) = &o {
        let s = o.sp.clone();
        let f = block(seek::ZipFileReader::new(s)).map_err(|e| format!("written archive does not open: {e:?}\nentries: {specs:#?}"))?;
        let want: Vec<&Done> = o.dones.iter().filter(|d| d.ok).collect();
        ck!(f.file().entries().len() == want.len(), "{} entries listed, {} written", f.file().entries().len(), want.len());
        for (e, d) in f.file().entries().iter().zip(&want) {
            let s = &specs[d.k];
            ck!(e.header_offset() == d.start, "entry {} reported at {}, is at {}\nentries: {specs:#?}", d.k, e.header_offset(), d.start);
            ck!(e.uncompressed_size() == s.want().1 && (e.compressed_size() == s.data.len() || !s.pre() && s.method != 0), "entry {} reported with sizes {} {}\nentries: {specs:#?}", d.k, e.uncompressed_size(), e.compressed_size());
        }
        // second generation: entries with ZIP64 fields copied
        if rng.p(1, 2) && !want.is_empty() && z != Z::Never {
            let d = want[rng.us(want.len())];
            let k = want.iter().position(|x| x.k == d.k).unwrap();
            let c = copy_spec(&f.file().entries()[k], &specs[d.k], rng);
            let o = scenario(&[c.clone()], Sink::new(), z, None, rng)?;
            note(cx, &[c], z, &o);
        }
    }
    Ok(())
}
/// the entry as it was read, to be written again with other data
fn copy_spec(e: &ZipEntry, s: &WSpec, rng: &mut Rng) -> WSpec {
    let plain = gen_data(rng);
    let mode = *rng.pick(&[Mode::Whole, Mode::WholePre, Mode::Stream]);
    let method = method_of(e.compression());
    let mut c = WSpec { mode, name: to_ostr(e.filename()), comment: to_ostr(e.comment()), method, level: None, date: s.date, time: s.time, iattr: s.iattr, eattr: s.eattr, xs: s.xs_out(), data: Dat::Bytes(plain),
        crc: e.crc32(), us: e.uncompressed_size(), preset_cs: e.compressed_size(), base: Some(e.clone()), copy: true };
    if method == 9 { c.mode = Mode::WholePre; }
    c
}
// ---- C14 -------------------------------------------------------------------------------------------------------------
pub fn c14(rng: &mut Rng, cx: &mut Cx) -> R {
    let len = |rng: &mut Rng| -> usize { match rng.below(4) { 0 => 65535 + rng.us(3), 1 => 65530 + rng.us(8), 2 => 65536 + rng.us(200_000), _ => 65500 + rng.us(60) } };
    let mut specs = gen_specs(rng, Gen { modes: ALL, methods: false, texts: true, extras: false }, 2)?;
    for _ in 0..1 + rng.us(2) {
        let mut s = gen_spec(rng, Gen { modes: ALL, methods: false, texts: true, extras: false })?;
        let n = len(rng);
        match rng.below(7) {
            0 => s.name = ostr(&vec![b'n'; n]),
            1 => s.comment = ostr(&vec![b'c'; n]),
            2 => s.name = OStr { utf8: true, raw: b"short".to_vec(), alt: Some(vec![b'n'; n]) },
            3 => s.name = OStr { utf8: true, raw: vec![b'n'; n], alt: Some(b"short".to_vec()) },
            4 => s.comment = OStr { utf8: true, raw: b"short".to_vec(), alt: Some(vec![b'n'; n]) },
            5 => s.comment = OStr { utf8: true, raw: vec![b'n'; n], alt: Some(b"short".to_vec()) },
            _ => {}
        }
        if rng.p(1, 2) {
            let n = (65535 - 4 - rng.us(60)).min(65531);
            s.xs = vec![X { id: 0x7777, data: vec![7; n] }];
            s.base = Some(carrier(&s.xs)?);
        }
        let k = rng.us(specs.len() + 1);
        specs.insert(k, s);
    }
    let comment = match rng.below(4) { 0 => Some("x".repeat(len(rng))), 1 => Some("ok".into()), _ => None };
    let z = gen_z(rng);
    let o = scenario(&specs, Sink::new(), z, comment, rng)?;
    note(cx, &specs, z, &o);
    Ok(())
}
// ---- C15 -------------------------------------------------------------------------------------------------------------
fn same_text(what: &str, got: &ZipString, s: &OStr) -> R {
    ck_sound(what, got)?;
    let g = to_ostr(got);
    // an empty text can be overridden by a Unicode field which the caller supplied
    if s.utf8 && !s.raw.is_empty() { ck!(g.utf8 && g.raw == s.raw, "{what} read back as {g:?}, written {s:?}"); }
    if let Some(a) = &s.alt { ck!(g.alt.as_ref() == Some(a), "{what}: alternative read back as {g:?}, written {s:?}"); }
    Ok(())
}
fn same_entry(k: usize, e: &ZipEntry, s: &WSpec, local: bool) -> R {
    same_text(&format!("name of entry {k}"), e.filename(), &s.name)?;
    let xs = s.xs_out();
    ck_str(&format!("name of entry {k}"), e.filename(), &decode(s.nb(), s.plain(), &xs, XPATH))?;
    ck!(method_of(e.compression()) == s.method, "entry {k}: method {:?}", e.compression());
    ck!(dos_of(e.last_modification_date()) == dos(s.date, s.time), "entry {k}: date {:?}", dos_of(e.last_modification_date()));
    if local { return Ok(()); }
    same_text(&format!("comment of entry {k}"), e.comment(), &s.comment)?;
    ck_str(&format!("comment of entry {k}"), e.comment(), &decode(s.cb(), s.plain(), &xs, XCOM))?;
    ck!(e.internal_file_attribute() == s.iattr && e.external_file_attribute() == s.eattr, "entry {k}: attributes {:04x} {:08x}", e.internal_file_attribute(), e.external_file_attribute());
    let (c, us) = s.want();
    ck!(e.crc32() == c && e.uncompressed_size() == us, "entry {k}: checksum {:08x} size {}, must be {c:08x} {us}", e.crc32(), e.uncompressed_size());
    let got = if ser_xs(&xs).is_empty() { vec![] } else { rewrite_xs(e)? };
    let f = |v: &[X]| v.iter().filter(|x| ![XZ64, XPATH, XCOM].contains(&x.id)).cloned().collect::<Vec<_>>();
    ck!(f(&got) == f(&xs), "entry {k}: unknown extra fields {:?}, must be {:?}", f(&got), f(&xs));
    Ok(())
}
fn plain_of(s: &WSpec) -> R<Vec<u8>> {
    let Dat::Bytes(b) = &s.data else { return Err("no data".into()) };
    if s.pre() && s.method != 9 { decode_exact(s.method, b) } else { Ok(b.clone()) }
}
pub fn c15(rng: &mut Rng, cx: &mut Cx) -> R {
    let mut specs = gen_specs(rng, Gen { modes: ALL, methods: true, texts: true, extras: true }, 5)?;
    // the oracle has no decoder for this one
    for s in &mut specs { if s.method == 9 { s.method = 0; s.crc = s.want().0; if let Dat::Bytes(b) = &s.data { s.crc = crc(b); s.us = b.len() as u64; } } }
    let (z, sink) = (gen_z(rng), Sink::rnd(rng));
    let comment = if rng.p(1, 2) { Some(String::from_utf8_lossy(&gen_text(rng)).replace("PK\u{5}\u{6}", "x")) } else { None };
    let o = scenario(&specs, sink, z, comment.clone(), rng)?;
    note(cx, &specs, z, &o);
    let Some(o) = o else { return Err("closing failed".into()) };
    round(&specs, &bytes_of(&o.sp), &comment, rng).map_err(|e| format!("{e}\nentries: {specs:#?}\narchive: {}", hex(&bytes_of(&o.sp))))?;
    // copied into a second archive
    if !specs.is_empty() && rng.p(1, 2) {
        let m = block(mem::ZipFileReader::new(bytes_of(&o.sp))).map_err(|e| format!("{e:?}"))?;
        let k = rng.us(specs.len());
        let e: &ZipEntry = &m.file().entries()[k];
        let mut c = copy_spec(e, &specs[k], rng);
        if c.mode == Mode::WholePre { c.data = specs[k].data.clone(); if !specs[k].pre() { let Dat::Bytes(b) = &c.data else { unreachable!() }; c.data = Dat::Bytes(encode(c.method, b, 6)); } }
        let cs = [c];
        if let Some(o) = scenario(&cs, Sink::rnd(rng), Z::Auto, None, rng)? {
            round(&cs, &bytes_of(&o.sp), &None, rng).map_err(|e| format!("copied entry: {e}\nentries: {cs:#?}\narchive: {}", hex(&bytes_of(&o.sp))))?;
        }
    }
    Ok(())
}
fn round(specs: &[WSpec], d: &[u8], comment: &Option<String>, rng: &mut Rng) -> R {
    let com = comment.clone().unwrap_or_default();
    block(async {
        let m = mem::ZipFileReader::new(d.to_vec()).await.map_err(|e| format!("written archive does not open: {e:?}"))?;
        let mut s = seek::ZipFileReader::new(Src::rnd(d, rng)).await.map_err(|e| format!("written archive does not open from a split source: {e:?}"))?;
        for f in [m.file(), s.file()] {
            ck!(f.entries().len() == specs.len(), "{} entries read, {} written", f.entries().len(), specs.len());
            ck!(f.comment().as_bytes() == com.as_bytes() && f.comment().as_str().is_ok(), "archive comment {:?}, must be {com:?}", f.comment());
            for (k, sp) in specs.iter().enumerate() { same_entry(k, &f.entries()[k], sp, false)?; }
        }
        for (k, sp) in specs.iter().enumerate() {
            let p = plain_of(sp)?;
            let w = |x: String| format!("entry {k}: {x}");
            let mut r = m.reader_with_entry(k).await.map_err(|e| w(format!("{e:?}")))?;
            check_with(&mut r, &p, crc(&p), rng).await.map_err(w)?;
            let mut r = s.reader_with_entry(k).await.map_err(|e| w(format!("{e:?}")))?;
            check_with(&mut r, &p, crc(&p), rng).await.map_err(w)?;
        }
        if specs.iter().all(|s| !(s.stream() && s.method == 0)) {
            let mut z = stream::ZipFileReader::new(Src::rnd(d, rng));
            for (k, sp) in specs.iter().enumerate() {
                let w = |x: String| format!("streaming entry {k}: {x}");
                let mut r = z.next_with_entry().await.map_err(|e| w(format!("{e:?}")))?.ok_or_else(|| w("ends early".into()))?;
                same_entry(k, r.reader().entry(), sp, true).map_err(w)?;
                let v = slurp(r.reader_mut(), rng).await.map_err(|e| w(format!("{e:?}")))?;
                let p = plain_of(sp)?;
                ck!(v == p, "streaming entry {k}: {} instead of {}", hex(&v), hex(&p));
                z = r.done().await.map_err(|e| w(format!("done: {e:?}")))?;
            }
            match z.next_with_entry().await { Ok(None) => {}, x => return Err(format!("after the last entry streaming gives {:?}", x.map(|x| x.is_some()))) }
        }
        Ok::<(), String>(())
    })?;
    if rng.p(1, 10) {
        let t = Tmp::new(d);
        tokio_rt().block_on(async {
            let f = async_zip::tokio::read::fs::ZipFileReader::new(&t.0).await.map_err(|e| format!("file reader: {e:?}"))?;
            ck!(f.file().entries().len() == specs.len(), "file reader: {} entries", f.file().entries().len());
            for (k, sp) in specs.iter().enumerate() {
                same_entry(k, &f.file().entries()[k], sp, false)?;
                let p = plain_of(sp)?;
                let mut r = f.reader_with_entry(k).await.map_err(|e| format!("file reader: {e:?}"))?;
                check_with(&mut r, &p, crc(&p), rng).await.map_err(|e| format!("file reader: entry {k}: {e}"))?;
            }
            Ok::<(), String>(())
        })?;
    }
    Ok(())
}
// ---- C18 -------------------------------------------------------------------------------------------------------------
pub fn c18(rng: &mut Rng, cx: &mut Cx) -> R {
    if cx.index < 64 {
        // all method numbers
        for m in (cx.index * 1024) as u32..(cx.index * 1024) as u32 + 1024 {
            let m = m as u16;
            cx.eval(&m);
            let c = Cdr { method: m, name: b"n".to_vec(), ..Default::default() };
            let r = block(mem::ZipFileReader::new(Ends::plain(vec![], vec![c.ser()], vec![]).ser()));
            match r {
                Ok(r) => ck!(method_ok(m) && method_of(r.file().entries()[0].compression()) == m, "method number {m} read as {:?}", r.file().entries()[0].compression()),
                Err(e) => ck!(!method_ok(m) && kind(&e) == Ek::Method(m), "method number {m} gives {e:?}"),
            }
        }
        return Ok(());
    }
    // permissions and the rest of the attribute, in any order
    let (mut a, mode) = (rng.u32x(), rng.u16x());
    let name = if rng.p(1, 2) { text(rng, true) } else { ostr(if rng.p(1, 2) { b"d/" } else { b"d" }) };
    let method = METHODS[rng.us(7)].0;
    let mut b = ZipEntryBuilder::new(WSpec::zs(&name), Compression::Stored).compression(comp(method)).external_file_attribute(a);
    for _ in 0..1 + rng.us(3) { let mode = rng.u16x(); b = b.unix_permissions(mode); a = a & 0xffff | (mode as u32) << 16; }
    b = b.unix_permissions(mode);
    a = a & 0xffff | (mode as u32) << 16;
    ck!(b.current().external_file_attribute() == a && b.current().unix_permissions() == Some(mode), "attribute {:08x} after setting permissions {mode:o}, must be {a:08x}", b.current().external_file_attribute());
    let e = b.build();
    cx.eval(&(a, method, &name.raw));
    match e.dir() { Ok(d) => ck!(name.utf8 && d == name.raw.ends_with(b"/"), "dir() is {d} for {name:?}"), Err(_) => ck!(!name.utf8, "dir() fails for {name:?}") }
    let mut s = gen_spec(rng, Gen { modes: if method == 9 { 10 } else { ALL }, methods: false, texts: false, extras: false })?;
    s.method = method; s.name = name; s.eattr = a;
    if s.pre() { let p = gen_data(rng); s.crc = crc(&p); s.us = p.len() as u64; s.data = Dat::Bytes(encode(method, &p, 5)); }
    let (z, sink) = (gen_z(rng), Sink::new());
    let specs = [s];
    let o = scenario(&specs, sink, z, None, rng)?;
    note(cx, &specs, z, &o);
    Ok(())
}
// ---- C20 -------------------------------------------------------------------------------------------------------------
pub fn c20(rng: &mut Rng, cx: &mut Cx) -> R {
    if cx.index % 2 == 0 { return crate::data::c20_read(rng, cx); }
    let mut s = gen_spec(rng, Gen { modes: ALL, methods: true, texts: false, extras: false })?;
    if cx.index % 11 == 1 {
        let n = rng.us(400_000); s.data = Dat::Bytes(rng.bytes(n)); s.us = n as u64;
        if s.pre() { let Dat::Bytes(p) = &s.data else { unreachable!() }; s.crc = crc(p); s.data = Dat::Bytes(encode(s.method, p, 3)); }
    }
    if !s.pre() {
        let Dat::Bytes(p) = &s.data else { unreachable!() };
        let e = s.builder().build();
        if s.method != 0 {
            let z = block(async_zip::base::write::compress(&e, p));
            ck!(decode_exact(s.method, &z).as_ref() == Ok(p), "compress() by method {} level {:?} does not decode to its input {}", s.method, s.level, hex(p));
        }
        ck!(async_zip::base::write::crc32(p) == crc(p), "crc32() of {}", hex(p));
    }
    let (z, sink) = (gen_z(rng), Sink::rnd(rng));
    let specs = [s];
    let o = scenario(&specs, sink, z, None, rng)?;
    note(cx, &specs, z, &o);
    if let Some(o) = o {
        if specs[0].method != 9 { round(&specs, &bytes_of(&o.sp), &None, rng).map_err(|e| format!("{e}\nentries: {specs:#?}\narchive: {}", hex(&bytes_of(&o.sp))))?; }
    }
    Ok(())
}
// ---- C21 -------------------------------------------------------------------------------------------------------------
pub fn c21(rng: &mut Rng, cx: &mut Cx) -> R {
    let methods = rng.p(1, 3);
    let mut specs = gen_specs(rng, Gen { modes: ALL, methods, texts: true, extras: true }, 4)?;
    specs.push(gen_spec(rng, Gen { modes: ALL, methods: false, texts: false, extras: false })?);
    for s in &mut specs {
        match rng.below(8) {
            0 => s.name = ostr(&vec![b'n'; 65536]),
            1 => s.comment = ostr(&vec![b'c'; 65536]),
            2 if s.pre() => s.us = M32 + 1 + rng.below(9),
            3 if s.mode == Mode::Stream => s.mode = Mode::StreamDrop,
            4 if rng.p(1, 2) => { s.xs = vec![X { id: 0x7777, data: vec![7; 65531 - rng.us(30)] }]; s.base = Some(carrier(&s.xs)?); }
            _ => {}
        }
    }
    if rng.p(1, 3) { let s = big_spec(rng, M32 + rng.clone().below(1000), 3, Mode::WholePre)?; specs.insert(0, s); }
    let big = specs.iter().any(|s| matches!(s.data, Dat::Zeros(_)));
    let z = gen_z(rng);
    // every operation of the sink is a possible failure point
    let nfail = rng.us(3);
    let fails: Vec<u64> = (0..nfail).map(|_| { let m = if rng.p(1, 2) { 12 } else { 60 }; 1 + rng.below(m) }).collect();
    let sched = if big || rng.p(1, 2) { Sched::All } else { Sched::Rand(Rng(rng.next())) };
    let o = scenario(&specs, Sink::with(sched, fails, !big), z, None, rng)?;
    note(cx, &specs, z, &o);
    // on a sink that accepts everything at once, every failure point in turn
    if !big && cx.index % 5 == 0 {
        for k in 1..=18 { let o = scenario(&specs, Sink::with(Sched::All, vec![k], true), z, None, rng)?; note(cx, &specs, z, &o); }
    }
    Ok(())
}
