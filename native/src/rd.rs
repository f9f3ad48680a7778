//! Reader side: comparison with the oracle, archive generator, suites.
use crate::ck;
use crate::util::*;
use crate::zip::*;
use async_zip::base::read::{mem, seek};
use async_zip::error::ZipError;
use async_zip::{Compression, StringEncoding, ZipEntry, ZipEntryBuilder, ZipFile, ZipString};

pub fn kind(e: &ZipError) -> Ek {
    match e {
        ZipError::UnableToLocateEOCDR => Ek::Locate,
        ZipError::UpstreamReadError(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ek::Eof,
        ZipError::FeatureNotSupported(s) if s.starts_with("Spanned") => Ek::Spanned,
        ZipError::FeatureNotSupported(_) => Ek::Unsupported,
        ZipError::UnexpectedHeaderError(a, b) => Ek::Header(*a, *b),
        ZipError::CompressionNotSupported(n) => Ek::Method(*n),
        ZipError::InvalidExtraFieldHeader(n, k) => Ek::Extra(*n, *k),
        ZipError::InfoZipUnicodeCommentFieldIncomplete => Ek::UniComment,
        ZipError::InfoZipUnicodePathFieldIncomplete => Ek::UniPath,
        e => Ek::Other(format!("{e:?}")),
    }
}
pub fn method_of(c: Compression) -> u16 {
    match c {
        Compression::Stored => 0,
        Compression::Deflate => 8,
        Compression::Deflate64 => 9,
        Compression::Bz => 12,
        Compression::Lzma => 14,
        Compression::Zstd => 93,
        Compression::Xz => 95,
        _ => 0xffff,
    }
}
pub fn comp(m: u16) -> Compression {
    match m {
        0 => Compression::Stored,
        8 => Compression::Deflate,
        9 => Compression::Deflate64,
        12 => Compression::Bz,
        14 => Compression::Lzma,
        93 => Compression::Zstd,
        95 => Compression::Xz,
        _ => unreachable!(),
    }
}
pub fn to_ostr(s: &ZipString) -> OStr { OStr { utf8: matches!(s.encoding(), StringEncoding::Utf8), raw: s.as_bytes().to_vec(), alt: s.alternative().map(|a| a.to_vec()) } }
pub fn ck_str(what: &str, s: &ZipString, o: &OStr) -> R {
    let g = to_ostr(s);
    ck!(g == *o, "{what} is {g:?}, must be {o:?}");
    ck_sound(what, s)
}
/// a ZipString claims UTF-8 only if it is, and conversions agree with that
pub fn ck_sound(what: &str, s: &ZipString) -> R {
    let utf8 = matches!(s.encoding(), StringEncoding::Utf8);
    let valid = std::str::from_utf8(s.as_bytes()).is_ok();
    ck!(!utf8 || valid, "{what} claims UTF-8 but holds {:02x?}", s.as_bytes());
    match s.as_str() {
        Ok(t) => ck!(utf8 && t.as_bytes() == s.as_bytes(), "{what}: as_str gives {t:?} for {:02x?}", s.as_bytes()),
        Err(e) => ck!(!utf8 && matches!(e, ZipError::StringNotUtf8), "{what}: as_str fails with {e:?} although UTF-8 is {utf8}"),
    }
    match s.clone().into_string() {
        Ok(t) => ck!(utf8 && t.as_bytes() == s.as_bytes(), "{what}: into_string gives {t:?}"),
        Err(_) => ck!(!utf8, "{what}: into_string fails"),
    }
    ck!(s.is_utf8_without_alternative() == (utf8 && s.alternative().is_none()), "{what}: is_utf8_without_alternative");
    ck!(s.clone().into_alternative().as_deref() == s.alternative(), "{what}: into_alternative");
    Ok(())
}
pub fn dos(date: u16, time: u16) -> (i32, u32, u32, u32, u32, u32) {
    (1980 + (date / 512) as i32, (date / 32 % 16) as u32, (date % 32) as u32, (time / 2048) as u32, (time / 32 % 64) as u32, (time % 32) as u32 * 2)
}
pub fn dos_of(d: &async_zip::ZipDateTime) -> (i32, u32, u32, u32, u32, u32) { (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second()) }
pub fn ck_entry(i: usize, e: &ZipEntry, o: &OEntry, local: bool) -> R {
    ck_str(&format!("name of entry {i}"), e.filename(), &o.name)?;
    if !local { ck_str(&format!("comment of entry {i}"), e.comment(), &o.comment)?; }
    ck!(method_of(e.compression()) == o.method, "entry {i}: method {:?}, must be {}", e.compression(), o.method);
    ck!(e.crc32() == o.crc, "entry {i}: checksum {:08x}, must be {:08x}", e.crc32(), o.crc);
    ck!(e.uncompressed_size() == o.us, "entry {i}: uncompressed size {}, must be {}", e.uncompressed_size(), o.us);
    ck!(e.compressed_size() == o.cs, "entry {i}: compressed size {}, must be {}", e.compressed_size(), o.cs);
    ck!(dos_of(e.last_modification_date()) == dos(o.date, o.time), "entry {i}: date {:?}, must be {:?}", dos_of(e.last_modification_date()), dos(o.date, o.time));
    if !local {
        ck!(e.internal_file_attribute() == o.iattr, "entry {i}: internal attribute {}, must be {}", e.internal_file_attribute(), o.iattr);
        ck!(e.external_file_attribute() == o.eattr, "entry {i}: external attribute {}, must be {}", e.external_file_attribute(), o.eattr);
        ck!(e.unix_permissions() == Some((o.eattr >> 16) as u16), "entry {i}: permissions {:?} for {:08x}", e.unix_permissions(), o.eattr);
    }
    match e.dir() {
        Ok(b) => ck!(o.name.utf8 && b == o.name.raw.ends_with(b"/"), "entry {i}: dir() is {b} for {:?}", o.name),
        Err(_) => ck!(!o.name.utf8, "entry {i}: dir() fails for {:?}", o.name),
    }
    ck!(e.extra_fields().len() == o.xs.len(), "entry {i}: {} extra fields, must be {:?}", e.extra_fields().len(), o.xs);
    let want: Vec<X> = o.xs.iter().filter(|x| x.id != XZ64).cloned().collect();
    if !want.is_empty() && ser_xs(&want).len() <= 65535 {
        let got = rewrite_xs(e)?;
        ck!(got == want, "entry {i}: extra fields written back as {got:?}, must be {want:?}");
    }
    Ok(())
}
/// the extra fields of an entry as they are when it is written into another archive
pub fn rewrite_xs(e: &ZipEntry) -> R<Vec<X>> {
    let sink = Sink::new();
    let b = ZipEntryBuilder::new("x".into(), Compression::Stored).extra_fields(e.extra_fields().to_vec());
    block(async {
        let mut w = async_zip::base::write::ZipFileWriter::new(sink.clone());
        w.write_entry_whole_precompressed(b, &[]).await?;
        w.close().await
    }).map_err(|e| format!("copying an entry with its extra fields fails: {e:?}"))?;
    let d = sink.bytes();
    let (l, q) = Lfh::parse(&d, 0)?;
    let (c, _) = Cdr::parse(&d, q)?;
    ck!(l.extra == c.extra, "copied entry: local extra {:02x?} but central extra {:02x?}", l.extra, c.extra);
    split_xs(&l.extra).map_err(|e| format!("copied entry: malformed extra fields {e:?} in {:02x?}", l.extra))
}
pub fn ck_file(f: &ZipFile, o: &OFile) -> R {
    ck!(f.zip64() == o.zip64, "zip64() is {}, must be {}", f.zip64(), o.zip64);
    ck_str("archive comment", f.comment(), &o.comment)?;
    ck!(f.entries().len() == o.entries.len(), "{} entries listed, must be {}", f.entries().len(), o.entries.len());
    for (i, (e, o)) in f.entries().iter().zip(&o.entries).enumerate() {
        ck_entry(i, e, o, false)?;
        ck!(e.header_offset() == o.off, "entry {i}: header offset {}, must be {}", e.header_offset(), o.off);
        ck!(e.header_size() == o.hsize, "entry {i}: header size {}, must be {}", e.header_size(), o.hsize);
    }
    Ok(())
}
pub fn ck_open(r: Result<&ZipFile, &ZipError>, o: &Result<OFile, Vec<Ek>>) -> R {
    match (r, o) {
        (Ok(f), Ok(o)) => ck_file(f, o),
        (Err(e), Err(ks)) => { ck!(ks.contains(&kind(e)), "opening fails with {e:?}, must be one of {ks:?}"); Ok(()) }
        (Ok(_), Err(ks)) => Err(format!("opening succeeds, must fail with one of {ks:?}")),
        (Err(e), Ok(_)) => Err(format!("opening fails with {e:?}, must succeed")),
    }
}
/// opens from memory and from a source with a random schedule and compares both with the oracle
pub fn open_both(d: &[u8], rng: &mut Rng, cx: &mut Cx) -> R {
    cx.eval(&d);
    let o = match o_open(d) { Some(o) => o, None => { let _ = block(mem::ZipFileReader::new(d.to_vec())); return Ok(()) } };
    let r = block(mem::ZipFileReader::new(d.to_vec()));
    ck_open(r.as_ref().map(|r| r.file()), &o).map_err(|e| format!("from memory: {e}\nsource: {}", hex(d)))?;
    let r = block(seek::ZipFileReader::new(Src::rnd(d, rng)));
    ck_open(r.as_ref().map(|r| r.file()), &o).map_err(|e| format!("from a source with split reads: {e}\nsource: {}", hex(d)))
}

// ---- archive generator -----------------------------------------------------------------------------------------------
pub fn gen_text(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => "dir/sub/".into(),
        2 => "ünïcödé-日本語".into(),
        3 => vec![0xff, 0xfe, b'a'],
        4 => { let n = rng.us(300); rng.bytes(n) }
        5 => { let mut v: Vec<u8> = "a/ß".into(); if rng.p(1, 2) { v.pop(); } v }
        _ => { let n = 1 + rng.us(12); (0..n).map(|_| *rng.pick(b"abcXYZ012._/- ")).collect() }
    }
}
pub fn gen_data(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => { let n = rng.us(20); rng.bytes(n) }
        2 => { let n = rng.us(3000); rng.bytes(n) }
        3 => vec![b'a' + rng.us(3) as u8; rng.us(5000)],
        4 => { let n = rng.us(600); (0..n).map(|_| *rng.pick(b"ab ")).collect() }
        _ => { let k = rng.us(40); let w = rng.bytes(k); let n = rng.us(200); (0..n).flat_map(|_| w.clone()).collect() }
    }
}
pub fn gen_xs(rng: &mut Rng, name: &[u8], comment: &[u8]) -> Vec<X> {
    let n = if rng.p(1, 3) { 0 } else { rng.us(5) };
    (0..n).map(|_| {
        match rng.below(9) {
            0 => { let n = *rng.pick(&[0usize, 4, 8, 12, 16, 20, 24, 28, 32, 7, 15, 23]); X { id: XZ64, data: rng.bytes(n) } }
            1 => unicode_x(XPATH, name, &gen_text(rng)),
            2 => unicode_x(XCOM, comment, &gen_text(rng)),
            3 => { let mut x = unicode_x(*rng.pick(&[XPATH, XCOM]), name, &gen_text(rng)); x.data[1] ^= 1; x }
            4 => { let mut x = unicode_x(*rng.pick(&[XPATH, XCOM]), comment, &gen_text(rng)); x.data[0] = rng.next() as u8; x }
            5 => X { id: match rng.u16x() { 0 | 1 | XPATH | XCOM => 0x5455, x => x }, data: vec![] },
            _ => { let n = rng.us(40); X { id: match rng.u16x() { 0 | 1 | XPATH | XCOM => 0x5455, x => x }, data: rng.bytes(n) } }
        }
    }).collect()
}
pub fn gen_cdr(rng: &mut Rng) -> Cdr {
    let name = gen_text(rng);
    let comment = if rng.p(1, 2) { vec![] } else { gen_text(rng) };
    let xs = gen_xs(rng, &name, &comment);
    Cdr {
        made: rng.u16x(), need: rng.u16x(), flags: rng.u16x(), method: METHODS[rng.us(7)].0, time: rng.u16x(), date: rng.u16x(), crc: rng.u32x(), cs: rng.u32x(), us: rng.u32x(),
        name, extra: ser_xs(&xs), comment, disk: rng.u16x(), iattr: rng.u16x(), eattr: rng.u32x(), off: rng.u32x(),
    }
}
/// body (anything), directory, optional ZIP64 records, end record, comment
pub struct Ends { pub body: Vec<u8>, pub recs: Vec<Vec<u8>>, pub z64: Option<(Eocd64, Loc64)>, pub e: Eocd, pub comment: Vec<u8> }
impl Ends {
    /// a consistent archive without ZIP64
    pub fn plain(body: Vec<u8>, recs: Vec<Vec<u8>>, comment: Vec<u8>) -> Ends {
        let n = recs.len() as u16;
        let size = recs.iter().map(|r| r.len()).sum::<usize>() as u32;
        Ends { e: Eocd { disk: 0, cd_disk: 0, n_disk: n, n, size, off: body.len() as u32, comment_len: comment.len() as u16 }, body, recs, z64: None, comment }
    }
    pub fn zip64(mut self) -> Ends {
        let cd: usize = self.recs.iter().map(|r| r.len()).sum();
        let n = self.recs.len() as u64;
        self.z64 = Some((Eocd64 { rec_size: 44, made: 63, need: 45, disk: 0, cd_disk: 0, n_disk: n, n, size: cd as u64, off: self.body.len() as u64 }, Loc64 { disk: 0, off: (self.body.len() + cd) as u64, total: 1 }));
        self
    }
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.body.clone();
        for r in &self.recs { v.extend(r); }
        if let Some((e, l)) = &self.z64 { v.extend(e.ser()); v.extend(l.ser()); }
        v.extend(self.e.ser());
        v.extend(&self.comment);
        v
    }
}
fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(3) { 0 => vec![0; n], 1 => rng.bytes(n), _ => (0..n).map(|_| *rng.pick(&[0x50u8, 0x4b, 5, 6, 7, 0])).collect() }
}
fn descramble(mut v: Vec<u8>) -> Vec<u8> {
    // noise must not hold the signature by accident where the case is about a found one; a decoy stays a decoy
    for i in 3..v.len() { if v[i - 3..=i] == [0x50, 0x4b, 5, 6] { v[i] = 7; } }
    v
}

// ---- C01 --------------------------------------------------------------------------------------------------------------
pub fn c01(rng: &mut Rng, cx: &mut Cx) -> R {
    let i = cx.index;
    // an archive without entries: the comment reported shows which signature was used
    let (body, comment): (usize, usize) = if i < 2200 {
        (rng.us(60), i as usize)
    } else if i < 2600 {
        let c = i - 2200;
        ((c / 20 * 100) as usize + rng.us(100), *rng.pick(&[65535usize, 65534, 65533, 65532, 65531, 65530, 65000, 63467, 63468, 4090, 4091, 2021]) - (c % 20) as usize)
    } else {
        match rng.below(4) {
            0 => (rng.us(5000), rng.us(5000)),
            1 => (rng.us(300), 65535 - rng.us(70)),
            2 => (rng.us(3), { let k = 1 + rng.us(31); (k * 2045 + rng.us(60)).saturating_sub(40).min(65535) }),
            _ => (rng.us(100_000), rng.us(65536)),
        }
    };
    let b = descramble(noise(rng, body));
    let b = if rng.p(1, 4) { let mut b = b; b.extend(Eocd { comment_len: rng.u16x(), ..Default::default() }.ser()); b } else { b };
    let c = noise(rng, comment);
    let c = if rng.p(5, 6) { descramble(c) } else { c };
    let mut a = Ends::plain(b, vec![], c);
    if rng.p(1, 8) { a = a.zip64(); }
    let mut d = a.ser();
    if rng.p(1, 6) && i >= 2600 { let n = rng.us(d.len() + 1); d.truncate(n); }
    if rng.p(1, 10) { let l = rng.us(70); d = descramble(noise(rng, l)); if rng.p(1, 2) && l > 3 { let k = l - 3; d[k..].copy_from_slice(&[0x50, 0x4b, 5]); } }
    cx.sample(|| format!("body {body} bytes, comment {comment} bytes, end record at {:?} of {}", last_sig(&d), d.len()));
    open_both(&d, rng, cx)
}
// ---- C02 --------------------------------------------------------------------------------------------------------------
pub fn c02(rng: &mut Rng, cx: &mut Cx) -> R {
    // one field at a time, then all at random
    let mut c = Cdr { name: b"n".to_vec(), ..Default::default() };
    let v = rng.u64x();
    match cx.index % 24 {
        0 => c.flags = v as u16, 1 => c.time = v as u16, 2 => c.date = v as u16, 3 => c.crc = v as u32, 4 => c.cs = v as u32, 5 => c.us = v as u32,
        6 => c.iattr = v as u16, 7 => c.eattr = v as u32, 8 => c.off = v as u32, 9 => c.made = v as u16, 10 => c.need = v as u16, 11 => c.disk = v as u16,
        12 => { let n = (v % 700) as usize; c.name = rng.bytes(n) }, 13 => { let n = (v % 700) as usize; c.comment = rng.bytes(n) },
        14 => c.method = METHODS[rng.us(7)].0,
        15 => c.flags = 1 << (cx.index / 24 % 16),
        _ => c = gen_cdr(rng),
    }
    let body = rng.us(50);
    let mut e = Ends::plain(vec![7; body], vec![c.ser(), Cdr { name: b"second".to_vec(), ..Default::default() }.ser()], vec![]);
    if rng.p(1, 2) {
        e = e.zip64();
        let z = e.z64.as_mut().unwrap();
        z.0.rec_size = rng.u64x(); z.0.made = rng.u16x(); z.0.need = rng.u16x(); z.1.disk = rng.u32x(); z.1.total = rng.u32x();
        z.0.disk = rng.u32x();
        z.0.cd_disk = z.0.disk;
        if rng.p(1, 2) { e.e = Eocd { disk: 0xffff, cd_disk: 0xffff, n_disk: 0xffff, n: 0xffff, size: u32::MAX, off: u32::MAX, comment_len: 0 }; }
    }
    let d = e.ser();
    cx.sample(|| format!("central record {c:?}"));
    open_both(&d, rng, cx)
}
// ---- C03 --------------------------------------------------------------------------------------------------------------
pub fn c03(rng: &mut Rng, cx: &mut Cx) -> R {
    let mut c = gen_cdr(rng);
    if rng.p(1, 2) { c.us = u32::MAX; }
    if rng.p(1, 2) { c.cs = u32::MAX; }
    if rng.p(1, 2) { c.off = u32::MAX; }
    if cx.index % 3 == 0 { // all ZIP64 lengths
        let n = (cx.index / 3 % 40) as usize;
        let mut xs = vec![X { id: XZ64, data: rng.bytes(n) }];
        if rng.p(1, 2) { let more = gen_xs(rng, &c.name, &c.comment); let k = rng.us(2); for x in more { if k == 0 { xs.push(x) } else { xs.insert(0, x) } } }
        c.extra = ser_xs(&xs);
    } else if rng.p(1, 3) {
        // damage: cut off, trailing bytes, wrong size
        match rng.below(4) {
            0 => { let n = rng.us(c.extra.len() + 1); c.extra.truncate(n) }
            1 => { let n = rng.us(8); let b = rng.bytes(n); c.extra.extend(b) }
            2 if c.extra.len() >= 4 => { c.extra[2] = c.extra[2].wrapping_add(rng.next() as u8) }
            _ => { let id = *rng.pick(&[XPATH, XCOM]); let n = rng.us(7); let mut b = rng.bytes(n); if n > 0 && rng.p(1, 2) { b[0] = 1; } c.extra.extend(X { id, data: b }.ser()) }
        }
    } else if rng.p(1, 20) {
        let n = 65535 - 4 - rng.us(20);
        c.extra = X { id: 0x7777, data: rng.bytes(n) }.ser();
    }
    cx.sample(|| format!("us={:08x} cs={:08x} extra={:02x?}", c.us, c.cs, &c.extra[..c.extra.len().min(60)]));
    let d = Ends::plain(vec![1, 2, 3], vec![c.ser()], vec![]).ser();
    open_both(&d, rng, cx)?;
    // the same block in a local header, read as a stream
    let l = Lfh { flags: c.flags & !9, method: 0, cs: c.cs, us: c.us, name: c.name.clone(), extra: c.extra.clone(), crc: c.crc, ..Default::default() };
    stream_one(&l, rng, cx)
}
fn local_expect(l: &Lfh) -> Result<OEntry, Vec<Ek>> {
    let c = Cdr { flags: l.flags, method: l.method, time: l.time, date: l.date, crc: l.crc, cs: l.cs, us: l.us, name: l.name.clone(), extra: l.extra.clone(), ..Default::default() };
    let (d, mut p) = (c.ser(), 0);
    o_record(&d, &mut p)
}
fn stream_one(l: &Lfh, rng: &mut Rng, cx: &mut Cx) -> R {
    use async_zip::base::read::stream;
    let d = l.ser();
    cx.eval(&d);
    let mut o = local_expect(l);
    if l.flags & 8 != 0 && l.method == 0 || l.flags & 1 != 0 { match &mut o { Ok(_) => o = Err(vec![Ek::Unsupported]), Err(k) => k.push(Ek::Unsupported) } }
    let r = block(stream::ZipFileReader::new(Src::rnd(&d, rng)).next_with_entry());
    match (r, o) {
        (Ok(Some(r)), Ok(o)) => ck_entry(0, r.reader().entry(), &o, true).map_err(|e| format!("local header read as a stream: {e}\nsource: {}", hex(&d))),
        (Err(e), Err(k)) => { ck!(k.contains(&kind(&e)), "streaming fails with {e:?}, must be one of {k:?}\nsource: {}", hex(&d)); Ok(()) }
        (Ok(x), Err(k)) => Err(format!("streaming yields {}, must fail with one of {k:?}\nsource: {}", if x.is_some() { "an entry" } else { "the end" }, hex(&d))),
        (Ok(None), Ok(_)) => Err(format!("streaming ends, must yield an entry\nsource: {}", hex(&d))),
        (Err(e), Ok(_)) => Err(format!("streaming fails with {e:?}, must yield an entry\nsource: {}", hex(&d))),
    }
}
// ---- C04 --------------------------------------------------------------------------------------------------------------
pub fn c04(rng: &mut Rng, cx: &mut Cx) -> R {
    let n = match rng.below(5) { 0 => rng.us(3), 1 => rng.us(60), _ => 1 + rng.us(8) };
    let mut recs: Vec<Vec<u8>> = (0..n).map(|_| {
        let mut c = gen_cdr(rng);
        if rng.p(1, 3) {
            // a consistent ZIP64 record
            let mut x = vec![];
            if rng.p(1, 2) { c.us = u32::MAX; x.p8(rng.u64x()); }
            if rng.p(1, 2) { c.cs = u32::MAX; x.p8(rng.u64x()); }
            if rng.p(1, 2) { c.off = u32::MAX; x.p8(rng.u64x()); }
            if rng.p(1, 4) { x.p4(0); }
            let mut e = X { id: XZ64, data: x }.ser();
            e.extend(&c.extra);
            c.extra = e;
        }
        if rng.p(1, 40) { c.method = rng.u16x(); }
        c.ser()
    }).collect();
    if n > 0 && rng.p(1, 3) {
        let k = rng.us(n);
        match rng.below(3) {
            0 => { let b = rng.us(4); recs[k][b] ^= 1 << rng.below(8) }
            1 => { let b = 30 + rng.us(2); recs[k][b] ^= 1 << rng.below(8) }
            _ => { let b = rng.us(recs[k].len()); recs[k][b] ^= 1 << rng.below(8) }
        }
    }
    let body = rng.us(100);
    let mut e = Ends::plain(rng.bytes(body), recs, gen_text(rng));
    if rng.p(1, 4) { e = e.zip64(); if rng.p(1, 2) { e.e.n = 0xffff; e.e.n_disk = 0xffff; } }
    if rng.p(1, 10) { let k = rng.us(n + 3) as u16; e.e.n = k; e.e.n_disk = k; }
    cx.sample(|| format!("{n} records, announced {}", e.e.n));
    open_both(&e.ser(), rng, cx)
}
// ---- C05 --------------------------------------------------------------------------------------------------------------
pub fn c05(rng: &mut Rng, cx: &mut Cx) -> R {
    let n = rng.us(4);
    let recs: Vec<Vec<u8>> = (0..n).map(|i| Cdr { name: vec![b'a' + i as u8; i + 1], ..Default::default() }.ser()).collect();
    let body = rng.us(80);
    let comment = { let n = rng.us(40); if rng.p(1, 2) { gen_text(rng) } else { rng.bytes(n) } };
    let mut e = Ends::plain(rng.bytes(body), recs, descramble(comment)).zip64();
    let sat = if cx.index < 64 { cx.index } else { rng.next() };
    // saturate some of the plain values, and put junk into the ZIP64 values which must then be ignored
    { let z = e.z64.as_mut().unwrap();
    let junk = |s: bool, r: &mut Rng, v: u64| if s || r.p(1, 2) { v } else { r.u64x() };
    if sat & 1 != 0 { e.e.disk = 0xffff; z.0.disk = rng.u32x(); e.e.cd_disk = 0xffff; z.0.cd_disk = z.0.disk; } else { z.0.disk = junk(false, rng, 0) as u32; z.0.cd_disk = junk(false, rng, 0) as u32; }
    if sat & 2 != 0 { e.e.n = 0xffff } else { z.0.n = junk(false, rng, z.0.n) }
    if sat & 4 != 0 { e.e.n_disk = 0xffff } else { z.0.n_disk = junk(false, rng, z.0.n_disk) }
    if sat & 8 != 0 { e.e.off = u32::MAX } else { z.0.off = junk(false, rng, z.0.off) }
    if sat & 16 != 0 { e.e.size = u32::MAX } else { z.0.size = junk(false, rng, z.0.size) }
    if sat & 32 != 0 {
        match rng.below(8) {
            0 => e.e.disk = rng.u16x(), 1 => e.e.cd_disk = rng.u16x(), 2 => e.e.n = rng.below(6) as u16, 3 => e.e.n_disk = rng.below(6) as u16,
            4 => z.0.n = z.0.n.wrapping_add(rng.below(2)), 5 => z.1.off = if rng.p(1, 2) { rng.u64x() } else { u64::MAX - rng.below(6) }, 6 => z.0.disk = rng.u32x(), _ => e.e.comment_len = rng.below(80) as u16,
        }
    } }
    if rng.p(1, 4) { e.z64 = None; }
    let mut d = e.ser();
    if e.z64.is_some() && rng.p(1, 8) { let p = last_sig(&d).unwrap() - 20; let b = rng.us(4); d[p + b] ^= 1 << rng.below(8); }
    if rng.p(1, 8) { let p = last_sig(&d).unwrap(); let k = rng.us(p + 1); d.drain(..k); }
    cx.sample(|| format!("plain {:?} zip64 {:?}", e.e, e.z64));
    // the count can be huge only if the directory ends first; keep runs short
    open_both(&d, rng, cx)
}
// ---- C16 --------------------------------------------------------------------------------------------------------------
pub fn c16(rng: &mut Rng, cx: &mut Cx) -> R {
    let t = |rng: &mut Rng| -> Vec<u8> {
        match rng.below(6) { 0 => b"ascii/".to_vec(), 1 => "ä€𝄞".into(), 2 => vec![0xc3], 3 => vec![0x80 + rng.us(128) as u8, 0x20], 4 => { let n = rng.us(5); rng.bytes(n) } _ => gen_text(rng) }
    };
    let (name, comment) = (t(rng), t(rng));
    let mut xs = vec![];
    for _ in 0..rng.us(4) {
        let id = *rng.pick(&[XPATH, XCOM]);
        let basic = if (id == XPATH) != rng.p(1, 8) { name.clone() } else { comment.clone() };
        let mut x = unicode_x(id, &basic, &t(rng));
        match rng.below(6) { 0 => x.data[1 + rng.us(4)] ^= 1 << rng.below(8), 1 => x.data[0] = rng.below(4) as u8, _ => {} }
        xs.push(x);
    }
    let c = Cdr { flags: *rng.pick(&[0u16, 0x800, 0x800, 0x400, 0xffff, 0xf7ff]), name, comment, extra: ser_xs(&xs), ..Default::default() };
    cx.sample(|| format!("name {:02x?} comment {:02x?} flags {:04x} extra {xs:?}", c.name, c.comment, c.flags));
    open_both(&Ends::plain(vec![], vec![c.ser()], vec![]).ser(), rng, cx)?;
    let l = Lfh { flags: c.flags & !9, name: c.name.clone(), extra: c.extra.clone(), ..Default::default() };
    stream_one(&l, rng, cx)?;
    // archive comment: UTF-8 when valid
    let ac = descramble(t(rng));
    open_both(&Ends::plain(vec![], vec![], ac).ser(), rng, cx)?;
    // constructors
    let raw = t(rng);
    for enc in [StringEncoding::Utf8, StringEncoding::Raw] {
        let s = ZipString::new(raw.clone(), enc);
        let want = OStr { utf8: matches!(enc, StringEncoding::Utf8) && std::str::from_utf8(&raw).is_ok(), raw: raw.clone(), alt: None };
        ck_str("ZipString::new", &s, &want)?;
    }
    if let Ok(t) = String::from_utf8(raw.clone()) {
        ck_str("From<String>", &ZipString::from(t.clone()), &OStr { utf8: true, raw: raw.clone(), alt: None })?;
        ck_str("From<&str>", &ZipString::from(&t[..]), &OStr { utf8: true, raw: raw.clone(), alt: None })?;
        let alt = rng.bytes(3);
        ck_str("new_with_alternative", &ZipString::new_with_alternative(t, alt.clone()), &OStr { utf8: true, raw, alt: Some(alt) })?;
    }
    Ok(())
}
// ---- C17 --------------------------------------------------------------------------------------------------------------
pub fn c17(rng: &mut Rng, cx: &mut Cx) -> R {
    use async_zip::{ZipDateTime, ZipDateTimeBuilder};
    if cx.index < 32 {
        // all 65,536 dates and times, in slices of 2048, as stored in an archive
        let base = (cx.index * 2048) as u32;
        let recs: Vec<Vec<u8>> = (base..base + 2048).map(|v| Cdr { date: v as u16, time: (v as u16).wrapping_mul(40503), ..Default::default() }.ser())
            .chain((base..base + 2048).map(|v| Cdr { time: v as u16, date: rng.u16x(), ..Default::default() }.ser())).collect();
        let d = Ends::plain(vec![], recs.clone(), vec![]).ser();
        let r = block(mem::ZipFileReader::new(d)).map_err(|e| format!("{e:?}"))?;
        for (i, e) in r.file().entries().iter().enumerate() {
            let (t, dt) = (g2(&recs[i], 12), g2(&recs[i], 14));
            cx.eval(&(dt, t));
            ck!(dos_of(e.last_modification_date()) == dos(dt, t), "stored date {dt:04x} time {t:04x} reported as {:?}, must be {:?}", dos_of(e.last_modification_date()), dos(dt, t));
            ck_chrono(e.last_modification_date())?;
            // a builder on top of a stored date changes only what is set
            let z: ZipDateTime = ZipDateTimeBuilder::from(*e.last_modification_date()).minute(t as u32 % 60).build();
            let mut w = dos(dt, t);
            w.4 = t as u32 % 60;
            ck!(dos_of(&z) == w, "minute set on {dt:04x}/{t:04x} gives {:?}, must be {w:?}", dos_of(&z));
        }
        return Ok(());
    }
    let mut b = ZipDateTimeBuilder::new();
    let mut w = (1980, 0, 0, 0, 0, 0);
    let mut log = vec![];
    for _ in 0..1 + rng.us(12) {
        match rng.below(6) {
            0 => { w.0 = rng.range(1980, 2107) as i32; b = b.year(w.0); log.push(format!("year {}", w.0)) }
            1 => { w.1 = rng.range(1, 12) as u32; b = b.month(w.1); log.push(format!("month {}", w.1)) }
            2 => { w.2 = rng.range(1, 31) as u32; b = b.day(w.2); log.push(format!("day {}", w.2)) }
            3 => { w.3 = rng.range(0, 23) as u32; b = b.hour(w.3); log.push(format!("hour {}", w.3)) }
            4 => { w.4 = rng.range(0, 59) as u32; b = b.minute(w.4); log.push(format!("minute {}", w.4)) }
            _ => { let s = rng.range(0, 59) as u32; w.5 = s / 2 * 2; b = b.second(s); log.push(format!("second {s}")) }
        }
    }
    cx.eval(&log);
    cx.sample(|| log.join(", "));
    let z = b.build();
    ck!(dos_of(&z) == w, "setting {log:?} gives {:?}, must be {w:?}", dos_of(&z));
    ck_chrono(&z)?;
    // from chrono and back
    use chrono::TimeZone;
    let secs = rng.range(315_532_800, 4_354_819_199) as i64; // 1980 to 2107
    let t = chrono::Utc.timestamp_opt(secs, 0).unwrap();
    let z: ZipDateTime = if rng.p(1, 2) { ZipDateTime::from_chrono(&t) } else { t.into() };
    use chrono::{Datelike, Timelike};
    let w = (t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second() / 2 * 2);
    ck!(dos_of(&z) == w, "from chrono {t} gives {:?}", dos_of(&z));
    ck_chrono(&z)?;
    // what is set is what is stored
    let sink = Sink::new();
    block(async {
        let mut w = async_zip::base::write::ZipFileWriter::new(sink.clone());
        w.write_entry_whole(ZipEntryBuilder::new("d".into(), Compression::Stored).last_modification_date(z), b"").await?;
        w.close().await
    }).map_err(|e| format!("{e:?}"))?;
    let d = sink.bytes();
    let (l, q) = Lfh::parse(&d, 0)?;
    let (c, _) = Cdr::parse(&d, q)?;
    ck!(dos(l.date, l.time) == w && dos(c.date, c.time) == w, "date {w:?} stored as {:?} and {:?}", dos(l.date, l.time), dos(c.date, c.time));
    Ok(())
}
fn ck_chrono(z: &async_zip::ZipDateTime) -> R {
    use chrono::TimeZone;
    let (y, mo, d, h, mi, s) = dos_of(z);
    let want = chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|x| x.and_hms_opt(h, mi, s)).map(|x| chrono::Utc.from_utc_datetime(&x));
    let got = z.as_chrono().single();
    ck!(got == want, "as_chrono of {:?} gives {got:?}, must be {want:?}", dos_of(z));
    Ok(())
}

/// finds out whether the known findings are still there, by their specific inputs
pub fn probe_known() {
    let one = |extra: &[u8]| { let mut d = Cdr { extra: extra.to_vec(), ..Default::default() }.ser(); let n = d.len(); d.extend(Eocd { n: 1, n_disk: 1, size: n as u32, ..Default::default() }.ser()); d };
    let r = std::panic::catch_unwind(|| block(mem::ZipFileReader::new(one(&[0xfe, 0xca, 0, 0]))).ok().map(|z| z.file().entries()[0].extra_fields().len()));
    QUIRK_LAST.set(matches!(r, Ok(Some(0)))).unwrap();
    let r = std::panic::catch_unwind(|| block(mem::ZipFileReader::new(one(&[0xfe, 0xca, 9, 0, 1]))).is_ok());
    QUIRK_PANIC.set(if r.is_err() { crate::last() } else { String::new() }).unwrap();
}
