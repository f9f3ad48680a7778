//! Reader side: entry data, streaming, checksums, arbitrary bytes.
use crate::ck;
use crate::rd::*;
use crate::util::*;
use crate::zip::*;
use async_zip::base::read::{mem, seek, stream, WithEntry, ZipEntryReader};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Ent { pub l: Lfh, pub c: Cdr, pub z: Vec<u8>, pub data: Vec<u8>, pub off: usize, pub end: usize, pub dd: u8 }
pub struct Arch { pub d: Vec<u8>, pub es: Vec<Ent> }
/// stream: entries follow each other without gaps, descriptors are real
pub fn gen_arch(rng: &mut Rng, stream: bool, max: usize) -> Arch {
    let n = rng.us(max + 1);
    let mut body = if stream { vec![] } else { let k = rng.us(40); rng.bytes(k) };
    let mut es = vec![];
    for i in 0..n {
        let data = gen_data(rng);
        let method = METHODS[rng.us(7)].0;
        let z = encode(method, &data, rng.below(10) as u32);
        // Deflate64 with a descriptor is a known finding: its decoder takes bytes beyond the end of its stream
        let dd: u8 = if method != 0 && !(stream && method == 9) && rng.p(1, 3) { 1 + rng.below(2) as u8 } else { 0 };
        let mut name = format!("e{i}").into_bytes();
        if rng.p(1, 3) { name.extend(gen_text(rng)); }
        let x1 = gen_xs(rng, &name, b"").into_iter().filter(|x| x.id != XZ64).collect::<Vec<_>>();
        let mut x2 = if rng.p(1, 2) { x1.clone() } else { gen_xs(rng, &name, b"").into_iter().filter(|x| x.id != XZ64).collect::<Vec<_>>() };
        let c = crc(&data);
        let known = dd == 0 || rng.p(1, 2);
        let mut x1 = x1;
        let flags = if dd > 0 { 8 } else { 0 } | if rng.p(1, 2) { 0x800 } else { 0 };
        let (mut cs, mut us) = if known { (z.len() as u32, data.len() as u32) } else { (0, 0) };
        if known && rng.p(1, 6) {
            let mut x = vec![]; x.p8(data.len() as u64); x.p8(z.len() as u64);
            let k = rng.us(x1.len() + 1);
            x1.insert(k, X { id: XZ64, data: x });
            cs = u32::MAX; us = u32::MAX;
        }
        let l = Lfh { ver: 20, flags, method, time: rng.u16x(), date: rng.u16x(), crc: if known { c } else { 0 }, cs, us, name: name.clone(), extra: ser_xs(&x1) };
        let lname = if !stream && rng.p(1, 4) { let mut n = name.clone(); n.extend(b"longer-local-name"); n } else { name.clone() };
        let l = Lfh { name: lname, ..l };
        let off = body.len();
        body.extend(l.ser());
        body.extend(&z);
        let (mut cs, mut us) = (z.len() as u32, data.len() as u32);
        if rng.p(1, 6) {
            let mut x = vec![]; x.p8(data.len() as u64); x.p8(z.len() as u64);
            let k = rng.us(x2.len() + 1);
            x2.insert(k, X { id: XZ64, data: x });
            cs = u32::MAX; us = u32::MAX;
        }
        if dd > 0 { let mut v = vec![]; if dd == 2 { v.p4(DD); } v.p4(c); v.p4(z.len() as u32); v.p4(data.len() as u32); body.extend(v); }
        let end = body.len();
        if !stream && rng.p(1, 3) { let k = rng.us(30); let g = rng.bytes(k); body.extend(g); }
        let c = Cdr { made: 798, need: 20, flags, method, time: l.time, date: l.date, crc: c, cs, us, name, extra: ser_xs(&x2), comment: vec![], disk: 0, iattr: 0, eattr: 0, off: off as u32 };
        es.push(Ent { l, c, z, data, off, end, dd });
    }
    if !stream { for i in (1..es.len()).rev() { let j = rng.us(i + 1); es.swap(i, j); } }
    let recs = es.iter().map(|e| e.c.ser()).collect();
    let mut e = Ends::plain(body, recs, b"done".to_vec());
    if rng.p(1, 5) { e = e.zip64(); }
    Arch { d: e.ser(), es }
}
/// reads to the end in pieces of random size
pub async fn slurp<Rd: futures_lite::io::AsyncRead + Unpin>(r: &mut Rd, rng: &mut Rng) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    let max = *rng.pick(&[1usize, 3, 50, 1000, 70000]);
    loop {
        let mut b = vec![0; 1 + rng.us(max)];
        let n = r.read(&mut b).await?;
        if n == 0 { return Ok(v); }
        v.extend_from_slice(&b[..n]);
    }
}
pub async fn check_with<Rd: AsyncBufRead + Unpin>(r: &mut ZipEntryReader<'_, Rd, WithEntry<'_>>, want: &[u8], want_crc: u32, rng: &mut Rng) -> R {
    let good = crc(want) == want_crc;
    match rng.below(4) {
        0 => {
            let v = slurp(r, rng).await.map_err(|e| format!("reading fails: {e:?}"))?;
            ck!(v == want, "read {} bytes {}, must be {} bytes {}", v.len(), hex(&v), want.len(), hex(want));
            let h = r.compute_hash();
            ck!(h == crc(want), "running checksum {h:08x}, must be {:08x}", crc(want));
            let h = r.compute_hash();
            ck!(h == 0, "checksum after it was taken is {h:08x}, must restart at 0");
        }
        1 if std::str::from_utf8(want).is_ok() => {
            let mut s = String::new();
            let x = r.read_to_string_checked(&mut s).await;
            match x {
                Ok(n) => { ck!(good, "read_to_string_checked accepts data with checksum {:08x} for {want_crc:08x}", crc(want)); ck!(n == want.len() && s.as_bytes() == want, "read_to_string_checked returns {n} and {s:?}"); }
                Err(ZipError::CRC32CheckError) => ck!(!good, "read_to_string_checked rejects data with the right checksum"),
                Err(e) => return Err(format!("read_to_string_checked fails: {e:?}")),
            }
        }
        k => {
            // part of it unchecked, the rest checked
            let mut v = vec![9u8];
            let mut first = vec![];
            if k == 2 && !want.is_empty() {
                let mut b = vec![0; 1 + rng.us(want.len().min(300))];
                let n = r.read(&mut b).await.map_err(|e| format!("reading fails: {e:?}"))?;
                first = b[..n].to_vec();
            }
            match r.read_to_end_checked(&mut v).await {
                Ok(n) => {
                    ck!(good, "read_to_end_checked accepts data with checksum {:08x} for {want_crc:08x}", crc(want));
                    ck!(n + first.len() == want.len() && v[0] == 9 && [&first[..], &v[1..]].concat() == want, "read_to_end_checked returns {n} and {} bytes", v.len());
                }
                Err(ZipError::CRC32CheckError) => ck!(!good, "read_to_end_checked rejects data with the right checksum"),
                Err(e) => return Err(format!("read_to_end_checked fails: {e:?}")),
            }
        }
    }
    Ok(())
}
pub struct Tmp(pub std::path::PathBuf);
impl Tmp {
    pub fn new(d: &[u8]) -> Tmp {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vnat-{}-{}.zip", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::write(&p, d).unwrap();
        Tmp(p)
    }
}
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
pub fn tokio_rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().build().unwrap() }

/// the bytes entry e must deliver, given the archive
fn wrong_index(e: Result<(), ZipError>) -> R { match e { Err(ZipError::EntryIndexOutOfBounds) => Ok(()), Err(e) => Err(format!("index out of range gives {e:?}")), Ok(()) => Err("index out of range is accepted".into()) } }

// ---- C06 -------------------------------------------------------------------------------------------------------------
pub fn c06(rng: &mut Rng, cx: &mut Cx) -> R {
    let a = gen_arch(rng, false, 6);
    cx.eval(&a.d);
    cx.sample(|| format!("{} entries at {:?}", a.es.len(), a.es.iter().map(|e| e.off).collect::<Vec<_>>()));
    window(&a, rng).map_err(|e| format!("{e}\nsource: {}", hex(&a.d)))?;
    // one local signature damaged: that entry is an error, all others still read
    if !a.es.is_empty() {
        let k = rng.us(a.es.len());
        let mut d = a.d.clone();
        let b = rng.us(4);
        d[a.es[k].off + b] ^= 1 << rng.below(8);
        let bad = g4(&d, a.es[k].off);
        block(async {
            let r = mem::ZipFileReader::new(d.clone()).await.map_err(|e| format!("{e:?}"))?;
            match r.reader_without_entry(k).await.map(|_| ()) { Err(ZipError::UnexpectedHeaderError(x, y)) if x == bad && y == LFH => {}, x => return Err(format!("local signature {bad:08x}: memory reader gives {x:?}")) }
            match r.reader_with_entry(k).await.map(|_| ()) { Err(ZipError::UnexpectedHeaderError(..)) => {}, x => return Err(format!("local signature {bad:08x}: memory reader gives {x:?}")) }
            let mut r = seek::ZipFileReader::new(Src::rnd(&d, rng)).await.map_err(|e| format!("{e:?}"))?;
            match r.reader_without_entry(k).await.map(|_| ()) { Err(ZipError::UnexpectedHeaderError(..)) => {}, x => return Err(format!("local signature {bad:08x}: seek reader gives {x:?}")) }
            match r.reader_with_entry(k).await.map(|_| ()) { Err(ZipError::UnexpectedHeaderError(..)) => {}, x => return Err(format!("local signature {bad:08x}: seek reader gives {x:?}")) }
            match r.into_entry(k).await.map(|_| ()) { Err(ZipError::UnexpectedHeaderError(..)) => {}, x => return Err(format!("local signature {bad:08x}: seek reader gives {x:?}")) }
            Ok(())
        }).map_err(|e| format!("{e}\nsource: {}", hex(&d)))?;
    }
    if cx.index % 40 == 0 {
        // an entry beyond 4 GiB, with a local name and extra field of the greatest length
        let data = gen_data(rng);
        let l = Lfh { cs: data.len() as u32, us: data.len() as u32, name: vec![b'n'; 65535], extra: X { id: 9, data: vec![3; 65531] }.ser(), ..Default::default() };
        let off = rng.range(1 << 31, 1 << 40);
        let mut x = vec![]; x.p8(off);
        let c = Cdr { crc: crc(&data), cs: data.len() as u32, us: data.len() as u32, name: b"n".to_vec(), extra: X { id: XZ64, data: x }.ser(), off: u32::MAX, ..Default::default() };
        let mut ent = l.ser(); ent.extend(&data);
        let cd = off + ent.len() as u64 + rng.below(1000);
        let mut tail = c.ser();
        let z = Eocd64 { rec_size: 44, n: 1, n_disk: 1, size: tail.len() as u64, off: cd, ..Default::default() }.ser();
        let zo = cd + tail.len() as u64;
        tail.extend(z); tail.extend(Loc64 { disk: 0, off: zo, total: 1 }.ser());
        tail.extend(Eocd { n: 0xffff, n_disk: 0xffff, size: u32::MAX, off: u32::MAX, ..Default::default() }.ser());
        let len = cd + tail.len() as u64;
        let s = Sparse::new(vec![(off, ent), (cd, tail)], len);
        block(async {
            let mut r = seek::ZipFileReader::new(s).await.map_err(|e| format!("opening with an entry at {off}: {e:?}"))?;
            let mut e = r.reader_with_entry(0).await.map_err(|e| format!("entry at {off}: {e:?}"))?;
            check_with(&mut e, &data, crc(&data), rng).await
        })?;
    }
    Ok(())
}
fn window(a: &Arch, rng: &mut Rng) -> R {
    let n = a.es.len();
    block(async {
        let m = mem::ZipFileReader::new(a.d.clone()).await.map_err(|e| format!("opening fails: {e:?}"))?;
        let mut s = seek::ZipFileReader::new(Src::rnd(&a.d, rng)).await.map_err(|e| format!("opening fails: {e:?}"))?;
        wrong_index(m.reader_without_entry(n).await.map(|_| ()))?;
        wrong_index(m.reader_with_entry(n + rng.us(5)).await.map(|_| ()))?;
        wrong_index(s.reader_without_entry(n + rng.us(5)).await.map(|_| ()))?;
        wrong_index(s.reader_with_entry(usize::MAX).await.map(|_| ()))?;
        wrong_index(s.clone().into_entry(n).await.map(|_| ()))?;
        if n == 0 { return Ok(()); }
        for _ in 0..3 + rng.us(6) {
            let k = rng.us(n);
            let e = &a.es[k];
            let w = |x: String| format!("entry {k} (method {}): {x}", e.c.method);
            let io = |x: std::io::Error| w(format!("reading fails: {x:?}"));
            let got = match rng.below(6) {
                0 => slurp(&mut m.reader_without_entry(k).await.map_err(|e| w(format!("{e:?}")))?, rng).await.map_err(io)?,
                1 => { let mut r = m.reader_with_entry(k).await.map_err(|e| w(format!("{e:?}")))?; check_with(&mut r, &e.data, e.c.crc, rng).await.map_err(w)?; continue }
                2 => slurp(&mut s.reader_without_entry(k).await.map_err(|e| w(format!("{e:?}")))?, rng).await.map_err(io)?,
                3 => { let mut r = s.reader_with_entry(k).await.map_err(|e| w(format!("{e:?}")))?;
                    ck!(r.entry().filename().as_bytes() == s_name(e), "entry {k}: the reader's entry is {:?}", r.entry().filename()); check_with(&mut r, &e.data, e.c.crc, rng).await.map_err(w)?; continue }
                4 => { // abandoned in the middle
                    let mut r = s.reader_without_entry(k).await.map_err(|e| w(format!("{e:?}")))?; let mut b = [0; 3]; let j = r.read(&mut b).await.map_err(io)?;
                    ck!(b[..j] == e.data[..j] && (j > 0 || e.data.is_empty()), "entry {k}: first bytes {:?}", &b[..j]); continue }
                _ => slurp(&mut s.clone().into_entry(k).await.map_err(|e| w(format!("{e:?}")))?, rng).await.map_err(io)?,
            };
            ck!(got == e.data, "entry {k} (method {}) delivers {} bytes {}, must be {} bytes {}", e.c.method, got.len(), hex(&got), e.data.len(), hex(&e.data));
        }
        Ok(())
    })?;
    if rng.p(1, 10) {
        let t = Tmp::new(&a.d);
        tokio_rt().block_on(async {
            let f = async_zip::tokio::read::fs::ZipFileReader::new(&t.0).await.map_err(|e| format!("file reader: opening fails: {e:?}"))?;
            wrong_index(f.reader_without_entry(n).await.map(|_| ()))?;
            wrong_index(f.reader_with_entry(n).await.map(|_| ()))?;
            for k in 0..n {
                let e = &a.es[k];
                let mut r = f.reader_without_entry(k).await.map_err(|e| format!("file reader: {e:?}"))?;
                let got = slurp(&mut r, rng).await.map_err(|e| format!("file reader: {e:?}"))?;
                ck!(got == e.data, "file reader: entry {k} delivers {}", hex(&got));
                let mut r = f.reader_with_entry(k).await.map_err(|e| format!("file reader: {e:?}"))?;
                check_with(&mut r, &e.data, e.c.crc, rng).await.map_err(|x| format!("file reader: entry {k}: {x}"))?;
            }
            Ok::<(), String>(())
        })?;
    }
    Ok(())
}
fn s_name(e: &Ent) -> Vec<u8> { decode(&e.c.name, e.c.flags & 0x800 != 0, &read_xs(&e.c.extra).unwrap(), XPATH).raw }

// ---- C07 -------------------------------------------------------------------------------------------------------------
pub fn c07(rng: &mut Rng, cx: &mut Cx) -> R {
    let a = gen_arch(rng, true, 5);
    cx.eval(&a.d);
    let mut d = a.d.clone();
    // what follows the entries: the directory, or the end record, or something unexpected, or an unsupported entry
    let body_end = a.es.iter().map(|e| e.end).max().unwrap_or(0);
    let mut tail_err: Option<Vec<Ek>> = None;
    match rng.below(6) {
        0 => { let mut v = vec![]; let s = *rng.pick(&[0u32, 0x08074b50, 0x07064b50, 0x04034b51, 0x05034b50, u32::MAX]); v.p4(s); v.extend(rng.bytes(40)); d.truncate(body_end); d.extend(v); tail_err = Some(vec![Ek::Header(s, LFH)]); }
        1 => { d.truncate(body_end); d.extend(Lfh { flags: 8, method: 0, name: b"x".to_vec(), ..Default::default() }.ser()); d.extend([0; 40]); tail_err = Some(vec![Ek::Unsupported]); }
        2 => { d.truncate(body_end); d.extend(Lfh { flags: 1 | if rng.p(1, 2) { 0x800 } else { 0 }, method: *rng.pick(&[0u16, 8]), name: b"x".to_vec(), ..Default::default() }.ser()); d.extend([0; 40]); tail_err = Some(vec![Ek::Unsupported]); }
        3 => { d.truncate(body_end); let k = rng.us(4); let t = Cdr::default().ser(); d.extend(&t[..k]); tail_err = Some(vec![Ek::Eof]); }
        _ => {}
    }
    cx.sample(|| format!("{} entries, methods {:?}, descriptors {:?}, tail {tail_err:?}", a.es.len(), a.es.iter().map(|e| e.c.method).collect::<Vec<_>>(), a.es.iter().map(|e| e.dd).collect::<Vec<_>>()));
    block(async {
        let mut z = stream::ZipFileReader::new(Src::rnd(&d, rng));
        for (k, e) in a.es.iter().enumerate() {
            let w = |x: String| format!("streaming entry {k} (method {}, descriptor {}): {x}", e.c.method, e.dd);
            let src = z.into_inner().await;
            let pos = src.pos;
            z = stream::ZipFileReader::new(src);
            ck!(pos == e.off as u64, "before entry {k} the source is at {pos}, must be at {}", e.off);
            if rng.p(1, 2) {
                let mut r = z.next_with_entry().await.map_err(|e| w(format!("{e:?}")))?.ok_or_else(|| w("ends early".into()))?;
                let o = { let c = Cdr { flags: e.l.flags, method: e.l.method, time: e.l.time, date: e.l.date, crc: e.l.crc, cs: e.l.cs, us: e.l.us, name: e.l.name.clone(), extra: e.l.extra.clone(), ..Default::default() }; let (b, mut p) = (c.ser(), 0); o_record(&b, &mut p).map_err(|e| format!("{e:?}"))? };
                ck_entry(k, r.reader().entry(), &o, true)?;
                match rng.below(4) {
                    0 => { if e.l.flags & 8 == 0 { check_with(r.reader_mut(), &e.data, e.l.crc, rng).await.map_err(w)?; } else { let v = slurp(r.reader_mut(), rng).await.map_err(|e| w(format!("{e:?}")))?; ck!(v == e.data, "{}", w(format!("delivers {}", hex(&v)))); } z = r.done().await.map_err(|e| w(format!("done: {e:?}")))?; }
                    1 => { let mut b = vec![0; rng.us(50)]; let n = r.reader_mut().read(&mut b).await.map_err(|e| w(format!("{e:?}")))?; ck!(b[..n] == e.data[..n], "{}", w("wrong first bytes".into())); z = r.skip().await.map_err(|e| w(format!("skip: {e:?}")))?; }
                    _ => z = r.skip().await.map_err(|e| w(format!("skip: {e:?}")))?,
                }
            } else {
                let mut r = z.next_without_entry().await.map_err(|e| w(format!("{e:?}")))?.ok_or_else(|| w("ends early".into()))?;
                match rng.below(4) {
                    0 => { let v = slurp(r.reader_mut(), rng).await.map_err(|e| w(format!("{e:?}")))?; ck!(v == e.data, "{}", w(format!("delivers {}", hex(&v)))); z = r.done().await.map_err(|e| w(format!("done: {e:?}")))?; }
                    1 if !e.data.is_empty() => {
                        // finishing too early is an error, and the reader is then used up
                        let k = rng.us(e.data.len());
                        let mut b = vec![0; k];
                        r.reader_mut().read_exact(&mut b).await.map_err(|e| w(format!("{e:?}")))?;
                        ck!(b == e.data[..k], "{}", w("wrong first bytes".into()));
                        match r.done().await { Err(ZipError::EOFNotReached) => return Ok(()), Err(e) => return Err(w(format!("finishing early gives {e:?}"))), Ok(_) => return Err(w(format!("finishing after {k} of {} bytes is accepted", e.data.len()))) }
                    }
                    2 => { let mut v = vec![0; e.data.len()]; r.reader_mut().read_exact(&mut v).await.map_err(|e| w(format!("{e:?}")))?; ck!(v == e.data, "{}", w(format!("delivers {}", hex(&v)))); z = r.done().await.map_err(|e| w(format!("done after exactly all bytes: {e:?}")))?; }
                    _ => z = r.skip().await.map_err(|e| w(format!("skip: {e:?}")))?,
                }
            }
        }
        let src = z.into_inner().await;
            let pos = src.pos;
            z = stream::ZipFileReader::new(src);
        ck!(pos == body_end as u64, "after the last entry the source is at {pos}, must be at {body_end}");
        let k = rng.p(1, 2);
        let x = if k { z.next_with_entry().await.map(|x| x.is_some()) } else { z.next_without_entry().await.map(|x| x.is_some()) };
        match (x, tail_err) {
            (Ok(false), None) => Ok(()),
            (Err(e), Some(ks)) if ks.contains(&kind(&e)) => Ok(()),
            (x, t) => Err(format!("after the last entry: {x:?}, must be {}", t.map_or("the end".into(), |t| format!("{t:?}")))),
        }
    }).map_err(|e| format!("{e}\nsource: {}", hex(&d)))
}
// ---- C08 -------------------------------------------------------------------------------------------------------------
pub fn c08(rng: &mut Rng, cx: &mut Cx) -> R {
    let data = if cx.index % 3 == 0 { gen_text(rng) } else { gen_data(rng) };
    let method = METHODS[rng.us(7)].0;
    let z = encode(method, &data, 6);
    let mut c32 = crc(&data);
    match rng.below(4) { 0 => c32 ^= 1 << rng.below(32), 1 => c32 = rng.u32x(), _ => {} }
    // damaged stored data with the original checksum
    let (mut z, mut data) = (z, data);
    if method == 0 && !z.is_empty() && rng.p(1, 3) { let k = rng.us(z.len()); z[k] ^= 1 << rng.below(8); data = z.clone(); }
    let l = Lfh { method, crc: c32, cs: z.len() as u32, us: data.len() as u32, name: b"n".to_vec(), ..Default::default() };
    let mut b = l.ser();
    b.extend(&z);
    let c = Cdr { method, crc: c32, cs: z.len() as u32, us: data.len() as u32, name: b"n".to_vec(), ..Default::default() };
    let d = Ends::plain(b, vec![c.ser()], vec![]).ser();
    cx.eval(&(&d, rng.next()));
    cx.sample(|| format!("{} bytes by method {method}, recorded {c32:08x}, actual {:08x}", data.len(), crc(&data)));
    block(async {
        match rng.below(3) {
            0 => { let m = mem::ZipFileReader::new(d.clone()).await.map_err(|e| format!("{e:?}"))?; let mut r = m.reader_with_entry(0).await.map_err(|e| format!("{e:?}"))?; check_with(&mut r, &data, c32, rng).await }
            1 => { let mut m = seek::ZipFileReader::new(Src::rnd(&d, rng)).await.map_err(|e| format!("{e:?}"))?; let mut r = m.reader_with_entry(0).await.map_err(|e| format!("{e:?}"))?; check_with(&mut r, &data, c32, rng).await }
            _ => { let mut r = stream::ZipFileReader::new(Src::rnd(&d, rng)).next_with_entry().await.map_err(|e| format!("{e:?}"))?.ok_or("no entry")?; check_with(r.reader_mut(), &data, c32, rng).await }
        }
    }).map_err(|e| format!("{e}\nsource: {}", hex(&d)))
}
// ---- C19 -------------------------------------------------------------------------------------------------------------
pub fn c19(rng: &mut Rng, cx: &mut Cx) -> R {
    let mut d = match rng.below(8) {
        0 => { let n = rng.us(200); rng.bytes(n) }
        1 => { // counts and offsets gone wild
            let mut e = Ends::plain(vec![0; rng.us(30)], vec![gen_cdr(rng).ser()], vec![]).zip64();
            if rng.p(1, 2) { e.e = Eocd { disk: 0, cd_disk: 0, n_disk: 0xffff, n: 0xffff, size: u32::MAX, off: u32::MAX, comment_len: rng.u16x() }; }
            let z = e.z64.as_mut().unwrap();
            let n = rng.u64x();
            if rng.p(2, 3) { z.0.n = n; z.0.n_disk = n; }
            if rng.p(1, 2) { z.1.off = if rng.p(1, 2) { u64::MAX - rng.below(60) } else { rng.u64x() }; }
            if rng.p(1, 2) { z.0.off = if rng.p(1, 2) { u64::MAX - rng.below(60) } else { rng.u64x() }; }
            e.ser()
        }
        2 => { let c = { let mut c = gen_cdr(rng); let n = rng.us(12); let b = rng.bytes(n); c.extra.extend(b); let k = rng.us(c.extra.len() + 1); c.extra.truncate(k); c }; Ends::plain(vec![], vec![c.ser()], vec![]).ser() }
        3 => { // sizes and offsets gone wild
            let mut a = gen_arch(rng, false, 3);
            for e in &mut a.es { if rng.p(1, 2) { let mut x = vec![]; x.p8(rng.u64x()); x.p8(rng.u64x()); x.p8(rng.u64x()); e.c.extra = X { id: XZ64, data: x }.ser(); e.c.us = u32::MAX; e.c.cs = u32::MAX; if rng.p(1, 2) { e.c.off = u32::MAX } } }
            let cd = last_sig(&a.d).map(|p| g4(&a.d, p + 16) as usize).unwrap_or(0).min(a.d.len());
            Ends::plain(a.d[..cd].to_vec(), a.es.iter().map(|e| e.c.ser()).collect(), vec![]).ser()
        }
        4 => gen_arch(rng, true, 3).d,
        _ => gen_arch(rng, false, 3).d,
    };
    for _ in 0..rng.us(4) {
        if d.is_empty() { break; }
        match rng.below(5) {
            0 => { let k = rng.us(d.len()); d[k] ^= 1 << rng.below(8) }
            1 => { let k = rng.us(d.len()); d[k] = *rng.pick(&[0u8, 0xff, 0x7f, 0x80]) }
            2 => { let k = rng.us(d.len()); let n = (k + 1 + rng.us(8)).min(d.len()); let v = *rng.pick(&[0u8, 0xff]); d[k..n].fill(v) }
            3 => { let k = rng.us(d.len() + 1); d.truncate(k) }
            _ => { let k = rng.us(d.len()); let n = rng.us(5); let b = rng.bytes(n); d.splice(k..k, b); }
        }
    }
    cx.eval(&d);
    cx.sample(|| format!("{} bytes {}", d.len(), hex(&d[..d.len().min(80)])));
    let limit = 32u64 << 20;
    crate::alloc::reset();
    let mut src = Src::rnd(&d, rng);
    if rng.p(1, 5) { src.fail_at = Some(rng.below(d.len() as u64 + 1)); }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        block(async {
            if let Ok(m) = mem::ZipFileReader::new(d.clone()).await {
                for k in 0..m.file().entries().len().min(4) {
                    let e = &m.file().entries()[k];
                    let _ = (e.dir(), e.unix_permissions(), e.header_offset(), e.header_size(), e.last_modification_date().as_chrono());
                    if let Ok(r) = m.reader_with_entry(k).await { let mut v = vec![]; let _ = r.take(1 << 16).read_to_end(&mut v).await; }
                    if d.len() < 50_000 && e.uncompressed_size() < 1 << 20 { if let Ok(mut r) = m.reader_with_entry(k).await { if e.compressed_size() < 2000 { let mut v = vec![]; let _ = r.read_to_end_checked(&mut v).await; } } }
                }
            }
            if let Ok(mut m) = seek::ZipFileReader::new(src.clone()).await {
                for k in 0..m.file().entries().len().min(4) {
                    if let Ok(r) = m.reader_without_entry(k).await { let mut v = vec![]; let _ = r.take(1 << 16).read_to_end(&mut v).await; }
                }
            }
            let mut z = stream::ZipFileReader::new(src);
            let mut r2 = Rng(7 + d.len() as u64);
            for _ in 0..6 {
                match z.next_with_entry().await {
                    Ok(Some(mut r)) => {
                        if r2.p(1, 3) { let mut b = vec![0; 1 << 15]; let _ = r.reader_mut().read(&mut b).await; match r.done().await { Ok(x) => z = x, Err(_) => break } }
                        else { match r.skip().await { Ok(x) => z = x, Err(_) => break } }
                    }
                    _ => break,
                }
            }
        })
    }));
    if let Err(p) = res {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if known_panic(&crate::last()) { return Ok(()); }
        return Err(format!("a reader panics ({m}) on the source {}", hex(&d)));
    }
    let big = crate::alloc::largest();
    ck!(big <= limit + 64 * d.len() as u64, "a reader allocates {big} bytes at once for a source of {} bytes: {}", d.len(), hex(&d));
    Ok(())
}
/// the reader half of C20: every method is decoded by its own codec
pub fn c20_read(rng: &mut Rng, cx: &mut Cx) -> R {
    let a = gen_arch(rng, false, 4);
    cx.eval(&a.d);
    window(&a, rng).map_err(|e| format!("{e}\nsource: {}", hex(&a.d)))
}
#[allow(dead_code)]
pub fn arc(d: &[u8]) -> Arc<Vec<u8>> { Arc::new(d.to_vec()) }

/// Known finding: streaming a Deflate64 entry with a data descriptor. True while it still fails.
pub fn known_deflate64() -> bool {
    let data = b"abbaababab ab ab babab".to_vec();
    (0..data.len()).any(|n| {
        let z = encode(9, &data[..n], 0);
        let mut d = Lfh { flags: 8, method: 9, name: b"a".to_vec(), ..Default::default() }.ser();
        d.extend(&z);
        d.p4(crc(&data[..n])); d.p4(z.len() as u32); d.p4(n as u32);
        let end = d.len() as u64;
        d.extend(Cdr::default().ser());
        block(async {
            let r = stream::ZipFileReader::new(Src::new(&d)).next_without_entry().await.ok()??;
            Some(r.skip().await.ok()?.into_inner().await.pos)
        }) != Some(end)
    })
}
