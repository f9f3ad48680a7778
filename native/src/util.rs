//! Randomness, checksums, sources and sinks with arbitrary schedules.
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::SeekFrom;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub type R<T = ()> = Result<T, String>;
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.us(s.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn u16x(&mut self) -> u16 { match self.below(6) { 0 => 0, 1 => 0xffff, 2 => 1 << self.below(16), 3 => self.below(300) as u16, _ => self.next() as u16 } }
    pub fn u32x(&mut self) -> u32 {
        match self.below(8) { 0 => 0, 1 => u32::MAX, 2 => u32::MAX - 1, 3 => 1 << self.below(32), 4 => self.below(300) as u32, 5 => 0x8000_0000, _ => self.next() as u32 }
    }
    pub fn u64x(&mut self) -> u64 {
        match self.below(9) { 0 => 0, 1 => u32::MAX as u64, 2 => u32::MAX as u64 + 1, 3 => u64::MAX, 4 => 1 << self.below(64), 5 => self.below(300), 6 => self.next() as u32 as u64, _ => self.next() }
    }
}

pub fn crc(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 { c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data { c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8); }
    !c
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What a case tells the runner about itself.
#[derive(Default)]
pub struct Cx {
    pub index: u64,
    pub thorough: bool,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub sample: Option<String>,
}
impl Cx {
    pub fn eval<T: Hash>(&mut self, t: &T) { self.evals += 1; self.seen.insert(h64(t)); }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.sample.is_none() { self.sample = Some(s()); } }
}

// ---- sources -----------------------------------------------------------------------------------------------------
#[derive(Clone)]
pub enum Sched { All, Rand(Rng), One }
/// A source which delivers `data` in pieces of its own choosing, sometimes pending first.
#[derive(Clone)]
pub struct Src { pub data: Arc<Vec<u8>>, pub pos: u64, pub sched: Sched, pub max: usize, pub fail_at: Option<u64>, pub pended: bool }
impl Src {
    pub fn new(data: &[u8]) -> Src { Src { data: Arc::new(data.to_vec()), pos: 0, sched: Sched::All, max: usize::MAX, fail_at: None, pended: false } }
    pub fn rnd(data: &[u8], rng: &mut Rng) -> Src {
        let sched = match rng.below(6) { 0 => Sched::All, 1 if data.len() < 5000 => Sched::One, _ => Sched::Rand(Rng(rng.next())) };
        let max = *rng.pick(&[1usize, 2, 3, 7, 30, 512, 4096, usize::MAX]);
        let max = if data.len() > 10_000 { max.max(100) } else { max };
        Src { sched, max, ..Src::new(data) }
    }
    fn piece(&mut self, want: usize) -> Poll<std::io::Result<usize>> {
        let left = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut n = want.min(left).min(self.max);
        if n > 0 {
            match &mut self.sched {
                Sched::All => {}
                Sched::One => n = 1,
                Sched::Rand(r) => {
                    if !self.pended && r.p(1, 5) { self.pended = true; return Poll::Pending; }
                    n = 1 + r.us(n);
                }
            }
        }
        self.pended = false;
        if let Some(f) = self.fail_at {
            if self.pos + n as u64 > f { return Poll::Ready(Err(std::io::Error::other("injected"))); }
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        match self.piece(b.len()) {
            Poll::Ready(Ok(n)) => {
                let p = self.pos as usize;
                if n > 0 { b[..n].copy_from_slice(&self.data[p..p + n]); }
                self.pos += n as u64;
                Poll::Ready(Ok(n))
            }
            Poll::Pending => { cx.waker().wake_by_ref(); Poll::Pending }
            x => x,
        }
    }
}
impl AsyncBufRead for Src {
    fn poll_fill_buf(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        match self.piece(8192) {
            Poll::Ready(Ok(n)) => { let p = (self.pos as usize).min(self.data.len()); Poll::Ready(Ok(&self.get_mut().data[p..p + n])) }
            Poll::Pending => { cx.waker().wake_by_ref(); Poll::Pending }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) { self.pos += amt as u64; }
}
impl AsyncSeek for Src {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        let t: i128 = match to { SeekFrom::Start(p) => p as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128 };
        if t < 0 || t > u64::MAX as i128 { return Poll::Ready(Err(std::io::Error::from(std::io::ErrorKind::InvalidInput))); }
        self.pos = t as u64;
        Poll::Ready(Ok(self.pos))
    }
}

/// A source of any size made of islands of bytes in a sea of zeros.
#[derive(Clone)]
pub struct Sparse { pub isl: Arc<Vec<(u64, Vec<u8>)>>, pub len: u64, pub pos: u64, pub buf: Vec<u8> }
impl Sparse {
    pub fn new(isl: Vec<(u64, Vec<u8>)>, len: u64) -> Sparse { Sparse { isl: Arc::new(isl), len, pos: 0, buf: vec![] } }
    pub fn get(&self, p: u64) -> u8 {
        for (o, d) in self.isl.iter() { if p >= *o && p < *o + d.len() as u64 { return d[(p - *o) as usize]; } }
        0
    }
    pub fn fill(&self, pos: u64, b: &mut [u8]) -> usize {
        let n = (self.len.saturating_sub(pos)).min(b.len() as u64) as usize;
        b[..n].fill(0);
        for (o, d) in self.isl.iter() {
            let (s, e) = (pos.max(*o), (pos + n as u64).min(*o + d.len() as u64));
            if s < e { b[(s - pos) as usize..(e - pos) as usize].copy_from_slice(&d[(s - *o) as usize..(e - *o) as usize]); }
        }
        n
    }
}
impl AsyncRead for Sparse {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let n = self.fill(self.pos, b);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Sparse {
    fn poll_fill_buf(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let mut b = vec![0; 4096];
        let n = self.fill(self.pos, &mut b);
        b.truncate(n);
        self.buf = b;
        Poll::Ready(Ok(&self.get_mut().buf))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) { self.pos += amt as u64; }
}
impl AsyncSeek for Sparse {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        let t: i128 = match to { SeekFrom::Start(p) => p as i128, SeekFrom::End(d) => self.len as i128 + d as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128 };
        if t < 0 || t > u64::MAX as i128 { return Poll::Ready(Err(std::io::Error::from(std::io::ErrorKind::InvalidInput))); }
        self.pos = t as u64;
        Poll::Ready(Ok(self.pos))
    }
}

// ---- sinks -------------------------------------------------------------------------------------------------------
pub struct SinkState {
    /// islands: (offset, bytes); consecutive small writes are merged; big all-zero writes are only counted
    pub isl: Vec<(u64, Vec<u8>)>,
    pub len: u64,
    pub ops: u64,
    pub fail_ops: Vec<u64>,
    pub failed: u64,
    pub sched: Sched,
    pub pended: bool,
    pub closed: u64,
    pub keep_all: bool,
}
/// A sink with partial, pending and failing writes; clones share what was accepted.
#[derive(Clone)]
pub struct Sink(pub Arc<Mutex<SinkState>>);
impl Sink {
    pub fn with(sched: Sched, fail_ops: Vec<u64>, keep_all: bool) -> Sink {
        Sink(Arc::new(Mutex::new(SinkState { isl: vec![], len: 0, ops: 0, fail_ops, failed: 0, sched, pended: false, closed: 0, keep_all })))
    }
    pub fn new() -> Sink { Sink::with(Sched::All, vec![], true) }
    pub fn rnd(rng: &mut Rng) -> Sink {
        let s = match rng.below(4) { 0 => Sched::All, 1 => Sched::One, _ => Sched::Rand(Rng(rng.next())) };
        Sink::with(s, vec![], true)
    }
    pub fn len(&self) -> u64 { self.0.lock().unwrap().len }
    pub fn bytes(&self) -> Vec<u8> {
        let s = self.0.lock().unwrap();
        let mut v = vec![0; s.len as usize];
        for (o, d) in &s.isl { v[*o as usize..*o as usize + d.len()].copy_from_slice(d); }
        v
    }
    pub fn sparse(&self) -> Sparse { let s = self.0.lock().unwrap(); Sparse::new(s.isl.clone(), s.len) }
    pub fn failed(&self) -> u64 { self.0.lock().unwrap().failed }
}
impl SinkState {
    fn write(&mut self, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if !b.is_empty() {
            if let Sched::Rand(r) = &mut self.sched {
                if !self.pended && r.p(1, 4) { self.pended = true; return Poll::Pending; }
            }
        }
        self.pended = false;
        self.ops += 1;
        if self.fail_ops.contains(&self.ops) { self.failed += 1; return Poll::Ready(Err(std::io::Error::other("injected"))); }
        if b.is_empty() { return Poll::Ready(Ok(0)); }
        let n = match &mut self.sched { Sched::All => b.len(), Sched::One => if b.len() > 4000 { b.len() / 3 } else { 1 }, Sched::Rand(r) => 1 + r.us(b.len()) };
        let b = &b[..n];
        // big data are known to be zeros: only their edges are looked at
        if !self.keep_all && n > (1 << 20) {
            assert!(b[..64].iter().chain(&b[n - 64..]).all(|x| *x == 0));
        } else {
            match self.isl.last_mut() {
                Some((o, d)) if *o + d.len() as u64 == self.len => d.extend_from_slice(b),
                _ => { let l = self.len; self.isl.push((l, b.to_vec())) }
            }
        }
        self.len += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let r = self.0.lock().unwrap().write(b);
        if r.is_pending() { cx.waker().wake_by_ref(); }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.0.lock().unwrap().closed += 1; Poll::Ready(Ok(())) }
}

pub fn block<T>(f: impl std::future::Future<Output = T>) -> T { futures_lite::future::block_on(f) }

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(4096);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if b.len() > n { s += &format!("...({} bytes)", b.len()); }
    s
}
