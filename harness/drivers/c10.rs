// Driver for C10: the public readers of the generated runtime against a reference cursor.
// Compiled together with a generated module; not part of the harness crate.
// args: <seed> <N> <category or "all"> <bool words: all|sample> <sequences>
#![allow(warnings)]
mod m {
    include!("module.rs");
}
use fastxdr::bytes::{Bytes, BytesMut};
use m::xdr::{DeserialiserExt, Error, WireSize};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static EVALS: AtomicU64 = AtomicU64::new(0);
static NONTRIV: AtomicU64 = AtomicU64::new(0);
static FAILS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static SEEN: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static SAMPLES: AtomicU64 = AtomicU64::new(0);
static COUNTS: Mutex<Vec<(String, u64, u64)>> = Mutex::new(Vec::new());

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

fn pad4(n: u128) -> u128 {
    (n + 3) / 4 * 4
}

/// What the reference says about one read.
enum Want<T> {
    Val(T, usize), // value, bytes consumed
    Err,
}

/// `data` seen through a view of exactly its length, inside a larger allocation.
fn view(data: &[u8], kind: usize) -> Bytes {
    let pre = [0usize, 5, 1, 3][kind % 4];
    let mut all = vec![0x11u8; pre];
    all.extend_from_slice(data);
    all.extend_from_slice(&[0x22, 0, 0, 0, 1, 0x61, 0, 0, 0]);
    match kind % 4 {
        0 => Bytes::copy_from_slice(data),
        1 => Bytes::from(all).slice(pre..pre + data.len()),
        2 => {
            let mut b = Bytes::from(all.into_boxed_slice());
            b.truncate(pre + data.len());
            let _ = b.split_to(pre);
            b
        }
        _ => {
            let mut b = BytesMut::with_capacity(all.len() + 9);
            b.extend_from_slice(&all);
            let b = b.freeze();
            let keep = b.clone();
            drop(keep);
            b.slice(pre..pre + data.len())
        }
    }
}

fn fail(cat: &str, msg: String) {
    let mut f = FAILS.lock().unwrap();
    if f.len() < 200 {
        f.push((cat.to_string(), msg));
    }
}

fn check<T: PartialEq + std::fmt::Debug>(
    cat: &'static str,
    nontrivial: bool,
    data: &[u8],
    kind: usize,
    call: &str,
    read: impl FnOnce(&mut Bytes) -> Result<T, Error>,
    want: Want<T>,
) {
    let e = EVALS.fetch_add(1, Relaxed);
    if nontrivial {
        NONTRIV.fetch_add(1, Relaxed);
    }
    let mut b = view(data, kind);
    let got = catch_unwind(AssertUnwindSafe(|| read(&mut b)));
    let show = |d: &[u8]| {
        let s: String = d.iter().take(80).map(|x| format!("{:02x}", x)).collect();
        format!("{}{} ({} bytes remaining)", s, if d.len() > 80 { ".." } else { "" }, d.len())
    };
    if e % 10007 == 5003 && data.len() < 60 && SAMPLES.fetch_add(1, Relaxed) < 1 {
        let w = match &want {
            Want::Val(v, k) => format!("{:?}, advance {}", v, k),
            Want::Err => "error".into(),
        };
        println!("SAMPLE\t{} on {}: expected {}; got {:?}, {} bytes left", call, show(data), w, got.as_ref().map_err(|_| "panic"), b.len());
    }
    match (got, want) {
        (Err(_), _) => fail(cat, format!("{} on {} panics", call, show(data))),
        (Ok(Err(_)), Want::Err) => {}
        (Ok(Err(e)), Want::Val(v, _)) => fail(cat, format!("{} on {} returns Err({:?}), must return {:?}", call, show(data), e, v)),
        (Ok(Ok(g)), Want::Err) => fail(cat, format!("{} on {} returns {:?}, must be an error", call, show(data), g)),
        (Ok(Ok(g)), Want::Val(v, used)) => {
            if g != v {
                fail(cat, format!("{} on {} returns {:?}, must return {:?}", call, show(data), g, v));
            } else if b.len() > data.len() || data.len() - b.len() != used {
                fail(cat, format!("{} on {} advances by {}, must advance by {}", call, show(data), data.len() as i64 - b.len() as i64, used));
            } else if b[..] != data[used..] {
                fail(cat, format!("{} on {} leaves other bytes than those following the value", call, show(data)));
            }
        }
    }
}

// ---- element types of counted arrays ------------------------------------------------------
#[derive(Debug, PartialEq, Clone)]
struct Word(u32);
impl TryFrom<Bytes> for Word {
    type Error = Error;
    fn try_from(mut b: Bytes) -> Result<Self, Error> {
        Ok(Word(b.read_u32()?))
    }
}
impl WireSize for Word {
    fn wire_size(&self) -> usize {
        4
    }
}
#[derive(Debug, PartialEq, Clone)]
struct Quad([u64; 8]);
impl TryFrom<Bytes> for Quad {
    type Error = Error;
    fn try_from(mut b: Bytes) -> Result<Self, Error> {
        let mut q = [0; 8];
        q[0] = b.read_u64()?;
        Ok(Quad(q))
    }
}
impl WireSize for Quad {
    fn wire_size(&self) -> usize {
        8
    }
}
#[derive(Debug, PartialEq, Clone)]
struct Text(String);
impl TryFrom<Bytes> for Text {
    type Error = Error;
    fn try_from(mut b: Bytes) -> Result<Self, Error> {
        Ok(Text(b.read_string(None)?))
    }
}
impl WireSize for Text {
    fn wire_size(&self) -> usize {
        4 + (self.0.len() + 3) / 4 * 4
    }
}
/// K raw bytes: sizes that are no multiple of four, so the array itself needs padding.
#[derive(Debug, PartialEq, Clone)]
struct Raw<const K: usize>([u8; K]);
impl<const K: usize> TryFrom<Bytes> for Raw<K> {
    type Error = Error;
    fn try_from(b: Bytes) -> Result<Self, Error> {
        if b.len() < K {
            return Err(Error::InvalidLength);
        }
        let mut a = [0; K];
        a.copy_from_slice(&b[..K]);
        Ok(Raw(a))
    }
}
impl<const K: usize> WireSize for Raw<K> {
    fn wire_size(&self) -> usize {
        K
    }
}

trait Elem: Sized + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    fn take(d: &[u8]) -> Option<(Self, usize)>;
    fn fold(&self) -> u64;
}
fn be32(d: &[u8]) -> Option<u32> {
    Some(u32::from_be_bytes([*d.first()?, *d.get(1)?, *d.get(2)?, *d.get(3)?]))
}
impl Elem for Word {
    const NAME: &'static str = "4-byte";
    fn take(d: &[u8]) -> Option<(Self, usize)> {
        Some((Word(be32(d)?), 4))
    }
    fn fold(&self) -> u64 {
        self.0 as u64
    }
}
impl Elem for Quad {
    const NAME: &'static str = "8-byte";
    fn take(d: &[u8]) -> Option<(Self, usize)> {
        let v = (be32(d)? as u64) << 32 | be32(d.get(4..)?)? as u64;
        let mut q = [0; 8];
        q[0] = v;
        Some((Quad(q), 8))
    }
    fn fold(&self) -> u64 {
        self.0[0]
    }
}
impl Elem for Text {
    const NAME: &'static str = "string";
    fn take(d: &[u8]) -> Option<(Self, usize)> {
        let n = be32(d)? as usize;
        let p = d.get(4..)?;
        let full = pad4(n as u128);
        if (p.len() as u128) < full {
            return None;
        }
        Some((Text(String::from_utf8(p[..n].to_vec()).ok()?), 4 + full as usize))
    }
    fn fold(&self) -> u64 {
        self.0.len() as u64
    }
}
impl<const K: usize> Elem for Raw<K> {
    const NAME: &'static str = ["0", "1-byte", "2-byte", "3-byte", "4", "5-byte"][K];
    fn take(d: &[u8]) -> Option<(Self, usize)> {
        let mut a = [0; K];
        a.copy_from_slice(d.get(..K)?);
        Some((Raw(a), K))
    }
    fn fold(&self) -> u64 {
        self.0.iter().fold(0, |h, b| h << 8 | *b as u64)
    }
}

fn want_array<T: Elem>(d: &[u8], max: Option<usize>) -> Want<Vec<T>> {
    let n = match be32(d) {
        Some(n) => n as usize,
        None => return Want::Err,
    };
    if max.map(|m| n > m).unwrap_or(false) {
        return Want::Err;
    }
    let mut at = 4;
    let mut out = vec![];
    for _ in 0..n {
        match T::take(&d[at..]) {
            Some((v, k)) => {
                out.push(v);
                at += k;
            }
            None => return Want::Err,
        }
    }
    let body = at - 4;
    let full = 4 + pad4(body as u128) as usize;
    if d.len() < full {
        return Want::Err;
    }
    Want::Val(out, full)
}

fn want_var(d: &[u8], max: Option<usize>) -> Want<Vec<u8>> {
    match be32(d) {
        None => Want::Err,
        Some(n) => {
            let n = n as usize;
            if max.map(|m| n > m).unwrap_or(false) || ((d.len() - 4) as u128) < pad4(n as u128) {
                Want::Err
            } else {
                Want::Val(d[4..4 + n].to_vec(), 4 + pad4(n as u128) as usize)
            }
        }
    }
}
fn want_fixed(d: &[u8], n: usize) -> Want<Vec<u8>> {
    if (d.len() as u128) < pad4(n as u128) {
        Want::Err
    } else {
        Want::Val(d[..n].to_vec(), pad4(n as u128) as usize)
    }
}
fn want_str(d: &[u8], max: Option<usize>) -> Want<String> {
    match want_var(d, max) {
        Want::Err => Want::Err,
        Want::Val(v, k) => match String::from_utf8(v) {
            Ok(s) => Want::Val(s, k),
            Err(_) => Want::Err,
        },
    }
}
fn want_num<T>(d: &[u8], k: usize, f: impl Fn(&[u8]) -> T) -> Want<T> {
    if d.len() < k {
        Want::Err
    } else {
        Want::Val(f(&d[..k]), k)
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Op {
    U32,
    U64,
    I32,
    I64,
    F32,
    F64,
    Bool,
    Bytes(usize),
    Var(Option<usize>),
    Str(Option<usize>),
    Arr(u8, Option<usize>),
}

fn fbits32(f: f32) -> u32 {
    if f.is_nan() { 0x7fc00000 } else { f.to_bits() }
}
fn fbits64(f: f64) -> u64 {
    if f.is_nan() { 0x7ff8000000000000 } else { f.to_bits() }
}

/// runs one operation on the library and on the reference; Ok(Some(consumed)) / Ok(None) = error
fn step(b: &mut Bytes, d: &[u8], op: &Op) -> Result<Option<usize>, String> {
    macro_rules! go {
        ($got:expr, $want:expr) => {{
            let before = b.len();
            let got = match catch_unwind(AssertUnwindSafe(|| $got)) {
                Ok(g) => g,
                Err(_) => return Err("panics".into()),
            };
            match (got, $want) {
                (Err(_), Want::Err) => Ok(None),
                (Err(e), Want::Val(v, _)) => Err(format!("returns Err({:?}), must return {:?}", e, v)),
                (Ok(g), Want::Err) => Err(format!("returns {:?}, must be an error", g)),
                (Ok(g), Want::Val(v, k)) => {
                    if g != v {
                        Err(format!("returns {:?}, must return {:?}", g, v))
                    } else if before as i64 - b.len() as i64 != k as i64 {
                        Err(format!("advances by {}, must advance by {}", before as i64 - b.len() as i64, k))
                    } else if b[..] != d[k..] {
                        Err("leaves other bytes than those following the value".into())
                    } else {
                        Ok(Some(k))
                    }
                }
            }
        }};
    }
    match op {
        Op::U32 => go!(b.read_u32(), want_num(d, 4, |x| u32::from_be_bytes(x.try_into().unwrap()))),
        Op::U64 => go!(b.read_u64(), want_num(d, 8, |x| u64::from_be_bytes(x.try_into().unwrap()))),
        Op::I32 => go!(b.read_i32(), want_num(d, 4, |x| i32::from_be_bytes(x.try_into().unwrap()))),
        Op::I64 => go!(b.read_i64(), want_num(d, 8, |x| i64::from_be_bytes(x.try_into().unwrap()))),
        Op::F32 => go!(b.read_f32().map(fbits32), want_num(d, 4, |x| fbits32(f32::from_bits(u32::from_be_bytes(x.try_into().unwrap()))))),
        Op::F64 => go!(b.read_f64().map(fbits64), want_num(d, 8, |x| fbits64(f64::from_bits(u64::from_be_bytes(x.try_into().unwrap()))))),
        Op::Bool => go!(b.read_bool(), match be32(d) { Some(0) => Want::Val(false, 4), Some(1) => Want::Val(true, 4), _ => Want::Err }),
        Op::Bytes(n) => go!(b.read_bytes(*n).map(|x| x.to_vec()), want_fixed(d, *n)),
        Op::Var(m) => go!(b.read_variable_bytes(*m).map(|x| x.to_vec()), want_var(d, *m)),
        Op::Str(m) => go!(b.read_string(*m), want_str(d, *m)),
        Op::Arr(0, m) => go!(b.read_variable_array::<Word>(*m), want_array::<Word>(d, *m)),
        Op::Arr(1, m) => go!(b.read_variable_array::<Quad>(*m), want_array::<Quad>(d, *m)),
        Op::Arr(2, m) => go!(b.read_variable_array::<Text>(*m), want_array::<Text>(d, *m)),
        Op::Arr(3, m) => go!(b.read_variable_array::<Raw<1>>(*m), want_array::<Raw<1>>(d, *m)),
        Op::Arr(4, m) => go!(b.read_variable_array::<Raw<3>>(*m), want_array::<Raw<3>>(d, *m)),
        Op::Arr(_, m) => go!(b.read_variable_array::<Raw<5>>(*m), want_array::<Raw<5>>(d, *m)),
    }
}

/// runs a sequence on one buffer; stops at the first error (the buffer's state is then open)
fn run_seq(data: &[u8], kind: usize, ops: &[Op]) -> Result<usize, (usize, String)> {
    let mut b = view(data, kind);
    let mut at = 0;
    for (i, op) in ops.iter().enumerate() {
        match step(&mut b, &data[at..], op) {
            Ok(Some(k)) => at += k,
            Ok(None) => return Ok(i),
            Err(e) => return Err((i, e)),
        }
    }
    Ok(ops.len())
}

fn maxes(n: usize) -> impl Iterator<Item = Option<usize>> {
    std::iter::once(None).chain((0..=n + 1).map(Some))
}

fn fill(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.next() as u8).collect()
}
/// exactly n bytes of valid UTF-8
fn utf8(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = match rng.below(4) {
            0 if left >= 2 => 'é',
            1 if left >= 3 => '\u{4e2d}',
            2 if left >= 4 => '\u{1f600}',
            3 => '\0',
            _ => (b'a' + rng.below(26) as u8) as char,
        };
        s.push(c);
    }
    s.into_bytes()
}

fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= n {
                    break;
                }
                f(i)
            });
        }
    });
}

fn with_len(n: u32, body: &[u8]) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let nmax: usize = a[2].parse().unwrap();
    let only = a[3].as_str();
    let all_bools = a[4] == "all";
    let nseq: usize = a[5].parse().unwrap();
    let sel = |c: &str| only == "all" || only == c;
    let mark = |c: &str, e0: u64, n0: u64| {
        COUNTS.lock().unwrap().push((c.to_string(), EVALS.load(Relaxed) - e0, NONTRIV.load(Relaxed) - n0));
    };
    let snap = || (EVALS.load(Relaxed), NONTRIV.load(Relaxed));
    let body: Vec<u8> = fill(&mut Rng(seed), 2 * nmax + 64);

    if sel("fixed-opaque") {
        let (e0, n0) = snap();
        par(nmax + 1, |n| {
            for r in 0..=nmax + 8 {
                for kind in 0..4 {
                    let d = &body[..r];
                    check("fixed-opaque", r > 0, d, kind, &format!("read_bytes({})", n), |b| b.read_bytes(n).map(|x| x.to_vec()), want_fixed(d, n));
                }
            }
        });
        for n in (0..12).flat_map(|k| {
            [usize::MAX - k, (u32::MAX as usize).wrapping_add(k), u32::MAX as usize - k, i32::MAX as usize + k, i64::MAX as usize - k, (i64::MAX as usize).wrapping_add(k)]
        }) {
            for r in 0..20 {
                let d = &body[..r];
                check("fixed-opaque", true, d, r, &format!("read_bytes({})", n), |b| b.read_bytes(n).map(|x| x.to_vec()), want_fixed(d, n));
            }
        }
        mark("fixed-opaque", e0, n0);
    }
    let big_lens: Vec<u32> = (0..9).flat_map(|k| [u32::MAX - k, 0x8000_0000 - 4 + k, 0x4000_0000 - 4 + k, 0x10000 - 4 + k]).collect();
    let big_max: Vec<Option<usize>> = vec![None, Some(0), Some(3), Some(u32::MAX as usize), Some(usize::MAX), Some(0x7fff_ffff)];
    if sel("counted-opaque") {
        let (e0, n0) = snap();
        par(nmax + 1, |n| {
            let full = with_len(n as u32, &body);
            for r in 0..=nmax + 12 {
                for max in maxes(nmax) {
                    let d = &full[..r];
                    check("counted-opaque", r > 3, d, r + n, &format!("read_variable_bytes({:?})", max), |b| b.read_variable_bytes(max).map(|x| x.to_vec()), want_var(d, max));
                }
            }
        });
        for &n in &big_lens {
            let full = with_len(n, &body);
            for max in &big_max {
                for r in [0, 3, 4, 5, 8, 9, 40] {
                    let d = &full[..r];
                    check("counted-opaque", true, d, r, &format!("read_variable_bytes({:?})", max), |b| b.read_variable_bytes(*max).map(|x| x.to_vec()), want_var(d, *max));
                }
            }
        }
        mark("counted-opaque", e0, n0);
    }
    if sel("string") {
        let (e0, n0) = snap();
        par(nmax + 1, |n| {
            let mut rng = Rng(seed ^ n as u64);
            let good = {
                let mut g = utf8(&mut rng, n);
                g.extend_from_slice(&body);
                with_len(n as u32, &g)
            };
            let raw = with_len(n as u32, &body);
            for r in 0..=nmax + 12 {
                for max in maxes(nmax) {
                    for full in [&good, &raw] {
                        let d = &full[..r];
                        check("string", r > 3, d, r + n, &format!("read_string({:?})", max), |b| b.read_string(max), want_str(d, max));
                    }
                }
            }
        });
        for &n in &big_lens {
            let full = with_len(n, b"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz");
            for max in &big_max {
                for r in [0, 3, 4, 5, 8, 9, 40] {
                    let d = &full[..r];
                    check("string", true, d, r, &format!("read_string({:?})", max), |b| b.read_string(*max), want_str(d, *max));
                }
            }
        }
        // contents: every scalar value alone, first, in the middle and last
        par(0x1100, |page| {
            for c in (page as u32 * 256..page as u32 * 256 + 256).filter_map(char::from_u32) {
                for t in [format!("{}", c), format!("{}x", c), format!("x{}", c), format!("ab{}cd", c), format!("{}{}", c, c)] {
                    let mut d = with_len(t.len() as u32, t.as_bytes());
                    d.resize((d.len() + 3) / 4 * 4, 0);
                    check("string", true, &d, t.len(), "read_string(None)", |b| b.read_string(None), want_str(&d, None));
                }
            }
        });
        // every byte string of up to three bytes, and what surrounds the well-formed four-byte ones
        par(256, |a| {
            let a = a as u8;
            let go = |t: &[u8]| {
                let mut d = with_len(t.len() as u32, t);
                d.resize((d.len() + 3) / 4 * 4, 0);
                check("string", true, &d, t.len(), "read_string(Some(4))", |b| b.read_string(Some(4)), want_str(&d, Some(4)));
            };
            go(&[a]);
            for b in 0..=255u8 {
                go(&[a, b]);
                for c in 0..=255u8 {
                    go(&[a, b, c]);
                    if a >= 0xef && c & 0x0f == 0x0f || c & 0x3f == 0 {
                        for e in [0x00, 0x7f, 0x80, 0xbf, 0xc0] {
                            go(&[a, b, c, e]);
                        }
                    }
                }
            }
        });
        mark("string", e0, n0);
    }
    if sel("counted-array") {
        let (e0, n0) = snap();
        fn arrays<T: Elem + TryFrom<Bytes, Error = Error> + WireSize>(n: usize, full: &[u8], rs: &mut dyn Iterator<Item = usize>, max: &mut dyn Iterator<Item = Option<usize>>) {
            let ms: Vec<_> = max.collect();
            for r in rs {
                for m in &ms {
                    let d = &full[..r.min(full.len())];
                    check("counted-array", r > 3, d, r + n, &format!("read_variable_array::<{}>({:?})", T::NAME, m), |b| b.read_variable_array::<T>(*m), want_array::<T>(d, *m));
                }
            }
        }
        par(nmax + 1, |n| {
            let mut rng = Rng(seed ^ 77 ^ n as u64);
            let full = with_len(n as u32, &fill(&mut rng, 9 * nmax + 64));
            let small = nmax.min(40);
            if n > small {
                arrays::<Raw<1>>(n, &full, &mut (0..=nmax + 12), &mut [None, Some(n - 1), Some(n), Some(n + 1)].into_iter());
                arrays::<Word>(n, &full, &mut (4 * n..=4 * n + 12), &mut [None, Some(n - 1), Some(n), Some(n + 1)].into_iter());
                return;
            }
            arrays::<Word>(n, &full, &mut (0..=4 * small + 12), &mut maxes(small));
            arrays::<Quad>(n, &full, &mut (0..=8 * small + 12), &mut maxes(small));
            arrays::<Raw<1>>(n, &full, &mut (0..=small + 12), &mut maxes(small));
            arrays::<Raw<2>>(n, &full, &mut (0..=2 * small + 12), &mut maxes(small));
            arrays::<Raw<3>>(n, &full, &mut (0..=3 * small + 12), &mut maxes(small));
            arrays::<Raw<5>>(n, &full, &mut (0..=5 * small + 12), &mut maxes(small));
            // strings: a well-formed body, one with a bad element, arbitrary bytes
            let mut bodyv = vec![];
            for _ in 0..n {
                let l = rng.below(9);
                let s = utf8(&mut rng, l);
                bodyv.extend_from_slice(&(l as u32).to_be_bytes());
                bodyv.extend_from_slice(&s);
                bodyv.resize((bodyv.len() + 3) / 4 * 4, 0);
            }
            let good = bodyv.len() + 4;
            bodyv.extend_from_slice(&body[..32]);
            let texts = with_len(n as u32, &bodyv);
            arrays::<Text>(n, &texts, &mut (0..=good + 12), &mut [None, Some(0), Some(n.saturating_sub(1)), Some(n), Some(n + 1)].into_iter());
            let mut bad = texts.clone();
            let at = rng.below(good);
            bad[at] ^= 0x80;
            arrays::<Text>(n, &bad, &mut (0..=good + 12), &mut [None, Some(n)].into_iter());
            arrays::<Text>(n, &full, &mut (0..=64), &mut [None, Some(n)].into_iter());
        });
        for &n in &big_lens {
            let full = with_len(n, &body);
            arrays::<Word>(n as usize, &full, &mut [0, 3, 4, 5, 8, 9, 40].into_iter(), &mut big_max.iter().copied());
            arrays::<Quad>(n as usize, &full, &mut [0, 3, 4, 5, 8, 9, 40].into_iter(), &mut big_max.iter().copied());
            arrays::<Text>(n as usize, &full, &mut [0, 3, 4, 5, 8, 9, 40].into_iter(), &mut big_max.iter().copied());
            arrays::<Raw<3>>(n as usize, &full, &mut [0, 3, 4, 5, 8, 9, 40].into_iter(), &mut big_max.iter().copied());
        }
        mark("counted-array", e0, n0);
    }
    if sel("long") {
        let (e0, n0) = snap();
        // payloads and arrays around every power of two, all remaining lengths near the end
        let dig = |v: &[u8]| -> (usize, u64) {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for c in v.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
            }
            (v.len(), h)
        };
        let top = if nmax > 100 { 26 } else { 24 };
        let mut rng = Rng(seed ^ 31);
        let pool: Vec<u8> = {
            let mut v = utf8(&mut rng, 997);
            while v.len() < (1 << top) + 32 {
                v.extend_from_within(..v.len().min((1 << top) + 32 - v.len()));
            }
            v
        };
        let mut lens: Vec<usize> = vec![];
        for k in 6..=top {
            let ds: &[i64] = if k <= 17 { &[-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5] } else if k <= 20 { &[-1, 0, 1, 2, 3] } else { &[1, 3] };
            lens.extend(ds.iter().map(|d| ((1i64 << k) + d) as usize));
        }
        let mut r2 = Rng(seed ^ 32);
        lens.extend((0..200).map(|_| 100 + r2.below(1 << (7 + r2.clone().below(12)))));
        par(lens.len(), |i| {
            let n = lens[lens.len() - 1 - i];
            let p = pad4(n as u128) as usize - n;
            let mut rs: Vec<usize> = vec![n / 2, n - 1, n, n + p, n + p + 1, n + p + 4, n + p + 7];
            rs.extend((0..p).map(|k| n + k));
            rs.sort();
            rs.dedup();
            for (j, r) in rs.into_iter().enumerate() {
                let d = &pool[..r];
                let w = match want_fixed(d, n) {
                    Want::Val(v, k) => Want::Val(dig(&v), k),
                    Want::Err => Want::Err,
                };
                check("long", true, d, i + j, &format!("read_bytes({})", n), |b| b.read_bytes(n).map(|x| dig(&x)), w);
                let full = with_len(n as u32, d);
                for max in [None, Some(n - 1), Some(n), Some(n + 1)] {
                    if n > 1 << 20 && max == Some(n + 1) {
                        continue;
                    }
                    let w = match want_var(&full, max) {
                        Want::Val(v, k) => Want::Val(dig(&v), k),
                        Want::Err => Want::Err,
                    };
                    check("long", true, &full, i + j, &format!("read_variable_bytes({:?}) (length {})", max, n), |b| b.read_variable_bytes(max).map(|x| dig(&x)), w);
                    // (the pool repeats whole characters, a cut at n may split one)
                    for bad in [false, true] {
                        let mut full = full.clone();
                        if !bad {
                            let end = (n.min(r) + 4).min(full.len());
                            for k in (end.saturating_sub(4).max(4)..end).rev() {
                                let lead = full[k] >= 0xc0;
                                full[k] = b'z';
                                if lead {
                                    break;
                                }
                            }
                        }
                        let w = match want_str(&full, max) {
                            Want::Val(v, k) => Want::Val(dig(v.as_bytes()), k),
                            Want::Err => Want::Err,
                        };
                        check("long", true, &full, i + j, &format!("read_string({:?}) (length {})", max, n), |b| b.read_string(max).map(|x| dig(x.as_bytes())), w);
                        if n > 1 << 18 {
                            break;
                        }
                    }
                }
            }
        });
        // arrays of many elements
        let counts: Vec<usize> = (7..=18).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain((0..24).map(|k| 100 + k * 577)).collect();
        fn many<T: Elem + TryFrom<Bytes, Error = Error> + WireSize>(n: usize, size: usize, pool: &[u8]) {
            let b = n * size;
            let p = pad4(b as u128) as usize - b;
            let full = with_len(n as u32, &pool[..b + p + 4]);
            for r in [b / 2, b - 1, b, b + p - p.min(1), b + p, b + p + 1, b + p + 4] {
                for m in [None, Some(n - 1), Some(n), Some(n + 1)] {
                    let d = &full[..r + 4];
                    let fold = |v: Vec<T>| {
                        let s: Vec<u8> = v.iter().flat_map(|e| e.fold().to_be_bytes()).collect();
                        (v.len(), s.chunks(8).fold(7u64, |h, c| (h ^ u64::from_be_bytes(c.try_into().unwrap())).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23)))
                    };
                    let w = match want_array::<T>(d, m) {
                        Want::Val(v, k) => Want::Val(fold(v), k),
                        Want::Err => Want::Err,
                    };
                    check("long", true, d, r, &format!("read_variable_array::<{}>({:?}) (count {})", T::NAME, m, n), |b| b.read_variable_array::<T>(m).map(fold), w);
                }
            }
        }
        par(counts.len(), |i| {
            let n = counts[counts.len() - 1 - i];
            many::<Word>(n, 4, &pool);
            if n < 1 << 16 {
                many::<Quad>(n, 8, &pool);
                many::<Raw<1>>(n, 1, &pool);
                many::<Raw<3>>(n, 3, &pool);
                many::<Raw<5>>(n, 5, &pool);
            }
        });
        // sizes of long values
        let size = |got: usize, want: usize, what: &str, n: usize| {
            EVALS.fetch_add(1, Relaxed);
            NONTRIV.fetch_add(1, Relaxed);
            if got != want {
                fail("long", format!("wire_size() of {} of {} is {}, must be {}", what, n, got, want));
            }
        };
        for n in lens.iter().copied().filter(|n| *n < 1 << 22) {
            let q = pad4(n as u128) as usize;
            let s = String::from_utf8(vec![b'x'; n]).unwrap();
            size(s.wire_size(), 4 + q, "String", n);
            size(Some(Box::new(s)).wire_size(), 8 + q, "Some(Box<String>)", n);
            size(vec![1u8; n].wire_size(), 4 + q, "Vec<u8>", n);
            size(vec![1u8; n][..].wire_size(), q, "[u8]", n);
            size(vec![1u32; n].wire_size(), 4 + 4 * n, "Vec<u32>", n);
            size(vec![1u64; n][..].wire_size(), 8 * n, "[u64]", n);
        }
        for (n, each) in [(3usize, 70_000usize), (5, 65_535), (2, 1 << 22), (1000, 333), (70_000, 3)] {
            let v = vec!["y".repeat(each); n];
            let q = n * (4 + pad4(each as u128) as usize);
            size(v.wire_size(), 4 + q, "Vec<String>", n);
            size(v[..].wire_size(), q, "[String]", n);
            size(Some(v).wire_size(), 8 + q, "Some(Vec<String>)", n);
        }
        mark("long", e0, n0);
    }
    if sel("number") {
        let (e0, n0) = snap();
        let mut rng = Rng(seed ^ 5);
        let mut vals: Vec<u64> = vec![];
        for k in 0..64 {
            for d in [0u64, 1, u64::MAX] {
                vals.push((1u64 << k).wrapping_add(d));
                vals.push(!(1u64 << k).wrapping_add(d));
            }
        }
        vals.extend([0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7f80000000000000, 0xff80000000000000, 0x7fc0000000000000, 0x7f80000100000000, 0x8000000000000000, 0x0102030405060708]);
        for _ in 0..20000 {
            vals.push(rng.next());
        }
        let mut seen = std::collections::HashSet::new();
        vals.retain(|v| seen.insert(*v));
        for (i, v) in vals.iter().enumerate() {
            let mut d = v.to_be_bytes().to_vec();
            d.extend_from_slice(&body[..9]);
            for op in [Op::U32, Op::I32, Op::F32, Op::U64, Op::I64, Op::F64, Op::Bool] {
                for r in if i < 400 { (0..=17).collect::<Vec<_>>() } else { vec![4, 8, 17] } {
                    EVALS.fetch_add(1, Relaxed);
                    if r > 0 {
                        NONTRIV.fetch_add(1, Relaxed);
                    }
                    let d = &d[..r];
                    let mut b = view(d, r + i);
                    if let Err(e) = step(&mut b, d, &op) {
                        fail("number", format!("read of {:?} on {:02x?} {}", op, d, e));
                    }
                }
            }
        }
        mark("number", e0, n0);
    }
    if sel("bool") {
        let (e0, n0) = snap();
        // every 32-bit word, read from buffers of 2^16 consecutive words
        par(if all_bools { 65536 } else { 4096 }, |hi| {
            let hi = if all_bools { hi as u32 } else { let h = hi as u32; if h < 64 { h } else { h.wrapping_mul(0x9e37_79b9) >> 16 } };
            let mut v = Vec::with_capacity(1 << 18);
            for lo in 0..65536u32 {
                v.extend_from_slice(&(hi << 16 | lo).to_be_bytes());
            }
            let all = Bytes::from(v);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut b = all.clone();
                for lo in 0..65536u32 {
                    let w = hi << 16 | lo;
                    let left = b.len();
                    let ok = match (b.read_bool(), w) {
                        (Ok(false), 0) | (Ok(true), 1) => b.len() == left - 4,
                        (Err(_), x) if x > 1 => {
                            // the state after an error is open: restart behind this word
                            b = all.slice((lo as usize + 1) * 4..);
                            true
                        }
                        _ => false,
                    };
                    if !ok {
                        fail("bool", format!("read_bool() on the word {:#010x} is wrong", w));
                        b = all.slice((lo as usize + 1) * 4..);
                    }
                }
            }));
            if r.is_err() {
                fail("bool", format!("read_bool() panics on a word {:#06x}....", hi));
            }
            EVALS.fetch_add(65536, Relaxed);
            NONTRIV.fetch_add(65536, Relaxed);
        });
        mark("bool", e0, n0);
    }
    if sel("sequence") {
        let (e0, n0) = snap();
        par(64, |w| {
            let mut rng = Rng(seed.wrapping_mul(31).wrapping_add(w as u64));
            let mut hashes = vec![];
            for i in 0..nseq / 64 {
                let k = 1 + rng.below(14);
                let mut data = vec![];
                let mut ops = vec![];
                for _ in 0..k {
                    let max = |rng: &mut Rng, n: usize| match rng.below(6) {
                        0 => Some(n),
                        1 => Some(n + 1 + rng.below(5)),
                        2 if rng.below(6) == 0 => Some(n.saturating_sub(1)),
                        3 => Some(usize::MAX),
                        _ => None,
                    };
                    let op = match rng.below(12) {
                        0 => Op::U32,
                        1 => Op::U64,
                        2 => Op::I32,
                        3 => Op::I64,
                        4 => Op::F32,
                        5 => Op::F64,
                        6 => Op::Bool,
                        7 => Op::Bytes(rng.below(40)),
                        8 => Op::Var(None),
                        9 => Op::Str(None),
                        _ => Op::Arr(rng.below(6) as u8, None),
                    };
                    let padto = |d: &mut Vec<u8>, rng: &mut Rng| {
                        while d.len() % 4 != 0 {
                            d.push(if rng.below(4) == 0 { rng.next() as u8 } else { 0 });
                        }
                    };
                    let op = match op {
                        Op::Bool => {
                            let x = if rng.below(20) == 0 { 2 + rng.below(9) as u32 } else { rng.below(2) as u32 };
                            data.extend_from_slice(&x.to_be_bytes());
                            Op::Bool
                        }
                        Op::U32 | Op::I32 | Op::F32 => {
                            data.extend(fill(&mut rng, 4));
                            op
                        }
                        Op::U64 | Op::I64 | Op::F64 => {
                            data.extend(fill(&mut rng, 8));
                            op
                        }
                        Op::Bytes(n) => {
                            data.extend(fill(&mut rng, n));
                            padto(&mut data, &mut rng);
                            op
                        }
                        Op::Var(_) => {
                            let n = rng.below(30);
                            data.extend(with_len(n as u32, &fill(&mut rng, n)));
                            padto(&mut data, &mut rng);
                            Op::Var(max(&mut rng, n))
                        }
                        Op::Str(_) => {
                            let n = rng.below(30);
                            data.extend(with_len(n as u32, &utf8(&mut rng, n)));
                            padto(&mut data, &mut rng);
                            Op::Str(max(&mut rng, n))
                        }
                        Op::Arr(t, _) => {
                            let n = rng.below(7);
                            data.extend_from_slice(&(n as u32).to_be_bytes());
                            for _ in 0..n {
                                match t {
                                    0 => data.extend(fill(&mut rng, 4)),
                                    1 => data.extend(fill(&mut rng, 8)),
                                    2 => {
                                        let l = rng.below(9);
                                        data.extend(with_len(l as u32, &utf8(&mut rng, l)));
                                        padto(&mut data, &mut rng);
                                    }
                                    3 => data.extend(fill(&mut rng, 1)),
                                    4 => data.extend(fill(&mut rng, 3)),
                                    _ => data.extend(fill(&mut rng, 5)),
                                }
                            }
                            padto(&mut data, &mut rng);
                            Op::Arr(t, max(&mut rng, n))
                        }
                    };
                    ops.push(op);
                }
                match rng.below(5) {
                    0 => {
                        let n = rng.below(data.len() + 1);
                        data.truncate(n);
                    }
                    1 => {
                        let n = rng.below(20);
                        data.extend(fill(&mut rng, n));
                    }
                    _ => {}
                }
                EVALS.fetch_add(1, Relaxed);
                match run_seq(&data, i, &ops) {
                    Ok(n) => {
                        if n >= 2 {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (&data, format!("{:?}", ops)).hash(&mut h);
                            hashes.push(h.finish());
                        }
                        if w == 0 && i < 2 {
                            println!("SAMPLE\tsequence of {} reads, {} succeeded: {:?} on {:02x?}", ops.len(), n, ops, data);
                        }
                    }
                    Err(_) => {
                        // shrink: drop operations from the front together with their bytes, then the tail
                        let mut d = data.clone();
                        let mut o = ops.clone();
                        let mut again = true;
                        while again {
                            again = false;
                            let i0 = match run_seq(&d, i, &o) {
                                Err((k, _)) => k,
                                Ok(_) => break,
                            };
                            o.truncate(i0 + 1);
                            if i0 > 0 {
                                let mut b = view(&d, i);
                                if let Ok(Some(k)) = step(&mut b, &d, &o[0]) {
                                    let d2 = d[k..].to_vec();
                                    let o2 = o[1..].to_vec();
                                    if run_seq(&d2, i, &o2).is_err() {
                                        d = d2;
                                        o = o2;
                                        again = true;
                                        continue;
                                    }
                                }
                            }
                            let mut l = 0;
                            while l < d.len() {
                                if run_seq(&d[..l], i, &o).is_err() {
                                    d.truncate(l);
                                    break;
                                }
                                l += 1;
                            }
                        }
                        if let Err((k, e)) = run_seq(&d, i, &o) {
                            fail("sequence", format!("{:?} on {:02x?}: read {} {}", o, d, k, e));
                        }
                    }
                }
            }
            SEEN.lock().unwrap().extend(hashes);
        });
        {
            let mut s = SEEN.lock().unwrap();
            s.sort_unstable();
            s.dedup();
            NONTRIV.fetch_add(s.len() as u64, Relaxed);
        }
        mark("sequence", e0, n0);
    }
    if sel("wire-size") {
        let (e0, n0) = snap();
        fn ws<T: WireSize + ?Sized>(v: &T, want: usize, what: impl Fn() -> String) {
            EVALS.fetch_add(1, Relaxed);
            if want > 4 {
                NONTRIV.fetch_add(1, Relaxed);
            }
            match catch_unwind(AssertUnwindSafe(|| v.wire_size())) {
                Ok(n) if n == want => {}
                Ok(n) => fail("wire-size", format!("wire_size() of {} is {}, must be {}", what(), n, want)),
                Err(_) => fail("wire-size", format!("wire_size() of {} panics", what())),
            }
        }
        let p = |n: usize| pad4(n as u128) as usize;
        let mut rng = Rng(seed ^ 9);
        for x in [0u64, 1, 2, 127, 255, 256, u32::MAX as u64, u64::MAX, 1 << 31, 1 << 63] {
            ws(&(x as u32), 4, || format!("{} as u32", x));
            ws(&(x as i32), 4, || format!("{} as i32", x));
            ws(&f32::from_bits(x as u32), 4, || format!("f32 bits {:x}", x as u32));
            ws(&(x & 1 == 1), 4, || format!("bool {}", x & 1 == 1));
            ws(&x, 8, || format!("{} as u64", x));
            ws(&(x as i64), 8, || format!("{} as i64", x));
            ws(&f64::from_bits(x), 8, || format!("f64 bits {:x}", x));
            ws(&Some(x as u32), 8, || "Some(u32)".into());
            ws(&Some(x), 12, || "Some(u64)".into());
            ws(&Box::new(x), 8, || "Box<u64>".into());
            ws(&Some(Box::new(x as i32)), 8, || "Some(Box<i32>)".into());
        }
        ws(&None::<u32>, 4, || "None::<u32>".into());
        ws(&None::<u64>, 4, || "None::<u64>".into());
        ws(&None::<Box<String>>, 4, || "None::<Box<String>>".into());
        ws(&None::<Vec<u32>>, 4, || "None::<Vec<u32>>".into());
        for n in 0..=nmax * 2 {
            let u32s = vec![7u32; n];
            let u64s = vec![7u64; n];
            let f64s = vec![0.5f64; n];
            let bools = vec![true; n];
            let u8s = vec![9u8; n];
            ws(&u32s, 4 + 4 * n, || format!("Vec<u32> of {}", n));
            ws(&u64s, 4 + 8 * n, || format!("Vec<u64> of {}", n));
            ws(&f64s, 4 + 8 * n, || format!("Vec<f64> of {}", n));
            ws(&bools, 4 + 4 * n, || format!("Vec<bool> of {}", n));
            ws(&u8s, 4 + p(n), || format!("Vec<u8> of {}", n));
            ws(&u32s[..], 4 * n, || format!("[u32] of {}", n));
            ws(&u64s[..], 8 * n, || format!("[u64] of {}", n));
            ws(&bools[..], 4 * n, || format!("[bool] of {}", n));
            ws(&u8s[..], p(n), || format!("[u8] of {}", n));
            ws(&Some(u32s.clone()), 8 + 4 * n, || format!("Some(Vec<u32> of {})", n));
            ws(&Some(Box::new(u8s.clone())), 8 + p(n), || format!("Some(Box(Vec<u8> of {}))", n));
            for asc in [true, false] {
                let s = String::from_utf8(if asc { vec![b'x'; n] } else { utf8(&mut rng, n) }).unwrap();
                ws(&s, 4 + p(n), || format!("String {:?}", s));
                ws(&Some(s.clone()), 8 + p(n), || format!("Some({:?})", s));
                ws(&Box::new(s.clone()), 4 + p(n), || format!("Box({:?})", s));
                ws(&Some(Box::new(s.clone())), 8 + p(n), || format!("Some(Box({:?}))", s));
            }
        }
        for _ in 0..4000 {
            let n = rng.below(9);
            let strs: Vec<String> = (0..n).map(|_| { let l = rng.below(14); String::from_utf8(utf8(&mut rng, l)).unwrap() }).collect();
            let each: usize = strs.iter().map(|s| 4 + p(s.len())).sum();
            ws(&strs, 4 + each, || format!("{:?}", strs));
            ws(&strs[..], each, || format!("slice {:?}", strs));
            ws(&Some(strs.clone()), 8 + each, || format!("Some({:?})", strs));
            let opts: Vec<Option<Box<String>>> = strs.iter().map(|s| if s.len() % 3 == 0 { None } else { Some(Box::new(s.clone())) }).collect();
            let oeach: usize = opts.iter().map(|o| 4 + o.as_ref().map(|s| 4 + p(s.len())).unwrap_or(0)).sum();
            ws(&opts, 4 + oeach, || format!("{:?}", opts));
            ws(&opts[..], oeach, || format!("slice {:?}", opts));
            let nest: Vec<Vec<u8>> = strs.iter().map(|s| s.clone().into_bytes()).collect();
            ws(&nest, 4 + each, || format!("{:?}", nest));
            let nest2: Vec<Vec<u32>> = (0..n).map(|k| vec![1; k * 3 % 7]).collect();
            ws(&nest2, 4 + nest2.iter().map(|v| 4 + 4 * v.len()).sum::<usize>(), || format!("{:?}", nest2));
            let ob: Vec<Option<u64>> = (0..n).map(|k| if k % 2 == 0 { Some(3) } else { None }).collect();
            ws(&ob, 4 + ob.iter().map(|o| if o.is_some() { 12 } else { 4 }).sum::<usize>(), || format!("{:?}", ob));
        }
        mark("wire-size", e0, n0);
    }
    println!("TOTAL\t{}\t{}", EVALS.load(Relaxed), NONTRIV.load(Relaxed));
    for (c, e, n) in COUNTS.lock().unwrap().iter() {
        println!("COUNT\t{}\t{}\t{}", c, e, n);
    }
    let mut f = FAILS.lock().unwrap().clone();
    f.sort_by_key(|(_, m)| m.len());
    for (c, m) in f.iter().take(20) {
        println!("FAIL\t{}\t{}", c, m.replace('\n', " "));
    }
    println!("END");
}
