// Runtime of the generated probe programs (compiled by rustc together with the modules under
// test; not part of the harness crate).  Reads requests from a file, runs the decoders on them
// and writes one response line per request.
use fastxdr::bytes::{Bytes, BytesMut};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static MAX: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicUsize = AtomicUsize::new(0);
static OUTFD: AtomicUsize = AtomicUsize::new(1);
const REFUSE: usize = 4 << 30;

fn account(n: usize) {
    if ON.load(Relaxed) {
        TOTAL.fetch_add(n as u64, Relaxed);
        MAX.fetch_max(n as u64, Relaxed);
        if n >= REFUSE {
            // report and stop: the request is far beyond any input this program is given
            let mut buf = [0u8; 64];
            let mut k = 0;
            let mut put = |c: u8| {
                buf[k] = c;
                k += 1;
            };
            put(b'A');
            put(b'\t');
            let mut digits = |mut v: u64, put: &mut dyn FnMut(u8)| {
                let mut d = [0u8; 20];
                let mut i = 0;
                loop {
                    d[i] = b'0' + (v % 10) as u8;
                    i += 1;
                    v /= 10;
                    if v == 0 {
                        break;
                    }
                }
                while i > 0 {
                    i -= 1;
                    put(d[i]);
                }
            };
            digits(CUR.load(Relaxed) as u64, &mut put);
            put(b'\t');
            digits(n as u64, &mut put);
            put(b'\n');
            unsafe {
                write(OUTFD.load(Relaxed) as i32, buf.as_ptr(), k);
                _exit(77)
            }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn meas_on() {
    TOTAL.store(0, Relaxed);
    MAX.store(0, Relaxed);
    ON.store(true, Relaxed);
}
pub fn meas_off() {
    ON.store(false, Relaxed);
}

/// of a long payload (the same in wire.rs)
fn digest(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
    h
}
/// `n` bytes of long payloads (the same in wire.rs)
fn pattern(n: usize) -> Vec<u8> {
    let c: Vec<u8> = (0..97u32).map(|i| 0x20 + (i * 37 % 95) as u8).collect();
    let mut v = c.repeat(n / 97 + 1);
    v.truncate(n);
    v
}

#[derive(Default)]
pub struct Out {
    pub s: String,
    pub ptrs: Vec<(usize, usize)>,
}
impl Out {
    pub fn put(&mut self, x: &str) {
        self.s.push_str(x)
    }
    fn hex(&mut self, tag: &str, b: &[u8]) {
        self.s.push_str(tag);
        self.s.push('\'');
        if b.len() > 120_000 {
            self.s.push_str(&format!("#{}:{:016x}'", b.len(), digest(b)));
            return;
        }
        for x in b {
            self.s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
            self.s.push(char::from_digit((x & 15) as u32, 16).unwrap());
        }
        self.s.push('\'');
    }
}

pub trait Dump {
    fn dump(&self, o: &mut Out);
}
macro_rules! num { ($($t:ty),*) => { $( impl Dump for $t { fn dump(&self, o: &mut Out) { o.put(&self.to_string()) } } )* } }
num!(u32, i32, u64, i64, bool);
impl Dump for f32 {
    fn dump(&self, o: &mut Out) {
        if self.is_nan() { o.put("fNaN") } else { o.put(&format!("f{:08x}", self.to_bits())) }
    }
}
impl Dump for f64 {
    fn dump(&self, o: &mut Out) {
        if self.is_nan() { o.put("dNaN") } else { o.put(&format!("d{:016x}", self.to_bits())) }
    }
}
impl Dump for String {
    fn dump(&self, o: &mut Out) {
        o.hex("s", self.as_bytes())
    }
}
impl Dump for Bytes {
    fn dump(&self, o: &mut Out) {
        o.ptrs.push((self.as_ptr() as usize, self.len()));
        o.hex("o", self)
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self, o: &mut Out) {
        o.put("[");
        for x in self {
            x.dump(o);
            o.put(",");
        }
        o.put("]");
    }
}
impl<T: Dump, const N: usize> Dump for [T; N] {
    fn dump(&self, o: &mut Out) {
        o.put("[");
        for x in self {
            x.dump(o);
            o.put(",");
        }
        o.put("]");
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self, o: &mut Out) {
        match self {
            None => o.put("None"),
            Some(x) => {
                o.put("Some(");
                x.dump(o);
                o.put(")");
            }
        }
    }
}
impl<T: Dump + ?Sized> Dump for Box<T> {
    fn dump(&self, o: &mut Out) {
        (**self).dump(o)
    }
}

/// the value's type is exactly B (no coercion)
pub trait Is<T: ?Sized> {}
impl<T: ?Sized> Is<T> for T {}
pub fn same<A: Is<B> + ?Sized, B: ?Sized>(_: &A) {}

pub struct Got {
    pub wire: Result<usize, String>,
    pub out: Out,
}

pub struct Entry {
    pub name: &'static str,
    pub by_ref: fn(&mut Bytes) -> Result<Got, String>,
    pub by_val: fn(Bytes) -> Result<Got, String>,
    pub size: usize,
}

#[macro_export]
macro_rules! entry {
    ($name:literal, $t:ty) => {
        $crate::vrt::Entry {
            name: $name,
            by_ref: |b| {
                $crate::vrt::meas_on();
                let r = <$t as ::std::convert::TryFrom<&mut ::fastxdr::bytes::Bytes>>::try_from(b);
                $crate::vrt::meas_off();
                match r {
                    Ok(v) => Ok($crate::vrt::got(&v, |v| xdr::WireSize::wire_size(v))),
                    Err(e) => Err(__err(&e)),
                }
            },
            by_val: |b| {
                $crate::vrt::meas_on();
                let r = <$t as ::std::convert::TryFrom<::fastxdr::bytes::Bytes>>::try_from(b);
                $crate::vrt::meas_off();
                match r {
                    Ok(v) => Ok($crate::vrt::got(&v, |v| xdr::WireSize::wire_size(v))),
                    Err(e) => Err(__err(&e)),
                }
            },
            size: ::std::mem::size_of::<$t>(),
        }
    };
}

pub fn got<T: Dump>(v: &T, f: fn(&T) -> usize) -> Got {
    let mut out = Out::default();
    v.dump(&mut out);
    let wire = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(v))).map_err(|_| take_panic());
    Got { wire, out }
}

static PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn take_panic() -> String {
    std::mem::take(&mut *PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    b.chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

/// The view handed to the decoder: payload + suffix visible, prefix before it and `hidden`
/// bytes after it in the same allocation.
fn view(kind: u32, prefix: usize, hidden: usize, payload: &[u8], suffix: &[u8]) -> Bytes {
    let mut all = Vec::with_capacity(prefix + payload.len() + suffix.len() + hidden);
    if prefix < 1000 {
        all.extend((0..prefix).map(|i| 0xA0 ^ i as u8));
    } else {
        all.resize(prefix, 0xA5);
    }
    all.extend_from_slice(payload);
    all.extend_from_slice(suffix);
    all.extend([0u8, 0, 0, 1].repeat(hidden / 4 + 1).into_iter().take(hidden % 4 + if hidden < 1000 { hidden / 4 * 4 } else { 0 }));
    let want = prefix + payload.len() + suffix.len() + hidden;
    if all.len() < want {
        all.resize(want, 0);
    }
    let end = all.len() - hidden;
    let mut b = match kind % 8 {
        0 => Bytes::from(all.into_boxed_slice()),
        1 => {
            all.reserve_exact(37);
            Bytes::from(all)
        }
        2 => {
            let mut m = BytesMut::with_capacity(all.len() + 64);
            m.extend_from_slice(b"leading");
            let _ = m.split_to(7);
            m.extend_from_slice(&all);
            m.freeze()
        }
        3 => Bytes::from_static(Box::leak(all.into_boxed_slice())),
        5 => Bytes::from_owner(all),
        _ => {
            let b = Bytes::copy_from_slice(&all);
            b.clone()
        }
    };
    if kind % 2 == 0 {
        b = b.slice(prefix..end);
    } else {
        b.truncate(end);
        let _ = b.split_to(prefix);
    }
    b
}

/// `rest`: the view before the decode (where it was, what it showed) and after it
fn side(r: Result<Result<Got, String>, ()>, base: usize, rest: Option<(&[u8], &Bytes)>, line: &mut String) {
    use std::fmt::Write;
    let (tot, max) = (TOTAL.load(Relaxed), MAX.load(Relaxed));
    match &r {
        Ok(Ok(_)) => line.push_str("\tO"),
        Ok(Err(e)) => {
            let _ = write!(line, "\tE{}", e);
        }
        Err(()) => {
            let p: String = take_panic().chars().map(|c| if c == '\t' || c == '\n' { ' ' } else { c }).collect();
            let _ = write!(line, "\tP{}", p);
        }
    }
    let (remaining, tail_ok) = match rest {
        None => (0, true),
        Some((orig, now)) => {
            let r = now.len();
            let ok = r <= orig.len()
                && orig[orig.len() - r..] == now[..]
                && (r == 0 || now.as_ptr() as usize == base + (orig.len() - r));
            (r, ok)
        }
    };
    let _ = write!(line, "\t{}\t{}\t{}\t{}", remaining, tail_ok as u8, tot, max);
    match &r {
        Ok(Ok(g)) => {
            match &g.wire {
                Ok(n) => {
                    let _ = write!(line, "\t{}", n);
                }
                Err(p) => {
                    let p: String = p.chars().map(|c| if c == '\t' || c == '\n' { ' ' } else { c }).collect();
                    let _ = write!(line, "\tP{}", p);
                }
            }
            line.push('\t');
            for (p, n) in &g.out.ptrs {
                let _ = write!(line, "{}:{},", (*p as i64).wrapping_sub(base as i64), n);
            }
            line.push('\t');
            line.push_str(&g.out.s);
        }
        _ => line.push_str("\t-\t\t"),
    }
}

/// Runs `f` on a thread with a stack of that size (0: here).
fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    if size == 0 {
        return f();
    }
    std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn run(table: &'static [(usize, &'static [Entry])], reqs: String, out: std::fs::File) {
    let mut out = out;
    for line in reqs.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        let idx: usize = f[0].parse().unwrap();
        let spec: usize = f[1].parse().unwrap();
        let kind: u32 = f[3].parse().unwrap();
        let prefix: usize = f[4].parse().unwrap();
        let hidden: usize = f[5].parse().unwrap();
        let mut payload = unhex(f[6]);
        let mut suffix = unhex(f[7]);
        // (a run of pattern bytes inside the payload, zero bytes after the suffix)
        let at: usize = f[8].parse().unwrap();
        let run: usize = f[9].parse().unwrap();
        let far: usize = f[10].parse().unwrap();
        let stack: usize = f[11].parse().unwrap();
        if run > 0 {
            let tail = payload.split_off(at);
            payload.extend(pattern(run));
            payload.extend(tail);
        }
        if far > 0 {
            let n = suffix.len();
            suffix.resize(n + far, 0);
        }
        CUR.store(idx, Relaxed);
        let ent = table.iter().find(|t| t.0 == spec).and_then(|t| t.1.iter().find(|e| e.name == f[2]));
        let ent = match ent {
            Some(e) => e,
            None => {
                writeln!(out, "{}\tX", idx).unwrap();
                continue;
            }
        };
        let mut resp = idx.to_string();
        // (kind >= 8: the decoder gets the only handle to the buffer)
        let sole = kind >= 8;
        let shown: Vec<u8> = [&payload[..], &suffix[..]].concat();
        {
            let mut b = view(kind, prefix, hidden, &payload, &suffix);
            let keep = (!sole).then(|| b.clone());
            let base = b.as_ptr() as usize;
            let r = on_stack(stack, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ent.by_ref)(&mut b))).map_err(|_| ()));
            meas_off();
            side(r, base, Some((&shown, &b)), &mut resp);
            drop(keep);
        }
        {
            let b = view(kind, prefix, hidden, &payload, &suffix);
            let base = b.as_ptr() as usize;
            let keep = (!sole).then(|| b.clone());
            let r = on_stack(stack, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ent.by_val)(b))).map_err(|_| ()));
            meas_off();
            side(r, base, None, &mut resp);
            drop(keep);
        }
        resp.push('\n');
        out.write_all(resp.as_bytes()).unwrap();
    }
    out.write_all(b"END\n").unwrap();
}

pub fn main(table: &'static [(usize, &'static [Entry])]) {
    let args: Vec<String> = std::env::args().collect();
    let reqs = std::fs::read_to_string(&args[1]).unwrap();
    let stack: usize = args[3].parse().unwrap();
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
    {
        use std::os::fd::AsRawFd;
        OUTFD.store(out.as_raw_fd() as usize, Relaxed);
    }
    for (s, es) in table {
        for e in es.iter() {
            writeln!(out, "S\t{}\t{}\t{}", s, e.name, e.size).unwrap();
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = m;
    }));
    std::thread::Builder::new().stack_size(stack).spawn(move || run(table, reqs, out)).unwrap().join().unwrap();
}
