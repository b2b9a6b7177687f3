//! Compiles probe programs around generated modules (rustc, in parallel) and runs requests
//! against them in child processes.
use crate::glue;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Env {
    pub fastxdr: PathBuf,
    pub thiserror: PathBuf,
    pub deps: PathBuf,
    pub work: PathBuf,
    pub threads: usize,
}

impl Env {
    /// Reads cargo's JSON messages (target/build.json, written by the wrapper).
    pub fn load() -> Env {
        let target = std::env::var("VERIF_TARGET").unwrap_or_else(|_| "/verif/target".into());
        let txt = std::fs::read_to_string(format!("{}/build.json", target)).expect("build.json");
        let mut fx = None;
        let mut te = None;
        let mut te_all = vec![];
        for l in txt.lines() {
            let v: serde_json::Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            let kind_lib = v["target"]["kind"].as_array().map(|k| k.iter().any(|x| x == "lib")).unwrap_or(false);
            if !kind_lib {
                continue;
            }
            let file = v["filenames"]
                .as_array()
                .and_then(|f| f.iter().filter_map(|x| x.as_str()).find(|x| x.ends_with(".rlib")))
                .map(PathBuf::from);
            if name == "fastxdr" {
                fx = file;
            } else if name == "thiserror" {
                te_all.push((v["package_id"].as_str().unwrap_or("").to_string(), file.clone()));
                te = file;
            }
        }
        let fastxdr = fx.expect("libfastxdr.rlib in build.json");
        let deps = fastxdr.parent().unwrap().join("deps");
        let deps = if deps.exists() { deps } else { fastxdr.parent().unwrap().to_path_buf() };
        let work = PathBuf::from(target).join(format!("work-{}", std::process::id()));
        std::fs::create_dir_all(&work).unwrap();
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let thiserror = te.expect("libthiserror.rlib in build.json");
        Env { fastxdr, thiserror, deps, work, threads }
    }
    pub fn rustc(&self) -> Command {
        let mut c = Command::new("rustc");
        let ed = std::env::var("VERIF_EDITION").unwrap_or_else(|_| "2021".into());
        c.args(["--edition", &ed, "-A", "warnings", "--cap-lints", "allow", "--error-format", "short"])
            .arg("--extern")
            .arg(format!("fastxdr={}", self.fastxdr.display()))
            .arg("--extern")
            .arg(format!("thiserror={}", self.thiserror.display()))
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()));
        c
    }
}

impl Drop for Env {
    fn drop(&mut self) {
        if std::env::var("VERIF_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.work);
        }
    }
}

pub fn par<T: Sync, R: Send>(threads: usize, items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<Option<R>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..threads.max(1).min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(i, &items[i]);
                    res.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
        }
    });
    res.into_inner().unwrap().into_iter().map(|r| r.unwrap()).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Req {
    pub ty: String,
    pub payload: Vec<u8>,
    #[serde(default)]
    pub suffix: Vec<u8>,
    #[serde(default)]
    pub kind: u8,
    #[serde(default)]
    pub prefix: usize,
    #[serde(default)]
    pub hidden: usize,
    /// (offset in the payload, number of bytes of wire::pattern standing there)
    #[serde(default)]
    pub run: (usize, usize),
    /// zero bytes after the suffix
    #[serde(default)]
    pub far: usize,
    /// stack of the thread that decodes (0: the large default)
    #[serde(default)]
    pub stack: usize,
}

impl Req {
    pub fn new(ty: &str, payload: &[u8]) -> Req {
        Req { ty: ty.into(), payload: payload.to_vec(), suffix: vec![], kind: 0, prefix: 0, hidden: 0, run: (0, 0), far: 0, stack: 0 }
    }
    /// `bytes` with the pattern bytes at `off` (if they are there) written compactly
    pub fn long(ty: &str, bytes: &[u8], off: usize) -> Req {
        let pat = crate::wire::pattern(bytes.len().saturating_sub(off));
        let n = if off < bytes.len() { bytes[off..].iter().zip(&pat).take_while(|(a, b)| a == b).count() } else { 0 };
        if n < 64 {
            return Req::new(ty, bytes);
        }
        let mut p = bytes[..off].to_vec();
        p.extend_from_slice(&bytes[off + n..]);
        Req { run: (off, n), ..Req::new(ty, &p) }
    }
    /// the bytes of the message (without what follows it)
    pub fn full(&self) -> Vec<u8> {
        let mut v = self.payload[..self.run.0].to_vec();
        v.extend(crate::wire::pattern(self.run.1));
        v.extend_from_slice(&self.payload[self.run.0..]);
        v
    }
    pub fn view_len(&self) -> usize {
        self.payload.len() + self.run.1 + self.suffix.len() + self.far
    }
    pub fn behind(&self) -> usize {
        self.suffix.len() + self.far
    }
    fn line(&self, n: usize, spec: usize, s: &mut String) {
        let _ = write!(s, "{}\t{}\t{}\t{}\t{}\t{}\t", n, spec, self.ty, self.kind, self.prefix, self.hidden);
        hex(&self.payload, s);
        s.push('\t');
        hex(&self.suffix, s);
        let _ = write!(s, "\t{}\t{}\t{}\t{}\n", self.run.0, self.run.1, self.far, self.stack);
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok { dump: String, wire: Result<usize, String>, ptrs: Vec<(i64, usize)> },
    Err(crate::wire::E),
    Panic(String),
}

#[derive(Debug, Clone)]
pub struct Side {
    pub out: Outcome,
    pub remaining: usize,
    pub tail_ok: bool,
    pub total: u64,
    pub max: u64,
}

#[derive(Debug, Clone)]
pub enum Resp {
    Done { r: Side, v: Side },
    /// process died: signal / exit code
    Crash(String),
    /// single allocation request over the cap
    HugeAlloc(u64),
    /// no answer within the CPU limit
    Hang,
    /// spec did not compile / type missing
    None(String),
}

#[derive(Debug, Clone)]
pub enum Built {
    Ok { text: String },
    /// generate returned Err
    Rejected(String),
    /// generate panicked
    Panicked(String),
    /// the module alone does not compile
    ModuleError(String),
    /// the module compiles but the program naming its items does not
    GlueError(String),
}

pub struct SpecJob {
    pub spec: Spec,
    pub text: String,
    pub derive: Option<String>,
    pub check_types: bool,
    pub extra: String,
    /// already generated module (bypasses the generator), for driver programs
    pub reqs: Vec<Req>,
}

pub struct SpecResult {
    pub built: Built,
    pub resps: Vec<Resp>,
    pub sizes: BTreeMap<String, usize>,
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = m.clone());
        if m.contains("harness") || std::env::var("VERIF_DEBUG").is_ok() || !IN_TEST.with(|t| t.get()) {
            eprintln!("{}", m);
            if std::env::var("RUST_BACKTRACE").map(|v| v == "1").unwrap_or(false) {
                eprintln!("{}", std::backtrace::Backtrace::capture());
            }
        }
    }));
}
thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static IN_TEST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs code of the crate under test, reporting a panic as Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_TEST.with(|t| t.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_TEST.with(|t| t.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn generate(text: &str, derive: Option<&str>) -> Result<Result<String, String>, String> {
    guarded(|| {
        let mut g = fastxdr::Generator::default();
        if let Some(d) = derive {
            g = g.with_derive(d);
        }
        crate::sup::noted(text, || g.generate(text)).map_err(|e| e.to_string())
    })
}

const VRT: &str = include_str!("vrt.rs");

pub fn write_vrt(env: &Env) {
    std::fs::write(env.work.join("vrt.rs"), VRT).unwrap();
}

fn compile(env: &Env, dir: &Path, main: &str, bin: bool) -> Result<PathBuf, String> {
    std::fs::create_dir_all(dir).unwrap();
    let src = dir.join("main.rs");
    std::fs::write(&src, main).unwrap();
    let out = dir.join("prog");
    let mut c = env.rustc();
    c.arg("-C").arg("debug-assertions=on").arg("-C").arg("overflow-checks=on").arg("-C").arg("debuginfo=0").arg(&src);
    if bin {
        c.arg("--crate-type").arg("bin").arg("-C").arg("codegen-units=4").arg("-o").arg(&out);
    } else {
        c.arg("--crate-type").arg("lib").arg("--crate-name").arg("m").arg("--emit").arg(format!(
            "metadata={}",
            dir.join("libm.rmeta").display()
        ));
    }
    let o = c.stdin(Stdio::null()).output().expect("rustc");
    if o.status.success() {
        Ok(out)
    } else {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if e.contains("No space left") || e.contains("SIGKILL") || o.status.code().is_none() {
            panic!("harness: rustc could not run: {}", e);
        }
        let errs: Vec<&str> = e.lines().filter(|l| l.contains("error")).take(6).collect();
        Err(if errs.is_empty() { e.chars().take(600).collect() } else { errs.join(" | ") })
    }
}

fn program(mods: &[(usize, String)], work: &Path) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "#![allow(warnings)]\n#[path = \"{}/vrt.rs\"] #[macro_use] pub mod vrt;", work.display());
    for (i, m) in mods {
        let _ = writeln!(s, "pub mod s{} {{\n{}\n}}", i, m);
    }
    s.push_str("static ALL: &[(usize, &[vrt::Entry])] = &[");
    for (i, _) in mods {
        let _ = write!(s, "({}, s{}::TABLE),", i, i);
    }
    s.push_str("];\nfn main() { vrt::main(ALL) }\n");
    s
}

#[derive(Clone, Copy)]
pub struct RunCfg {
    pub stack: usize,
    pub run: bool,
}
impl Default for RunCfg {
    fn default() -> Self {
        RunCfg { stack: 512 << 20, run: true }
    }
}

/// Builds and runs all jobs; results in job order.
pub fn run_jobs(env: &Env, tag: &str, jobs: &[SpecJob], rc: RunCfg) -> Vec<SpecResult> {
    write_vrt(env);
    // batches balanced by size
    let per: usize = if rc.run { 16 } else { 20 };
    let mut batches: Vec<Vec<usize>> = vec![];
    let mut cur = vec![];
    let mut weight = 0usize;
    let target_batches = env.threads * 3;
    let total: usize = jobs.iter().map(|j| j.spec.decls.len() + 6).sum();
    let lim = (total / target_batches.max(1)).clamp(60, per * 16);
    for (i, j) in jobs.iter().enumerate() {
        cur.push(i);
        weight += j.spec.decls.len() + 6;
        if weight >= lim {
            batches.push(std::mem::take(&mut cur));
            weight = 0;
        }
    }
    if !cur.is_empty() {
        batches.push(cur);
    }
    let out = par(env.threads, &batches, |bi, idxs| run_batch(env, &format!("{}-b{}", tag, bi), jobs, idxs, rc));
    let mut res: BTreeMap<usize, SpecResult> = BTreeMap::new();
    for o in out {
        for (i, r) in o {
            res.insert(i, r);
        }
    }
    (0..jobs.len()).map(|i| res.remove(&i).unwrap()).collect()
}

fn run_batch(env: &Env, tag: &str, jobs: &[SpecJob], idxs: &[usize], rc: RunCfg) -> Vec<(usize, SpecResult)> {
    let mut built: BTreeMap<usize, Built> = BTreeMap::new();
    let mut mods: Vec<(usize, String)> = vec![];
    for &i in idxs {
        let j = &jobs[i];
        match generate(&j.text, j.derive.as_deref()) {
            Err(p) => {
                built.insert(i, Built::Panicked(p));
            }
            Ok(Err(e)) => {
                built.insert(i, Built::Rejected(e));
            }
            Ok(Ok(m)) => {
                let g = glue::emit(&j.spec, &m, j.check_types, &j.extra);
                built.insert(i, Built::Ok { text: m });
                mods.push((i, g));
            }
        }
    }
    let dir = env.work.join(tag);
    let mut prog = None;
    if expired() {
        mods.clear();
    }
    if !mods.is_empty() {
        match compile(env, &dir, &program(&mods, &env.work), rc.run) {
            Ok(p) => prog = Some(p),
            Err(_) => {
                // find the culprits one by one
                let mut good = vec![];
                for (i, g) in mods.drain(..) {
                    let d = dir.join(format!("one{}", i));
                    match compile(env, &d, &program(&[(i, g.clone())], &env.work), rc.run) {
                        Ok(_) => good.push((i, g)),
                        Err(e) => {
                            let text = match &built[&i] {
                                Built::Ok { text } => text.clone(),
                                _ => unreachable!(),
                            };
                            let b = match compile(env, &d, &format!("#![allow(warnings)]\n{}", text), false) {
                                Ok(_) => Built::GlueError(e),
                                Err(e) => Built::ModuleError(e),
                            };
                            built.insert(i, b);
                        }
                    }
                    if std::env::var("VERIF_KEEP").is_err() {
                        let _ = std::fs::remove_dir_all(&d);
                    }
                }
                if !good.is_empty() {
                    match compile(env, &dir, &program(&good, &env.work), rc.run) {
                        Ok(p) => prog = Some(p),
                        Err(e) => panic!("harness: batch of individually good modules fails: {}", e),
                    }
                }
            }
        }
    }
    let mut all: Vec<(usize, usize, &Req)> = vec![];
    for &i in idxs {
        if let Built::Ok { .. } = built[&i] {
            for (k, r) in jobs[i].reqs.iter().enumerate() {
                all.push((i, k, r));
            }
        }
    }
    let mut resps: BTreeMap<(usize, usize), Resp> = BTreeMap::new();
    let mut sizes: BTreeMap<usize, BTreeMap<String, usize>> = BTreeMap::new();
    if let (Some(p), true) = (&prog, rc.run) {
        let rs = run_reqs(&dir, p, &all, rc, &mut sizes);
        for ((i, k, _), r) in all.iter().zip(rs) {
            resps.insert((*i, *k), r);
        }
    }
    if std::env::var("VERIF_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    idxs.iter()
        .map(|&i| {
            let n = jobs[i].reqs.len();
            let rs = (0..n)
                .map(|k| resps.remove(&(i, k)).unwrap_or(Resp::None(format!("{:?}", short_built(&built[&i])))))
                .collect();
            (i, SpecResult { built: built[&i].clone(), resps: rs, sizes: sizes.remove(&i).unwrap_or_default() })
        })
        .collect()
}

pub fn short_built(b: &Built) -> String {
    match b {
        Built::Ok { .. } => "ok".into(),
        Built::Rejected(e) => format!("generate returned Err: {}", e),
        Built::Panicked(e) => format!("generate panicked: {}", e),
        Built::ModuleError(e) => format!("module does not compile: {}", e),
        Built::GlueError(e) => format!("module lacks the documented API: {}", e),
    }
}

fn hex(b: &[u8], s: &mut String) {
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
}

const STALL: Duration = Duration::from_secs(60);
/// one batch of requests takes a few seconds
const BATCH_WALL: Duration = Duration::from_secs(120);

static DEADLINE: AtomicU64 = AtomicU64::new(u64::MAX);
static HANGS: AtomicUsize = AtomicUsize::new(0);
fn since_start() -> u64 {
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}
/// No new work (and no answer awaited) after `secs` from now.
pub fn set_deadline(secs: u64) {
    HANGS.store(0, Ordering::SeqCst);
    DEADLINE.store(since_start() + secs * 1000, Ordering::SeqCst);
}
pub fn expired() -> bool {
    since_start() > DEADLINE.load(Ordering::SeqCst)
}

fn spawn(prog: &Path, reqf: &Path, outf: &Path, stack: usize, cpu: u64) -> std::process::Child {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(prog);
    c.arg(reqf).arg(outf).arg(stack.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if cpu > 0 {
                let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu };
                libc::setrlimit(libc::RLIMIT_CPU, &r);
            }
            Ok(())
        });
    }
    c.spawn().expect("spawn probe")
}

fn run_reqs(
    dir: &Path,
    prog: &Path,
    all: &[(usize, usize, &Req)],
    rc: RunCfg,
    sizes: &mut BTreeMap<usize, BTreeMap<String, usize>>,
) -> Vec<Resp> {
    let mut out: Vec<Option<Resp>> = vec![None; all.len()];
    let mut start = 0;
    let mut round = 0;
    let mut hangs = 0;
    let t0 = Instant::now();
    while start < all.len() || round == 0 {
        round += 1;
        let reqf = dir.join(format!("req{}", round));
        let outf = dir.join(format!("out{}", round));
        let mut s = String::new();
        for (n, (i, _, r)) in all.iter().enumerate().skip(start) {
            r.line(n, *i, &mut s);
        }
        std::fs::write(&reqf, &s).unwrap();
        let mut child = spawn(prog, &reqf, &outf, rc.stack, 0);
        let mut last = (0u64, Instant::now());
        let mut give_up = false;
        let status = loop {
            if let Some(st) = child.try_wait().unwrap() {
                break Some(st);
            }
            let len = std::fs::metadata(&outf).map(|m| m.len()).unwrap_or(0);
            if len != last.0 {
                last = (len, Instant::now());
            } else if last.1.elapsed() > if HANGS.load(Ordering::SeqCst) > 2 { STALL / 3 } else { STALL } {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            if expired() || t0.elapsed() > BATCH_WALL * 2 || (t0.elapsed() > BATCH_WALL && last.1.elapsed() < STALL / 4) {
                let _ = child.kill();
                let _ = child.wait();
                give_up = true;
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let txt = std::fs::read_to_string(&outf).unwrap_or_default();
        let mut done = start;
        let mut ended = false;
        let mut huge = None;
        for l in txt.lines() {
            if l == "END" {
                ended = true;
            } else if let Some(r) = l.strip_prefix("S\t") {
                let f: Vec<&str> = r.split('\t').collect();
                sizes.entry(f[0].parse().unwrap()).or_default().insert(f[1].into(), f[2].parse().unwrap());
            } else if let Some(r) = l.strip_prefix("A\t") {
                huge = r.split('\t').nth(1).and_then(|x| x.parse::<u64>().ok());
            } else {
                let (n, r) = parse_resp(l);
                out[n] = Some(r);
                done = n + 1;
            }
        }
        if std::env::var("VERIF_KEEP").is_err() { let _ = std::fs::remove_file(&reqf); }
        let _ = std::fs::remove_file(&outf);
        if ended {
            break;
        }
        if done >= all.len() {
            break;
        }
        if give_up || (status.is_none() && HANGS.load(Ordering::SeqCst) > 6) {
            break; // out of time: the remaining requests of this batch stay unanswered
        }
        // request `done` was in progress
        let r = match status {
            None => {
                hangs += 1;
                HANGS.fetch_add(1, Ordering::SeqCst);
                // decide by CPU time, alone
                let reqf = dir.join("req_iso");
                let outf = dir.join("out_iso");
                let _ = std::fs::remove_file(&outf);
                let (i, _, r) = &all[done];
                let mut s = String::new();
                r.line(done, *i, &mut s);
                std::fs::write(&reqf, &s).unwrap();
                let mut c = spawn(prog, &reqf, &outf, rc.stack, 40);
                let st = c.wait().unwrap();
                let txt = std::fs::read_to_string(&outf).unwrap_or_default();
                match txt.lines().find(|l| l.starts_with(&format!("{}\t", done))) {
                    Some(l) => parse_resp(l).1,
                    None => {
                        use std::os::unix::process::ExitStatusExt;
                        match st.signal() {
                            Some(libc::SIGXCPU) | Some(libc::SIGKILL) => Resp::Hang,
                            _ => crash(st, None),
                        }
                    }
                }
            }
            Some(st) => crash(st, huge),
        };
        out[done] = Some(r);
        start = done + 1;
        if hangs >= 3 {
            break; // the remaining requests of this batch stay unanswered
        }
    }
    out.into_iter().map(|r| r.unwrap_or(Resp::None("not run".into()))).collect()
}

fn crash(st: std::process::ExitStatus, huge: Option<u64>) -> Resp {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(77) {
        return Resp::HugeAlloc(huge.unwrap_or(0));
    }
    match st.signal() {
        Some(9) => panic!("harness: a probe process was killed (SIGKILL): out of memory?"),
        Some(s) => Resp::Crash(format!("signal {}", s)),
        None => Resp::Crash(format!("exit status {:?}", st.code())),
    }
}

fn parse_side(f: &[&str]) -> Side {
    use crate::wire::E;
    let o = f[0];
    let out = match o.as_bytes()[0] {
        b'O' => Outcome::Ok {
            wire: match f[5].strip_prefix('P') {
                Some(p) => Err(p.to_string()),
                None => Ok(f[5].parse().unwrap()),
            },
            ptrs: f[6]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (a, b) = x.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect(),
            dump: f[7].to_string(),
        },
        b'E' => Outcome::Err(match o.as_bytes().get(1) {
            Some(b'L') => E::Length,
            Some(b'S') => E::Utf8,
            Some(b'B') => E::Bool,
            Some(b'V') => E::Variant(o[2..].parse().unwrap()),
            Some(b'O') => E::OptVariant(o[2..].parse().unwrap()),
            _ => E::Other(o[1..].to_string()),
        }),
        _ => Outcome::Panic(o[1..].to_string()),
    };
    Side {
        out,
        remaining: f[1].parse().unwrap(),
        tail_ok: f[2] == "1",
        total: f[3].parse().unwrap(),
        max: f[4].parse().unwrap(),
    }
}

fn parse_resp(l: &str) -> (usize, Resp) {
    let f: Vec<&str> = l.split('\t').collect();
    let n = f[0].parse().unwrap();
    if f[1] == "X" {
        return (n, Resp::None("type not in table".into()));
    }
    (n, Resp::Done { r: parse_side(&f[1..9]), v: parse_side(&f[9..17]) })
}

pub fn number(s: &str) -> Option<u64> {
    let s = s.trim();
    match s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}
