//! A check runs in a child of itself.  Texts being given to the crate under test are noted in a
//! shared file, so that a stack overflow, an abort or an endless loop inside the generator is
//! attributed to the text that causes it instead of ending the check without an answer.
use crate::report::Report;
use serde_json::json;
use std::cell::RefCell;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
const SLOT: usize = 1 << 20;
/// slot layout: start time in ms (0 = free), length, text
const HEAD: usize = 16;

static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static FREE: Mutex<Vec<usize>> = Mutex::new(Vec::new());
pub static CALLS: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn map(path: &str) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = match std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path) {
        Ok(f) => f,
        Err(_) => return std::ptr::null_mut(),
    };
    let len = SLOTS * SLOT;
    f.set_len(len as u64).unwrap();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}

pub fn attach() {
    if let Ok(p) = std::env::var("VERIF_INFLIGHT") {
        MAP.store(map(&p), SeqCst);
        *FREE.lock().unwrap() = (0..SLOTS).collect();
        std::env::remove_var("VERIF_INFLIGHT");
    }
}

struct Mine(Option<usize>);
impl Drop for Mine {
    fn drop(&mut self) {
        if let Some(s) = self.0 {
            FREE.lock().unwrap().push(s);
        }
    }
}
thread_local! {
    static MINE: RefCell<Mine> = const { RefCell::new(Mine(None)) };
}

/// Runs `f`, code of the crate under test working on `text`.
pub fn noted<T>(text: &str, f: impl FnOnce() -> T) -> T {
    let m = MAP.load(SeqCst);
    if m.is_null() || text.len() + HEAD > SLOT {
        return f();
    }
    let slot = MINE.with(|s| {
        let mut s = s.borrow_mut();
        if s.0.is_none() {
            s.0 = FREE.lock().unwrap().pop();
        }
        s.0
    });
    let s = match slot {
        Some(s) => s,
        None => return f(),
    };
    unsafe {
        let p = m.add(s * SLOT);
        std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(HEAD), text.len());
        (*(p.add(8) as *const AtomicU64)).store(text.len() as u64, SeqCst);
        (*(p as *const AtomicU64)).store(now().max(1), SeqCst);
        CALLS.fetch_add(1, SeqCst);
        let r = f();
        (*(p as *const AtomicU64)).store(0, SeqCst);
        r
    }
}

fn slots(m: *mut u8) -> Vec<(u64, String)> {
    let mut out = vec![];
    for s in 0..SLOTS {
        unsafe {
            let p = m.add(s * SLOT);
            let t = (*(p as *const AtomicU64)).load(SeqCst);
            if t != 0 {
                let l = ((*(p.add(8) as *const AtomicU64)).load(SeqCst) as usize).min(SLOT - HEAD);
                let b = std::slice::from_raw_parts(p.add(HEAD), l);
                out.push((t, String::from_utf8_lossy(b).to_string()));
            }
        }
    }
    out
}

/// a call takes milliseconds
const STUCK_MS: u64 = 120_000;

pub fn supervise(prop: &str, tier: &str, seed: u64) -> i32 {
    let target = std::env::var("VERIF_TARGET").unwrap_or_else(|_| "/verif/target".into());
    let path = format!("{}/inflight-{}", target, std::process::id());
    let m = map(&path);
    let limit = Duration::from_secs(if tier == "thorough" { 12 * 3600 } else { 850 });
    let t0 = Instant::now();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["check-inner", prop]).env("VERIF_INFLIGHT", &path);
    let mut ch = c.spawn().expect("harness: cannot start");
    let mut why = String::new();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                let stuck = !m.is_null() && slots(m).iter().any(|s| now().saturating_sub(s.0) > STUCK_MS);
                if stuck || t0.elapsed() > limit {
                    why = if stuck { "a call does not return".into() } else { "time is up".into() };
                    unsafe { libc::kill(ch.id() as i32, libc::SIGKILL) };
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    };
    let texts: Vec<String> = if m.is_null() { vec![] } else { slots(m).into_iter().map(|s| s.1).collect() };
    let _ = std::fs::remove_file(&path);
    if st.is_none() || st.map(|s| s.signal().is_some()).unwrap_or(false) {
        let work = format!("{}/work-{}", target, ch.id());
        if std::path::Path::new(&work).is_dir() {
            let _ = std::fs::remove_dir_all(&work);
        }
    }
    if let Some(s) = st {
        if let Some(c) = s.code() {
            return c;
        }
        why = format!("the check was ended by signal {}", s.signal().unwrap_or(0));
    }
    eprintln!("{}: {}; {} text(s) in flight", prop, why, texts.len());
    if !matches!(prop, "C01" | "C07" | "C11" | "C12" | "C13") {
        return 2;
    }
    let mut rep = Report::new(prop, tier, seed);
    rep.rule = "the check was ended by the generator; the texts in flight are re-run alone, each in a fresh process".into();
    for t in texts {
        rep.evaluations += 1;
        rep.distinct.insert(crate::report::h64(&t));
        if let Some(m) = alone(&t) {
            rep.violation(&m, json!({"kind": "inflight", "text": t}));
            break;
        }
    }
    if rep.violations.is_empty() {
        return 2;
    }
    rep.finish()
}

/// What happens to a process that works on this text only.
fn alone(text: &str) -> Option<String> {
    match crate::c14::run_texts(&[text.to_string()], 4 << 30, 60, usize::MAX).remove(0) {
        crate::c14::Res::Died(w) => Some(format!("no result for a specification of the supported subset: the generator {}", w)),
        _ => None,
    }
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let t = c["text"].as_str().unwrap_or("");
    println!("{}", t);
    match alone(t) {
        Some(m) => {
            println!("still fails: {}", m);
            1
        }
        None => {
            println!("the generator returns for this text now");
            0
        }
    }
}
