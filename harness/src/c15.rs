//! C15: the command line tool against the library, over argument lists and file kinds.
use crate::exec::{generate, par, Env};
use crate::exec_check::draw;
use crate::report::*;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    /// an ordinary file
    Plain,
    /// a symbolic link to an ordinary file
    Link,
    /// an inherited pipe, named /dev/fd/N (`fastxdr <(...)`)
    Pipe,
    /// a file whose name is not UTF-8
    RawName,
    Missing,
    MissingDir,
    Directory,
    Dangling,
    LinkLoop,
    /// mode 000, the tool runs as an unprivileged user
    Forbidden,
    /// a path below an ordinary file
    NotADir,
    /// the empty path
    EmptyPath,
}
use Kind::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct File {
    pub kind: Kind,
    pub content: Vec<u8>,
    pub name: String,
    /// the name is the whole argument, nothing is appended to it
    #[serde(default)]
    pub exact: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub files: Vec<File>,
    /// indexes into files: the argument list
    pub args: Vec<usize>,
    /// absolute paths, or relative to the working directory
    pub absolute: bool,
    /// standard output is a regular file instead of a pipe
    pub to_file: bool,
    /// the environment is emptied
    pub bare_env: bool,
    /// what relative names are written behind
    #[serde(default)]
    pub before: String,
}

impl Case {
    fn root(&self) -> bool {
        !self.files.iter().any(|f| f.kind == Forbidden)
    }
}

fn cli() -> PathBuf {
    let t = std::env::var("VERIF_TARGET").unwrap_or_else(|_| "/verif/target".into());
    PathBuf::from(t).join("cli/debug/fastxdr")
}

struct Outcome {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    timed_out: bool,
}

const LIMIT: u64 = 60;
static N: AtomicUsize = AtomicUsize::new(0);

/// None: the case cannot be set up here (no unprivileged user).
fn run_case(work: &Path, bin: &Path, c: &Case) -> Option<Outcome> {
    let dir = work.join(format!("c15-{}", N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    let r = run_in(&dir, bin, c);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn run_in(dir: &Path, bin: &Path, c: &Case) -> Option<Outcome> {
    let mut paths: Vec<OsString> = vec![];
    let mut pipes: Vec<(std::fs::File, Vec<u8>, i32)> = vec![]; // write end, content, fd in child
    let mut read_ends = vec![];
    for (i, f) in c.files.iter().enumerate() {
        let mut name = OsString::from(if f.exact { f.name.clone() } else { format!("{}-{}.x", f.name, i) });
        let p = dir.join(&name);
        match f.kind {
            Plain => std::fs::write(&p, &f.content).unwrap(),
            Forbidden => {
                std::fs::write(&p, &f.content).unwrap();
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
            }
            Link => {
                let q = dir.join(format!("target{}", i));
                std::fs::write(&q, &f.content).unwrap();
                std::os::unix::fs::symlink(&q, &p).unwrap();
            }
            RawName => {
                let mut b = name.into_vec();
                b.extend([0xff, 0xfe, b'x', 0xc3, 0x28]);
                name = OsString::from_vec(b);
                if std::fs::write(dir.join(&name), &f.content).is_err() {
                    return None;
                }
            }
            Missing => {}
            MissingDir => name = OsString::from(format!("nowhere{}/f.x", i)),
            NotADir => {
                std::fs::write(dir.join(format!("plain{}", i)), &f.content).unwrap();
                name = OsString::from(format!("plain{}/f.x", i));
            }
            Directory => std::fs::create_dir(&p).unwrap(),
            Dangling => std::os::unix::fs::symlink(dir.join("nothing-here"), &p).unwrap(),
            LinkLoop => std::os::unix::fs::symlink(&p, &p).unwrap(),
            EmptyPath => {
                paths.push(OsString::new());
                continue;
            }
            Pipe => {
                let mut fds = [0i32; 2];
                assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
                let (r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
                let fd = 300 + i as i32;
                read_ends.push((r, fd));
                pipes.push((w, f.content.clone(), fd));
                paths.push(OsString::from(format!("/dev/fd/{}", fd)));
                continue;
            }
        }
        paths.push(if c.absolute && !f.exact {
            dir.join(&name).into_os_string()
        } else if f.exact {
            name
        } else {
            let mut p = OsString::from(&c.before);
            if c.before == "../" {
                p.push(dir.file_name().unwrap());
                p.push("/");
            }
            p.push(name);
            p
        });
    }
    let mut cmd = Command::new(bin);
    cmd.current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped());
    for a in &c.args {
        cmd.arg(&paths[*a]);
    }
    if c.bare_env {
        cmd.env_clear();
    }
    let out = dir.join("stdout.txt");
    if c.to_file {
        cmd.stdout(std::fs::File::create(&out).unwrap());
    } else {
        cmd.stdout(Stdio::piped());
    }
    let dups: Vec<(i32, i32)> = read_ends.iter().map(|(r, fd)| (r.as_raw_fd(), *fd)).collect();
    unsafe {
        cmd.pre_exec(move || {
            for (from, to) in &dups {
                if libc::dup2(*from, *to) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
    if !c.root() {
        cmd.uid(65534).gid(65534);
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(_) if !c.root() => return None,
        Err(e) => panic!("harness: cannot start the tool: {}", e),
    };
    drop(read_ends);
    let writers: Vec<_> = pipes
        .into_iter()
        .map(|(mut w, b, _)| {
            std::thread::spawn(move || {
                // in pieces, so that the tool sees short reads
                for p in b.chunks(701) {
                    if w.write_all(p).is_err() {
                        break;
                    }
                }
            })
        })
        .collect();
    let mut se = ch.stderr.take().unwrap();
    let et = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        b
    });
    let ot = ch.stdout.take().map(|mut so| {
        std::thread::spawn(move || {
            let mut b = vec![];
            let _ = so.read_to_end(&mut b);
            b
        })
    });
    let pid = ch.id() as i32;
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let dog = std::thread::spawn(move || {
        let late = matches!(rx.recv_timeout(Duration::from_secs(LIMIT)), Err(std::sync::mpsc::RecvTimeoutError::Timeout));
        if late {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
        late
    });
    let stderr = et.join().unwrap();
    let stdout = match ot {
        Some(t) => t.join().unwrap(),
        None => vec![],
    };
    let st = ch.wait().unwrap();
    drop(tx);
    let timed_out = dog.join().unwrap();
    for w in writers {
        let _ = w.join();
    }
    let stdout = if c.to_file { std::fs::read(&out).unwrap_or_default() } else { stdout };
    Some(Outcome { code: st.code(), stdout, stderr, timed_out })
}

/// What the library says of one file: Ok(text), Err(why).
fn expect(f: &File) -> Result<String, String> {
    match f.kind {
        Plain | Link | Pipe | RawName => match std::str::from_utf8(&f.content) {
            Err(_) => Err("not UTF-8".into()),
            Ok(t) => match generate(t, None) {
                Ok(Ok(o)) => Ok(o),
                Ok(Err(e)) => Err(format!("rejected: {}", e)),
                // a panic of the library is C14's business
                Err(p) => Err(format!("library panics: {}", p)),
            },
        },
        k => Err(format!("{:?}", k)),
    }
}

fn judge(c: &Case, exp: &[Result<String, String>], o: &Outcome) -> Option<String> {
    if o.timed_out {
        return Some(format!("the tool does not finish within {} s", LIMIT));
    }
    if let Some(bad) = c.args.iter().position(|a| exp[*a].is_err()) {
        let why = exp[c.args[bad]].as_ref().unwrap_err();
        return nonzero(o, &format!("argument {} cannot be processed ({})", bad, why));
    }
    if c.args.is_empty() {
        return nonzero(o, "no arguments");
    }
    let want: Vec<u8> = c.args.iter().flat_map(|a| exp[*a].as_ref().unwrap().bytes().collect::<Vec<u8>>()).collect();
    if o.code != Some(0) {
        return Some(format!("every file is valid but the exit status is {:?} ({})", o.code, String::from_utf8_lossy(&o.stderr).trim()));
    }
    if o.stdout != want {
        let k = o.stdout.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(o.stdout.len().min(want.len()));
        return Some(format!(
            "standard output ({} bytes) is not the library's text ({} bytes): first difference at byte {}",
            o.stdout.len(),
            want.len(),
            k
        ));
    }
    None
}

fn nonzero(o: &Outcome, why: &str) -> Option<String> {
    match o.code {
        Some(0) => return Some(format!("{} but the exit status is 0", why)),
        None => return Some(format!("{} and the tool is killed by a signal", why)),
        _ => {}
    }
    // a diagnostic: anything legible on standard error, or on standard output
    let legible = |b: &[u8]| b.iter().any(|c| c.is_ascii_alphanumeric());
    if !legible(&o.stderr) && !legible(&o.stdout) {
        return Some(format!("{} but there is no diagnostic", why));
    }
    // what standard output shows may include earlier files' text; it is not a diagnostic
    if !legible(&o.stderr) && o.stdout.windows(11).any(|w| w == b"pub mod xdr") && !c_trailing(o) {
        return Some(format!("{} but there is no diagnostic, only generated text", why));
    }
    None
}

/// Anything after the last closing brace of generated text.
fn c_trailing(o: &Outcome) -> bool {
    let k = o.stdout.iter().rposition(|b| *b == b'}').map(|k| k + 1).unwrap_or(0);
    o.stdout[k..].iter().any(|c| c.is_ascii_alphanumeric()) || o.stdout.first() != Some(&b'#') && !o.stdout.starts_with(b"pub mod")
}

const KINDS: &[Kind] = &[Plain, Link, Pipe, RawName, Missing, MissingDir, Directory, Dangling, LinkLoop, Forbidden, NotADir, EmptyPath];
const NAMES: &[&str] = &["spec", "with space", "néw-漢字", "a'b\"c", "tab\tnl\n", "%s{}", "..x", "UPPER", "semi;colon|&$(x)`"];

/// Names of files that exist, given as they are.
const EXACT: &[&str] = &["-", "--", "-spec.x", "--spec.x", "-o", "@spec", "+", "spec", "spec.X", ".x", "~", "*.x", "=", "a=b", "stdin", "1", " ", "\\", "x\u{301}.x", "file:spec.x"];

/// Content classes, simplest first; classes below 3 are usually valid.
fn content(class: usize, t: &mut Tape, tape: &[u32], seed: u64, i: usize) -> Vec<u8> {
    let from = |cl: usize, s: u64| -> Vec<u8> {
        for k in 0..20u64 {
            let (txt, _) = crate::c14::text(cl, tape, s.wrapping_add(k), i);
            if crate::c14::unrolled(&txt) <= 3000 {
                return txt.into_bytes();
            }
        }
        b"const a = 1;".to_vec()
    };
    match class {
        0 => from(0, seed),
        1 => t
            .pick(&[
                "",
                "\n",
                "// only a comment\n",
                "const a = 1;",
                "const a = 1;\r\n",
                "struct s { opaque o<>; };\n\n\n",
                "/* no newline at the end */ typedef unsigned hyper u64s;",
                "%#include <x>\n",
                "struct s { string \u{e9}<>; };",
            ])
            .as_bytes()
            .to_vec(),
        9 => {
            // longer than any buffer, pipe or read limit one would think of (a long comment and
            // a declaration behind it)
            let n = *t.pick(&[65_500usize, 65_536, 131_072, 262_144, 300_001, 1_048_576, 1_500_001]);
            let mut s = String::from("const first = 1;\n");
            if t.pct(50) {
                while s.len() < n {
                    s.push_str("/* ");
                    s.push_str(&"filler words in a comment ".repeat(40));
                    s.push_str("*/\n");
                }
            } else {
                let mut k = 0;
                while s.len() < n / 4 {
                    s.push_str(&format!("const c{} = 0x{:x};\n", k, k));
                    k += 1;
                }
            }
            s.push_str("struct last { opaque o<>; };\n");
            s.into_bytes()
        }
        2 => {
            // many kilobytes of output
            let n = 200 + t.below(600);
            (0..n).map(|k| format!("struct s{} {{ opaque a<{}>; s{} *next; u32 b[3]; }};\n", k, k + 1, k)).collect::<String>().into_bytes()
        }
        3 => from(1, seed),
        4 => from(3, seed),
        5 => from(6, seed),
        6 => {
            // valid text with a byte that is not UTF-8
            let mut b = from(0, seed);
            let k = t.below(b.len() + 1);
            b.insert(k, *t.pick(&[0xffu8, 0xc3, 0x80, 0xed]));
            b
        }
        7 => {
            let mut b = vec![0xef, 0xbb, 0xbf];
            b.extend(from(0, seed));
            b
        }
        _ => t
            .pick(&[
                "struct",
                "struct s { nowhere x; };",
                "struct s { opaque o<NOPE>; };",
                "union u switch (nowhere d) { case 1: int a; };",
                "const a = 1; const a = 2;",
                "struct s { string x[3]; };",
                "enum e { A = 0xfffffffff };",
                "typedef opaque x",
                "const a = 1;\0",
                "struct s { opaque o[zz]; };",
                "garbage",
            ])
            .as_bytes()
            .to_vec(),
    }
}

fn file(t: &mut Tape, tape: &[u32], seed: u64, i: usize, kind: Kind, valid: bool) -> File {
    let class = if valid { if i % 97 == 41 { 9 } else { t.weighted(&[12, 3, 1]) } } else { 3 + t.weighted(&[3, 4, 3, 2, 1, 4]) };
    let mut f = File { kind, content: content(class, t, tape, seed, i), name: t.pick(NAMES).to_string(), exact: false };
    if kind == Plain && valid && t.pct(15) {
        f.exact = true;
        f.name = t.pick(EXACT).to_string();
    }
    if valid && expect(&f).is_err() && matches!(kind, Plain | Link | Pipe | RawName) {
        f.content = b"struct s { opaque o<>; };".to_vec();
    }
    f
}

fn case(i: usize, tape: &[u32], seed: u64) -> Case {
    let mut t = Tape::seeded(tape, seed);
    // every list of 0..3 arguments over the twelve kinds of file, valid and rejected contents
    // for the kinds that have contents; then random lists
    let alpha: usize = KINDS.len() + 4;
    let total = 1 + alpha + alpha * alpha + alpha * alpha * alpha;
    let mut picks: Vec<usize> = vec![];
    if i < total {
        let mut k = i;
        let mut len = 0;
        let mut block = 1;
        while k >= block {
            k -= block;
            block *= alpha;
            len += 1;
        }
        for _ in 0..len {
            picks.push(k % alpha);
            k /= alpha;
        }
    } else {
        let n = t.weighted(&[1, 5, 5, 5, 1]);
        let n = if n != 4 {
            n
        } else if t.pct(15) {
            *t.pick(&[17usize, 33, 65, 100, 129, 257])
        } else {
            4 + t.below(8)
        };
        // mostly readable files, so that lists without a failure are common
        for _ in 0..n {
            picks.push(if n > 12 || t.pct(80) { t.below(if n > 12 { 2 } else { 4 }) } else { t.below(alpha) });
        }
    }
    let mut files: Vec<File> = vec![];
    let mut args = vec![];
    for (k, p) in picks.iter().enumerate() {
        if i >= total && !files.is_empty() && t.pct(15) {
            let r = t.below(files.len());
            if files[r].kind != Pipe {
                args.push(r);
                continue;
            }
        }
        let (kind, valid) = if *p < KINDS.len() { (KINDS[*p], true) } else { (KINDS[*p - KINDS.len()], false) };
        let mut f = file(&mut t, tape, seed.wrapping_add(k as u64 * 7919), i + k, kind, valid);
        if files.iter().any(|g: &File| g.exact && g.name == f.name) {
            f.exact = false;
        }
        files.push(f);
        args.push(files.len() - 1);
    }
    Case { files, args, absolute: t.pct(50), to_file: t.pct(25), bare_env: t.pct(15), before: t.pick(&["", "", "./", ".//", "../"]).to_string() }
}

fn describe(c: &Case, exp: &[Result<String, String>]) -> serde_json::Value {
    json!({
        "arguments": c.args.iter().map(|a| json!({
            "kind": format!("{:?}", c.files[*a].kind),
            "content": String::from_utf8_lossy(&c.files[*a].content).chars().take(160).collect::<String>(),
            "library": match &exp[*a] { Ok(o) => format!("Ok, {} bytes", o.len()), Err(e) => e.clone() },
        })).collect::<Vec<_>>(),
        "absolute paths": c.absolute, "stdout to a file": c.to_file,
    })
}

fn one(work: &Path, bin: &Path, c: &Case) -> (Vec<Result<String, String>>, Option<Option<String>>) {
    let exp: Vec<_> = c.files.iter().map(expect).collect();
    let r = run_case(work, bin, c).map(|o| judge(c, &exp, &o));
    (exp, r)
}

fn shrink(work: &Path, bin: &Path, c: Case, msg: String) -> (Case, String) {
    let t0 = Instant::now();
    let (mut best, mut msg) = (c, msg);
    let test = |c: &Case| one(work, bin, c).1.flatten();
    loop {
        let mut cands: Vec<Case> = vec![];
        for k in 0..best.args.len() {
            let mut c = best.clone();
            c.args.remove(k);
            cands.push(c);
        }
        for k in 0..best.files.len() {
            if !best.args.contains(&k) {
                let mut c = best.clone();
                c.files.remove(k);
                c.args.iter_mut().for_each(|a| *a -= (*a > k) as usize);
                cands.push(c);
                continue;
            }
            if best.files[k].kind != Plain {
                let mut c = best.clone();
                c.files[k].kind = Plain;
                cands.push(c);
            }
            if best.files[k].name != "spec" || best.files[k].exact {
                let mut c = best.clone();
                c.files[k].name = "spec".into();
                c.files[k].exact = false;
                cands.push(c);
            }
            for s in ["", "const a = 1;", "const a = 1;\nconst b = 2;", "x"] {
                if best.files[k].content.len() > s.len() {
                    let mut c = best.clone();
                    c.files[k].content = s.into();
                    cands.push(c);
                }
            }
            // whole declarations, then bytes
            let b = &best.files[k].content;
            let mut size = b.len() / 2;
            while size >= 1 && b.len() / size <= 64 {
                let mut at = 0;
                while at < b.len() {
                    let mut c = best.clone();
                    c.files[k].content.drain(at..(at + size).min(b.len()));
                    cands.push(c);
                    at += size;
                }
                size /= 2;
            }
        }
        for f in [|c: &mut Case| c.absolute = false, |c: &mut Case| c.to_file = false, |c: &mut Case| c.bare_env = false, |c: &mut Case| c.before.clear()] {
            let mut c = best.clone();
            f(&mut c);
            cands.push(c);
        }
        let size = |c: &Case| (c.args.len(), c.files.len(), c.files.iter().map(|f| f.content.len() + f.name.len() + 9 * f.exact as usize + (f.kind != Plain) as usize).sum::<usize>(), c.before.len() as u8 + c.absolute as u8 + c.to_file as u8 + c.bare_env as u8);
        let mut hit = None;
        for c in cands {
            if t0.elapsed().as_secs() > 60 {
                break;
            }
            if size(&c) >= size(&best) {
                continue;
            }
            if let Some(m) = test(&c) {
                hit = Some((c, m));
                break;
            }
        }
        match hit {
            Some((c, m)) => {
                best = c;
                msg = m;
            }
            None => return (best, msg),
        }
    }
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let thorough = tier == "thorough";
    let mut rep = Report::new("C15", tier, seed);
    rep.rule = "one evaluation = one run of the fastxdr binary built from the working tree on a generated argument list; stdout must be byte for byte the \
                concatenation of what Generator::default().generate returns in this process for each file's contents (exit status 0), or, when some file is \
                unreadable or rejected or the list is empty, the exit status must be non-zero with a diagnostic. Non-trivial = at least one argument"
        .into();
    rep.assumptions = vec![
        "what standard output holds besides the diagnostic when a later file fails is not judged".into(),
        "an argument that names an existing file is a file, whatever it begins with".into(),
    ];
    let (bin, scratch) = install(&env);
    // is there an unprivileged user to run as?
    let n: usize = std::env::var("VERIF_SPECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 60_000 } else { 8_000 });
    let mut fails: Vec<(Case, String)> = vec![];
    let items: Vec<(usize, Vec<u32>, u64)> = draw(seed, "C15", n, 8, 260).into_iter().enumerate().map(|(i, (t, s))| (i, t, s)).collect();
    for chunk in items.chunks(2000) {
        let res = par(env.threads, chunk, |_, (i, tape, s)| {
            let c = case(*i, tape, *s);
            let (exp, r) = one(&scratch, &bin, &c);
            (c, exp, r)
        });
        for (c, exp, r) in res {
            let r = match r {
                Some(r) => r,
                None => {
                    rep.count("not-set-up-here", 1);
                    continue;
                }
            };
            rep.evaluations += 1;
            let bad = c.args.iter().filter(|a| exp[**a].is_err()).count();
            rep.class(&format!("{} file(s), {}", if c.args.len() > 3 { "4 or more".to_string() } else { c.args.len().to_string() }, if bad == 0 { "all valid" } else { "some failing" }));
            for a in &c.args {
                rep.count(&format!("kind-{:?}", c.files[*a].kind), 1);
                if let Err(e) = &exp[*a] {
                    if e.starts_with("rejected") {
                        rep.count("rejected-by-the-library", 1);
                    } else if e == "not UTF-8" {
                        rep.count("content-not-utf8", 1);
                    }
                }
            }
            if !c.args.is_empty() {
                rep.distinct.insert(h64(&serde_json::to_string(&c).unwrap()));
            }
            if rep.evaluations % 1511 == 400 {
                rep.sample(describe(&c, &exp));
            }
            if let Some(m) = r {
                fails.push((c, m));
            }
        }
        if fails.len() >= 20 {
            break;
        }
    }
    if !fails.is_empty() {
        rep.count("failing-cases", fails.len() as u64);
        fails.sort_by_key(|(c, _)| (c.args.len(), c.files.iter().map(|f| f.content.len()).sum::<usize>()));
        for (c, _) in fails.iter().take(10) {
            // decide again, alone
            if let Some(m) = one(&scratch, &bin, c).1.flatten() {
                let (c, m) = shrink(&scratch, &bin, c.clone(), m);
                rep.violation(&m, json!({"kind": "c15", "case": c}));
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    crate::findings::witness("C15", &env, &mut rep);
    rep.finish()
}

/// A copy of the binary and a scratch directory that an unprivileged user can reach.
fn install(env: &Env) -> (PathBuf, PathBuf) {
    let scratch = std::env::temp_dir().join(format!("verif-c15-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let _ = std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o755));
    let bin = scratch.join("fastxdr");
    if std::fs::copy(cli(), &bin).is_err() {
        panic!("harness: no CLI binary at {}", cli().display());
    }
    let _ = std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755));
    let _ = env;
    (bin, scratch)
}

pub fn replay(v: &serde_json::Value) -> i32 {
    let env = Env::load();
    let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
    let (bin, scratch) = install(&env);
    let (exp, r) = one(&scratch, &bin, &c);
    println!("{}", serde_json::to_string_pretty(&describe(&c, &exp)).unwrap());
    let _ = std::fs::remove_dir_all(&scratch);
    match r.flatten() {
        Some(m) => {
            println!("still fails: {}", m);
            1
        }
        None => {
            println!("the property holds for this case now");
            0
        }
    }
}
