//! C11: generation is a pure function of the declarations.
//!  - every text generated alone in a fresh process (different environment, directory and
//!    arguments) versus: again in another fresh process, and inside histories of calls on one
//!    shared Generator (interleaved with variants of the same text, rejected texts, other
//!    generators, threads): byte identity;
//!  - the same declarations in other layouts and in other orders: equal item sets.
use crate::exec::{guarded, par, Env};
use crate::exec_check::draw;
use crate::gen::{gen_spec, Cfg};
use crate::inflate;
use crate::model::*;
use crate::print;
use crate::report::*;
use crate::shrink;
use crate::tape::Tape;
use quote::ToTokens;
use serde_json::json;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::Instant;

const DERIVES: &[Option<&str>] = &[None, Some("#[derive(Debug, PartialEq, Clone)]"), Some("#[derive(Clone, Debug)]")];

/// Some(module) or None when the specification is rejected.
type Out = Option<String>;

fn call(g: &fastxdr::Generator, text: &str) -> Result<Out, String> {
    guarded(|| crate::sup::noted(text, || g.generate(text).ok()))
}

fn generator(d: usize) -> fastxdr::Generator {
    match DERIVES[d] {
        None => fastxdr::Generator::default(),
        Some(x) => fastxdr::Generator::default().with_derive(x),
    }
}

/// `vharness gen-worker <derive>`: one text on stdin, the output on stdout.
pub fn worker(args: &[String]) -> i32 {
    let d: usize = args[2].parse().unwrap();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let g = generator(d);
    // tells the shim where the call begins and ends
    let _ = std::env::var_os("VERIF_GEN_BEGIN");
    let out = call(&g, &text);
    let _ = std::env::var_os("VERIF_GEN_END");
    let out = match out {
        Ok(Some(m)) => format!("K{}", m),
        Ok(None) => "E".to_string(),
        Err(p) => format!("P{}", p),
    };
    let mut o = std::io::stdout();
    o.write_all(out.as_bytes()).unwrap();
    o.flush().unwrap();
    0
}

const SHIM: &str = include_str!("../drivers/shim.c");

fn shim(env: &Env) -> Option<&'static std::path::Path> {
    static SO: std::sync::OnceLock<Option<std::path::PathBuf>> = std::sync::OnceLock::new();
    SO.get_or_init(|| {
        let (src, so) = (env.work.join("shim.c"), env.work.join("shim.so"));
        std::fs::write(&src, SHIM).ok()?;
        let o = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&src).arg("-ldl").output().ok()?;
        o.status.success().then_some(so)
    })
    .as_deref()
}

/// What a generator process finds around it.
#[derive(Clone, Default, serde::Serialize, serde::Deserialize, Debug, PartialEq)]
struct World {
    vars: Vec<(String, String)>,
    /// a path and the content of the file there (None: there is none)
    file: Option<(String, Option<String>)>,
}

/// Contents given to variables and files the generator turns out to ask for.
const CONTENTS: &[&str] = &["", "0", "1", "2", "16", "4294967296", "true", "false", "x", "/tmp", "C", "tr_TR.UTF-8", "#[derive(Clone)]", "a = 1\nmax_width = 20\n", "{\"a\": 1}\n"];

/// Variables read by the standard library and the C library, not by the generator.
fn runtime_var(n: &str) -> bool {
    n.is_empty() || n.contains('=') || ["RUST_", "LD_", "MALLOC_", "GLIBC_", "VSHIM_", "VERIF_"].iter().any(|p| n.starts_with(p))
}

/// The variables and paths a generator process asks for while it works on `text`.
fn asked(env: &Env, text: &str, d: usize) -> Vec<(String, String)> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let Some(so) = shim(env) else { return vec![] };
    let log = env.work.join(format!("asked{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let _ = spawn(text, d, |c| {
        c.current_dir(&env.work).env("LD_PRELOAD", so).env("VSHIM_LOG", &log);
    });
    let mut v: Vec<(String, String)> = std::fs::read(&log)
        .map(|b| String::from_utf8_lossy(&b).lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
        .unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    v.retain(|(k, n)| !n.is_empty() && !n.contains('\u{fffd}') && (k != "env" || !runtime_var(n)));
    v.sort();
    v.dedup();
    v
}

/// The output of a process in that world.
fn fresh_in(env: &Env, text: &str, d: usize, w: &World) -> Result<Out, String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let file = env.work.join(format!("world{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let r = spawn(text, d, |c| {
        c.current_dir(&env.work);
        for (k, v) in &w.vars {
            c.env(k, v);
        }
        if let (Some((p, content)), Some(so)) = (&w.file, shim(env)) {
            if let Some(t) = content {
                let _ = std::fs::write(&file, t);
            }
            c.env("LD_PRELOAD", so).env("VSHIM_PATH", p).env("VSHIM_TO", &file);
        }
    });
    let _ = std::fs::remove_file(&file);
    r
}

fn differ(a: &Result<Out, String>, b: &Result<Out, String>) -> String {
    match (a, b) {
        (Ok(a), Ok(b)) => first_diff(a, b),
        _ => "one of them panics".into(),
    }
}

/// The output of a process that does nothing else.
fn fresh(env: &Env, text: &str, d: usize, variant: usize) -> Result<Out, String> {
    spawn(text, d, |c| around(env, c, variant))
}

fn around(env: &Env, c: &mut Command, variant: usize) {
    match variant % 5 {
        0 => {}
        4 => match shim(env) {
            // another time, host, process id, user and number of processors
            Some(so) => {
                c.env("LD_PRELOAD", so).env("VSHIM_SHIFT", "1");
            }
            None => {}
        },
        1 => {
            c.env_clear().current_dir("/");
        }
        2 => {
            c.current_dir(&env.work).env("LANG", "tr_TR.UTF-8").env("TZ", "Pacific/Chatham").env("HOME", "/nonexistent").env("OUT_DIR", "/nonexistent");
            c.arg("more").arg("arguments");
        }
        _ => {
            c.env("FASTXDR", "1").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "1").env("CARGO_PKG_NAME", "other").env("X", "y".repeat(3000));
        }
    }
}

fn spawn(text: &str, d: usize, set: impl FnOnce(&mut Command)) -> Result<Out, String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(["gen-worker", &d.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    set(&mut c);
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("harness: cannot start a worker: {}", e))?;
    let mut i = ch.stdin.take().unwrap();
    let t = text.as_bytes().to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&t);
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    match s.chars().next() {
        Some('K') => Ok(Some(s[1..].to_string())),
        Some('E') => Ok(None),
        Some('P') => Err(format!("generate panics: {}", &s[1..])),
        _ => Err(format!("generate kills the process: {:?}", o.status)),
    }
}

/// Items of the module as sorted token strings.
pub fn item_set(module: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(module).map_err(|e| format!("not Rust: {}", e))?;
    let mut v = vec![];
    for i in f.items {
        match i {
            syn::Item::Mod(m) => {
                v.push(format!("mod {} {}", m.ident, m.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>()));
                for i in m.content.map(|c| c.1).unwrap_or_default() {
                    v.push(i.to_token_stream().to_string());
                }
            }
            i => v.push(i.to_token_stream().to_string()),
        }
    }
    v.sort();
    Ok(v)
}

fn same_items(a: &Out, b: &Out) -> Result<(), String> {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            if a == b {
                return Ok(());
            }
            let (x, y) = (item_set(a)?, item_set(b)?);
            if x == y {
                return Ok(());
            }
            let only = |x: &Vec<String>, y: &Vec<String>| -> String {
                let s: Vec<String> = x.iter().filter(|i| !y.contains(i)).map(|s| s.chars().take(300).collect()).take(2).collect();
                s.join(" ## ")
            };
            Err(format!("items differ: [{}] against [{}]", only(&x, &y), only(&y, &x)))
        }
        (a, b) => Err(format!("one is {}, the other {}", if a.is_some() { "accepted" } else { "rejected" }, if b.is_some() { "accepted" } else { "rejected" })),
    }
}

fn first_diff(a: &Out, b: &Out) -> String {
    match (a, b) {
        (Some(a), Some(b)) => {
            let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| {
                let mut lo = k.saturating_sub(40).min(s.len());
                while !s.is_char_boundary(lo) {
                    lo -= 1;
                }
                s[lo..].chars().take(120).collect::<String>()
            };
            format!("first difference at byte {}: {:?} against {:?}", k, cut(a), cut(b))
        }
        (a, b) => format!("accepted: {} against {}", a.is_some(), b.is_some()),
    }
}

/// Splits a specification text into top-level declarations' tokens (own lexer, comments dropped).
pub fn lex(text: &str) -> Vec<Vec<String>> {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut toks: Vec<String> = vec![];
    let mut out = vec![];
    let mut depth = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' && b[i] != '\r' {
                i += 1;
            }
        } else if c == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_ascii_alphanumeric() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            toks.push(b[s..i].iter().collect());
        } else {
            toks.push(c.to_string());
            i += 1;
            match c {
                '{' => depth += 1,
                '}' => depth -= 1,
                ';' if depth == 0 => out.push(std::mem::take(&mut toks)),
                _ => {}
            }
        }
    }
    if !toks.is_empty() {
        out.push(toks);
    }
    out
}

#[derive(Clone, serde::Serialize, serde::Deserialize, Debug)]
struct Step {
    /// index into the texts
    text: usize,
    derive: usize,
    thread: bool,
}

#[derive(Clone, serde::Serialize, serde::Deserialize, Debug)]
#[serde(tag = "kind", rename = "c11")]
struct Case {
    relation: String,
    texts: Vec<String>,
    steps: Vec<Step>,
    derive: usize,
    #[serde(default)]
    world: World,
}

/// Runs a history on shared generators; compares with `want[text][derive]`.
fn history(texts: &[String], steps: &[Step], want: &dyn Fn(usize, usize) -> Result<Out, String>) -> Option<(usize, String)> {
    let gens: Vec<fastxdr::Generator> = (0..DERIVES.len()).map(generator).collect();
    for (k, s) in steps.iter().enumerate() {
        let got = if s.thread {
            let g = &gens[s.derive];
            let t = &texts[s.text];
            // two concurrent calls on the same generator
            let (a, b) = std::thread::scope(|sc| {
                let x = sc.spawn(|| call(g, t));
                let y = sc.spawn(|| call(g, t));
                (x.join().unwrap(), y.join().unwrap())
            });
            if a != b {
                return Some((k, format!("two concurrent calls differ: {}", match (&a, &b) {
                    (Ok(a), Ok(b)) => first_diff(a, b),
                    _ => "one panics".into(),
                })));
            }
            a
        } else {
            call(&gens[s.derive], &texts[s.text])
        };
        let w = want(s.text, s.derive);
        match (&got, &w) {
            (Ok(a), Ok(b)) if a == b => {}
            (Ok(a), Ok(b)) => return Some((k, format!("call {} of the history differs from a fresh process: {}", k, first_diff(a, b)))),
            // panics are C14's subject, as long as both do
            (Err(_), Err(_)) => {}
            (Err(p), Ok(_)) => return Some((k, format!("call {} of the history panics, a fresh process does not: {}", k, p))),
            (Ok(_), Err(p)) => return Some((k, format!("call {} of the history succeeds, a fresh process does not: {}", k, p))),
        }
    }
    None
}

fn scramble_case(spec: &Spec, t: &mut Tape) -> Spec {
    // a variant: same names, one definition changed
    let mut s = spec.clone();
    let root = s.decls[t.below(s.decls.len())].name().to_string();
    let c = shrink::candidates(&s, &root);
    if !c.is_empty() && t.pct(70) {
        let k = t.below(c.len());
        return c[k].0.clone();
    }
    for d in s.decls.iter_mut() {
        match d {
            Decl::Const { val, text, .. } => {
                *val = val.wrapping_add(1) & 0x7f;
                *text = val.to_string();
            }
            Decl::Struct { fields, .. } => fields.reverse(),
            Decl::Enum { members, .. } => members.reverse(),
            _ => {}
        }
    }
    s
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..=p.len())
                    .map(|i| {
                        let mut q = p.clone();
                        q.insert(i, k);
                        q
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

fn shuffled(n: usize, t: &mut Tape) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = t.below(i + 1);
        p.swap(i, j);
    }
    p
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let thorough = tier == "thorough";
    let mut rep = Report::new("C11", tier, seed);
    rep.rule = "one evaluation = one output compared: a text generated in a second fresh process (other environment and directory), one call of a history on shared Generator \
                values compared with the fresh process of its text, or one relayout / reordering of the declarations whose item set is compared. \
                Non-trivial = the text declares at least two types (histories: and the call is not the first)"
        .into();
    rep.assumptions = vec![
        "inserted layout: blank, tab, LF, CR, CRLF and comments surrounded by white space, in every position between two tokens".into(),
        "items compared as token strings (syn), the order of items in the module is free across layouts and orders, not across calls".into(),
    ];
    let cfg = Cfg { uncompilable: true, default_anywhere: true, ..Cfg::default() };
    let mut fails: Vec<(String, Case)> = vec![];

    // ---- fresh processes and histories
    let np = if thorough { 20_000 } else { 2400 };
    let draws = draw(seed, "C11p", np, 30, 600);
    let groups: Vec<(usize, Vec<u32>, u64)> = draws.into_iter().enumerate().map(|(i, (t, s))| (i, t, s)).collect();
    let chunks: Vec<&[(usize, Vec<u32>, u64)]> = groups.chunks(4).collect();
    let res = par(env.threads, &chunks, |ci, ch| {
        // the pool of texts of this group
        let mut texts: Vec<String> = vec![];
        let mut types = vec![];
        for (i, tape, s) in ch.iter() {
            let mut t = Tape::new(tape);
            let mut spec = gen_spec(&mut t, &Cfg { max_types: [4, 9, 14][i % 3], ..cfg.clone() });
            let mut lt = Tape::seeded(&[], *s);
            if i % 4 == 1 {
                inflate::similar(&mut spec, &mut lt);
            }
            if i % 5 == 2 {
                inflate::natural(&mut spec, &mut lt);
            }
            if i % 40 == 3 {
                inflate::inflate(&mut spec, &mut lt, true);
            }
            let nty = spec.decls.iter().filter(|d| d.is_type()).count();
            texts.push(print::print_decls(&spec.decls, &mut lt, (i % 3) as u32));
            let var = scramble_case(&spec, &mut lt);
            texts.push(print::print_decls(&var.decls, &mut lt, 0));
            types.push(nty);
            types.push(nty);
        }
        // a rejected text: parse error, or an error after parsing
        let base = texts[0].clone();
        let cut = base.len() * 2 / 3;
        let cut = (0..=cut).rev().find(|k| base.is_char_boundary(*k)).unwrap();
        texts.push(base[..cut].to_string());
        texts.push(format!("{}\nstruct broken_1 {{ opaque x[NO_SUCH_CONSTANT]; }};", base));
        types.extend([2, 2]);
        if ci % 10 == 0 {
            let s = crate::c07::SEEDS[(ci / 10) % crate::c07::SEEDS.len()].1;
            texts.push(s.to_string());
            types.push(9);
        }
        let mut want: Vec<Vec<Result<Out, String>>> = vec![];
        let mut bad: Option<(String, Case)> = None;
        let mut n_fresh = 0u64;
        for (k, t) in texts.iter().enumerate() {
            let mut row = vec![];
            for d in 0..DERIVES.len() {
                if d > 0 && k % 2 == 1 {
                    row.push(Err("harness: not computed".to_string()));
                    continue;
                }
                let a = fresh(&env, t, d, 0);
                if d == 0 {
                    let b = fresh(&env, t, d, 1 + (k + ci) % 4);
                    n_fresh += 1;
                    if a != b && bad.is_none() {
                        let m = match (&a, &b) {
                            (Ok(a), Ok(b)) => first_diff(a, b),
                            _ => "one of them panics".into(),
                        };
                        bad = Some((format!("two fresh processes differ: {}", m), Case { relation: "processes".into(), texts: vec![t.clone()], steps: vec![], derive: d, world: World::default() }));
                    }
                }
                row.push(a);
            }
            want.push(row);
        }
        // histories
        let mut t = Tape::seeded(&[], ch[0].2 ^ 0x1111);
        let mut calls = 0u64;
        let mut nontriv = vec![];
        for h in 0..4 {
            // the last kind: very many calls of one generator for two short texts
            let long = h == 3;
            if long && ci % 16 != 5 {
                continue;
            }
            let n = [40, 14, 14, if ci % 64 == 5 { 3000 } else { 400 }][h];
            let mut short: Vec<usize> = (0..texts.len()).step_by(2).filter(|k| texts[*k].len() < 6000).collect();
            short.sort_by_key(|k| texts[*k].len());
            short.truncate(2);
            if long && short.is_empty() {
                continue;
            }
            let one = if ci % 32 == 5 { 0 } else { 1 };
            let steps: Vec<Step> = (0..n)
                .map(|_| {
                    if long {
                        return Step { text: *t.pick(&short), derive: one, thread: t.pct(1) };
                    }
                    let text = t.below(texts.len());
                    Step { text, derive: if text % 2 == 0 && t.pct(25) { 1 + t.below(DERIVES.len() - 1) } else { 0 }, thread: t.pct(12) }
                })
                .collect();
            calls += steps.len() as u64;
            for (k, s) in steps.iter().enumerate() {
                if k > 0 && types[s.text] >= 2 {
                    nontriv.push(h64(&(ci, h, k)));
                }
            }
            if let Some((k, m)) = history(&texts, &steps, &|x, d| want[x][d].clone()) {
                if bad.is_none() {
                    let mut steps = steps;
                    steps.truncate(k + 1);
                    bad = Some((m, Case { relation: "history".into(), texts: texts.clone(), steps, derive: 0, world: World::default() }));
                }
            }
        }
        (n_fresh, calls, nontriv, bad, texts)
    });
    for (nf, calls, nontriv, bad, texts) in res {
        rep.evaluations += nf + calls;
        rep.count("fresh-process-pairs", nf);
        rep.count("history-calls", calls);
        for t in &texts {
            rep.distinct.insert(h64(t));
        }
        rep.distinct.extend(nontriv);
        if rep.samples.len() < 2 {
            rep.sample(json!({"history over texts": texts.iter().take(2).collect::<Vec<_>>(), "calls": calls}));
        }
        fails.extend(bad);
    }

    // ---- what the generator asks its surroundings for, answered in other ways
    let draws = draw(seed, "C11w", if thorough { 600 } else { 64 }, 30, 600);
    let items: Vec<(usize, Vec<u32>, u64)> = draws.into_iter().enumerate().map(|(i, (t, s))| (i, t, s)).collect();
    let res = par(env.threads, &items, |_, (i, tape, s)| {
        let mut t = Tape::new(tape);
        let mut spec = gen_spec(&mut t, &Cfg { max_types: [4, 9, 14][i % 3], ..cfg.clone() });
        let mut lt = Tape::seeded(&[], *s);
        if i % 8 == 3 {
            inflate::inflate(&mut spec, &mut lt, true);
        }
        let text = match i % 9 {
            8 => crate::c07::SEEDS[i / 9 % crate::c07::SEEDS.len()].1.to_string(),
            _ => print::print_decls(&spec.decls, &mut lt, (i % 3) as u32),
        };
        let d = if i % 4 == 0 { 1 } else { 0 };
        let asked = asked(&env, &text, d);
        let mut worlds: Vec<World> = vec![];
        for (kind, n) in asked.iter().take(12) {
            for c in CONTENTS {
                worlds.push(match kind.as_str() {
                    "env" => World { vars: vec![(n.clone(), c.to_string())], file: None },
                    _ => World { vars: vec![], file: Some((n.clone(), Some(c.to_string()))) },
                });
            }
            if kind != "env" {
                worlds.push(World { vars: vec![], file: Some((n.clone(), None)) });
            }
        }
        let want = fresh_in(&env, &text, d, &World::default());
        let mut bad = None;
        for w in &worlds {
            let got = fresh_in(&env, &text, d, w);
            if got != want {
                bad = Some((format!("a process which finds {:?} gives another output: {}", w, differ(&want, &got)), Case { relation: "world".into(), texts: vec![text.clone()], steps: vec![], derive: d, world: w.clone() }));
                break;
            }
        }
        (asked.len() as u64, worlds.len() as u64, bad)
    });
    for (na, nw, bad) in res {
        rep.evaluations += 1 + nw;
        rep.count("texts watched for variables and files", 1);
        rep.count("variables and files asked for", na);
        rep.count("answers tried", nw);
        fails.extend(bad);
    }

    // ---- layouts and orders
    let nl: usize = std::env::var("VERIF_SPECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 600_000 } else { 50_000 });
    let draws = draw(seed, "C11l", nl, 30, 700);
    let items: Vec<(usize, Vec<u32>, u64)> = draws.into_iter().enumerate().map(|(i, (t, s))| (i, t, s)).collect();
    let res = par(env.threads, &items, |_, (i, tape, s)| {
        let mut t = Tape::new(tape);
        let mut spec = gen_spec(&mut t, &Cfg { max_types: [2, 4, 9, 14][i % 4], ..cfg.clone() });
        let mut lt = Tape::seeded(&[], *s);
        if i % 5 == 1 {
            inflate::similar(&mut spec, &mut lt);
        }
        if i % 5 == 2 {
            inflate::natural(&mut spec, &mut lt);
        }
        if i % 400 == 3 {
            inflate::inflate(&mut spec, &mut lt, true);
        }
        let base = print::print_decls(&spec.decls, &mut Tape::new(&[]), 0);
        let g = generator(0);
        let want = match call(&g, &base) {
            Ok(w) => w,
            Err(_) => return (vec![], None, base, spec.decls.len()),
        };
        let mut alts: Vec<(&'static str, String)> = vec![
            ("layout", print::canonical(&spec)),
            ("layout", print::print_decls(&spec.decls, &mut lt, 1)),
            ("layout", print::print_decls(&spec.decls, &mut lt, 2)),
            ("layout", print::print_decls(&spec.decls, &mut lt, 2)),
        ];
        let n = spec.decls.len();
        let ps = if n <= 4 { perms(n) } else { let mut v: Vec<Vec<usize>> = (0..4).map(|_| shuffled(n, &mut lt)).collect(); v.push((0..n).rev().collect()); v };
        for p in ps {
            let ds: Vec<Decl> = p.iter().map(|k| spec.decls[*k].clone()).collect();
            alts.push(("order", print::print_decls(&ds, &mut Tape::new(&[]), 0)));
        }
        let ds: Vec<Decl> = shuffled(n, &mut lt).iter().map(|k| spec.decls[*k].clone()).collect();
        alts.push(("order and layout", print::print_decls(&ds, &mut lt, 2)));
        let mut cls = vec![];
        let mut bad = None;
        for (c, a) in alts {
            cls.push(c);
            let got = call(&g, &a);
            let r = match &got {
                Ok(o) => same_items(&want, o),
                Err(p) => Err(format!("panics: {}", p)),
            };
            if let Err(m) = r {
                bad = Some((format!("changed {}: {}", c, m), Case { relation: "items".into(), texts: vec![base.clone(), a], steps: vec![], derive: 0, world: World::default() }, spec.clone()));
                break;
            }
        }
        (cls, bad, base, n)
    });
    let mut spec_fails: Vec<(String, Case, Spec)> = vec![];
    for (cls, bad, base, n) in res {
        let h = h64(&base);
        for (k, c) in cls.iter().enumerate() {
            rep.evaluations += 1;
            rep.class(c);
            if n >= 2 {
                rep.distinct.insert(h ^ (k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            }
        }
        spec_fails.extend(bad);
    }
    // realistic specifications, relaid and reordered by their tokens
    for (name, text) in crate::c07::SEEDS {
        let ds = lex(text);
        let g = generator(0);
        let want = match call(&g, text) {
            Ok(w) => w,
            Err(_) => continue,
        };
        for k in 0..if thorough { 400 } else { 40 } {
            let mut t = Tape::seeded(&[], seed ^ k << 8 ^ h64(name));
            let order = if k % 2 == 0 { (0..ds.len()).collect() } else { shuffled(ds.len(), &mut t) };
            let toks: Vec<Vec<String>> = order.iter().map(|i| ds[*i].clone()).collect();
            let a = print::print_tokens(&toks, &mut t, (k % 3) as u32);
            rep.evaluations += 1;
            rep.class("realistic specification");
            rep.distinct.insert(h64(&a));
            let r = match call(&g, &a) {
                Ok(o) => same_items(&want, &o),
                Err(p) => Err(format!("panics: {}", p)),
            };
            if let Err(m) = r {
                spec_fails.push((format!("{}, layout/order changed: {}", name, m), Case { relation: "items".into(), texts: vec![text.to_string(), a], steps: vec![], derive: 0, world: World::default() }, Spec::default()));
                break;
            }
        }
    }
    if !spec_fails.is_empty() {
        rep.count("failing-cases", spec_fails.len() as u64);
        spec_fails.sort_by_key(|f| (f.2.decls.is_empty(), f.1.texts[0].len()));
        let (m, c, spec) = spec_fails.remove(0);
        let (m, c) = shrink_items(m, c, spec);
        rep.violation(&m, serde_json::to_value(&c).unwrap());
    }
    if !fails.is_empty() {
        rep.count("failing-histories", fails.len() as u64);
        fails.sort_by_key(|f| (f.1.relation.clone(), f.1.steps.len(), f.1.texts[0].len()));
        fails.reverse();
        let (m, c) = fails.pop().unwrap();
        let (m, c) = shrink_history(&env, m, c);
        rep.violation(&m, serde_json::to_value(&c).unwrap());
    }
    crate::findings::witness("C11", &env, &mut rep);
    rep.finish()
}

fn shrink_items(m: String, c: Case, spec: Spec) -> (String, Case) {
    if spec.decls.is_empty() {
        return (m, c);
    }
    let t0 = Instant::now();
    let g = generator(0);
    let fails = |s: &Spec| -> Option<(String, Case)> {
        let base = print::print_decls(&s.decls, &mut Tape::new(&[]), 0);
        let want = call(&g, &base).ok()?;
        for k in 0..24u64 {
            let mut t = Tape::seeded(&[], k);
            let ds: Vec<Decl> = if k % 3 == 0 { s.decls.clone() } else { shuffled(s.decls.len(), &mut t).iter().map(|k| s.decls[*k].clone()).collect() };
            let noise = [2, 0, 1][(k % 3) as usize];
            let a = print::print_decls(&ds, &mut t, noise);
            let r = match call(&g, &a) {
                Ok(o) => same_items(&want, &o),
                Err(p) => Err(format!("panics: {}", p)),
            };
            if let Err(m) = r {
                return Some((format!("changed {}: {}", if k % 3 == 0 { "layout" } else { "order" }, m), Case { relation: "items".into(), texts: vec![base, a], steps: vec![], derive: 0, world: World::default() }));
            }
        }
        None
    };
    let mut best = (m, c);
    let mut s = spec;
    'o: while t0.elapsed().as_secs() < 30 {
        for i in 0..s.decls.len() {
            let mut n = s.clone();
            n.decls.remove(i);
            if let Some(b) = fails(&n) {
                best = b;
                s = n;
                continue 'o;
            }
        }
        break;
    }
    best
}

fn shrink_history(env: &Env, m: String, c: Case) -> (String, Case) {
    if c.relation != "history" {
        return (m, c);
    }
    let t0 = Instant::now();
    let mut best = (m, c);
    'h: while t0.elapsed().as_secs() < 20 && best.1.steps.len() > 8 {
        let n = best.1.steps.len();
        for (i, j) in [(0, n / 2), (n / 2, n - 1), (0, n / 4), (n / 4, n / 2)] {
            let mut c = best.1.clone();
            c.steps.drain(i..j);
            if let Some(m) = replay_in_child(env, &c) {
                best = (m, c);
                continue 'h;
            }
        }
        break;
    }
    'o: while t0.elapsed().as_secs() < 40 {
        for i in 0..best.1.steps.len() {
            if t0.elapsed().as_secs() >= 40 {
                break 'o;
            }
            let mut n = best.1.clone();
            n.steps.remove(i);
            let ts = n.texts.clone();
            // in a process of its own: the state must come from this history
            if let Some(m) = replay_in_child(env, &n) {
                n.texts = ts;
                best = (m, n);
                continue 'o;
            }
        }
        break;
    }
    // only the texts still used
    let mut used: Vec<usize> = best.1.steps.iter().map(|s| s.text).collect();
    used.sort();
    used.dedup();
    let mut n = best.1.clone();
    n.texts = used.iter().map(|u| best.1.texts[*u].clone()).collect();
    for s in n.steps.iter_mut() {
        s.text = used.iter().position(|u| *u == s.text).unwrap();
    }
    best.1 = n;
    best
}

fn replay_in_child(env: &Env, c: &Case) -> Option<String> {
    let p = env.work.join(format!("c11-{}.json", h64(&serde_json::to_string(c).unwrap())));
    std::fs::write(&p, serde_json::to_string(&json!({"property": "C11", "case": c})).unwrap()).ok()?;
    let o = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&p).output().ok()?;
    let _ = std::fs::remove_file(&p);
    if o.status.code() == Some(1) {
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        return Some(s.lines().filter_map(|l| l.strip_prefix("still fails: ")).next().unwrap_or("fails").to_string());
    }
    None
}

fn check(env: &Env, c: &Case) -> Option<String> {
    match c.relation.as_str() {
        "processes" => {
            let a = fresh(env, &c.texts[0], c.derive, 0);
            (0..12).find_map(|k| {
                let b = fresh(env, &c.texts[0], c.derive, k);
                if a != b {
                    Some(match (&a, &b) {
                        (Ok(a), Ok(b)) => format!("two fresh processes differ: {}", first_diff(a, b)),
                        _ => "one of two fresh processes panics".into(),
                    })
                } else {
                    None
                }
            })
        }
        "world" => {
            let (a, b) = (fresh_in(env, &c.texts[0], c.derive, &World::default()), fresh_in(env, &c.texts[0], c.derive, &c.world));
            (a != b).then(|| format!("a process which finds {:?} gives another output: {}", c.world, differ(&a, &b)))
        }
        "history" => history(&c.texts, &c.steps, &|x, d| fresh(env, &c.texts[x], d, 0)).map(|x| x.1),
        _ => {
            let g = generator(c.derive);
            match (call(&g, &c.texts[0]), call(&g, &c.texts[1])) {
                (Ok(a), Ok(b)) => same_items(&a, &b).err(),
                (Err(_), Err(_)) => None,
                (a, b) => Some(format!("one of them panics: {:?} {:?}", a.err(), b.err())),
            }
        }
    }
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let env = Env::load();
    let c: Case = serde_json::from_value(c.clone()).expect("case");
    for (i, t) in c.texts.iter().enumerate() {
        println!("--- text {}\n{}", i, t);
    }
    if !c.steps.is_empty() {
        println!("calls: {:?}", c.steps);
    }
    match check(&env, &c) {
        Some(m) => {
            println!("still fails: {}", m);
            1
        }
        None => {
            println!("the property holds for this case now");
            0
        }
    }
}
