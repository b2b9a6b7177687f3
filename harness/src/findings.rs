//! Witnesses of the recorded known findings: each entry of known-findings.txt names a witness
//! here, a specific input against the real code. A line is printed only while it still fails.
use crate::exec::*;
use crate::report::*;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

enum W {
    /// generate() accepts the specification (with the derive line), the module must compile
    Compiles(&'static [(&'static str, &'static str)]),
    /// a program using the generated module; it must exit 0
    Runs(&'static str, &'static str, u64),
    /// Ast::new and generate must return within 1.5 GB
    Total(&'static str),
}

const D: &str = "";

fn table() -> Vec<(&'static str, &'static str, W)> {
    vec![
        (
            "C02",
            "bare-opaque",
            W::Runs(
                "struct s { opaque o; };",
                "let v = xdr::s::try_from(fastxdr::bytes::Bytes::from_static(&[0, 0, 0, 3, 1, 2, 3, 0])).unwrap(); assert_eq!(v.wire_size(), 8);",
                0,
            ),
        ),
        (
            "C02",
            "bare-opaque-arm",
            W::Runs(
                "union u switch (int d) { case 1: opaque o; };",
                "let v = xdr::u::try_from(fastxdr::bytes::Bytes::from_static(&[0, 0, 0, 1, 0, 0, 0, 3, 1, 2, 3, 0])).unwrap(); assert_eq!(v.wire_size(), 12);",
                0,
            ),
        ),
        (
            "C01",
            "bare-opaque-elements",
            W::Runs(
                "struct s { opaque o; }; struct t { s a<>; };",
                "let b = [0, 0, 0, 2, 0, 0, 0, 1, 7, 0, 0, 0, 0, 0, 0, 1, 8, 0, 0, 0]; \
                 let v = xdr::t::try_from(fastxdr::bytes::Bytes::copy_from_slice(&b)).unwrap(); \
                 assert_eq!((&v.a[0].o[..], &v.a[1].o[..]), (&[7u8][..], &[8u8][..]));",
                0,
            ),
        ),
        (
            "C03",
            "bare-opaque-elements",
            W::Runs(
                "struct s { opaque o; }; struct t { s a<>; };",
                "let b = [0, 0, 0, 1, 0, 0, 0, 1, 7, 0, 0, 0]; let mut b = fastxdr::bytes::Bytes::copy_from_slice(&b); \
                 let _ = xdr::t::try_from(&mut b).unwrap(); assert_eq!(b.len(), 0);",
                0,
            ),
        ),
        (
            "C04",
            "optional-chain-depth",
            W::Runs(
                "struct n { int v; n *next; };",
                "let mut b = vec![]; for _ in 0..1_000_000u32 { b.extend([0, 0, 0, 1, 0, 0, 0, 1]); } b.extend([0u8; 8]); \
                 let v = xdr::n::try_from(fastxdr::bytes::Bytes::from(b)); std::mem::forget(v);",
                0,
            ),
        ),
        (
            "C04",
            "zero-size-elements",
            W::Runs(
                "typedef opaque z[0]; struct s { z a<>; };",
                "let _ = xdr::s::try_from(fastxdr::bytes::Bytes::from_static(&[0xff, 0xff, 0xff, 0xff]));",
                1 << 30,
            ),
        ),
        (
            "C09",
            "zero-size-elements",
            W::Runs(
                "typedef opaque z[0]; struct s { z a<>; };",
                "let _ = xdr::s::try_from(fastxdr::bytes::Bytes::from_static(&[0x02, 0, 0, 0]));",
                1 << 30,
            ),
        ),
        (
            "C06",
            "constant-named-c",
            W::Runs(
                "const c = 7; enum e { A = 1, B = 2 }; union u switch (unsigned int d) { case A: int x; case B: void; };",
                "assert!(matches!(xdr::u::try_from(fastxdr::bytes::Bytes::from_static(&[0, 0, 0, 1, 0, 0, 0, 9])), Ok(xdr::u::A(9))));",
                0,
            ),
        ),
        ("C07", "counted-primitives", W::Compiles(&[("struct s { uint32_t a<>; };", D), ("typedef uint32_t bitmap4<>;", D), ("typedef unsigned hyper t<7>;", D)])),
        ("C07", "const-valued-members", W::Compiles(&[("const CONST_ONE = 1; enum e { ONE = CONST_ONE };", D)])),
        (
            "C07",
            "names-of-generated-code",
            W::Compiles(&[
                ("const n = 1;", D),
                ("const b = 2; struct s { opaque o<b>; };", D),
                ("struct Error { int a; };", D),
                ("struct Bytes { opaque a<>; };", D),
                ("struct Vec { int a; }; struct s { Vec a<>; };", D),
                ("struct Option { int a; }; struct s { Option *a; };", D),
                ("typedef int T; struct s { opaque a<>; T b; };", D),
                ("enum Debug { A = 1 };", D),
                ("struct WireSize { int a; };", D),
                ("typedef opaque size_of<>;", D),
            ]),
        ),
        (
            "C07",
            "derive-without-partialeq",
            W::Compiles(&[("enum e { A = 1 }; union u switch (e d) { case A: int x; };", "#[derive(Debug)]")]),
        ),
        ("C14", "huge-fixed-array", W::Total("struct s { unsigned int a[4294967295]; };")),
    ]
}

fn module(text: &str, derive: &str) -> Option<String> {
    match generate(text, if derive.is_empty() { None } else { Some(derive) }) {
        Ok(Ok(m)) => Some(m),
        _ => None,
    }
}

/// None: does not compile.
fn compile(env: &Env, id: &str, module: &str, body: &str, run: bool) -> Option<PathBuf> {
    let dir = env.work.join(format!("finding-{}", id));
    std::fs::create_dir_all(&dir).unwrap();
    let src = dir.join("main.rs");
    std::fs::write(&src, format!("{}\nuse xdr::*;\nuse std::convert::TryFrom;\nfn main() {{ {} }}\n", module, body)).unwrap();
    let out = dir.join("prog");
    let mut c = env.rustc();
    c.args(["-C", "debuginfo=0", "--crate-type", "bin"]);
    if run {
        c.arg("-o").arg(&out);
    } else {
        c.arg(format!("--emit=metadata={}", dir.join("m.rmeta").display()));
    }
    let o = c.arg(&src).stdin(Stdio::null()).output().expect("rustc");
    if o.status.success() {
        return Some(out);
    }
    if o.status.code().is_none() {
        panic!("harness: rustc was killed");
    }
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("finding {}: {}", id, String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).take(2).collect::<Vec<_>>().join(" | "));
    }
    None
}

fn fails(env: &Env, id: &str, w: &W) -> bool {
    match w {
        W::Compiles(specs) => {
            let n = specs.len();
            let items: Vec<usize> = (0..n).collect();
            par(env.threads, &items, |_, k| {
                let (t, d) = specs[*k];
                let bad = module(t, d).map(|m| compile(env, &format!("{}-{}", id, k), &m, "", false).is_none()).unwrap_or(false);
                if !bad && std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("finding {}: {} is fine", id, t);
                }
                bad
            })
            .iter()
            .any(|b| *b)
        }
        W::Runs(t, body, mem) => {
            let m = match module(t, "") {
                Some(m) => m,
                None => return false,
            };
            let p = match compile(env, id, &m, body, true) {
                Some(p) => p,
                None => return false,
            };
            let mem = *mem;
            let mut c = Command::new(p);
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            limits(&mut c, mem);
            let st = c.status().expect("witness");
            st.code() != Some(0) || st.signal().is_some()
        }
        W::Total(t) => !matches!(crate::c14::run_texts(&[t.to_string()], 3 << 29, 60, usize::MAX).remove(0), crate::c14::Res::Done(Ok(_), Ok(_))),
    }
}

fn limits(c: &mut Command, mem: u64) {
    unsafe {
        c.pre_exec(move || {
            let set = |r, v| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            set(libc::RLIMIT_CORE, 0);
            set(libc::RLIMIT_CPU, 60);
            set(libc::RLIMIT_STACK, 8 << 20);
            if mem > 0 {
                set(libc::RLIMIT_AS, mem);
            }
            Ok(())
        });
    }
}

pub fn witness(prop: &str, env: &Env, rep: &mut Report) {
    let tab = table();
    for (id, what) in known(prop) {
        match tab.iter().find(|(p, i, _)| *p == prop && *i == id) {
            None => eprintln!("warning: known finding {} {} has no witness", prop, id),
            Some((_, _, w)) => {
                if fails(env, &id, w) {
                    println!("KNOWN-FINDING: property={} {}", prop, what);
                    rep.count(&format!("known-finding-{}", id), 1);
                } else {
                    rep.count(&format!("known-finding-{}-no-longer-fails", id), 1);
                }
            }
        }
    }
}
