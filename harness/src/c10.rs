//! C10: a driver program around the runtime header of a generated module, run exhaustively in
//! small bounds (harness/drivers/c10.rs); this file builds and runs it.
use crate::exec::*;
use crate::report::*;
use serde_json::json;
use std::process::{Command, Stdio};

const DRIVER: &str = include_str!("../drivers/c10.rs");
const SPEC: &str = "struct probe { unsigned int a; opaque b<>; };";

fn build(env: &Env) -> Result<std::path::PathBuf, String> {
    let dir = env.work.join("c10");
    std::fs::create_dir_all(&dir).unwrap();
    let module = match generate(SPEC, None) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return Err(format!("generate fails for the probe specification: {}", e)),
        Err(p) => return Err(format!("generate panics for the probe specification: {}", p)),
    };
    std::fs::write(dir.join("module.rs"), module).unwrap();
    std::fs::write(dir.join("main.rs"), DRIVER).unwrap();
    let bin = dir.join("prog");
    let o = env
        .rustc()
        .args(["-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "debuginfo=0", "-o"])
        .arg(&bin)
        .arg(dir.join("main.rs"))
        .stdin(Stdio::null())
        .output()
        .expect("rustc");
    if !o.status.success() {
        return Err(format!("the driver does not compile against the generated runtime: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(bin)
}

fn driver_out(bin: &std::path::Path, seed: u64, n: usize, only: &str, bools: &str, nseq: usize) -> Result<String, String> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut c = Command::new(bin);
    // a category takes seconds (quick) or minutes (thorough) of CPU time
    let cpu: u64 = if nseq > 2_000_000 { 20_000 } else if only == "bool" { 2000 } else { 250 };
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            Ok(())
        });
    }
    let o = c
        .args([seed.to_string(), n.to_string(), only.to_string(), bools.to_string(), nseq.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("driver");
    let mut s = String::from_utf8_lossy(&o.stdout).to_string();
    if !s.contains("\nEND") {
        match o.status.signal() {
            Some(libc::SIGKILL | libc::SIGXCPU) => s.push_str(&format!("\nDIED\tno end within {} s of CPU time\n", cpu)),
            _ => s.push_str(&format!("\nDIED\t{:?}\n", o.status)),
        }
    }
    Ok(s)
}

/// (n, bool words, sequences)
fn scale(tier: &str) -> (usize, &'static str, usize) {
    if tier == "thorough" {
        (200, "all", 40_000_000)
    } else {
        (64, "all", 1_000_000)
    }
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let mut rep = Report::new("C10", tier, seed);
    let (n, bools, nseq) = scale(tier);
    rep.rule = format!(
        "exhaustive: every reader x payload length n in 0..={n} x remaining r in 0..=n+12 x max in {{None, 0..={}}} x views inside larger allocations, plus \
         lengths around 2^16, 2^30, 2^31, 2^32, usize::MAX; every 32-bit word for read_bool; random sequences of reads on one buffer against a reference \
         cursor; blanket wire_size on generated containers. Non-trivial = at least the length word present (readers), at least two successful reads \
         (sequences), size above 4 (wire_size); all enumerated combinations are distinct, sequences are deduplicated",
        n + 1
    );
    rep.assumptions = vec![
        "a reader must return the value when the buffer holds it and no declared maximum is exceeded; the buffer after an error is not constrained".into(),
        "element types of counted arrays consume what their wire_size reports".into(),
    ];
    let bin = match build(&env) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("error: {}", e);
            return 2;
        }
    };
    // several categories run as separate processes, so that an abort is attributed
    for cat in ["fixed-opaque", "counted-opaque", "string", "counted-array", "number", "bool", "sequence", "wire-size", "long"] {
        let out = match driver_out(&bin, seed, n, cat, bools, nseq) {
            Ok(o) => o,
            Err(e) => {
                eprintln!("error: {}", e);
                return 2;
            }
        };
        let mut first = true;
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "TOTAL" => {
                    rep.evaluations += f[1].parse::<u64>().unwrap();
                    rep.distinct_extra += f[2].parse::<u64>().unwrap();
                    rep.classes.insert(cat.into(), f[1].parse().unwrap());
                }
                "SAMPLE" => rep.sample(json!(f[1])),
                "FAIL" => {
                    rep.count("failing-cases", 1);
                    if first {
                        first = false;
                        rep.violation(f[2], json!({"kind": "c10", "category": cat, "n": n, "bools": bools, "sequences": nseq, "seed": seed, "what": f[2]}));
                    }
                }
                "DIED" => {
                    let m = format!("the process running the {} readers dies: {}", cat, f[1]);
                    rep.evaluations += 1;
                    rep.distinct_extra += 1;
                    rep.violation(&m, json!({"kind": "c10", "category": cat, "n": n, "bools": bools, "sequences": nseq, "seed": seed, "what": m}));
                }
                _ => {}
            }
        }
    }
    crate::findings::witness("C10", &env, &mut rep);
    rep.finish()
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let env = Env::load();
    let cat = c["category"].as_str().unwrap();
    println!("failed: {}", c["what"].as_str().unwrap_or(""));
    let bin = match build(&env) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("error: {}", e);
            return 2;
        }
    };
    match driver_out(&bin, c["seed"].as_u64().unwrap(), c["n"].as_u64().unwrap() as usize, cat, c["bools"].as_str().unwrap(), c["sequences"].as_u64().unwrap() as usize) {
        Err(e) => {
            eprintln!("error: {}", e);
            2
        }
        Ok(o) => {
            let bad: Vec<&str> = o.lines().filter(|l| l.starts_with("FAIL") || l.starts_with("DIED")).collect();
            for b in bad.iter().take(5) {
                println!("{}", b);
            }
            if bad.is_empty() {
                println!("the property holds in this category now");
                0
            } else {
                1
            }
        }
    }
}
