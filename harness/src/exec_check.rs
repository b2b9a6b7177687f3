//! The checks that compile and run generated modules: C01-C06, C08, C09.
use crate::cases::*;
use crate::exec::*;
use crate::gen::*;
use crate::grid;
use crate::inflate;
use crate::model::*;
use crate::print;
use crate::report::*;
use crate::shrink;
use crate::tape::Tape;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::Instant;

pub fn draw(seed: u64, label: &str, n: usize, lo: usize, hi: usize) -> Vec<(Vec<u32>, u64)> {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    for (i, b) in label.bytes().enumerate() {
        s[8 + i % 24] ^= b.rotate_left((i / 24) as u32 + 1);
    }
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    let strat = (proptest::collection::vec(proptest::num::u32::ANY, lo..hi), proptest::num::u64::ANY);
    (0..n).map(|_| strat.new_tree(&mut runner).unwrap().current()).collect()
}

pub struct Input {
    pub spec: Spec,
    pub text: String,
    pub seed: u64,
    pub origin: &'static str,
    pub huge: usize,
}

/// lengths of single payloads, for a few specifications of a run
const HUGE: [usize; 15] = [
    131_072, 131_073, 300_000, 131_075, 200_003, 300_003, 262_144, 262_147, 300_006, 524_291, 1_048_576, 1_048_579, 300_009, 4_194_305, 16_777_219,
];

pub fn spec_inputs(prop: &str, seed: u64, n_random: usize, grid_depth2: bool, cfg: &Cfg) -> Vec<Input> {
    let mut out = vec![];
    for k in 0..grid::leaf_count() {
        let spec = grid::grid_spec(k, grid_depth2);
        let text = print::canonical(&spec);
        out.push(Input { spec, text, seed: seed ^ (k as u64) << 20 ^ 0x5157, origin: "grid", huge: 0 });
    }
    for (i, (tape, s)) in draw(seed, prop, n_random, 60, 900).into_iter().enumerate() {
        let mut t = Tape::new(&tape);
        let mut c = cfg.clone();
        c.max_types = [4, 9, 9, 14][i % 4];
        let mut spec = gen_spec(&mut t, &c);
        let mut lt = Tape::seeded(&[], s);
        if i % 4 == 2 {
            inflate::similar(&mut spec, &mut lt);
        }
        if i % 4 == 1 {
            inflate::natural(&mut spec, &mut lt);
        }
        if i % 60 == 11 {
            inflate::inflate(&mut spec, &mut lt, false);
        }
        let text = print::print_decls(&spec.decls, &mut lt, (i % 3) as u32);
        let huge = if i % 12 == 5 { HUGE[(i / 12 + s as usize % 5) % HUGE.len()] } else { 0 };
        out.push(Input { spec, text, seed: s, origin: "random", huge });
    }
    out
}

fn knobs(prop: &str, inp: &Input, thorough: bool) -> Knobs {
    let grid = inp.origin == "grid";
    let per = match (prop, grid) {
        ("C01" | "C02" | "C08", true) => 3,
        ("C01" | "C02" | "C08", false) => 14,
        ("C03", true) => 1,
        ("C03", false) => 3,
        (_, true) => 1,
        _ => 2,
    };
    let per = if thorough { per * 3 } else { per };
    Knobs { per_type: per, budget: if grid { 24 } else { 60 }, big: !grid, only: None, deep: match prop { "C04" | "C05" | "C09" => 0, "C03" => 400, _ => 2600 }, huge: inp.huge }
}

/// grid specifications are large: their case lists are thinned (a different part per seed)
fn thin(prop: &str, cases: Vec<Case>, inp: &Input, thorough: bool) -> Vec<Case> {
    let cap = match (prop, inp.origin) {
        ("C01" | "C02" | "C08", _) => 4000,
        ("C03", "grid") => 700,
        (_, "grid") => 1500,
        ("C04", _) => 1500,
        _ => 900,
    };
    let cap = if thorough { cap * 5 } else { cap };
    if cases.len() <= cap {
        return cases;
    }
    let mut t = Tape::seeded(&[], inp.seed ^ 0xabcdef);
    let n = cases.len();
    cases.into_iter().filter(|_| t.below(n) < cap).collect()
}

pub fn build_cases(prop: &str, inp: &Input, thorough: bool) -> Vec<Case> {
    let ix = Ix::new(&inp.spec);
    let mut t = Tape::seeded(&[], inp.seed);
    let k = knobs(prop, inp, thorough);
    thin(prop, cases(prop, &ix, &mut t, &k), inp, thorough)
}

pub struct Failure {
    pub case: Case,
    pub msg: String,
    pub spec: Spec,
    pub text: String,
}

fn jobs_of(inputs: &[Input], all: &[Vec<Case>]) -> Vec<SpecJob> {
    inputs
        .iter()
        .zip(all)
        .map(|(i, c)| SpecJob {
            spec: i.spec.clone(),
            text: i.text.clone(),
            derive: None,
            check_types: false,
            extra: String::new(),
            reqs: c.iter().flat_map(|c| c.reqs.iter().cloned()).collect(),
        })
        .collect()
}

fn reach_sizes(ix: &Ix, ty: &str, sizes: &BTreeMap<String, usize>) -> BTreeMap<String, usize> {
    let s = shrink::slice(ix.spec, &[ty]);
    s.decls.iter().filter_map(|d| sizes.get(d.name()).map(|z| (d.name().to_string(), *z))).collect()
}

/// Does a specification whose module is unusable violate this property?
fn built_violation(prop: &str, b: &Built) -> Option<String> {
    match (prop, b) {
        (_, Built::Ok { .. }) => None,
        ("C01", Built::GlueError(e)) => {
            // the documented accessors are C07's subject; the decoder cannot be called here
            let _ = e;
            None
        }
        ("C01", b) => Some(format!("no decoder for a specification of the supported subset: {}", short_built(b))),
        _ => None,
    }
}

pub fn failures_of(env: &Env, prop: &str, tag: &str, inputs: &[Input], thorough: bool) -> Vec<Option<Failure>> {
    let all: Vec<Vec<Case>> = par(env.threads, inputs, |_, i| build_cases(prop, i, thorough));
    let jobs = jobs_of(inputs, &all);
    let res = run_jobs(env, tag, &jobs, RunCfg::default());
    inputs
        .iter()
        .zip(all)
        .zip(res)
        .map(|((inp, cases), r)| {
            if let Some(m) = built_violation(prop, &r.built) {
                return Some(Failure { case: Case { class: "build".into(), reqs: vec![], exp: Exp::Any, nontrivial: true, bounded: vec![] }, msg: m, spec: inp.spec.clone(), text: inp.text.clone() });
            }
            let ix = Ix::new(&inp.spec);
            let mut k = 0;
            let mut best: Option<Failure> = None;
            for c in cases {
                let rs = &r.resps[k..k + c.reqs.len()];
                k += c.reqs.len();
                let sz = if prop == "C09" { reach_sizes(&ix, &c.reqs[0].ty, &r.sizes) } else { BTreeMap::new() };
                if let Verdict::Violation(m) = judge(prop, &c, rs, &sz) {
                    let better = best.as_ref().map(|b| c.reqs[0].payload.len() < b.case.reqs[0].payload.len()).unwrap_or(true);
                    if better {
                        best = Some(Failure { case: c, msg: m, spec: inp.spec.clone(), text: inp.text.clone() });
                    }
                }
            }
            best
        })
        .collect()
}

/// Structural shrinking: drop / simplify declarations as long as the property still fails.
pub fn shrink_spec(f: Failure, root: &str, secs: f64, test: &dyn Fn(&[Input]) -> Vec<Option<Failure>>) -> Failure {
    let t0 = Instant::now();
    let mut best = f;
    let mut root = root.to_string();
    let s = shrink::slice(&best.spec, &[&root]);
    let huge = best.case.reqs.iter().map(|r| r.run.1).max().unwrap_or(0);
    let mk = |s: &Spec, n: u64| Input { text: print::canonical(s), spec: s.clone(), seed: n, origin: "random", huge };
    if let Some(Some(g)) = test(&[mk(&s, 1)]).into_iter().next() {
        best = g;
    } else if let Some(Some(g)) = test(&[mk(&s, 2)]).into_iter().next() {
        best = g;
    } else {
        return best;
    }
    for round in 0..30u64 {
        if t0.elapsed().as_secs_f64() > secs || expired() {
            break;
        }
        let cands = shrink::candidates(&best.spec, &root);
        let cands: Vec<(Spec, String)> =
            cands.into_iter().filter(|(s, _)| shrink::weight(s) < shrink::weight(&best.spec)).take(48).collect();
        if cands.is_empty() {
            break;
        }
        let inputs: Vec<Input> = cands.iter().map(|(s, _)| mk(s, round % 2 + 1)).collect();
        let rs = test(&inputs);
        match rs.into_iter().zip(cands).find(|(r, _)| r.is_some()) {
            Some((Some(g), (_, r))) => {
                best = g;
                root = r;
            }
            _ => break,
        }
    }
    best
}

pub fn case_json(spec: &Spec, text: &str, c: &Case) -> serde_json::Value {
    json!({
        "kind": "exec", "spec_text": text, "canonical": print::canonical(spec), "spec": spec, "case": c,
        "payload_hex": c.reqs.first().map(|r| hexs(&r.payload)),
    })
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one evaluation = one value of one declared type of a generated specification, encoded by the reference encoder and given to the compiled TryFrom<Bytes>; non-trivial = more than 4 encoded bytes and (nested at least two declarations deep or at least two length/count/marker/discriminant/bool/enum fields)",
        "C02" => "one evaluation = one value; wire_size() of the decoded value and the bytes consumed are compared with the reference encoding's length; non-trivial as for C01",
        "C03" => "one evaluation = one byte string decoded by both families in 2-5 views (different allocation kinds, offsets, bytes in front of and behind the view, continuations); non-trivial = every mutated input, and valid values as for C01",
        "C04" => "one evaluation = one byte string given to both decoders in a child process (truncations, every length/count/marker/discriminant field moved, two fields moved, random mutations, arbitrary bytes); non-trivial = non-empty input that is not a plain valid encoding",
        "C05" => "one evaluation = one strict prefix, one moved length/count, or one value with its bounded items at / one over their declared maximum; verdict of the reference decoder; non-trivial = all but the empty prefix",
        "C06" => "one evaluation = one encoding with one discriminant / enum / bool / marker word replaced by a declared value or an undeclared neighbour, one string made invalid UTF-8, or one valid value per declared label; non-trivial = the input contains such a field",
        "C08" => "one evaluation = one value holding opaque data decoded from 1-3 views; pointer of every opaque compared with the reference offset; non-trivial = at least one non-empty opaque payload",
        "C09" => "one evaluation = one input (hostile lengths and counts, truncated or not, or a valid one) decoded under a counting global allocator; bytes requested compared with the linear bound; non-trivial = a length/count field was moved or the input is longer than 8 bytes",
        _ => "",
    }
}

pub fn run(prop: &str, tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let thorough = tier == "thorough";
    let mut rep = Report::new(prop, tier, seed);
    rep.rule = rule(prop).into();
    rep.assumptions = vec![
        "rustc 1.99 (edition 2021, opt-level 0, overflow checks on) compiles the module as a user's build would".into(),
        "reference RFC 4506 codec in harness/src/wire.rs; supported subset as delimited in DESIGN.md".into(),
    ];
    let n_random = std::env::var("VERIF_SPECS").ok().and_then(|v| v.parse().ok()).unwrap_or(match (prop, thorough) {
        ("C04" | "C09", false) => 900,
        (_, false) => 1200,
        ("C01" | "C02" | "C03" | "C08", true) => 12_000,
        (_, true) => 8000,
    });
    let mut cfg = Cfg::default();
    // bare opaque leaves only matter where wire_size is compared
    cfg.bare = true;
    let inputs = spec_inputs(prop, seed, n_random, true, &cfg);
    let mut first_failures: Vec<(Failure, u64)> = vec![];
    set_deadline(if thorough { 8 * 3600 } else { 420 });
    // chunks keep memory bounded
    for (ci, chunk) in inputs.chunks(224).enumerate() {
        let all: Vec<Vec<Case>> = par(env.threads, chunk, |_, i| build_cases(prop, i, thorough));
        let jobs = jobs_of(chunk, &all);
        let res = run_jobs(&env, &format!("c{}", ci), &jobs, RunCfg::default());
        for ((inp, cases), r) in chunk.iter().zip(all).zip(res) {
            rep.count(&format!("specs-{}", inp.origin), 1);
            rep.count("types", inp.spec.decls.iter().filter(|d| d.is_type()).count() as u64);
            if !matches!(r.built, Built::Ok { .. }) {
                rep.count("specs-unusable", 1);
                if std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("unusable: {}\n{}", short_built(&r.built), print::canonical(&inp.spec));
                }
                if let Some(m) = built_violation(prop, &r.built) {
                    rep.evaluations += 1;
                    rep.distinct.insert(h64(&inp.text));
                    first_failures.push((
                        Failure { case: Case { class: "build".into(), reqs: vec![], exp: Exp::Any, nontrivial: true, bounded: vec![] }, msg: m, spec: inp.spec.clone(), text: inp.text.clone() },
                        inp.seed,
                    ));
                }
                continue;
            }
            let ix = Ix::new(&inp.spec);
            let sh = h64(&inp.text);
            let mut k = 0;
            let mut sizes_of: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
            for c in cases {
                let rs = &r.resps[k..k + c.reqs.len()];
                k += c.reqs.len();
                let sz = if prop == "C09" {
                    let ty = c.reqs[0].ty.clone();
                    sizes_of.entry(ty.clone()).or_insert_with(|| reach_sizes(&ix, &ty, &r.sizes)).clone()
                } else {
                    BTreeMap::new()
                };
                match judge(prop, &c, rs, &sz) {
                    Verdict::Skipped(w) => rep.count(&format!("skipped: {}", w), 1),
                    v => {
                        rep.evaluations += 1;
                        rep.class(&c.class);
                        match &c.exp {
                            Exp::Ref(RefOut::Ok { .. }) => rep.count("reference-accepts", 1),
                            Exp::Ref(RefOut::Err(_)) => rep.count("reference-rejects", 1),
                            _ => {}
                        }
                        if let Exp::Value { bare, .. } = &c.exp {
                            if *bare > 0 {
                                rep.count("values-with-bare-opaque-leaf", 1);
                            }
                        }
                        if c.nontrivial {
                            rep.distinct.insert(h64(&(sh, &c.reqs[0].ty, &c.reqs[0].payload, c.reqs[0].run, &c.class)));
                            if rep.samples.len() < 6 && c.reqs[0].payload.len() < 120 && rep.evaluations % 977 == 3 {
                                rep.sample(json!({
                                    "type": c.reqs[0].ty, "class": c.class,
                                    "spec": print::canonical(&shrink::slice(&inp.spec, &[&c.reqs[0].ty])),
                                    "payload": hexs(&c.reqs[0].payload),
                                    "expected": format!("{:?}", c.exp),
                                    "got": match &rs[0] { Resp::Done { r, v } => format!("&mut: {} / by value: {}", show(&r.out), show(&v.out)), o => format!("{:?}", o) },
                                }));
                            }
                        }
                        if let Verdict::Violation(m) = v {
                            rep.count("failing-cases", 1);
                            let ty = c.reqs[0].ty.clone();
                            if first_failures.len() < 400 {
                                first_failures.push((Failure { case: c, msg: m, spec: shrink::slice(&inp.spec, &[&ty]), text: inp.text.clone() }, inp.seed));
                            }
                        }
                    }
                }
            }
        }
        if !first_failures.is_empty() {
            break;
        }
        if expired() {
            rep.count("stopped-early: out of time", 1);
            break;
        }
    }
    set_deadline(150);
    if !first_failures.is_empty() {
        // shrink the one with the smallest specification
        first_failures.sort_by_key(|f| (shrink::weight(&f.0.spec), f.0.case.reqs.first().map(|r| r.payload.len()).unwrap_or(0)));
        let (f, _) = first_failures.remove(0);
        let root = f.case.reqs.first().map(|r| r.ty.clone());
        let f = match root {
            Some(r) => {
                let test = |ins: &[Input]| failures_of(&env, prop, "shrink", ins, false);
                shrink_spec(f, &r, 60.0, &test)
            }
            None => {
                let roots: Vec<String> = f.spec.decls.iter().filter(|d| d.is_type()).map(|d| d.name().to_string()).collect();
                let test = |ins: &[Input]| failures_of(&env, prop, "shrink", ins, false);
                // a build failure: find one declaration whose slice alone fails
                let ins: Vec<Input> = roots
                    .iter()
                    .map(|r| {
                        let s = shrink::slice(&f.spec, &[r]);
                        Input { text: print::canonical(&s), spec: s, seed: 1, origin: "random", huge: 0 }
                    })
                    .collect();
                let rs = test(&ins);
                let hit = rs.into_iter().zip(roots).filter_map(|(g, r)| g.map(|g| (g, r))).min_by_key(|(g, _)| shrink::weight(&g.spec));
                match hit {
                    Some((g, r)) => shrink_spec(g, &r, 60.0, &test),
                    None => f,
                }
            }
        };
        let detail = case_json(&f.spec, &f.text, &f.case);
        rep.violation(&f.msg, detail);
    }
    set_deadline(200);
    crate::findings::witness(prop, &env, &mut rep);
    rep.finish()
}

/// Re-runs the case of a replay file; exit 1 while it still fails.
pub fn replay(prop: &str, detail: &serde_json::Value) -> i32 {
    let env = Env::load();
    let spec: Spec = serde_json::from_value(detail["spec"].clone()).expect("spec");
    let case: Case = serde_json::from_value(detail["case"].clone()).expect("case");
    let text = detail["spec_text"].as_str().unwrap().to_string();
    let job = SpecJob { spec: spec.clone(), text, derive: None, check_types: false, extra: String::new(), reqs: case.reqs.clone() };
    let r = run_jobs(&env, "replay", &[job], RunCfg::default()).remove(0);
    println!("specification:\n{}", print::canonical(&spec));
    println!("module: {}", short_built(&r.built));
    if let Some(m) = built_violation(prop, &r.built) {
        println!("still fails: {}", m);
        return 1;
    }
    for (q, s) in case.reqs.iter().zip(&r.resps) {
        println!("{} <- {} (kind {}, prefix {}, suffix {}, hidden {})", q.ty, hexs(&q.payload), q.kind, q.prefix, q.suffix.len(), q.hidden);
        if let Resp::Done { r, v } = s {
            println!("   &mut Bytes: {}\n   Bytes:      {}", show(&r.out), show(&v.out));
        } else {
            println!("   {:?}", s);
        }
    }
    let ix = Ix::new(&spec);
    let sz = case.reqs.first().map(|q| reach_sizes(&ix, &q.ty, &r.sizes)).unwrap_or_default();
    match judge(prop, &case, &r.resps, &sz) {
        Verdict::Violation(m) => {
            println!("still fails: {}", m);
            1
        }
        Verdict::Held => {
            println!("the property holds for this case now");
            0
        }
        Verdict::Skipped(w) => {
            println!("no verdict: {}", w);
            2
        }
    }
}
