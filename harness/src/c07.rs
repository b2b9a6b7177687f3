//! C07: the generated module compiles (default and custom derive lines) and exposes the
//! documented API.  Decided by rustc on a program that names every field, variant, payload type
//! and trait, plus an item-level comparison of the module.
use crate::exec::*;
use crate::exec_check::{spec_inputs, Input};
use crate::gen::*;
use crate::glue;
use crate::model::*;
use crate::print;
use crate::report::*;
use crate::shrink;

use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::Instant;

/// derive lines: (line, traits that every declared type must then implement)
pub const DERIVES: &[(Option<&str>, &[&str])] = &[
    (None, &["::std::fmt::Debug", "::std::cmp::PartialEq"]),
    (Some("#[derive(Debug, PartialEq, Clone)]"), &["::std::fmt::Debug", "::std::cmp::PartialEq", "::std::clone::Clone"]),
    (Some("#[derive(Clone, PartialEq, Debug, PartialOrd)]"), &["::std::fmt::Debug", "::std::cmp::PartialEq", "::std::clone::Clone", "::std::cmp::PartialOrd"]),
    (Some("#[allow(clippy::all)]\n#[derive(Debug)]\n#[derive(Clone, PartialEq)]"), &["::std::fmt::Debug", "::std::cmp::PartialEq", "::std::clone::Clone"]),
];

/// Assertions appended to the probe program of one specification.
pub fn extra(spec: &Spec, traits: &[&str]) -> String {
    let ix = Ix::new(spec);
    let mut s = String::new();
    for (i, (name, d)) in ix.types.iter().enumerate() {
        let t = glue::named(&ix, name);
        let _ = writeln!(
            s,
            "fn __api{i}() {{ fn f<X>() where X: ::std::convert::TryFrom<::fastxdr::bytes::Bytes, Error = xdr::Error> + xdr::WireSize {} {{}} f::<{t}>();
             fn r<X>() where for<'a> X: ::std::convert::TryFrom<&'a mut ::fastxdr::bytes::Bytes, Error = xdr::Error> {{}} r::<{t}>(); }}",
            traits.iter().map(|t| format!("+ {}", t)).collect::<String>()
        );
        if ix.generic.contains(*name) {
            // generic over AsRef<[u8]> containers
            let _ = writeln!(s, "fn __gen{i}<T: AsRef<[u8]> + ::std::fmt::Debug>(_: &xdr::{name}<T>, _: &xdr::{name}<::std::vec::Vec<u8>>) {{}}");
        }
        if let Decl::Enum { members, .. } = d {
            for (m, v) in members {
                let _ = writeln!(s, "const _: () = assert!(xdr::{name}::{m} as i64 == {});", v.val());
            }
        }
    }
    for (c, v) in &ix.consts {
        let _ = writeln!(s, "const _: () = assert!(xdr::{c} as u64 == {v});");
    }
    s
}

/// Public items of the module with what they declare: fields or variants in order.
fn items(module: &str) -> Result<BTreeMap<String, Vec<String>>, String> {
    let f = syn::parse_file(module).map_err(|e| format!("the output is not Rust: {}", e))?;
    let mut mods = f.items.iter().filter_map(|i| match i {
        syn::Item::Mod(m) => Some(m),
        _ => None,
    });
    let m = mods.next().ok_or("the output holds no module")?;
    if f.items.len() != 1 {
        return Err(format!("the output holds {} items beside the module", f.items.len() - 1));
    }
    if m.ident != "xdr" {
        return Err(format!("the module is called {}", m.ident));
    }
    let mut out = BTreeMap::new();
    for i in &m.content.as_ref().ok_or("the module has no body")?.1 {
        match i {
            syn::Item::Struct(s) if matches!(s.vis, syn::Visibility::Public(_)) => {
                let v = s.fields.iter().enumerate().map(|(k, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(k.to_string())).collect();
                out.insert(s.ident.to_string(), v);
            }
            syn::Item::Enum(e) if matches!(e.vis, syn::Visibility::Public(_)) => {
                out.insert(e.ident.to_string(), e.variants.iter().map(|v| v.ident.to_string()).collect());
            }
            syn::Item::Type(t) if matches!(t.vis, syn::Visibility::Public(_)) => {
                out.insert(t.ident.to_string(), vec!["= alias".into()]);
            }
            syn::Item::Union(u) if matches!(u.vis, syn::Visibility::Public(_)) => {
                out.insert(u.ident.to_string(), vec!["union".into()]);
            }
            _ => {}
        }
    }
    Ok(out)
}

fn item_check(spec: &Spec, module: &str, base: &BTreeSet<String>) -> Result<(), String> {
    let it = items(module)?;
    let ix = Ix::new(spec);
    for (n, got) in &it {
        if base.contains(n) {
            continue;
        }
        match ix.types.get(n.as_str()) {
            None => return Err(format!("public type {} is not declared by the specification", n)),
            Some(Decl::Struct { fields, .. }) => {
                let want: Vec<String> = fields.iter().map(|f| rust_field(&f.name)).collect();
                if *got != want {
                    return Err(format!("struct {} has fields {:?}, must have {:?} in this order", n, got, want));
                }
            }
            Some(Decl::Union { arms, .. }) => {
                let want: BTreeSet<String> = glue::union_variants(arms).into_iter().map(|v| v.0).collect();
                let g: BTreeSet<String> = got.iter().cloned().collect();
                if g != want || got.len() != want.len() {
                    return Err(format!("union {} has variants {:?}, must have {:?}", n, got, want));
                }
            }
            Some(Decl::Enum { members, .. }) => {
                let want: BTreeSet<String> = members.iter().map(|m| m.0.clone()).collect();
                let g: BTreeSet<String> = got.iter().cloned().collect();
                if g != want || got.len() != want.len() {
                    return Err(format!("enum {} has variants {:?}, must have {:?}", n, got, want));
                }
            }
            Some(Decl::Typedef { .. }) => {
                if *got != ["0".to_string()] {
                    return Err(format!("typedef {} is no tuple newtype: {:?}", n, got));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

struct Fail {
    spec: Spec,
    text: String,
    derive: usize,
    msg: String,
}

fn base_items() -> Result<BTreeSet<String>, String> {
    match generate("const baseline = 1;", None) {
        Ok(Ok(m)) => Ok(items(&m)?.into_keys().collect()),
        Ok(Err(e)) => Err(e),
        Err(p) => Err(p),
    }
}

fn verdict(spec: &Spec, r: &SpecResult, base: &Option<BTreeSet<String>>) -> Option<String> {
    match &r.built {
        Built::Ok { text } => match base {
            Some(b) => item_check(spec, text, b).err(),
            None => None,
        },
        b => Some(short_built(b)),
    }
}

fn test(env: &Env, tag: &str, ins: &[(Spec, String, usize)], base: &Option<BTreeSet<String>>) -> Vec<Option<Fail>> {
    let jobs: Vec<SpecJob> = ins
        .iter()
        .map(|(s, t, d)| SpecJob {
            spec: s.clone(),
            text: t.clone(),
            derive: DERIVES[*d].0.map(|x| x.to_string()),
            check_types: true,
            extra: extra(s, DERIVES[*d].1),
            reqs: vec![],
        })
        .collect();
    let rs = run_jobs(env, tag, &jobs, RunCfg { run: false, ..RunCfg::default() });
    ins.iter()
        .zip(rs)
        .map(|((s, t, d), r)| verdict(s, &r, base).map(|msg| Fail { spec: s.clone(), text: t.clone(), derive: *d, msg }))
        .collect()
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let thorough = tier == "thorough";
    let mut rep = Report::new("C07", tier, seed);
    rep.rule = "one evaluation = one generated specification x one derive line, compiled together with a program that names every declared type, field, \
                variant and constant with its documented type and demands the documented traits; the module's public items are also compared one by one. \
                Non-trivial = at least two declared types, or one with at least two fields, arms or members"
        .into();
    rep.assumptions = vec![
        "rustc 1.99, edition 2021 (a part also 2018); thiserror is a direct dependency of the consumer, its derive needs that".into(),
        "supported subset as delimited in DESIGN.md".into(),
    ];
    let n_random = std::env::var("VERIF_SPECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 12000 } else { 900 });
    let base = match base_items() {
        Ok(b) => Some(b),
        Err(_) => None,
    };
    let mut cfg = Cfg::default();
    cfg.bare = true;
    let inputs: Vec<Input> = spec_inputs("C07", seed, n_random, true, &cfg);
    let mut ins: Vec<(Spec, String, usize)> = vec![];
    for (i, inp) in inputs.into_iter().enumerate() {
        let d = if inp.origin == "grid" { i % 2 } else { [0, 1, 0, 1, 2, 3][i % 6] };
        ins.push((inp.spec, inp.text, d));
    }
    let mut fails: Vec<Fail> = vec![];
    for (ci, chunk) in ins.chunks(480).enumerate() {
        for (f, (s, t, d)) in test(&env, &format!("c{}", ci), chunk, &base).into_iter().zip(chunk) {
            rep.evaluations += 1;
            rep.class(&format!("derive {}", DERIVES[*d].0.unwrap_or("default").replace('\n', " ")));
            for x in &s.decls {
                let k = match x {
                    Decl::Const { .. } => "const",
                    Decl::Enum { .. } => "enum",
                    Decl::Struct { .. } => "struct",
                    Decl::Union { .. } => "union",
                    Decl::Typedef { .. } => "typedef",
                };
                rep.count(&format!("declared-{}", k), 1);
            }
            let nontrivial = s.decls.iter().filter(|d| d.is_type()).count() >= 2
                || s.decls.iter().any(|d| match d {
                    Decl::Struct { fields, .. } => fields.len() > 1,
                    Decl::Union { arms, .. } => arms.len() > 1,
                    Decl::Enum { members, .. } => members.len() > 1,
                    _ => false,
                });
            if nontrivial {
                rep.distinct.insert(h64(&(t, d)));
            }
            if rep.samples.len() < 4 && s.decls.len() < 8 && rep.evaluations % 53 == 40 {
                rep.sample(json!({"spec": print::canonical(s), "derive": DERIVES[*d].0.unwrap_or("default"), "result": f.as_ref().map(|f| f.msg.clone()).unwrap_or("compiles, items match".into())}));
            }
            if let Some(f) = f {
                rep.count("failing-cases", 1);
                fails.push(f);
            }
        }
        if fails.len() > 200 {
            break;
        }
    }
    // a part in the older edition a consumer may use
    let old: Vec<(Spec, String, usize)> = ins.iter().rev().take(if thorough { 480 } else { 48 }).cloned().collect();
    std::env::set_var("VERIF_EDITION", "2018");
    for (f, (_, t, d)) in test(&env, "old", &old, &base).into_iter().zip(&old) {
        rep.evaluations += 1;
        rep.class("edition 2018");
        rep.distinct.insert(h64(&(t, d, "2018")));
        if let Some(mut f) = f {
            f.msg = format!("edition 2018: {}", f.msg);
            fails.push(f);
        }
    }
    std::env::remove_var("VERIF_EDITION");
    seeds(&env, &mut rep, &mut fails);
    if !fails.is_empty() {
        fails.sort_by_key(|f| (f.spec.decls.is_empty(), shrink::weight(&f.spec)));
        let f = fails.remove(0);
        let f = if f.spec.decls.is_empty() { f } else { shrink_fail(&env, f, &base) };
        let detail = json!({"kind": "c07", "spec_text": f.text, "spec": f.spec, "derive": f.derive, "canonical": print::canonical(&f.spec)});
        rep.violation(&f.msg, detail);
    }
    crate::findings::witness("C07", &env, &mut rep);
    rep.finish()
}

/// Realistic specifications given as text: the module must compile.
fn seeds(env: &Env, rep: &mut Report, fails: &mut Vec<Fail>) {
    for (name, text) in SEEDS {
        for d in 0..2 {
            let job = SpecJob {
                spec: Spec::default(),
                text: text.to_string(),
                derive: DERIVES[d].0.map(|x| x.to_string()),
                check_types: false,
                extra: String::new(),
                reqs: vec![],
            };
            let r = run_jobs(env, "seed", &[job], RunCfg { run: false, ..RunCfg::default() }).remove(0);
            rep.evaluations += 1;
            rep.class("realistic specification");
            rep.distinct.insert(h64(&(name, d)));
            if !matches!(r.built, Built::Ok { .. }) {
                fails.push(Fail { spec: Spec::default(), text: text.to_string(), derive: d, msg: format!("{}: {}", name, short_built(&r.built)) });
            }
        }
    }
}

pub const SEEDS: &[(&str, &str)] = &[
    ("choice.x", include_str!("../seeds/nfs.x")),
    ("nfs4.x", include_str!("../seeds/nfs4.x")),
    ("rpc.x", include_str!("../seeds/rpc.x")),
    ("nfs3.x", include_str!("../seeds/nfs3.x")),
    ("aliases.x", include_str!("../seeds/aliases.x")),
];

fn shrink_fail(env: &Env, f: Fail, base: &Option<BTreeSet<String>>) -> Fail {
    let t0 = Instant::now();
    let old = f.msg.starts_with("edition 2018");
    if old {
        std::env::set_var("VERIF_EDITION", "2018");
    }
    let d = f.derive;
    let mk = |s: &Spec| (s.clone(), print::canonical(s), d);
    // one declaration whose slice alone fails
    let roots: Vec<String> = f.spec.decls.iter().map(|d| d.name().to_string()).collect();
    let ins: Vec<_> = roots.iter().map(|r| mk(&shrink::slice(&f.spec, &[r]))).collect();
    let hit = test(env, "shrink", &ins, base)
        .into_iter()
        .zip(roots)
        .filter_map(|(g, r)| g.map(|g| (g, r)))
        .min_by_key(|(g, _)| shrink::weight(&g.spec));
    let (mut best, mut root) = match hit {
        Some(h) => h,
        None => return f,
    };
    for _ in 0..30 {
        if t0.elapsed().as_secs() > 60 {
            break;
        }
        let cands: Vec<(Spec, String)> = shrink::candidates(&best.spec, &root)
            .into_iter()
            .filter(|(s, _)| shrink::weight(s) < shrink::weight(&best.spec))
            .take(48)
            .collect();
        if cands.is_empty() {
            break;
        }
        let ins: Vec<_> = cands.iter().map(|(s, _)| mk(s)).collect();
        match test(env, "shrink", &ins, base).into_iter().zip(cands).find(|(r, _)| r.is_some()) {
            Some((Some(g), (_, r))) => {
                best = g;
                root = r;
            }
            _ => break,
        }
    }
    if old {
        std::env::remove_var("VERIF_EDITION");
        best.msg = format!("edition 2018: {}", best.msg);
    }
    best
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let env = Env::load();
    let spec: Spec = serde_json::from_value(c["spec"].clone()).expect("spec");
    let text = c["spec_text"].as_str().unwrap().to_string();
    let d = c["derive"].as_u64().unwrap() as usize;
    println!("specification:\n{}\nderive line: {}", text, DERIVES[d].0.unwrap_or("default"));
    let base = base_items().ok();
    let base = if spec.decls.is_empty() { None } else { base };
    match test(&env, "replay", &[(spec, text, d)], &base).remove(0) {
        Some(f) => {
            println!("still fails: {}", f.msg);
            1
        }
        None => {
            println!("the property holds for this case now");
            0
        }
    }
}

