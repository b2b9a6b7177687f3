//! C13: the generic index (and the emitted parameter lists) against graph reachability.
use crate::exec::{generate, guarded, par, Env};
use crate::exec_check::draw;
use crate::gen::{gen_spec, Cfg};
use crate::inflate;
use crate::model::*;
use crate::print;
use crate::report::*;
use crate::tape::Tape;
use fastxdr::ast::Ast;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

// ------------------------------------------------------------------------------------------
// enumeration of labelled dependency graphs

/// One declaration, by the targets it mentions. Target k (== number of declarations) is opaque.
#[derive(Clone, Debug)]
enum Form {
    Enum,
    /// target (None: a primitive), array kind 0..3
    Typedef(Option<usize>, u8),
    /// per target: 0 absent, 1 plain, 2 fixed, 3 variable, 4 optional
    Struct(Vec<u8>),
    /// per target: 0 absent, 1 arm, 2 arm behind a fall-through label, 3 default arm
    Union(Vec<u8>),
}

/// All forms with every edge kind; at most `max` targets per compound.
fn forms_full(k: usize, max: usize) -> Vec<Form> {
    let mut out = vec![Form::Enum];
    for t in std::iter::once(None).chain((0..=k).map(Some)) {
        for a in 0..3 {
            out.push(Form::Typedef(t, a));
        }
    }
    let mut rec = |base: u8| {
        let n = (base as usize).pow(k as u32 + 1);
        let mut v = vec![];
        for mut c in 0..n {
            let d: Vec<u8> = (0..=k)
                .map(|_| {
                    let x = (c % base as usize) as u8;
                    c /= base as usize;
                    x
                })
                .collect();
            if d.iter().filter(|x| **x != 0).count() <= max {
                v.push(d);
            }
        }
        v
    };
    out.extend(rec(5).into_iter().map(Form::Struct));
    out.extend(rec(4).into_iter().filter(|d| d.iter().filter(|x| **x == 3).count() <= 1).map(Form::Union));
    out
}

/// Every set of targets, edge kinds chosen later (by `rot`).
fn forms_sets(k: usize) -> Vec<Form> {
    let mut out = vec![Form::Enum, Form::Typedef(None, 0)];
    out.extend((0..=k).map(|t| Form::Typedef(Some(t), 9)));
    for m in 0..1usize << (k + 1) {
        let d: Vec<u8> = (0..=k).map(|i| if m >> i & 1 == 1 { 9 } else { 0 }).collect();
        out.push(Form::Struct(d.clone()));
        out.push(Form::Union(d));
    }
    out
}

const NAMES: [&str; 6] = ["m_1", "a_2", "zz3", "B_4", "q_5", "h_6"];

fn build(forms: &[Form], rot: u64) -> Spec {
    let k = forms.len();
    let rbits = [rot as u32, (rot >> 32) as u32];
    let mut t = Tape::seeded(&rbits, rot);
    // a permutation of the names: declaration order and name order are independent
    let mut names: Vec<&str> = NAMES.to_vec();
    for i in (1..names.len()).rev() {
        let j = t.below(i + 1);
        names.swap(i, j);
    }
    let lit = |v: u32| Bound { val: v, named: None };
    let target = |i: usize| if i == k { Ty::Opaque } else { Ty::Named(names[i].to_string()) };
    let mut decls = vec![];
    for (i, f) in forms.iter().enumerate() {
        let name = names[i].to_string();
        decls.push(match f {
            Form::Enum => Decl::Enum { name, members: vec![(format!("M{}", i), EnumVal::Dec(i as i32))] },
            Form::Typedef(tg, a) => {
                let a = if *a == 9 { t.below(3) as u8 } else { *a };
                let ty = tg.map(target).unwrap_or(Ty::Prim(Prim::U32, 0));
                let arr = match a {
                    0 => Arr::None,
                    1 => Arr::Fixed(lit(3)),
                    _ => Arr::Var(if t.pct(50) { Some(lit(9)) } else { None }),
                };
                Decl::Typedef { name, ty, arr }
            }
            Form::Struct(d) => {
                let mut fields = vec![];
                for (j, e) in d.iter().enumerate() {
                    let e = if *e == 9 { 1 + t.below(4) as u8 } else { *e };
                    if e == 0 {
                        continue;
                    }
                    let arr = match e {
                        2 => Arr::Fixed(lit(2)),
                        3 => Arr::Var(if t.pct(50) { Some(lit(7)) } else { None }),
                        _ => Arr::None,
                    };
                    fields.push(Field { name: format!("f{}", j), ty: target(j), arr, opt: e == 4 });
                }
                if t.pct(40) {
                    fields.reverse();
                }
                if fields.is_empty() || t.pct(30) {
                    let at = t.below(fields.len() + 1);
                    fields.insert(at, Field { name: "p".into(), ty: Ty::Prim(Prim::U32, 0), arr: Arr::None, opt: false });
                }
                Decl::Struct { name, fields }
            }
            Form::Union(d) => {
                let mut arms: Vec<Arm> = vec![];
                let mut def = None;
                let mut lab = 0;
                let mut label = || {
                    lab += 1;
                    Label { text: lab.to_string(), value: lab as i128 }
                };
                let only_default = |e: &u8| *e == 3;
                let mut defaulted = d.iter().any(only_default);
                for (j, e) in d.iter().enumerate() {
                    let e = if *e == 9 {
                        let x = 1 + t.below(3) as u8;
                        if x == 3 && defaulted {
                            1
                        } else {
                            defaulted |= x == 3;
                            x
                        }
                    } else {
                        *e
                    };
                    let body = Some((target(j), format!("b{}", j)));
                    match e {
                        0 => {}
                        1 => arms.push(Arm { labels: vec![label()], is_default: false, body }),
                        2 => arms.push(Arm { labels: vec![label(), label()], is_default: false, body }),
                        _ => def = Some(Arm { labels: if t.pct(25) { vec![label()] } else { vec![] }, is_default: true, body }),
                    }
                }
                if t.pct(40) {
                    arms.reverse();
                }
                if (arms.is_empty() && def.is_none()) || t.pct(30) {
                    arms.push(Arm { labels: vec![label()], is_default: false, body: None });
                }
                if let Some(a) = def {
                    arms.push(a);
                } else if t.pct(20) {
                    arms.push(Arm { labels: vec![], is_default: true, body: None });
                }
                Decl::Union { name, sw: Ty::Prim(Prim::I32, 0), var: "d".into(), arms }
            }
        });
    }
    Spec { decls }
}

// ------------------------------------------------------------------------------------------
// random large graphs

fn big_graph(tape: &[u32], i: usize) -> Spec {
    let mut t = Tape::seeded(tape, 77 + i as u64);
    let n = t.range(5, 40);
    let shape = t.below(6);
    let mut targets: Vec<Vec<usize>> = vec![vec![]; n];
    match shape {
        // a long chain
        0 | 1 => {
            for j in 0..n - 1 {
                targets[j].push(j + 1);
            }
            for _ in 0..t.below(n / 2 + 1) {
                let (a, b) = (t.below(n), t.below(n));
                if shape == 1 {
                    targets[a].push(b);
                } else {
                    targets[a.min(b)].push(a.max(b));
                }
            }
        }
        // a tree / diamonds
        2 => {
            for j in 1..n {
                for _ in 0..t.range(1, 3) {
                    targets[t.below(j)].push(j);
                }
            }
        }
        // cycles of different lengths, joined
        3 => {
            let mut s = 0;
            while s < n {
                let l = t.range(1, 9).min(n - s);
                for j in 0..l {
                    targets[s + j].push(s + (j + 1) % l);
                }
                if s > 0 && t.pct(70) {
                    targets[t.below(s)].push(s + t.below(l));
                }
                s += l;
            }
        }
        // sparse
        4 => {
            for j in 0..n {
                if t.pct(60) {
                    targets[j].push(t.below(n));
                }
            }
        }
        // dense
        _ => {
            for j in 0..n {
                for _ in 0..t.below(4) {
                    targets[j].push(t.below(n));
                }
            }
        }
    }
    let mut opaque = vec![false; n];
    match t.below(4) {
        0 => opaque[n - 1] = true,
        1 => opaque[t.below(n)] = true,
        2 => {}
        _ => {
            for _ in 0..t.range(1, 3) {
                opaque[t.below(n)] = true;
            }
        }
    }
    // names and declaration order are independent of the graph
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = t.below(i + 1);
        perm.swap(i, j);
    }
    let name = |j: usize| format!("{}{}_{}", ["ty", "Node", "a", "Z"][perm[j] % 4], perm[j], perm[j]);
    let lit = |v: u32| Bound { val: v, named: None };
    let mut decls = vec![];
    for j in 0..n {
        let mut ts: Vec<Ty> = targets[j].iter().map(|x| Ty::Named(name(*x))).collect();
        if opaque[j] {
            let at = t.below(ts.len() + 1);
            ts.insert(at, Ty::Opaque);
        }
        if t.pct(20) || ts.is_empty() && t.pct(70) {
            let at = t.below(ts.len() + 1);
            ts.insert(at, [Ty::Prim(Prim::U32, 0), Ty::Str, Ty::Prim(Prim::Bool, 0)][t.below(3)].clone());
        }
        let kind = if ts.len() == 1 { t.weighted(&[30, 25, 45]) } else if ts.is_empty() { 3 } else { t.below(2) };
        decls.push(match kind {
            0 => {
                let fields = ts
                    .into_iter()
                    .enumerate()
                    .map(|(q, ty)| {
                        let s = ty == Ty::Str;
                        let (arr, opt) = match t.below(4) {
                            0 => (Arr::None, false),
                            1 if !s => (Arr::Fixed(lit(2)), false),
                            3 if !s => (Arr::None, true),
                            _ => (Arr::Var(if t.pct(50) { Some(lit(5)) } else { None }), false),
                        };
                        let (arr, opt) = if matches!(ty, Ty::Prim(..)) && matches!(arr, Arr::Var(_)) { (Arr::None, false) } else { (arr, opt) };
                        Field { name: format!("f{}", q), ty, arr, opt }
                    })
                    .collect();
                Decl::Struct { name: name(j), fields }
            }
            1 => {
                let m = ts.len();
                let mut lab = 0;
                let mut arms: Vec<Arm> = vec![];
                for (q, ty) in ts.into_iter().enumerate() {
                    let def = q + 1 == m && t.pct(35);
                    let nl = if def { t.below(2) } else { t.range(1, 2) };
                    let labels = (0..nl)
                        .map(|_| {
                            lab += 1;
                            Label { text: lab.to_string(), value: lab as i128 }
                        })
                        .collect();
                    arms.push(Arm { labels, is_default: def, body: Some((ty, format!("b{}", q))) });
                }
                Decl::Union { name: name(j), sw: Ty::Prim(Prim::U32, 0), var: "disc".into(), arms }
            }
            2 => {
                let ty = ts.remove(0);
                let arr = match t.below(3) {
                    0 => Arr::None,
                    1 if ty != Ty::Str => Arr::Fixed(lit(2)),
                    _ if matches!(ty, Ty::Prim(..)) => Arr::None,
                    _ => Arr::Var(if t.pct(50) { Some(lit(5)) } else { None }),
                };
                Decl::Typedef { name: name(j), ty, arr }
            }
            _ => Decl::Enum { name: name(j), members: vec![(format!("E{}_0", j), EnumVal::Dec(0))] },
        });
    }
    match t.below(4) {
        0 => {}
        1 => decls.reverse(),
        _ => {
            for i in (1..n).rev() {
                let j = t.below(i + 1);
                decls.swap(i, j);
            }
        }
    }
    Spec { decls }
}

// ------------------------------------------------------------------------------------------
// oracles

pub fn index_diff(spec: &Spec, text: &str) -> Option<String> {
    let want = generics(spec);
    let ast = match guarded(|| crate::sup::noted(text, || Ast::new(text)).map_err(|e| e.to_string())) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return Some(format!("Ast::new rejects the specification: {}", e)),
        Err(p) => return Some(format!("Ast::new panics: {}", p)),
    };
    let got: BTreeSet<String> = ast.generics().0.iter().cloned().collect();
    if got != want {
        let miss: Vec<_> = want.difference(&got).collect();
        let extra: Vec<_> = got.difference(&want).collect();
        return Some(format!("generic index: missing {:?}, not opaque-bearing {:?}", miss, extra));
    }
    for d in spec.decls.iter().filter(|d| d.is_type()) {
        if ast.generics().contains(d.name()) != want.contains(d.name()) {
            return Some(format!("contains({:?}) disagrees with the index", d.name()));
        }
    }
    None
}

fn args_of(p: &syn::Path) -> (String, usize) {
    let s = p.segments.last().unwrap();
    let n = match &s.arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.len(),
        _ => 0,
    };
    (s.ident.to_string(), n)
}

struct Paths<'a> {
    names: &'a BTreeMap<&'a str, bool>,
    bad: Vec<String>,
}
impl<'ast, 'a> syn::visit::Visit<'ast> for Paths<'a> {
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        let (n, a) = args_of(&t.path);
        if let Some(g) = self.names.get(n.as_str()) {
            if (a != 0) != *g {
                self.bad.push(format!("{} used with {} parameters", n, a));
            }
        }
        syn::visit::visit_type_path(self, t);
    }
}

/// The emitted items carry the parameter for exactly the reachable names.
/// Ok(number of items looked at)
pub fn emit_diff(spec: &Spec, text: &str) -> Result<u64, String> {
    let want = generics(spec);
    let names: BTreeMap<&str, bool> = spec.decls.iter().filter(|d| d.is_type()).map(|d| (d.name(), want.contains(d.name()))).collect();
    let module = match generate(text, None) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return Err(format!("generate rejects the specification: {}", e)),
        Err(p) => return Err(format!("generate panics: {}", p)),
    };
    let f = match syn::parse_file(&module) {
        Ok(f) => f,
        Err(e) => return Err(format!("the output is not Rust: {}", e)),
    };
    let mut seen = 0;
    let mut count: BTreeMap<(String, &'static str), u32> = BTreeMap::new();
    for m in &f.items {
        let items = match m {
            syn::Item::Mod(m) if m.ident == "xdr" => match &m.content {
                Some(c) => &c.1,
                None => continue,
            },
            _ => continue,
        };
        for it in items {
            let (name, params, what) = match it {
                syn::Item::Struct(s) => (s.ident.to_string(), s.generics.params.len(), "type"),
                syn::Item::Enum(s) => (s.ident.to_string(), s.generics.params.len(), "type"),
                syn::Item::Impl(im) => {
                    let tr = match &im.trait_ {
                        Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(),
                        None => continue,
                    };
                    match &*im.self_ty {
                        syn::Type::Path(p) => {
                            let (n, a) = args_of(&p.path);
                            (n, a, match tr.as_str() {
                                "TryFrom" => "decoder",
                                "WireSize" => "size impl",
                                _ => continue,
                            })
                        }
                        _ => continue,
                    }
                }
                _ => continue,
            };
            let g = match names.get(name.as_str()) {
                Some(g) => *g,
                None => continue,
            };
            seen += 1;
            *count.entry((name.clone(), what)).or_default() += 1;
            if (params != 0) != g {
                return Err(format!(
                    "the {} of {} carries {} parameters although opaque data is {}reachable from it",
                    what, name, params, if g { "" } else { "not " }
                ));
            }
            if what == "type" {
                let mut v = Paths { names: &names, bad: vec![] };
                syn::visit::Visit::visit_item(&mut v, it);
                if let Some(b) = v.bad.pop() {
                    return Err(format!("inside the type {}: {}", name, b));
                }
            }
        }
    }
    for (n, g) in &names {
        // `typedef x x;` declares nothing
        if spec.decls.iter().any(|d| matches!(d, Decl::Typedef { name, ty: Ty::Named(m), .. } if name == n && m == n)) {
            continue;
        }
        for (w, k) in [("type", 1), ("decoder", 2), ("size impl", 1)] {
            let c = count.get(&(n.to_string(), w)).copied().unwrap_or(0);
            if c < k {
                return Err(format!("{} {}(s) emitted for {} ({}), {} expected", c, w, n, if *g { "generic" } else { "not generic" }, k));
            }
        }
    }
    Ok(seen)
}

// ------------------------------------------------------------------------------------------

fn text_of(spec: &Spec) -> String {
    print::print_decls(&spec.decls, &mut Tape::new(&[]), 0)
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

struct Part {
    label: String,
    total: u64,
    /// non-trivial cases (a case twice in a sampled part counts once)
    generic_some: u64,
    hashes: std::collections::HashSet<u64>,
    emitted: u64,
    emitted_items: u64,
    fail: Option<(Spec, String)>,
}

/// Runs `f(i)` for i in 0..n over the threads; `emit` = every how manieth case is also generated.
fn sweep(env: &Env, label: &str, n: u64, emit: u64, distinct: bool, f: &(dyn Fn(u64) -> Spec + Sync)) -> Part {
    let blocks: Vec<(u64, u64)> = (0..n).step_by(4096).map(|a| (a, (a + 4096).min(n))).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let rs = par(env.threads, &blocks, |_, (a, b)| {
        let mut p = Part { label: String::new(), total: 0, generic_some: 0, hashes: Default::default(), emitted: 0, emitted_items: 0, fail: None };
        for i in *a..*b {
            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                break;
            }
            let spec = f(i);
            let text = text_of(&spec);
            p.total += 1;
            let mut bad = index_diff(&spec, &text);
            let g = generics(&spec).len();
            if g > 0 && g < spec.decls.len() {
                if distinct {
                    p.generic_some += 1;
                } else {
                    p.hashes.insert(h64(&text));
                }
            }
            if bad.is_none() && emit > 0 && mix(i ^ 0x55) % emit == 0 {
                p.emitted += 1;
                match emit_diff(&spec, &text) {
                    Ok(k) => p.emitted_items += k,
                    Err(e) => bad = Some(e),
                }
            }
            if let Some(m) = bad {
                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                p.fail = Some((spec, m));
                break;
            }
        }
        p
    });
    let mut out = Part { label: label.into(), total: 0, generic_some: 0, hashes: Default::default(), emitted: 0, emitted_items: 0, fail: None };
    for p in rs {
        out.total += p.total;
        out.generic_some += p.generic_some;
        out.hashes.extend(p.hashes);
        out.emitted += p.emitted;
        out.emitted_items += p.emitted_items;
        if let Some(x) = p.fail {
            let better = out.fail.as_ref().map(|o| x.0.decls.len() < o.0.decls.len()).unwrap_or(true);
            if better {
                out.fail = Some(x);
            }
        }
    }
    out.generic_some += out.hashes.len() as u64;
    out.hashes.clear();
    out
}

fn digits(mut i: u64, forms: &[Form], k: usize) -> Vec<Form> {
    (0..k)
        .map(|_| {
            let f = forms[(i % forms.len() as u64) as usize].clone();
            i /= forms.len() as u64;
            f
        })
        .collect()
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let thorough = tier == "thorough";
    let mut rep = Report::new("C13", tier, seed);
    rep.rule = "one evaluation = one dependency graph printed as a specification: Ast::generics() compared as a set with reverse graph reachability from the opaque \
                declarations; for a part of them the generated module is parsed and every type, decoder and size impl must carry the parameter exactly for those names. \
                Non-trivial = at least one name is generic and at least one is not"
        .into();
    rep.assumptions = vec![
        "k declarations in every position: enumerating all labelled graphs covers every declaration order; name order is permuted per case".into(),
        "oracle: breadth-first search over reversed references (model::generics)".into(),
    ];
    let mut parts: Vec<Part> = vec![];
    let full1 = forms_full(1, 2);
    let full2 = forms_full(2, 3);
    let two3 = forms_full(3, 2);
    let sets3 = forms_sets(3);
    let sets4 = forms_sets(4);
    let pw = |f: &[Form], k: u32| (f.len() as u64).pow(k);
    parts.push(sweep(&env, "k=1, every edge kind (exhaustive)", pw(&full1, 1), 1, true, &|i| build(&digits(i, &full1, 1), mix(i ^ seed))));
    let two = pw(&full2, 2);
    parts.push(sweep(&env, "k=2, every edge kind (exhaustive)", two, if thorough { 1 } else { 12 }, true, &|i| build(&digits(i, &full2, 2), mix(i ^ seed))));
    let n3 = pw(&sets3, 3);
    let rots = if thorough { 40 } else { 6 };
    parts.push(sweep(&env, "k=3, every target set (exhaustive), edge kinds rotated", n3 * rots, if thorough { 100 } else { 160 }, false, &|i| {
        build(&digits(i % n3, &sets3, 3), mix(i ^ seed << 20))
    }));
    let n32 = pw(&two3, 3);
    let m32 = if thorough { n32 } else { 400_000 };
    parts.push(sweep(
        &env,
        if thorough { "k=3, every edge kind, at most two targets each (exhaustive)" } else { "k=3, every edge kind, at most two targets each (sampled)" },
        m32,
        if thorough { 400 } else { 500 },
        thorough,
        &|i| {
            let j = if thorough { i } else { mix(i ^ seed.rotate_left(7)) % n32 };
            build(&digits(j, &two3, 3), mix(j ^ seed))
        },
    ));
    let n4 = pw(&sets4, 4);
    let m4 = if thorough { n4 } else { 1_000_000 };
    parts.push(sweep(
        &env,
        if thorough { "k=4, every target set (exhaustive)" } else { "k=4, every target set (sampled)" },
        m4,
        if thorough { 1000 } else { 900 },
        thorough,
        &|i| {
            let j = if thorough { i } else { mix(i ^ seed.rotate_left(17)) % n4 };
            build(&digits(j, &sets4, 4), mix(j ^ seed.rotate_left(40)))
        },
    ));
    let nb = if thorough { 1_000_000 } else { 60_000 };
    let draws = draw(seed, "C13", 4096, 20, 400);
    parts.push(sweep(&env, "random graphs of 5..40 declarations", nb, if thorough { 50 } else { 30 }, false, &|i| {
        let (t, s) = &draws[(i % 4096) as usize];
        let k = mix(i ^ s);
        if i < 4096 { big_graph(t, k as usize) } else { big_graph(&[], k as usize) }
    }));
    let ng = if thorough { 200_000 } else { 20_000 };
    let gd = draw(seed, "C13g", ng as usize, 30, 700);
    parts.push(sweep(&env, "general random specifications", ng, 40, false, &|i| {
        let mut t = Tape::new(&gd[i as usize].0);
        let mut spec = gen_spec(&mut t, &Cfg { max_types: 12, ..Cfg::default() });
        let mut lt = Tape::seeded(&[], gd[i as usize].1);
        if i % 3 == 1 {
            inflate::similar(&mut spec, &mut lt);
        }
        if i % 3 == 2 {
            inflate::natural(&mut spec, &mut lt);
        }
        if i % 41 == 3 {
            inflate::inflate(&mut spec, &mut lt, true);
        }
        spec
    }));
    let mut fail = None;
    for p in parts {
        rep.evaluations += p.total;
        rep.distinct_extra += p.generic_some;
        rep.classes.insert(p.label.clone(), p.total);
        rep.count("modules-parsed", p.emitted);
        rep.count("emitted-items-compared", p.emitted_items);
        if fail.is_none() {
            fail = p.fail;
        }
    }
    for i in [3u64, 71, 4000, 30_011] {
        let spec = build(&digits(mix(i) % n4, &sets4, 4), mix(i));
        rep.sample(json!({"spec": print::canonical(&spec), "generic": generics(&spec)}));
    }
    if let Some((spec, msg)) = fail {
        let (spec, msg) = shrink(spec, msg);
        rep.violation(&msg, json!({"kind": "c13", "spec": spec, "text": text_of(&spec)}));
    }
    crate::findings::witness("C13", &env, &mut rep);
    rep.finish()
}

fn test(s: &Spec) -> Option<String> {
    let t = text_of(s);
    index_diff(s, &t).or_else(|| emit_diff(s, &t).err())
}

fn shrink(spec: Spec, msg: String) -> (Spec, String) {
    let t0 = Instant::now();
    let mut best = (spec, msg);
    'outer: while t0.elapsed().as_secs() < 30 {
        let mut cands: Vec<Spec> = vec![];
        for i in 0..best.0.decls.len() {
            let n = best.0.decls[i].name().to_string();
            // drop the declaration and every mention of it
            let mut s = best.0.clone();
            s.decls.remove(i);
            let mut ok = true;
            for d in &mut s.decls {
                match d {
                    Decl::Struct { fields, .. } => {
                        fields.retain(|f| f.ty != Ty::Named(n.clone()));
                        if fields.is_empty() {
                            fields.push(Field { name: "p".into(), ty: Ty::Prim(Prim::U32, 0), arr: Arr::None, opt: false });
                        }
                    }
                    Decl::Union { arms, sw, .. } => {
                        arms.retain(|a| a.body.as_ref().map(|b| b.0 != Ty::Named(n.clone())).unwrap_or(true));
                        if arms.is_empty() {
                            arms.push(Arm { labels: vec![Label { text: "1".into(), value: 1 }], is_default: false, body: None });
                        }
                        ok &= *sw != Ty::Named(n.clone());
                    }
                    Decl::Typedef { ty, arr, .. } if *ty == Ty::Named(n.clone()) => {
                        *ty = Ty::Prim(Prim::U32, 0);
                        *arr = Arr::None;
                    }
                    _ => {}
                }
            }
            if ok {
                cands.push(s);
            }
        }
        for i in 0..best.0.decls.len() {
            match &best.0.decls[i] {
                Decl::Struct { fields, .. } if fields.len() > 1 => {
                    for k in 0..fields.len() {
                        let mut s = best.0.clone();
                        if let Decl::Struct { fields, .. } = &mut s.decls[i] {
                            fields.remove(k);
                        }
                        cands.push(s);
                    }
                }
                Decl::Union { arms, .. } if arms.len() > 1 => {
                    for k in 0..arms.len() {
                        let mut s = best.0.clone();
                        if let Decl::Union { arms, .. } = &mut s.decls[i] {
                            arms.remove(k);
                        }
                        cands.push(s);
                    }
                }
                _ => {}
            }
        }
        for s in cands {
            if let Some(m) = test(&s) {
                // (not into a specification that is merely wrong)
                if m.contains("rejects the spec") && !best.1.contains("rejects the spec") {
                    continue;
                }
                best = (s, m);
                continue 'outer;
            }
        }
        break;
    }
    best
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let spec: Spec = serde_json::from_value(c["spec"].clone()).expect("spec");
    println!("{}", print::canonical(&spec));
    match test(&spec) {
        Some(m) => {
            println!("still fails: {}", m);
            1
        }
        None => {
            println!("the property holds for this case now");
            0
        }
    }
}
