//! C12: the public AST and its indexes against the declaration model the text was printed from.
use crate::exec::{guarded, par, Env};
use crate::exec_check::draw;
use crate::gen::{gen_spec, Cfg};
use crate::inflate;
use crate::model::*;
use crate::print;
use crate::report::*;
use crate::shrink;
use crate::tape::Tape;
use fastxdr::ast::indexes::{AstType, ConstantType};
use fastxdr::ast::{ArraySize, ArrayType, Ast, BasicType, VariantValue};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

fn basic(t: &Ty) -> BasicType {
    match t {
        Ty::Prim(Prim::U32, _) => BasicType::U32,
        Ty::Prim(Prim::I32, _) => BasicType::I32,
        Ty::Prim(Prim::U64, _) => BasicType::U64,
        Ty::Prim(Prim::I64, _) => BasicType::I64,
        Ty::Prim(Prim::F32, _) => BasicType::F32,
        Ty::Prim(Prim::F64, _) => BasicType::F64,
        Ty::Prim(Prim::Bool, _) => BasicType::Bool,
        Ty::Str => BasicType::String,
        Ty::Opaque => BasicType::Opaque,
        Ty::Named(n) => BasicType::Ident(n.clone()),
    }
}

fn size(b: &Bound) -> ArraySize {
    match &b.named {
        Some(n) => ArraySize::Constant(n.clone()),
        None => ArraySize::Known(b.val),
    }
}

fn arr(inner: BasicType, a: &Arr) -> ArrayType<BasicType> {
    match a {
        Arr::None => ArrayType::None(inner),
        Arr::Fixed(b) => ArrayType::FixedSize(inner, size(b)),
        Arr::Var(b) => ArrayType::VariableSize(inner, b.as_ref().map(size)),
    }
}

fn union_diff(u: &fastxdr::ast::Union, sw: &Ty, var: &str, arms: &[Arm]) -> Option<String> {
    if u.switch.var_name != var {
        return Some(format!("discriminant is called {:?}, declared as {:?}", u.switch.var_name, var));
    }
    if u.switch.var_type != basic(sw) {
        return Some(format!("discriminant has type {:?}, declared as {:?}", u.switch.var_type, basic(sw)));
    }
    type K = (BTreeSet<String>, String, String);
    let show = |t: &ArrayType<BasicType>| format!("{:?}", t);
    let mut want: Vec<K> = vec![];
    let mut want_void: BTreeSet<String> = BTreeSet::new();
    let mut want_def: Option<K> = None;
    for a in arms {
        let ls: BTreeSet<String> = a.labels.iter().map(|l| l.text.clone()).collect();
        match (&a.body, a.is_default) {
            (Some((t, n)), d) => {
                let k = (ls, n.clone(), show(&ArrayType::None(basic(t))));
                if d {
                    want_def = Some(k);
                } else {
                    want.push(k);
                }
            }
            (None, d) => {
                want_void.extend(ls);
                if d {
                    want_void.insert("default".into());
                }
            }
        }
    }
    let key = |c: &fastxdr::ast::UnionCase| -> Result<K, String> {
        let ls: BTreeSet<String> = c.case_values.iter().cloned().collect();
        if ls.len() != c.case_values.len() {
            return Err(format!("labels listed twice: {:?}", c.case_values));
        }
        Ok((ls, c.field_name.clone(), show(&c.field_value)))
    };
    let mut got = vec![];
    for c in &u.cases {
        match key(c) {
            Ok(k) => got.push(k),
            Err(e) => return Some(e),
        }
    }
    got.sort();
    want.sort();
    if got != want {
        return Some(format!("arms {:?}, declared {:?}", got, want));
    }
    let got_def = match &u.default {
        None => None,
        Some(c) => match key(c) {
            Ok(mut k) => {
                k.0.remove("default");
                Some(k)
            }
            Err(e) => return Some(e),
        },
    };
    if got_def != want_def {
        return Some(format!("default arm {:?}, declared {:?}", got_def, want_def));
    }
    let gv: BTreeSet<String> = u.void_cases.iter().cloned().collect();
    if gv != want_void || gv.len() != u.void_cases.len() {
        return Some(format!("void labels {:?}, declared {:?}", u.void_cases, want_void));
    }
    None
}

/// None when the AST of `text` reflects `spec` exactly.
pub fn diff(spec: &Spec, text: &str) -> Option<String> {
    let ast = match guarded(|| crate::sup::noted(text, || Ast::new(text)).map_err(|e| e.to_string())) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return Some(format!("Ast::new rejects the specification: {}", e)),
        Err(p) => return Some(format!("Ast::new panics: {}", p)),
    };
    // types
    let mut want: BTreeSet<&str> = BTreeSet::new();
    for d in spec.decls.iter().filter(|d| d.is_type()) {
        let n = d.name();
        want.insert(n);
        let got = match ast.types().get(n) {
            Some(g) => g,
            None => return Some(format!("type {} is declared but not in the index", n)),
        };
        let dif = match (d, got) {
            (Decl::Enum { members, .. }, AstType::Enum(e)) => {
                let w: BTreeMap<String, String> = members
                    .iter()
                    .map(|(m, v)| {
                        let v = match v {
                            EnumVal::Const(c, _) => VariantValue::String(c.clone()),
                            v => VariantValue::Numeric(v.val()),
                        };
                        (m.clone(), format!("{:?}", v))
                    })
                    .collect();
                let g: BTreeMap<String, String> = e.variants.iter().map(|v| (v.name.clone(), format!("{:?}", v.value))).collect();
                if e.name != n {
                    Some(format!("the entry is called {:?}", e.name))
                } else if g != w || e.variants.len() != members.len() {
                    Some(format!("members {:?}, declared {:?}", e.variants, members))
                } else {
                    None
                }
            }
            (Decl::Struct { fields, .. }, AstType::Struct(s)) => {
                if s.name != n || s.name() != n {
                    Some(format!("the entry is called {:?}", s.name))
                } else if s.fields.len() != fields.len() {
                    Some(format!("{} fields, declared {}", s.fields.len(), fields.len()))
                } else {
                    s.fields
                        .iter()
                        .zip(fields)
                        .enumerate()
                        .filter_map(|(i, (g, w))| {
                            if g.field_name != w.name {
                                Some(format!("field {} is called {:?}, declared as {:?}", i, g.field_name, w.name))
                            } else if g.field_value != arr(basic(&w.ty), &w.arr) {
                                Some(format!("field {:?} has type {:?}, declared {:?}", w.name, g.field_value, arr(basic(&w.ty), &w.arr)))
                            } else if g.is_optional != w.opt {
                                Some(format!("field {:?} is_optional {}, declared {}", w.name, g.is_optional, w.opt))
                            } else {
                                None
                            }
                        })
                        .next()
                }
            }
            (Decl::Union { sw, var, arms, .. }, AstType::Union(u)) => {
                if u.name != n || u.name() != n {
                    Some(format!("the entry is called {:?}", u.name))
                } else {
                    union_diff(u, sw, var, arms)
                }
            }
            (Decl::Typedef { ty, arr: a, .. }, AstType::Typedef(t)) => {
                let wa = arr(BasicType::Ident(n.to_string()), a);
                if t.target != basic(ty) {
                    Some(format!("target {:?}, declared {:?}", t.target, basic(ty)))
                } else if t.alias != wa {
                    Some(format!("alias {:?}, declared {:?}", t.alias, wa))
                } else if ast.types().typedef_target(n) != Some(t) {
                    Some("typedef_target does not return the typedef".into())
                } else {
                    None
                }
            }
            (_, g) => Some(format!("wrong kind of entry: {:?}", g)),
        };
        if let Some(m) = dif {
            return Some(format!("{}: {}", n, m));
        }
        if !matches!(d, Decl::Typedef { .. }) && ast.types().typedef_target(n).is_some() {
            return Some(format!("typedef_target({}) returns something for a type that is no typedef", n));
        }
    }
    // every entry of the index is one that is declared, under one name
    let iter: Vec<&str> = ast
        .types()
        .iter()
        .map(|t| match t {
            AstType::Struct(s) => s.name(),
            AstType::Union(u) => u.name(),
            AstType::Enum(e) => e.name.as_str(),
            AstType::Typedef(t) => t.alias.unwrap_array().as_str(),
        })
        .collect();
    if let Some(n) = iter.iter().find(|n| !want.contains(**n)) {
        return Some(format!("the index lists {:?}, which is not declared", n));
    }
    let n = iter.len();
    if n != want.len() {
        return Some(format!("{} types in the index, {} declared: {:?}", n, want.len(), ast.types().iter().collect::<Vec<_>>()));
    }
    // constants
    let mut count = 0;
    for d in &spec.decls {
        match d {
            Decl::Const { name, val, text } => {
                count += 1;
                match ast.constants().get(name) {
                    Some(ConstantType::ConstValue(s)) if crate::exec::number(s) == Some(*val as u64) => {}
                    g => return Some(format!("constant {} = {} appears as {:?}", name, text, g)),
                }
            }
            Decl::Enum { name, members } => {
                for (m, _) in members {
                    count += 1;
                    match ast.constants().get(m) {
                        Some(ConstantType::EnumValue { enum_name, variant }) if enum_name == name && variant == m => {}
                        g => return Some(format!("member {} of enum {} appears as {:?}", m, name, g)),
                    }
                }
            }
            _ => {}
        }
    }
    // names that are not declared are not found, however close they are
    let all = inflate::names(spec);
    let consts: BTreeSet<&str> = ast.constants().iter().map(|c| c.0.as_str()).collect();
    for n in &all {
        let mut near = vec![n.to_lowercase(), n.to_uppercase(), format!("{}_t", n), format!("{} ", n), format!(" {}", n), format!("{}_v", n), n.clone()];
        near.push(n.trim_end_matches(|c: char| c.is_ascii_digit()).to_string());
        near.push(n[..n.len() - 1].to_string());
        near.push(n[1..].to_string());
        if all.len() > 40 {
            near.truncate(3);
        }
        for m in near {
            if ast.constants().get(&m).is_some() != consts.contains(m.as_str()) {
                return Some(format!("the constant {:?} is found, it is not declared", m));
            }
            if ast.types().get(&m).is_some() != want.contains(m.as_str()) {
                return Some(format!("the type {:?} is found, it is not declared", m));
            }
        }
    }
    let n = ast.constants().iter().count();
    if n != count {
        return Some(format!("{} constants in the index, {} declared: {:?}", n, count, ast.constants().iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    None
}

/// Names without the uniquifying suffix: legal at AST level, wherever they stay unambiguous.
const RAW: &[&str] = &[
    "type", "match", "self", "Self", "fn", "T", "Bytes", "Error", "Vec", "u", "v", "i", "intx", "uint", "unsignedx", "hyper_",
    "strings", "opaque_", "floaty", "doubles", "structx", "structure", "unionx", "enumeration", "constx", "constant",
    "casex", "case_", "defaultx", "default_", "voidx", "typedefx", "switchx", "boolean", "u33", "int33_t", "type_t", "x",
    "Option", "Z9", "a_", "A__b", "void_", "interval", "integer", "uint32", "INT", "Unsigned", "STRING", "opaque1", "bool_t",
];

fn rawify(spec: &mut Spec, t: &mut Tape) {
    let names = inflate::names(spec);
    let mut pool: Vec<&str> = RAW.to_vec();
    for n in names {
        if t.pct(35) && !pool.is_empty() {
            let k = t.below(pool.len());
            let to = pool.swap_remove(k);
            inflate::rename(spec, &n, to);
        }
    }
}

pub struct In {
    pub spec: Spec,
    pub text: String,
    pub noise: u32,
}

pub fn input(tape: &[u32], layout: u64, i: usize) -> In {
    let mut t = Tape::new(tape);
    let cfg = Cfg {
        max_types: [3, 6, 9, 14][i % 4],
        bare: true,
        uncompilable: true,
        default_anywhere: true,
        big: true,
    };
    let mut spec = gen_spec(&mut t, &cfg);
    let mut lt = Tape::seeded(&[], layout);
    if i % 3 == 1 {
        rawify(&mut spec, &mut lt);
    }
    if i % 5 == 2 {
        inflate::similar(&mut spec, &mut lt);
    }
    if i % 5 == 3 {
        inflate::natural(&mut spec, &mut lt);
    }
    if i % 37 == 5 {
        inflate::inflate(&mut spec, &mut lt, true);
    }
    // shapes only the AST level supports
    if lt.pct(6) {
        spec.decls.push(Decl::Struct { name: "empty_struct_1".into(), fields: vec![] });
    }
    let noise = [2, 1, 0, 2][(i / 3) % 4];
    let text = print::print_decls(&spec.decls, &mut lt, noise);
    In { spec, text, noise }
}

pub fn run(tier: &str, seed: u64) -> i32 {
    let env = Env::load();
    let mut rep = Report::new("C12", tier, seed);
    rep.rule = "one evaluation = one specification printed from a random declaration model in one random layout and parsed by Ast::new; the types and constants \
                indexes are compared with the model entry by entry (get) and in number (iter). Non-trivial = at least two declarations and at least one struct, union or enum with two parts"
        .into();
    rep.assumptions = vec!["expectation derived from our own declaration model; order of union arms, labels and enum members is not demanded, order of struct fields is".into()];
    let n: usize = std::env::var("VERIF_SPECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" { 12_000_000 } else { 600_000 });
    let mut fails: Vec<(In, String, usize)> = vec![];
    let mut i0 = 0;
    let mut round = 0;
    while i0 < n && fails.is_empty() {
        let m = (n - i0).min(20_000);
        let draws = draw(seed, &format!("C12-{}", round), m, 30, 700);
        let items: Vec<(usize, Vec<u32>, u64)> = draws.into_iter().enumerate().map(|(k, (t, s))| (i0 + k, t, s)).collect();
        let out = par(env.threads, &items, |_, (i, t, s)| {
            let inp = input(t, *s, *i);
            let d = diff(&inp.spec, &inp.text);
            let mut st: Vec<(&'static str, u64)> = vec![];
            for d in &inp.spec.decls {
                match d {
                    Decl::Const { text, .. } => st.push((if text.starts_with("0x") { "const-hex" } else { "const-decimal" }, 1)),
                    Decl::Enum { members, .. } => st.push(("enum-members", members.len() as u64)),
                    Decl::Struct { fields, .. } => {
                        for f in fields {
                            st.push((
                                match (&f.arr, f.opt) {
                                    (_, true) => "field-optional",
                                    (Arr::None, _) => "field-plain",
                                    (Arr::Fixed(_), _) => "field-fixed",
                                    (Arr::Var(None), _) => "field-unbounded",
                                    (Arr::Var(Some(_)), _) => "field-bounded",
                                },
                                1,
                            ));
                        }
                    }
                    Decl::Union { arms, .. } => {
                        for a in arms {
                            if a.is_default {
                                st.push((if a.body.is_some() { "default-data" } else { "default-void" }, 1));
                            }
                            st.push((if a.body.is_some() { "arm-data" } else { "arm-void" }, 1));
                            if a.labels.len() > 1 || a.is_default && !a.labels.is_empty() {
                                st.push(("arm-fallthrough", 1));
                            }
                        }
                    }
                    Decl::Typedef { arr, .. } => st.push((if *arr == Arr::None { "typedef-plain" } else { "typedef-array" }, 1)),
                }
            }
            let nontrivial = inp.spec.decls.len() >= 2
                && inp.spec.decls.iter().any(|d| match d {
                    Decl::Struct { fields, .. } => fields.len() > 1,
                    Decl::Union { arms, .. } => arms.len() > 1,
                    Decl::Enum { members, .. } => members.len() > 1,
                    _ => false,
                });
            let h = h64(&inp.text);
            let comments = inp.text.contains("/*") || inp.text.contains("//");
            let keep = if d.is_some() || *i % 9973 == 17 { Some(inp) } else { None };
            (h, nontrivial, comments, st, d, keep)
        });
        for (k, (h, nt, comments, st, d, keep)) in out.into_iter().enumerate() {
            rep.evaluations += 1;
            if nt {
                rep.distinct.insert(h);
            }
            rep.class(if comments { "with comments" } else { "without comments" });
            for (c, n) in st {
                rep.count(c, n);
            }
            if let Some(inp) = keep {
                match d {
                    Some(m) => fails.push((inp, m, i0 + k)),
                    None => rep.sample(json!({"text": inp.text, "verdict": "the AST equals the model"})),
                }
            }
        }
        i0 += m;
        round += 1;
    }
    // the realistic specifications used elsewhere must at least be accepted
    for (name, text) in crate::c07::SEEDS {
        rep.evaluations += 1;
        if let Err(e) = guarded(|| crate::sup::noted(text, || Ast::new(text)).map(|_| ()).map_err(|e| e.to_string())).and_then(|r| r) {
            rep.violation(&format!("{}: {}", name, e), json!({"kind": "c12", "text": text, "spec": Spec::default()}));
        }
    }
    if !fails.is_empty() {
        rep.count("failing-cases", fails.len() as u64);
        fails.sort_by_key(|f| f.0.text.len());
        let (inp, msg, _) = fails.remove(0);
        let (spec, text, msg) = shrink_fail(inp.spec, inp.text, msg);
        rep.violation(&msg, json!({"kind": "c12", "text": text, "spec": spec}));
    }
    crate::findings::witness("C12", &env, &mut rep);
    rep.finish()
}

/// Drop declarations, then simplify them; then the plainest layout that still fails.
fn shrink_fail(spec: Spec, text: String, msg: String) -> (Spec, String, String) {
    let t0 = Instant::now();
    // layout matters or not?
    let layouts: Vec<Box<dyn Fn(&Spec) -> String>> = vec![
        Box::new(|s: &Spec| print::canonical(s)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::new(&[]), 0)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::seeded(&[], 1), 1)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::seeded(&[], 2), 2)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::seeded(&[], 3), 2)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::seeded(&[], 4), 2)),
        Box::new(|s: &Spec| print::print_decls(&s.decls, &mut Tape::seeded(&[], 5), 2)),
    ];
    let fails = |s: &Spec| layouts.iter().find_map(|l| {
        let t = l(s);
        diff(s, &t).map(|m| (t, m))
    });
    let mut best = match fails(&spec) {
        Some((t, m)) => (spec.clone(), t, m),
        None => {
            // only this very layout: cut the text at declarations, keep it as it is
            return (spec, text, msg);
        }
    };
    'outer: while t0.elapsed().as_secs() < 30 {
        for i in 0..best.0.decls.len() {
            let mut s = best.0.clone();
            s.decls.remove(i);
            if let Some((t, m)) = fails(&s) {
                best = (s, t, m);
                continue 'outer;
            }
        }
        for i in 0..best.0.decls.len() {
            for d in part_drops(&best.0.decls[i]) {
                let mut s = best.0.clone();
                s.decls[i] = d;
                if let Some((t, m)) = fails(&s) {
                    best = (s, t, m);
                    continue 'outer;
                }
            }
        }
        break;
    }
    let _ = shrink::weight(&best.0);
    best
}

fn part_drops(d: &Decl) -> Vec<Decl> {
    let mut out = vec![];
    match d {
        Decl::Struct { name, fields } => {
            for k in 0..fields.len() {
                let mut f = fields.clone();
                f.remove(k);
                out.push(Decl::Struct { name: name.clone(), fields: f });
            }
        }
        Decl::Enum { name, members } if members.len() > 1 => {
            for k in 0..members.len() {
                let mut f = members.clone();
                f.remove(k);
                out.push(Decl::Enum { name: name.clone(), members: f });
            }
        }
        Decl::Union { name, sw, var, arms } if arms.len() > 1 => {
            for k in 0..arms.len() {
                let mut f = arms.clone();
                f.remove(k);
                out.push(Decl::Union { name: name.clone(), sw: sw.clone(), var: var.clone(), arms: f });
            }
        }
        _ => {}
    }
    out
}

pub fn replay(c: &serde_json::Value) -> i32 {
    let spec: Spec = serde_json::from_value(c["spec"].clone()).expect("spec");
    let text = c["text"].as_str().unwrap();
    println!("{}", text);
    let r = if spec.decls.is_empty() {
        guarded(|| crate::sup::noted(text, || Ast::new(text)).map(|_| ()).map_err(|e| e.to_string())).and_then(|r| r).err()
    } else {
        diff(&spec, text)
    };
    match r {
        Some(m) => {
            println!("still fails: {}", m);
            1
        }
        None => {
            println!("the property holds for this case now");
            0
        }
    }
}
