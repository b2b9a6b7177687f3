//! Declarations of unusual size, and names that are nearly equal: what a bounded random
//! generator hardly ever draws.
use crate::model::*;
use crate::tape::Tape;
use std::collections::BTreeSet;

const SIZES: &[usize] = &[9, 12, 17, 20, 33, 40, 65, 70, 100, 129, 150, 200, 256, 257, 300];
const WORDS: &[&str] = &[
    "int", "hyper", "unsigned", "float", "double", "string", "opaque", "bool", "void", "case", "default", "switch", "typedef", "u32", "i32",
    "u64", "i64", "uint32_t", "int32_t", "uint64_t", "int64_t", "T", "Bytes", "Error", "Vec", "Option",
];
const HUGE: &[usize] = &[500, 513, 700, 1000, 1025, 2049, 4100];

fn plain(t: &mut Tape, types: &[String]) -> (Ty, Arr, bool) {
    match t.below(9) {
        0 => (Ty::Opaque, Arr::Var(None), false),
        1 => (Ty::Opaque, Arr::Fixed(Bound { val: 1 + t.below(9) as u32, named: None }), false),
        2 => (Ty::Str, Arr::Var(Some(Bound { val: t.edge_u32().max(9), named: None })), false),
        3 => (Ty::Prim(Prim::U64, t.below(3) as u8), Arr::None, false),
        4 if !types.is_empty() => (Ty::Named(t.pick(types).clone()), Arr::None, true),
        5 if !types.is_empty() => (Ty::Named(t.pick(types).clone()), Arr::Var(None), false),
        6 => (Ty::Prim(Prim::Bool, 0), Arr::None, false),
        7 => (Ty::Prim(Prim::F64, 0), Arr::None, false),
        _ => (Ty::Prim(Prim::I32, t.below(3) as u8), Arr::None, false),
    }
}

pub fn rename(spec: &mut Spec, from: &str, to: &str) {
    let r = |s: &mut String| {
        if s == from {
            *s = to.to_string();
        }
    };
    let rt = |t: &mut Ty| {
        if let Ty::Named(n) = t {
            if n == from {
                *n = to.to_string();
            }
        }
    };
    let rb = |a: &mut Arr| {
        if let Arr::Fixed(b) | Arr::Var(Some(b)) = a {
            if b.named.as_deref() == Some(from) {
                b.named = Some(to.to_string());
            }
        }
    };
    for d in &mut spec.decls {
        match d {
            Decl::Const { name, .. } => r(name),
            Decl::Enum { name, members } => {
                r(name);
                for (m, v) in members {
                    r(m);
                    if let EnumVal::Const(c, _) = v {
                        r(c);
                    }
                }
            }
            Decl::Struct { name, fields } => {
                r(name);
                for f in fields {
                    rt(&mut f.ty);
                    rb(&mut f.arr);
                }
            }
            Decl::Union { name, sw, arms, .. } => {
                r(name);
                rt(sw);
                for a in arms {
                    for l in &mut a.labels {
                        r(&mut l.text);
                    }
                    if let Some((t, _)) = &mut a.body {
                        rt(t);
                    }
                }
            }
            Decl::Typedef { name, ty, arr } => {
                r(name);
                rt(ty);
                rb(arr);
            }
        }
    }
}

/// Every declared name: constants, types, enum members.
pub fn names(spec: &Spec) -> Vec<String> {
    let mut out = vec![];
    for d in &spec.decls {
        out.push(d.name().to_string());
        if let Decl::Enum { members, .. } = d {
            out.extend(members.iter().map(|m| m.0.clone()));
        }
    }
    out
}

fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// Gives some names a near twin.
pub fn similar(spec: &mut Spec, t: &mut Tape) {
    let all = names(spec);
    if all.len() < 2 {
        return;
    }
    let mut taken: BTreeSet<String> = all.iter().cloned().collect();
    // names used for fields and discriminants stay what they are
    for d in &spec.decls {
        match d {
            Decl::Struct { fields, .. } => taken.extend(fields.iter().map(|f| f.name.clone())),
            Decl::Union { var, .. } => {
                taken.insert(var.clone());
            }
            _ => {}
        }
    }
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..1 + t.below(3) {
        let (a, b) = (t.below(all.len()), t.below(all.len()));
        if a == b || used.contains(&a) || used.contains(&b) {
            continue;
        }
        used.insert(a);
        used.insert(b);
        let base = &all[a];
        let to = match t.below(8) {
            0 | 1 => swap_case(base),
            2 => base.to_lowercase(),
            3 => base.to_uppercase(),
            4 => format!("{}_", base),
            5 => format!("{}{}", base, t.pick(&["s", "_t", "4", "0", "_v", "T", "res"])),
            6 => format!("{}{}", t.pick(&["x", "s_", "n", "v_"]), base),
            _ => base.replace('_', ""),
        };
        let first = to.chars().next();
        // not a number, nor a word with a meaning of its own
        if first.map_or(true, |c| c.is_ascii_digit()) || WORDS.contains(&to.as_str()) || RESERVED_FIELD.contains(&to.as_str()) {
            continue;
        }
        if taken.insert(to.clone()) {
            rename(spec, &all[b], &to);
        }
    }
    // two long names with a long common prefix
    if t.pct(30) {
        let (a, b) = (t.below(all.len()), t.below(all.len()));
        if a != b && !used.contains(&a) && !used.contains(&b) {
            let p = "q".repeat(*t.pick(&[15usize, 31, 32, 63, 64, 127, 128, 255, 256]));
            rename(spec, &all[a], &format!("{}{}", p, all[a]));
            rename(spec, &all[b], &format!("{}{}", p, all[b]));
        }
    }
}

/// Adds one or two declarations of unusual size.
pub fn inflate(spec: &mut Spec, t: &mut Tape, ast_only: bool) {
    let types: Vec<String> = spec.decls.iter().filter(|d| d.is_type()).map(|d| d.name().to_string()).collect();
    let tag = t.below(1000);
    for round in 0..1 + t.below(2) {
        let n = if ast_only && t.pct(15) { *t.pick(HUGE) } else { *t.pick(SIZES) };
        let name = format!("inflated{}_{}", tag, round);
        let mut add = vec![];
        match t.below(9) {
            0 => {
                let step = *t.pick(&[1usize, 1, 3, 257]);
                let members = (0..n)
                    .map(|i| {
                        let v = (i * step) as i32;
                        (format!("INFL_M{}_{}_{}", tag, round, i), if i % 5 == 4 { EnumVal::Hex(v, format!("{:x}", v)) } else { EnumVal::Dec(v) })
                    })
                    .collect();
                add.push(Decl::Enum { name, members });
            }
            1 | 2 => {
                let fields = (0..n)
                    .map(|i| {
                        let (ty, arr, opt) = plain(t, &types);
                        Field { name: format!("field_{}", i), ty, arr, opt }
                    })
                    .collect();
                add.push(Decl::Struct { name, fields });
            }
            3 | 4 => {
                // many labels: in one arm, in many, in a void group, before the default
                let group = *t.pick(&[1usize, 1, 2, 7, 1000]);
                let wide = t.pct(30);
                let label = |i: usize| Label { text: (i * 3).to_string(), value: (i * 3) as i128 };
                let mut arms = vec![];
                let mut i = 0;
                while i < n {
                    let k = group.min(n - i);
                    let body = match t.below(4) {
                        0 => None,
                        1 if !types.is_empty() => Some((Ty::Named(t.pick(&types).clone()), "val".to_string())),
                        2 => Some((Ty::Str, "name".to_string())),
                        _ => Some((Ty::Prim(Prim::U32, 0), "n".to_string())),
                    };
                    arms.push(Arm { labels: (i..i + k).map(label).collect(), is_default: false, body });
                    i += k;
                }
                match t.below(4) {
                    0 => arms.push(Arm { labels: vec![], is_default: true, body: None }),
                    1 => arms.push(Arm { labels: vec![], is_default: true, body: Some((Ty::Str, "other".into())) }),
                    2 => arms.last_mut().unwrap().is_default = true,
                    _ => {}
                }
                let sw = if wide { Ty::Prim(Prim::U64, 0) } else { Ty::Prim(Prim::U32, t.below(4) as u8) };
                add.push(Decl::Union { name, sw, var: "disc".into(), arms });
            }
            7 => {
                // long fixed arrays
                let n = if ast_only { *t.pick(&[1000usize, 4099]) } else { *t.pick(&[81usize, 100, 127, 128, 255, 256, 257, 300, 512, 1000, 1025]) };
                let ty = Ty::Prim(*t.pick(&[Prim::U32, Prim::I32, Prim::U64, Prim::F32, Prim::Bool]), 0);
                let arr = Arr::Fixed(Bound { val: n as u32, named: None });
                if t.pct(50) {
                    add.push(Decl::Typedef { name: name.clone(), ty, arr });
                } else {
                    let tail = Field { name: "tail".into(), ty: Ty::Str, arr: Arr::Var(None), opt: false };
                    add.push(Decl::Struct { name: name.clone(), fields: vec![Field { name: "head".into(), ty, arr, opt: false }, tail] });
                }
                let at = Ty::Named(name.clone());
                let (ty, arr, opt) = t.pick(&[(at.clone(), Arr::None, true), (at.clone(), Arr::Var(None), false), (at.clone(), Arr::Fixed(Bound { val: 2, named: None }), false)]).clone();
                add.push(Decl::Struct { name: format!("{}_user", name), fields: vec![Field { name: "f".into(), ty, arr, opt }] });
            }
            5 => {
                for i in 0..n {
                    let val = t.edge_u32();
                    add.push(Decl::Const { name: format!("INFL_C{}_{}_{}", tag, round, i), val, text: crate::gen::const_text(t, val) });
                }
            }
            6 => {
                // a chain
                let n = n.min(if ast_only { 600 } else { 36 });
                let first = match t.below(4) {
                    0 => (Ty::Opaque, Arr::Var(None)),
                    1 => (Ty::Str, Arr::Var(None)),
                    2 => (Ty::Prim(Prim::I64, 0), Arr::None),
                    _ => (Ty::Prim(Prim::U32, 0), Arr::None),
                };
                for i in 0..n {
                    let nm = format!("{}_{}", name, i);
                    let (ty, arr) = if i == 0 { first.clone() } else { (Ty::Named(format!("{}_{}", name, i - 1)), Arr::None) };
                    if i % 3 == 2 && t.pct(40) {
                        add.push(Decl::Struct { name: nm, fields: vec![Field { name: "inner".into(), ty, arr, opt: false }] });
                    } else {
                        add.push(Decl::Typedef { name: nm, ty, arr });
                    }
                }
            }
            _ => {
                for i in 0..n.min(if ast_only { 1000 } else { 24 }) {
                    let nm = format!("{}_{}", name, i);
                    let (ty, arr, opt) = plain(t, &types);
                    if opt || t.pct(50) {
                        add.push(Decl::Struct { name: nm, fields: vec![Field { name: "f".into(), ty, arr, opt }] });
                    } else {
                        add.push(Decl::Typedef { name: nm, ty, arr });
                    }
                }
            }
        }
        // anywhere among the others
        for d in add {
            let k = t.below(spec.decls.len() + 1);
            spec.decls.insert(k, d);
        }
    }
    crate::gen::untaint(spec);
}

/// Names as they appear in real specifications, free of anything the generated module uses
/// itself (a recorded finding) and of reserved words.
const ANY_NAMES: &[&str] = &[
    "nfs_fh", "entry", "call_body", "GETATTRres", "stateid", "structure", "union_type", "enumeration", "switcher", "floaty", "doubled",
    "x_y_z", "createhow", "bitmap", "interval", "hyperspace", "unsignedness", "int_x", "opaque_auth", "string_list", "void_t", "uint32",
    "uint", "u_int", "Type", "Match", "Fn", "Loop", "status", "Status", "filename", "payload", "READ", "WRITE", "read", "write", "len",
    "id", "count", "message", "Message", "Request", "header", "body", "Opaque", "STRING", "Int", "Unsigned", "unsigned_", "inty",
    "opaques", "strings", "casetype", "voidstar", "aa", "Aa", "aA", "AA", "A", "B", "Z", "K", "nfs4", "NFS4", "nfs_4", "a_b_c", "a__b",
    "Kind", "Node", "node", "list", "List", "Tree", "File", "file", "User", "user", "time", "nfstime4", "verifier4", "reply", "args", "res",
    "CALL", "REPLY", "bool_t", "boolean", "long", "short", "char_t", "ptr", "next", "MAX_LEN", "SIZE", "Limit", "resok", "resfail",
];
/// ... of braced types and enum members only
const TYPE_NAMES: &[&str] = &["data", "out", "sum", "limit", "inner", "n", "b", "x", "t", "v", "d", "c", "e", "i", "size", "value", "l"];
const MEMBER_NAMES: &[&str] = &[
    "None", "Some", "Ok", "Err", "Error", "Bytes", "Vec", "T", "data", "n", "b", "v", "d", "e", "Box", "String", "u8", "Option", "Debug",
];

/// A specification with every construct, whose own names are all recognisable.
const PROBE: &str = "
const zq_c = 4;
enum zq_e { zq_m = 0, zq_k = 1 };
struct zq_s { int zq_f; unsigned int zq_f2; hyper zq_f3; unsigned hyper zq_f4; float zq_f5; double zq_f6; bool zq_f7; string zq_f8<zq_c>;
  opaque zq_f9<>; opaque zq_f10[3]; zq_e zq_f11; zq_s *zq_f12; zq_u zq_f13<>; zq_u zq_f14[zq_c]; int zq_f15[2]; string zq_f16<>; opaque zq_f17[zq_c]; opaque zq_f18<zq_c>; };
union zq_u switch (zq_e zq_d) { case zq_m: zq_t4 zq_g; case zq_k: void; default: zq_s zq_h; };
union zq_u2 switch (unsigned int zq_d) { case 1: case 2: zq_s zq_g; case zq_c: int zq_i; case zq_k: void; default: void; };
union zq_u3 switch (bool zq_d) { case TRUE: zq_s2 zq_g; case FALSE: void; };
union zq_u4 switch (zq_t zq_d) { case 1: zq_s2 zq_g; };
struct zq_s2 { int zq_f; };
typedef zq_e zq_t; typedef int zq_t2; typedef string zq_t3<zq_c>; typedef opaque zq_t4<>; typedef zq_s zq_t5[3]; typedef zq_s zq_t6<zq_c>; typedef zq_t zq_t7; typedef opaque zq_t8[4];
";

/// The identifiers the generated module uses itself, as it is emitted now. Those that may name an
/// item (`.1`) collide with declared types, any of them with constants and typedefs.
fn module_names() -> &'static (BTreeSet<String>, BTreeSet<String>) {
    static NAMES: std::sync::OnceLock<(BTreeSet<String>, BTreeSet<String>)> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| {
        let mut out = (BTreeSet::new(), BTreeSet::new());
        let text = match crate::exec::generate(PROBE, None) {
            Ok(Ok(t)) => t,
            _ => return out,
        };
        let mut before = String::new();
        let mut stack: Vec<proc_macro2::token_stream::IntoIter> = match text.parse::<proc_macro2::TokenStream>() {
            Ok(t) => vec![t.into_iter()],
            Err(_) => return out,
        };
        while let Some(top) = stack.last_mut() {
            match top.next() {
                None => {
                    stack.pop();
                }
                Some(proc_macro2::TokenTree::Group(g)) => {
                    stack.push(g.stream().into_iter());
                    before.clear();
                }
                Some(proc_macro2::TokenTree::Ident(i)) => {
                    let s = i.to_string();
                    if !s.starts_with("zq_") {
                        if s.starts_with(|c: char| c.is_uppercase()) || matches!(before.as_str(), "struct" | "enum" | "trait" | "type" | "union" | "mod" | "macro_rules") {
                            out.1.insert(s.clone());
                        }
                        out.0.insert(s.clone());
                    }
                    before = s;
                }
                Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == '!' => {}
                Some(_) => before.clear(),
            }
        }
        out
    })
}

/// Renames declarations to plain words.
pub fn natural(spec: &mut Spec, t: &mut Tape) {
    let mut taken: BTreeSet<String> = names(spec).into_iter().collect();
    for d in &spec.decls {
        match d {
            Decl::Struct { fields, .. } => taken.extend(fields.iter().map(|f| f.name.clone())),
            Decl::Union { var, .. } => {
                taken.insert(var.clone());
            }
            _ => {}
        }
    }
    let mut todo: Vec<(String, u8)> = vec![];
    for d in &spec.decls {
        match d {
            Decl::Const { name, .. } | Decl::Typedef { name, .. } => todo.push((name.clone(), 0)),
            Decl::Enum { name, members } => {
                todo.push((name.clone(), 1));
                todo.extend(members.iter().take(20).map(|m| (m.0.clone(), 2)));
            }
            Decl::Struct { name, .. } | Decl::Union { name, .. } => todo.push((name.clone(), 1)),
        }
    }
    for (name, kind) in todo {
        if !t.pct(60) {
            continue;
        }
        let to = match kind {
            1 if t.pct(25) => *t.pick(TYPE_NAMES),
            2 if t.pct(25) => *t.pick(MEMBER_NAMES),
            _ => *t.pick(ANY_NAMES),
        };
        let (any, items) = module_names();
        let clash = match kind {
            0 => any.contains(to),
            1 => items.contains(to),
            _ => false,
        };
        if !clash && taken.insert(to.to_string()) {
            rename(spec, &name, to);
        }
    }
}
