//! Structural shrinking of specifications.
use crate::model::*;
use std::collections::BTreeSet;

/// Declarations the type `root` depends on (types, and the constants they mention).
pub fn slice(spec: &Spec, roots: &[&str]) -> Spec {
    let mut keep: BTreeSet<String> = BTreeSet::new();
    let mut work: Vec<String> = roots.iter().map(|s| s.to_string()).collect();
    while let Some(n) = work.pop() {
        if !keep.insert(n.clone()) {
            continue;
        }
        for d in spec.decls.iter().filter(|d| d.name() == n) {
            for t in refs(d) {
                if let Ty::Named(m) = t {
                    work.push(m.clone());
                }
            }
            match d {
                Decl::Struct { fields, .. } => {
                    for f in fields {
                        bound_const(&f.arr, &mut work);
                    }
                }
                Decl::Typedef { arr, .. } => bound_const(arr, &mut work),
                Decl::Enum { members, .. } => {
                    for (_, v) in members {
                        if let EnumVal::Const(c, _) = v {
                            work.push(c.clone());
                        }
                    }
                }
                Decl::Union { arms, .. } => {
                    for l in arms.iter().flat_map(|a| &a.labels) {
                        work.push(l.text.clone());
                        for d2 in &spec.decls {
                            if let Decl::Enum { name, members } = d2 {
                                if members.iter().any(|m| m.0 == l.text) {
                                    work.push(name.clone());
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Spec { decls: spec.decls.iter().filter(|d| keep.contains(d.name())).cloned().collect() }
}

fn bound_const(a: &Arr, w: &mut Vec<String>) {
    match a {
        Arr::Fixed(b) | Arr::Var(Some(b)) => {
            if let Some(n) = &b.named {
                w.push(n.clone());
            }
        }
        _ => {}
    }
}

fn label_texts(spec: &Spec) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for d in &spec.decls {
        if let Decl::Union { arms, .. } = d {
            s.extend(arms.iter().flat_map(|a| a.labels.iter().map(|l| l.text.clone())));
        }
    }
    s
}

/// One-step simplifications that stay inside the supported subset.
pub fn candidates(spec: &Spec, root: &str) -> Vec<(Spec, String)> {
    let mut out: Vec<(Spec, String)> = vec![];
    let u32t = Ty::Prim(Prim::U32, 0);
    let mut push = |s: Spec, r: &str| {
        let s = slice(&s, &[r]);
        if s != *spec && s.decls.iter().any(|d| d.name() == r) && !out.iter().any(|(o, _)| *o == s) {
            out.push((s, r.to_string()));
        }
    };
    // another root
    for d in &spec.decls {
        if d.is_type() && d.name() != root {
            push(spec.clone(), d.name());
        }
    }
    let used = label_texts(spec);
    let switches: BTreeSet<String> = spec
        .decls
        .iter()
        .filter_map(|d| match d {
            Decl::Union { sw: Ty::Named(n), .. } => Some(n.clone()),
            _ => None,
        })
        .collect();
    for (i, d) in spec.decls.iter().enumerate() {
        let mut with = |nd: Decl| {
            let mut s = spec.clone();
            s.decls[i] = nd;
            push(s, root);
        };
        match d {
            Decl::Struct { name, fields } => {
                let mk = |f: Vec<Field>| Decl::Struct { name: name.clone(), fields: f };
                if fields.len() > 3 {
                    with(mk(fields[..fields.len() / 2].to_vec()));
                    with(mk(fields[fields.len() / 2..].to_vec()));
                }
                for k in 0..fields.len() {
                    if fields.len() > 1 {
                        let mut f = fields.clone();
                        f.remove(k);
                        with(mk(f));
                    }
                    let mut f = fields.clone();
                    if f[k].ty != u32t || f[k].arr != Arr::None || f[k].opt {
                        f[k] = Field { name: f[k].name.clone(), ty: u32t.clone(), arr: Arr::None, opt: false };
                        with(mk(f));
                    }
                    let simpler = match &fields[k].arr {
                        Arr::Fixed(b) if b.named.is_some() => Some(Arr::Fixed(Bound { val: b.val, named: None })),
                        Arr::Fixed(b) if b.val > 1 && fields[k].ty != Ty::Opaque => Some(Arr::Fixed(Bound { val: b.val / 2, named: None })),
                        Arr::Var(Some(b)) if b.named.is_some() => Some(Arr::Var(Some(Bound { val: b.val, named: None }))),
                        Arr::Var(Some(_)) => Some(Arr::Var(None)),
                        _ => None,
                    };
                    if let Some(a) = simpler {
                        let mut f = fields.clone();
                        f[k].arr = a;
                        with(mk(f));
                    }
                }
            }
            Decl::Union { name, sw, var, arms } => {
                let mk = |a: Vec<Arm>| Decl::Union { name: name.clone(), sw: sw.clone(), var: var.clone(), arms: a };
                for k in 0..arms.len() {
                    if arms.len() > 1 {
                        let mut a = arms.clone();
                        a.remove(k);
                        with(mk(a));
                    }
                    if arms[k].labels.len() > 1 {
                        for j in 0..arms[k].labels.len() {
                            let mut a = arms.clone();
                            a[k].labels.remove(j);
                            with(mk(a));
                        }
                    }
                    if let Some((t, n)) = &arms[k].body {
                        let mut a = arms.clone();
                        if *t != u32t {
                            a[k].body = Some((u32t.clone(), n.clone()));
                            with(mk(a.clone()));
                        }
                        a[k].body = None;
                        with(mk(a));
                    }
                }
                if var != "disc" {
                    with(Decl::Union { name: name.clone(), sw: sw.clone(), var: "disc".into(), arms: arms.clone() });
                }
            }
            Decl::Enum { name, members } => {
                for k in 0..members.len() {
                    if members.len() > 1 && !used.contains(&members[k].0) && !switches.contains(name) {
                        let mut m = members.clone();
                        m.remove(k);
                        with(Decl::Enum { name: name.clone(), members: m });
                    }
                }
            }
            Decl::Typedef { name, ty, arr } => {
                if !switches.contains(name) {
                    if *ty != u32t {
                        with(Decl::Typedef { name: name.clone(), ty: u32t.clone(), arr: Arr::None });
                    }
                    if let Arr::Var(Some(b)) = arr {
                        if b.named.is_some() {
                            with(Decl::Typedef { name: name.clone(), ty: ty.clone(), arr: Arr::Var(Some(Bound { val: b.val, named: None })) });
                        }
                        with(Decl::Typedef { name: name.clone(), ty: ty.clone(), arr: Arr::Var(None) });
                    }
                    if *arr != Arr::None && *ty != Ty::Opaque && *ty != Ty::Str {
                        with(Decl::Typedef { name: name.clone(), ty: ty.clone(), arr: Arr::None });
                    }
                }
            }
            Decl::Const { .. } => {}
        }
    }
    // recursion must stay guarded and elements must not vanish
    out.retain(|(s, _)| valid(s));
    out.sort_by_key(|(s, _)| weight(s));
    out
}

pub fn weight(s: &Spec) -> usize {
    s.decls
        .iter()
        .map(|d| {
            4 + match d {
                Decl::Struct { fields, .. } => {
                    fields.iter().map(|f| 2 + (f.ty != Ty::Prim(Prim::U32, 0)) as usize + (f.arr != Arr::None) as usize + f.opt as usize).sum()
                }
                Decl::Union { arms, .. } => arms.iter().map(|a| 1 + a.labels.len() + a.body.is_some() as usize * 2).sum(),
                Decl::Enum { members, .. } => members.len(),
                Decl::Typedef { arr, .. } => 1 + (*arr != Arr::None) as usize,
                Decl::Const { .. } => 0,
            }
        })
        .sum()
}

/// No unguarded recursion, no dangling names, no zero-sized types.
pub fn valid(s: &Spec) -> bool {
    let ix = Ix::new(s);
    for d in &s.decls {
        for t in refs(d) {
            if let Ty::Named(n) = t {
                if !ix.types.contains_key(n.as_str()) {
                    return false;
                }
            }
        }
        if let Decl::Union { sw, .. } = d {
            if ix.sw_kind(sw) == SwKind::Bad {
                return false;
            }
        }
        if d.is_type() {
            let m = ix.min_size(d.name());
            if m == 0 || m >= (1 << 30) {
                return false;
            }
            // direct containment must be acyclic
            if contains_self(&ix, d.name(), d.name(), 0) {
                return false;
            }
        }
    }
    true
}

fn contains_self(ix: &Ix, root: &str, n: &str, depth: usize) -> bool {
    if depth > 80 {
        return true;
    }
    let d = match ix.types.get(n) {
        Some(d) => *d,
        None => return false,
    };
    let direct: Vec<&str> = match d {
        Decl::Struct { fields, .. } => fields
            .iter()
            .filter(|f| !f.opt && !matches!(f.arr, Arr::Var(_)))
            .filter_map(|f| if let Ty::Named(m) = &f.ty { Some(m.as_str()) } else { None })
            .collect(),
        Decl::Union { arms, .. } => {
            arms.iter().filter_map(|a| if let Some((Ty::Named(m), _)) = &a.body { Some(m.as_str()) } else { None }).collect()
        }
        Decl::Typedef { ty: Ty::Named(m), arr, .. } if !matches!(arr, Arr::Var(_)) => vec![m.as_str()],
        _ => vec![],
    };
    direct.iter().any(|m| *m == root || contains_self(ix, root, m, depth + 1))
}
