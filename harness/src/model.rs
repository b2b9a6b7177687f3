//! The specification model: our own description of an XDR specification, independent of
//! fastxdr's AST, plus the analyses the oracles need (sizes, reachability, label resolution).
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Prim {
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
}

/// All the spellings of a primitive type fastxdr documents or tests (index 0 is canonical).
pub fn spellings(p: Prim) -> &'static [&'static str] {
    match p {
        Prim::U32 => &["unsigned int", "uint32_t", "u32", "unsigned"],
        Prim::I32 => &["int", "int32_t", "i32"],
        Prim::U64 => &["unsigned hyper", "uint64_t", "u64"],
        Prim::I64 => &["hyper", "int64_t", "i64"],
        Prim::F32 => &["float"],
        Prim::F64 => &["double"],
        Prim::Bool => &["bool"],
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    Prim(Prim, u8),
    Str,
    Opaque,
    Named(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Bound {
    pub val: u32,
    /// Some(name): spelled as a named constant.
    pub named: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Arr {
    None,
    Fixed(Bound),
    Var(Option<Bound>),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub arr: Arr,
    pub opt: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Label {
    pub text: String,
    pub value: i128,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arm {
    /// Case labels in order (may be empty for a plain default).
    pub labels: Vec<Label>,
    /// `default:` closes this group.
    pub is_default: bool,
    /// None: void.
    pub body: Option<(Ty, String)>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum EnumVal {
    Dec(i32),
    /// digits after 0x as written
    Hex(i32, String),
    /// named constant
    Const(String, i32),
}
impl EnumVal {
    pub fn val(&self) -> i32 {
        match self {
            EnumVal::Dec(v) | EnumVal::Hex(v, _) | EnumVal::Const(_, v) => *v,
        }
    }
    pub fn text(&self) -> String {
        match self {
            EnumVal::Dec(v) => v.to_string(),
            EnumVal::Hex(_, t) => format!("0x{}", t),
            EnumVal::Const(n, _) => n.clone(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Decl {
    Const { name: String, val: u32, text: String },
    Enum { name: String, members: Vec<(String, EnumVal)> },
    Struct { name: String, fields: Vec<Field> },
    Union { name: String, sw: Ty, var: String, arms: Vec<Arm> },
    Typedef { name: String, ty: Ty, arr: Arr },
}

impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::Const { name, .. }
            | Decl::Enum { name, .. }
            | Decl::Struct { name, .. }
            | Decl::Union { name, .. }
            | Decl::Typedef { name, .. } => name,
        }
    }
    pub fn is_type(&self) -> bool {
        !matches!(self, Decl::Const { .. })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Spec {
    pub decls: Vec<Decl>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SwKind {
    U32,
    I32,
    U64,
    I64,
    Bool,
    Enum,
    Bad,
}

impl SwKind {
    pub fn wide(self) -> bool {
        matches!(self, SwKind::U64 | SwKind::I64)
    }
}

/// Index over a spec.
pub struct Ix<'a> {
    pub spec: &'a Spec,
    pub types: BTreeMap<&'a str, &'a Decl>,
    pub consts: BTreeMap<&'a str, u32>,
    pub generic: BTreeSet<String>,
}

impl<'a> Ix<'a> {
    pub fn new(spec: &'a Spec) -> Self {
        let mut types = BTreeMap::new();
        let mut consts = BTreeMap::new();
        for d in &spec.decls {
            match d {
                Decl::Const { name, val, .. } => {
                    consts.insert(name.as_str(), *val);
                }
                _ => {
                    types.insert(d.name(), d);
                }
            }
        }
        let generic = generics(spec);
        Ix { spec, types, consts, generic }
    }

    /// Final type of a discriminant after following typedefs.
    pub fn sw_kind(&self, t: &Ty) -> SwKind {
        self.sw_resolve(t).0
    }

    pub fn sw_resolve(&self, t: &Ty) -> (SwKind, Option<&'a Decl>) {
        let mut t = t;
        for _ in 0..1000 {
            match t {
                Ty::Prim(Prim::U32, _) => return (SwKind::U32, None),
                Ty::Prim(Prim::I32, _) => return (SwKind::I32, None),
                Ty::Prim(Prim::U64, _) => return (SwKind::U64, None),
                Ty::Prim(Prim::I64, _) => return (SwKind::I64, None),
                Ty::Prim(Prim::Bool, _) => return (SwKind::Bool, None),
                Ty::Named(n) => match self.types.get(n.as_str()) {
                    Some(d @ Decl::Enum { .. }) => return (SwKind::Enum, Some(d)),
                    Some(Decl::Typedef { ty, arr: Arr::None, .. }) => t = ty,
                    _ => return (SwKind::Bad, None),
                },
                _ => return (SwKind::Bad, None),
            }
        }
        (SwKind::Bad, None)
    }

    /// Smallest possible encoded size, capped; optionals/counted arrays may be empty.
    pub fn min_size(&self, name: &str) -> u64 {
        self.min_named(name, 0)
    }
    fn min_named(&self, n: &str, depth: u32) -> u64 {
        if depth > 64 {
            return 1 << 40;
        }
        match self.types.get(n) {
            None => 4,
            Some(Decl::Enum { .. }) => 4,
            Some(Decl::Typedef { ty, arr, .. }) => self.min_item(ty, arr, false, depth + 1),
            Some(Decl::Struct { fields, .. }) => fields
                .iter()
                .fold(0u64, |a, f| a.saturating_add(self.min_item(&f.ty, &f.arr, f.opt, depth + 1))),
            Some(Decl::Union { sw, arms, .. }) => {
                let d = if self.sw_kind(sw).wide() { 8 } else { 4 };
                arms
                    .iter()
                    .map(|a| match &a.body {
                        None => 0,
                        Some((t, _)) => self.min_item(t, &Arr::None, false, depth + 1),
                    })
                    .min()
                    .unwrap_or(0)
                    .saturating_add(d)
            }
            Some(Decl::Const { .. }) => 4,
        }
    }
    pub fn min_item(&self, ty: &Ty, arr: &Arr, opt: bool, depth: u32) -> u64 {
        if opt {
            return 4;
        }
        let one = |s: &Self| match ty {
            Ty::Prim(Prim::U64 | Prim::I64 | Prim::F64, _) => 8,
            Ty::Prim(..) => 4,
            Ty::Str => 4,
            Ty::Opaque => 4,
            Ty::Named(n) => s.min_named(n, depth),
        };
        match (ty, arr) {
            (Ty::Opaque, Arr::Fixed(b)) => (b.val as u64 + 3) / 4 * 4,
            (_, Arr::Var(_)) => 4,
            (_, Arr::None) => one(self),
            (_, Arr::Fixed(b)) => one(self).saturating_mul(b.val as u64),
        }
    }
}

/// Names directly referenced by a declaration (types only).
pub fn refs(d: &Decl) -> Vec<&Ty> {
    match d {
        Decl::Const { .. } | Decl::Enum { .. } => vec![],
        Decl::Struct { fields, .. } => fields.iter().map(|f| &f.ty).collect(),
        Decl::Union { sw, arms, .. } => arms
            .iter()
            .filter_map(|a| a.body.as_ref().map(|b| &b.0))
            .chain(std::iter::once(sw))
            .collect(),
        Decl::Typedef { ty, .. } => vec![ty],
    }
}

/// Types through which opaque data is reachable (least fixpoint by graph search from each
/// name; deliberately not the iterate-until-stable algorithm of the code under test).
pub fn generics(spec: &Spec) -> BTreeSet<String> {
    let by: BTreeMap<&str, &Decl> =
        spec.decls.iter().filter(|d| d.is_type()).map(|d| (d.name(), d)).collect();
    // reverse edges
    let mut rev: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    let mut work: Vec<&str> = vec![];
    for d in by.values() {
        let mut body: Vec<&Ty> = refs(d);
        if let Decl::Union { .. } = d {
            body.pop(); // the discriminant type carries no opaque
        }
        for t in body {
            match t {
                Ty::Opaque => work.push(d.name()),
                Ty::Named(n) => rev.entry(n.as_str()).or_default().push(d.name()),
                _ => {}
            }
        }
    }
    let mut out = BTreeSet::new();
    while let Some(n) = work.pop() {
        if out.insert(n.to_string()) {
            if let Some(ps) = rev.get(n) {
                work.extend(ps.iter().copied());
            }
        }
    }
    out
}

/// The variant name fastxdr documents for a union label.
pub fn variant_name(label: &str) -> String {
    if label.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) {
        format!("v_{}", label)
    } else {
        label.to_string()
    }
}

pub const RESERVED_FIELD: &[&str] = &[
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
    "return", "Self", "self", "static", "struct", "super", "trait", "true", "try", "type",
    "typeof", "union", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];

pub fn rust_field(name: &str) -> String {
    if RESERVED_FIELD.contains(&name) {
        format!("{}_v", name)
    } else {
        name.to_string()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Value {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    Bool(bool),
    Str(Vec<u8>),
    Opaque(Vec<u8>),
    Enum(i32),
    Struct(Vec<Value>),
    /// discriminant value (as the raw 32/64-bit integer, sign-extended), body
    Union(i128, Option<Box<Value>>),
    Arr(Vec<Value>),
    Opt(Option<Box<Value>>),
    New(Box<Value>),
}
