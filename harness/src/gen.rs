//! Tape-driven generation of specifications (the supported subset) and of values.
use crate::model::*;
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub struct Cfg {
    pub max_types: usize,
    /// allow `opaque x;` struct fields / opaque union arms (known wire_size finding)
    pub bare: bool,
    /// allow counted arrays of primitives and const-valued enum members (AST level only; these
    /// are the documented / recorded forms whose module cannot compile)
    pub uncompilable: bool,
    /// at AST level: `default` anywhere in the union
    pub default_anywhere: bool,
    pub big: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_types: 9, bare: true, uncompilable: false, default_anywhere: false, big: true }
    }
}

const TYPE_BASES: &[&str] = &[
    "nfs_fh", "Obj", "entry", "call_body", "GETATTRres", "stateid", "int_x", "unsigned_thing", "hyper",
    "opaque_auth", "string_list", "structure", "union_type", "case", "defaulted", "void_t", "enumeration",
    "constant", "typedefs", "switcher", "floaty", "doubled", "booly", "uint32_t", "LongNameForATypeThatGoesOnAndOn",
    "a", "Z", "x_y_z", "createhow", "bitmap", "int", "unsigned", "opaque", "struct", "enum", "typedef", "const",
    "float", "double", "string", "bool", "void", "default", "type", "match", "unsignedness", "interval", "hyperspace",
    "doublet", "stringy", "opaqueness", "floats", "i32", "u64", "int64_t", "casework", "voided", "switch", "constable",
];
const CONST_BASES: &[&str] = &[
    "MAX_LEN", "NFS4_FHSIZE", "Limit", "SIZE", "const_x", "UINT", "x", "INT_MAX", "int", "unsigned", "opaque",
    "LONG_CONSTANT_NAME_FOR_A_BOUND", "K", "hyper",
];
const MEMBER_BASES: &[&str] = &[
    "NF4REG", "OK", "ERR_NOENT", "Mode", "lower_case", "A", "int", "unsigned", "TRUE", "FALSE", "default", "case",
    "void", "opaque_kind", "NFS4ERR_BADTYPE", "hyper", "type", "struct",
];
const FIELD_BASES: &[&str] = &[
    "id", "len", "data", "next", "value", "status", "fieldName", "x", "y", "the_long_field_name_number", "int_f",
    "unsigned_f", "opaque_f", "string_f", "Upper", "n", "t", "inner", "e", "b", "c", "d", "out", "sum", "voidish",
    "defaultv", "case_id", "interval", "hyper_v", "doubles", "floating", "boolean", "constant", "enumerated", "structural",
    "switched", "unsignedly", "typedefd", "u32x", "int32_tt", "strings", "opaqueness", "unionised", "i64_",
    "v", "T", "B", "Bytes", "Error", "Vec", "Option", "Some", "None", "Ok", "Err", "u8", "usize", "result", "i", "buf", "bytes",
    "src", "Box", "WireSize", "wire_size", "try_from", "default_", "xdr", "std", "size", "remaining", "slice", "f", "s",
];

struct G<'t, 'a> {
    t: &'t mut Tape<'a>,
    cfg: Cfg,
    next_id: usize,
    consts: Vec<(String, u32)>,
    const_decls: Vec<Decl>,
    names: Vec<String>,
    done: Vec<Decl>,
    min: BTreeMap<String, u64>,
    enums: Vec<(String, Vec<(String, i32)>)>,
    /// names usable as discriminant (typedef chains), with kind
    sw_typedefs: Vec<(String, SwKind, Option<String>)>,
    bare_on: bool,
}

impl<'t, 'a> G<'t, 'a> {
    fn fresh(&mut self, bases: &[&str]) -> String {
        let b = *self.t.pick(bases);
        let sep = if self.t.pct(30) { "_" } else { "" };
        self.next_id += 1;
        // the numeric suffix keeps every declared name unique, off Rust's reserved words and off
        // any identifier the runtime header or an emitter could use
        let pad = if self.t.pct(3) { "_very_long_suffix_that_makes_this_identifier_quite_unwieldy_indeed" } else { "" };
        format!("{}{}{}{}", b, pad, sep, self.next_id + 70)
    }

    fn bound(&mut self, val: u32) -> Bound {
        if self.t.pct(45) {
            if let Some((n, v)) = self.consts.iter().find(|c| c.1 == val) {
                if self.t.pct(50) {
                    return Bound { val: *v, named: Some(n.clone()) };
                }
            }
            let n = self.new_const(val);
            Bound { val, named: Some(n) }
        } else {
            Bound { val, named: None }
        }
    }

    fn new_const(&mut self, val: u32) -> String {
        let name = self.fresh(CONST_BASES);
        let text = const_text(self.t, val);
        self.consts.push((name.clone(), val));
        self.const_decls.push(Decl::Const { name: name.clone(), val, text });
        name
    }

    fn fixed_len(&mut self, elem_min: u64) -> u32 {
        let n = match self.t.weighted(&[60, 25, 6, 2, 1]) {
            0 => self.t.range(1, 4),
            1 => self.t.range(5, 9),
            2 => self.t.range(10, 33),
            3 => self.t.range(34, 80),
            _ => 0,
        } as u64;
        if n * elem_min > 700 {
            1
        } else {
            n as u32
        }
    }
    fn fixed_opaque_len(&mut self) -> u32 {
        match self.t.weighted(&[60, 20, 10, 2]) {
            0 => self.t.range(1, 9) as u32,
            1 => *self.t.pick(&[12u32, 16, 20, 31, 32, 33, 64]),
            2 => *self.t.pick(&[127u32, 128, 255, 256, 257, 1024, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 70_001]),
            _ => 0,
        }
    }
    fn max_len(&mut self) -> u32 {
        match self.t.weighted(&[40, 20, 15, 15, 2]) {
            0 => self.t.range(1, 8) as u32,
            1 => self.t.range(9, 40) as u32,
            2 => *self.t.pick(&[42u32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 512, 1000, 1024]),
            3 => *self.t.pick(&[4096u32, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1_000_000, 3000, 20_000, 100_000, 250_000]),
            _ => 0,
        }
    }
    fn var_bound(&mut self) -> Option<Bound> {
        if self.t.pct(55) {
            let m = self.max_len();
            Some(self.bound(m))
        } else {
            None
        }
    }

    fn prim(&mut self) -> Ty {
        let p = *self.t.pick(&[
            Prim::U32, Prim::I32, Prim::U64, Prim::I64, Prim::F32, Prim::F64, Prim::Bool, Prim::U32, Prim::I32,
        ]);
        let s = self.t.below(spellings(p).len()) as u8;
        Ty::Prim(p, s)
    }
    fn prim_min(t: &Ty) -> u64 {
        match t {
            Ty::Prim(Prim::U64 | Prim::I64 | Prim::F64, _) => 8,
            _ => 4,
        }
    }
    fn lower(&mut self, i: usize) -> Option<String> {
        if i == 0 {
            return None;
        }
        // bias towards recently generated types: deep nesting
        let k = if self.t.pct(40) { i - 1 - self.t.below(i.min(3)) } else { self.t.below(i) };
        Some(self.names[k].clone())
    }
    fn any(&mut self, i: usize) -> String {
        let n = self.names.len();
        let k = match self.t.weighted(&[30, 50, 20]) {
            0 if i > 0 => self.t.below(i),
            2 => i,
            _ => self.t.below(n),
        };
        self.names[k].clone()
    }

    fn field(&mut self, i: usize, used: &mut BTreeSet<String>) -> Field {
        let mut name;
        loop {
            name = if self.t.pct(15) {
                self.t.pick(RESERVED_FIELD).to_string()
            } else if self.t.pct(8) {
                // fields often carry the name of a type (`nfs_fh4 nfs_fh4;`) or of a constant
                if self.t.pct(30) && !self.consts.is_empty() {
                    self.t.pick(&self.consts).0.clone()
                } else {
                    self.t.pick(&self.names).clone()
                }
            } else {
                let b = self.t.pick(FIELD_BASES).to_string();
                if self.t.pct(30) && b != "i" {
                    format!("{}{}", b, used.len())
                } else {
                    b
                }
            };
            if self.t.exhausted() || used.contains(&rust_field(&name)) {
                name = format!("f_{}", used.len());
            }
            if used.insert(rust_field(&name)) {
                break;
            }
        }
        let named_ok = i > 0 || !self.names.is_empty();
        match self.t.weighted(&[45, 10, 14, if named_ok { 40 } else { 0 }]) {
            0 => {
                let ty = self.prim();
                match self.t.weighted(&[78, 18, 6, if self.cfg.uncompilable { 10 } else { 0 }]) {
                    1 => {
                        let n = self.fixed_len(Self::prim_min(&ty));
                        let b = self.bound(n);
                        Field { name, ty, arr: Arr::Fixed(b), opt: false }
                    }
                    2 => Field { name, ty, arr: Arr::None, opt: true },
                    3 => {
                        let b = self.var_bound();
                        Field { name, ty, arr: Arr::Var(b), opt: false }
                    }
                    _ => Field { name, ty, arr: Arr::None, opt: false },
                }
            }
            1 => match self.t.weighted(&[40, 50, 6]) {
                0 => Field { name, ty: Ty::Str, arr: Arr::None, opt: false },
                1 => {
                    let b = self.var_bound();
                    Field { name, ty: Ty::Str, arr: Arr::Var(b), opt: false }
                }
                _ => Field { name, ty: Ty::Str, arr: Arr::None, opt: true },
            },
            2 => match self.t.weighted(&[55, 30, if self.bare_on { 25 } else { 0 }, 6]) {
                0 => {
                    let b = self.var_bound();
                    Field { name, ty: Ty::Opaque, arr: Arr::Var(b), opt: false }
                }
                1 => {
                    let n = self.fixed_opaque_len();
                    let b = self.bound(n);
                    Field { name, ty: Ty::Opaque, arr: Arr::Fixed(b), opt: false }
                }
                2 => Field { name, ty: Ty::Opaque, arr: Arr::None, opt: false },
                _ => Field { name, ty: Ty::Opaque, arr: Arr::None, opt: true },
            },
            _ => match self.t.weighted(&[45, 15, 24, 20]) {
                0 | 1 if i > 0 => {
                    let n = self.lower(i).unwrap();
                    let m = self.min.get(&n).copied().unwrap_or(4);
                    let ty = Ty::Named(n);
                    if self.t.pct(25) {
                        let k = self.fixed_len(m.max(1));
                        let b = self.bound(k);
                        Field { name, ty, arr: Arr::Fixed(b), opt: false }
                    } else {
                        Field { name, ty, arr: Arr::None, opt: false }
                    }
                }
                3 => {
                    let n = self.any(i);
                    Field { name, ty: Ty::Named(n), arr: Arr::None, opt: true }
                }
                _ => {
                    let n = self.any(i);
                    let b = self.var_bound();
                    Field { name, ty: Ty::Named(n), arr: Arr::Var(b), opt: false }
                }
            },
        }
    }

    fn field_min(&self, f: &Field) -> u64 {
        if f.opt {
            return 4;
        }
        let one = match &f.ty {
            Ty::Named(n) => self.min.get(n).copied().unwrap_or(4),
            t => Self::prim_min(t),
        };
        match (&f.ty, &f.arr) {
            (_, Arr::Var(_)) => 4,
            (Ty::Opaque, Arr::Fixed(b)) => (b.val as u64 + 3) / 4 * 4,
            (_, Arr::Fixed(b)) => one * b.val as u64,
            _ => one,
        }
    }

    fn gen_enum(&mut self, name: String) -> (Decl, u64) {
        let n = match self.t.weighted(&[70, 20, if self.cfg.big { 4 } else { 0 }]) {
            0 => self.t.range(1, 5),
            1 => self.t.range(6, 14),
            _ => self.t.range(40, 150),
        };
        let mut vals = BTreeSet::new();
        let mut members = vec![];
        let mode = self.t.below(4);
        for i in 0..n {
            let mut v: i32 = match mode {
                0 | 1 => (i as i32) + (mode as i32),
                2 => (i as i32) * 3 + 2,
                _ => match self.t.weighted(&[5, 2, 2]) {
                    0 => self.t.below(40) as i32,
                    1 => *self.t.pick(&[0x7fff_ffff, 0x7fff_fffe, 10001, 65536, 255, 256, 1 << 24]),
                    _ => (self.t.u32() >> 1) as i32,
                },
            };
            while vals.contains(&v) {
                v = if v == i32::MAX { 0 } else { v + 1 };
            }
            vals.insert(v);
            let m = self.fresh(MEMBER_BASES);
            let ev = match self.t.weighted(&[60, 25, if self.cfg.uncompilable { 15 } else { 0 }]) {
                0 => EnumVal::Dec(v),
                1 => EnumVal::Hex(v, hex_digits(self.t, v as u32)),
                _ => {
                    let c = self.new_const(v as u32);
                    EnumVal::Const(c, v)
                }
            };
            members.push((m, ev));
        }
        self.enums.push((name.clone(), members.iter().map(|m| (m.0.clone(), m.1.val())).collect()));
        self.sw_typedefs.push((name.clone(), SwKind::Enum, Some(name.clone())));
        (Decl::Enum { name, members }, 4)
    }

    fn gen_struct(&mut self, i: usize, name: String) -> (Decl, u64) {
        let n = match self.t.weighted(&[75, 20, if self.cfg.big { 3 } else { 0 }]) {
            0 => self.t.range(1, 4),
            1 => self.t.range(5, 9),
            _ => self.t.range(20, 45),
        };
        let mut used = BTreeSet::new();
        let mut fields = vec![];
        let mut total = 0;
        for _ in 0..n {
            let mut f = self.field(i, &mut used);
            if total + self.field_min(&f) > 1500 {
                f.arr = Arr::None;
                f.opt = false;
                f.ty = Ty::Prim(Prim::U32, 0);
            }
            total += self.field_min(&f);
            fields.push(f);
        }
        if total == 0 {
            fields.push(Field { name: "nonzero".into(), ty: Ty::Prim(Prim::U32, 0), arr: Arr::None, opt: false });
            total = 4;
        }
        (Decl::Struct { name, fields }, total)
    }

    fn gen_union(&mut self, i: usize, name: String) -> (Decl, u64) {
        // discriminant
        let (sw, kind, en): (Ty, SwKind, Option<String>) = match self.t.weighted(&[
            30,
            12,
            if self.enums.is_empty() { 0 } else { 30 },
            if self.sw_typedefs.is_empty() { 0 } else { 25 },
            10,
        ]) {
            0 => {
                if self.t.pct(50) {
                    (Ty::Prim(Prim::I32, self.t.below(3) as u8), SwKind::I32, None)
                } else {
                    (Ty::Prim(Prim::U32, self.t.below(4) as u8), SwKind::U32, None)
                }
            }
            1 => (Ty::Prim(Prim::Bool, 0), SwKind::Bool, None),
            2 => {
                let k = self.t.below(self.enums.len());
                let n = self.enums[k].0.clone();
                (Ty::Named(n.clone()), SwKind::Enum, Some(n))
            }
            3 => {
                let k = self.t.below(self.sw_typedefs.len());
                let (n, k, e) = self.sw_typedefs[k].clone();
                (Ty::Named(n), k, e)
            }
            _ => {
                if self.t.pct(50) {
                    (Ty::Prim(Prim::U64, self.t.below(3) as u8), SwKind::U64, None)
                } else {
                    (Ty::Prim(Prim::I64, self.t.below(3) as u8), SwKind::I64, None)
                }
            }
        };
        let var = if self.t.pct(12) {
            self.t.pick(RESERVED_FIELD).to_string()
        } else if self.t.pct(8) {
            if self.t.pct(50) && !self.consts.is_empty() {
                self.t.pick(&self.consts).0.clone()
            } else {
                self.t.pick(&self.names).clone()
            }
        } else {
            self.t.pick(&[
                "status", "disc", "v", "type", "argop", "c", "d", "mode", "self_v", "x", "value", "switch_on", "int_disc",
                "unsigned_v", "cases", "opaque_kind", "defaulted", "n", "len", "b", "buf", "result", "t", "s", "size",
            ]).to_string()
        };
        // labels
        let want = match self.t.weighted(&[70, 22, if self.cfg.big { 4 } else { 0 }]) {
            0 => self.t.range(1, 4),
            1 => self.t.range(5, 10),
            _ => self.t.range(30, 70),
        };
        let only_default = self.t.pct(3);
        let want = if only_default { 0 } else { want };
        let mut labels: Vec<Label> = vec![];
        let mut seen: BTreeSet<i128> = BTreeSet::new();
        let mut texts: BTreeSet<String> = BTreeSet::new();
        for _ in 0..want {
            let l = match kind {
                SwKind::Bool => {
                    let f = self.t.pct(50);
                    Label { text: if f { "FALSE" } else { "TRUE" }.into(), value: if f { 0 } else { 1 } }
                }
                SwKind::Enum => {
                    let ms = self.enums.iter().find(|e| Some(&e.0) == en.as_ref()).unwrap().1.clone();
                    let (m, v) = self.t.pick(&ms).clone();
                    match self.t.weighted(&[84, 10, 6]) {
                        0 => Label { text: m, value: v as i128 },
                        1 => Label { text: v.to_string(), value: v as i128 },
                        _ => {
                            let c = self.new_const(v as u32);
                            Label { text: c, value: v as i128 }
                        }
                    }
                }
                _ => {
                    let lim: u64 = match kind {
                        SwKind::I32 => i32::MAX as u64,
                        SwKind::U32 => u32::MAX as u64,
                        SwKind::I64 => i64::MAX as u64,
                        _ => u64::MAX,
                    };
                    match self.t.weighted(&[55, 25, if self.enums.is_empty() { 0 } else { 20 }]) {
                        0 => {
                            let v = if self.t.pct(75) {
                                self.t.below(12) as u64
                            } else if kind.wide() && self.t.pct(40) {
                                *self.t.pick(&[1u64 << 32, (1 << 32) + 1, i64::MAX as u64, u64::MAX, 1 << 40])
                            } else {
                                self.t.edge_u32() as u64
                            };
                            let v = v.min(lim);
                            Label { text: v.to_string(), value: v as i128 }
                        }
                        1 => {
                            let v = if self.t.pct(70) { self.t.below(20) as u32 } else { self.t.edge_u32() };
                            let v = (v as u64).min(lim) as u32;
                            let c = self.new_const(v);
                            Label { text: c, value: v as i128 }
                        }
                        _ => {
                            let k = self.t.below(self.enums.len());
                            let ms = self.enums[k].1.clone();
                            let (m, v) = self.t.pick(&ms).clone();
                            Label { text: m, value: v as i128 }
                        }
                    }
                }
            };
            if seen.insert(l.value) && texts.insert(l.text.clone()) {
                labels.push(l);
            }
        }
        // group into arms
        let mut arms: Vec<Arm> = vec![];
        let mut rest: Vec<Label> = labels;
        rest.reverse();
        while !rest.is_empty() {
            let k = match self.t.weighted(&[70, 24, 6]) {
                0 => 1,
                1 => self.t.range(2, 4),
                _ => self.t.range(5, 40),
            }
            .min(rest.len());
            let mut g = vec![];
            for _ in 0..k {
                g.push(rest.pop().unwrap());
            }
            let body = if self.t.pct(30) { None } else { Some(self.arm_body(i)) };
            arms.push(Arm { labels: g, is_default: false, body });
        }
        if only_default || self.t.pct(45) {
            let body = if self.t.pct(50) { None } else { Some(self.arm_body(i)) };
            let mut labels = vec![];
            if self.t.pct(20) && arms.len() > 1 {
                labels = arms.pop().unwrap().labels; // fall-through labels into default
            }
            let arm = Arm { labels, is_default: true, body };
            if self.cfg.default_anywhere && self.t.pct(20) {
                let k = self.t.below(arms.len() + 1);
                arms.insert(k, arm);
            } else {
                arms.push(arm);
            }
        }
        let d = if kind.wide() { 8 } else { 4 };
        let m = arms
            .iter()
            .map(|a| match &a.body {
                None => 0,
                Some((Ty::Named(n), _)) => self.min.get(n).copied().unwrap_or(4),
                Some((t, _)) => Self::prim_min(t),
            })
            .min()
            .unwrap_or(0);
        (Decl::Union { name, sw, var, arms }, d + m)
    }

    fn arm_body(&mut self, i: usize) -> (Ty, String) {
        let name = self.t.pick(&[
            "resok4", "name", "async", "val", "type", "data", "inner", "default_v", "void_arm", "defaulted", "case_x", "int_arm",
            "voidx", "hyper2", "casey",
        ]).to_string();
        let ty = match self.t.weighted(&[35, 12, if self.bare_on { 12 } else { 0 }, if i > 0 { 50 } else { 0 }]) {
            0 => self.prim(),
            1 => Ty::Str,
            2 => Ty::Opaque,
            _ => Ty::Named(self.lower(i).unwrap()),
        };
        (ty, name)
    }

    fn gen_typedef(&mut self, i: usize, name: String) -> (Decl, u64) {
        match self.t.weighted(&[28, 12, 22, if i > 0 { 50 } else { 0 }]) {
            0 => {
                let ty = self.prim();
                let m = Self::prim_min(&ty);
                match self.t.weighted(&[75, 25, if self.cfg.uncompilable { 20 } else { 0 }]) {
                    1 => {
                        let n = self.fixed_len(m).max(1);
                        let b = self.bound(n);
                        (Decl::Typedef { name, ty, arr: Arr::Fixed(b) }, m * n as u64)
                    }
                    2 => {
                        let b = self.var_bound();
                        (Decl::Typedef { name, ty, arr: Arr::Var(b) }, 4)
                    }
                    _ => {
                        let k = match ty {
                            Ty::Prim(Prim::U32, _) => Some(SwKind::U32),
                            Ty::Prim(Prim::I32, _) => Some(SwKind::I32),
                            Ty::Prim(Prim::U64, _) => Some(SwKind::U64),
                            Ty::Prim(Prim::I64, _) => Some(SwKind::I64),
                            Ty::Prim(Prim::Bool, _) => Some(SwKind::Bool),
                            _ => None,
                        };
                        if let Some(k) = k {
                            self.sw_typedefs.push((name.clone(), k, None));
                        }
                        (Decl::Typedef { name, ty, arr: Arr::None }, m)
                    }
                }
            }
            1 => {
                let arr = if self.t.pct(60) { Arr::Var(self.var_bound()) } else { Arr::None };
                (Decl::Typedef { name, ty: Ty::Str, arr }, 4)
            }
            2 => match self.t.weighted(&[50, 30, 20]) {
                0 => {
                    let b = self.var_bound();
                    (Decl::Typedef { name, ty: Ty::Opaque, arr: Arr::Var(b) }, 4)
                }
                1 => {
                    let n = self.fixed_opaque_len().max(1);
                    let b = self.bound(n);
                    (Decl::Typedef { name, ty: Ty::Opaque, arr: Arr::Fixed(b) }, (n as u64 + 3) / 4 * 4)
                }
                _ => (Decl::Typedef { name, ty: Ty::Opaque, arr: Arr::None }, 4),
            },
            _ => match self.t.weighted(&[50, 15, 35]) {
                0 => {
                    let n = self.lower(i).unwrap();
                    let m = self.min.get(&n).copied().unwrap_or(4);
                    if let Some((_, k, e)) = self.sw_typedefs.iter().find(|s| s.0 == n).cloned() {
                        self.sw_typedefs.push((name.clone(), k, e));
                    }
                    (Decl::Typedef { name, ty: Ty::Named(n), arr: Arr::None }, m)
                }
                1 => {
                    let n = self.lower(i).unwrap();
                    let m = self.min.get(&n).copied().unwrap_or(4);
                    let k = self.fixed_len(m.max(1)).max(1);
                    let b = self.bound(k);
                    (Decl::Typedef { name, ty: Ty::Named(n), arr: Arr::Fixed(b) }, m * k as u64)
                }
                _ => {
                    let mut n = self.any(i);
                    if n == name {
                        n = self.lower(i).unwrap();
                    }
                    let b = self.var_bound();
                    (Decl::Typedef { name, ty: Ty::Named(n), arr: Arr::Var(b) }, 4)
                }
            },
        }
    }
}

pub fn const_text(t: &mut Tape, val: u32) -> String {
    match t.weighted(&[60, 25, 10]) {
        0 => val.to_string(),
        1 => format!("0x{}", hex_digits(t, val)),
        _ => format!("0x{:08x}", val),
    }
}
fn hex_digits(t: &mut Tape, v: u32) -> String {
    match t.below(4) {
        0 => format!("{:x}", v),
        1 => format!("{:X}", v),
        2 => format!("{:08x}", v),
        _ => format!("{:04X}", v),
    }
}

pub fn gen_spec(tape: &mut Tape, cfg: &Cfg) -> Spec {
    let mut g = G {
        t: tape,
        cfg: cfg.clone(),
        next_id: 0,
        consts: vec![],
        const_decls: vec![],
        names: vec![],
        done: vec![],
        min: BTreeMap::new(),
        enums: vec![],
        sw_typedefs: vec![],
        bare_on: false,
    };
    g.bare_on = cfg.bare && g.t.pct(20);
    let nt = 1 + match g.t.weighted(&[50, 45, if cfg.big { 4 } else { 0 }]) {
        0 => g.t.below(cfg.max_types / 2 + 1),
        1 => cfg.max_types / 2 + g.t.below(cfg.max_types / 2 + 1),
        _ => g.t.range(15, 35),
    };
    let nc = g.t.below(3);
    for _ in 0..nc {
        let v = g.t.edge_u32();
        g.new_const(v);
    }
    for _ in 0..nt {
        let n = g.fresh(TYPE_BASES);
        g.names.push(n);
    }
    let theme = g.t.below(6); // some specs lean on one construct
    for i in 0..nt {
        let name = g.names[i].clone();
        let w: [u32; 4] = match theme {
            3 => [15, 15, 15, 55],
            4 => [30, 10, 50, 10],
            5 => [5, 70, 15, 10],
            _ => [18, 36, 24, 22],
        };
        let (d, m) = match g.t.weighted(&w) {
            0 => g.gen_enum(name.clone()),
            1 => g.gen_struct(i, name.clone()),
            2 => g.gen_union(i, name.clone()),
            _ => g.gen_typedef(i, name.clone()),
        };
        let (d, m) = if m > 3000 || m == 0 {
            (Decl::Typedef { name: name.clone(), ty: Ty::Prim(Prim::U32, 0), arr: Arr::None }, 4)
        } else {
            (d, m)
        };
        g.min.insert(name, m);
        g.done.push(d);
    }
    let mut decls: Vec<Decl> = g.const_decls.clone();
    decls.extend(g.done.clone());
    let mut spec = Spec { decls };
    untaint(&mut spec);
    // declaration order: arbitrary
    let n = spec.decls.len();
    for i in (1..n).rev() {
        let j = i - g.t.below(i + 1);
        spec.decls.swap(i, j);
    }
    spec
}

/// Known finding (DESIGN.md): wire_size of a *bare* opaque leaf is 4 short, so counted arrays
/// whose elements contain one mis-decode.  Exclude exactly that combination: every bare leaf
/// reachable from an element of a counted array is given a length form instead.
pub fn untaint(spec: &mut Spec) {
    let by: BTreeMap<String, usize> =
        spec.decls.iter().enumerate().filter(|d| d.1.is_type()).map(|(i, d)| (d.name().to_string(), i)).collect();
    let mut work: Vec<String> = vec![];
    for d in &spec.decls {
        match d {
            Decl::Struct { fields, .. } => {
                for f in fields {
                    if let (Ty::Named(n), Arr::Var(_)) = (&f.ty, &f.arr) {
                        work.push(n.clone());
                    }
                }
            }
            Decl::Typedef { ty: Ty::Named(n), arr: Arr::Var(_), .. } => work.push(n.clone()),
            _ => {}
        }
    }
    let mut seen = BTreeSet::new();
    while let Some(n) = work.pop() {
        if !seen.insert(n.clone()) {
            continue;
        }
        let i = match by.get(&n) {
            Some(i) => *i,
            None => continue,
        };
        for t in refs(&spec.decls[i]) {
            if let Ty::Named(m) = t {
                work.push(m.clone());
            }
        }
        match &mut spec.decls[i] {
            Decl::Struct { fields, .. } => {
                for f in fields {
                    if f.ty == Ty::Opaque && f.arr == Arr::None && !f.opt {
                        f.arr = Arr::Var(None);
                    }
                }
            }
            Decl::Union { arms, .. } => {
                for a in arms {
                    if let Some((t, _)) = &mut a.body {
                        if *t == Ty::Opaque {
                            *t = Ty::Str;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// values

pub struct VCfg {
    pub budget: i64,
    pub big_payload: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Force {
    No,
    /// every bounded length / count is exactly its maximum (where that is feasible)
    Exact,
    /// the k-th bounded length / count is its maximum plus one
    OverAt(usize),
}

pub struct VGen<'t, 'a, 'i> {
    pub t: &'t mut Tape<'a>,
    pub ix: &'i Ix<'i>,
    pub budget: i64,
    pub big_left: i64,
    pub force: Force,
    pub bounded_seen: usize,
    pub forced: usize,
    /// follow recursive links as far as the budget goes
    pub deep: bool,
    /// the first payload that may be this long is (then 0)
    pub huge: usize,
    /// the first counted array (of small elements) that may have this many elements has
    pub huge_count: usize,
    /// ... and one with a maximum
    pub huge_bounded: bool,
}

impl<'t, 'a, 'i> VGen<'t, 'a, 'i> {
    pub fn new(t: &'t mut Tape<'a>, ix: &'i Ix<'i>, c: VCfg) -> Self {
        VGen { t, ix, budget: c.budget, big_left: if c.big_payload { 1 } else { 0 }, force: Force::No, bounded_seen: 0, forced: 0, deep: false, huge: 0, huge_count: 0, huge_bounded: false }
    }

    fn forced(&mut self, max: Option<u32>, unit: u64, lim: u64) -> Option<usize> {
        let m = max?;
        let k = self.bounded_seen;
        self.bounded_seen += 1;
        let n = match self.force {
            Force::Exact if self.budget > 0 => m as u64,
            Force::OverAt(j) if j == k => m as u64 + 1,
            _ => return None,
        };
        if n.saturating_mul(unit) > lim || n > u32::MAX as u64 {
            return None;
        }
        self.forced += 1;
        Some(n as usize)
    }

    fn len(&mut self, max: Option<u32>) -> usize {
        if self.huge > 0 && max.unwrap_or(u32::MAX) as usize >= self.huge {
            return std::mem::take(&mut self.huge);
        }
        if self.deep {
            return self.t.below(3).min(max.unwrap_or(9) as usize);
        }
        if let Some(n) = self.forced(max, 1, 70_000) {
            return n;
        }
        let cap = max.unwrap_or(u32::MAX) as usize;
        if self.budget <= 0 {
            return 0;
        }
        let n = match self.t.weighted(&[10, 50, 20, 8, if self.big_left > 0 { 6 } else { 0 }]) {
            0 => 0,
            1 => self.t.below(9),
            2 => self.t.below(40),
            3 if max.is_some() && cap <= 2000 => cap,
            4 => {
                self.big_left -= 1;
                *self.t.pick(&[255usize, 256, 257, 1023, 4096, 65535, 65536, 65537, 100_001])
            }
            _ => self.t.below(5),
        };
        n.min(cap)
    }
    fn count(&mut self, max: Option<u32>, min_elem: u64) -> usize {
        if self.deep {
            return if self.budget > 0 { 1usize.min(max.unwrap_or(9) as usize) } else { 0 };
        }
        if self.huge_count > 0 && min_elem <= 8 && (max.is_some() || !self.huge_bounded) && max.unwrap_or(u32::MAX) as usize >= self.huge_count {
            self.budget = 0;
            return std::mem::take(&mut self.huge_count);
        }
        if let Some(n) = self.forced(max, min_elem.max(4), 24_000) {
            return n;
        }
        let cap = max.unwrap_or(u32::MAX) as usize;
        if self.budget <= 0 {
            return 0;
        }
        let n = match self.t.weighted(&[12, 60, 15, 6, if self.big_left > 0 && min_elem <= 16 { 4 } else { 0 }]) {
            0 => 0,
            1 => self.t.range(1, 4),
            2 => self.t.range(5, 20),
            3 if max.is_some() && cap <= 300 => cap,
            4 => {
                self.big_left -= 1;
                if min_elem <= 8 && self.t.pct(25) {
                    return (*self.t.pick(&[4096usize, 16384, 65535, 65536, 65537])).min(cap);
                }
                *self.t.pick(&[255usize, 256, 257, 1000, 1024])
            }
            _ => 1,
        };
        n.min(cap).min(if min_elem > 200 { 3 } else { 2000 })
    }
    fn payload(&mut self, n: usize) -> Vec<u8> {
        if n > 120_000 {
            return crate::wire::pattern(n);
        }
        if n <= 24 {
            (0..n).map(|_| self.t.raw() as u8).collect()
        } else {
            let s = self.t.raw();
            (0..n).map(|i| (s.wrapping_mul(2654435761).wrapping_add((i as u32).wrapping_mul(40503)) >> 8) as u8).collect()
        }
    }
    fn string(&mut self, max: Option<u32>) -> Vec<u8> {
        let n = self.len(max);
        if n > 120_000 {
            return crate::wire::pattern(n);
        }
        if n <= 4096 && self.t.pct(12) {
            // what text processing tends to treat specially, at either end and inside
            let odd = ["\u{feff}", "\0", " ", "\t", "\n", "\r\n", "\r", "e\u{301}", "\u{e9}", "\u{2028}", "\u{85}", "\u{a0}", "\u{fffd}", "\u{fffe}",
                "\u{200b}", "\u{202e}", "\u{1f468}\u{200d}\u{1f469}", "\u{ac00}", "\u{fb01}", "\"", "\\", "\\n", "%s", "{}", "A", "a", "\u{130}", "\u{d7ff}", "\u{e000}"];
            let mut s = String::new();
            let dense = self.t.pct(50);
            while s.len() < n {
                let left = n - s.len();
                let c = if s.is_empty() || dense || left <= 4 { *self.t.pick(&odd) } else { "ab" };
                if c.len() <= left {
                    s.push_str(c);
                } else {
                    s.push(*self.t.pick(&['z', ' ', '\0', '\n']));
                }
            }
            s.into_bytes()
        } else if self.t.pct(25) {
            // multi-byte UTF-8, cut to the byte bound
            let chars = ['é', 'ß', '漢', '😀', 'a', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
            let mut s = String::new();
            while s.len() < n {
                let c = *self.t.pick(&chars);
                if s.len() + c.len_utf8() > n {
                    if s.len() < n {
                        s.push('z');
                    }
                    continue;
                }
                s.push(c);
            }
            s.into_bytes()
        } else if n <= 24 {
            (0..n).map(|_| (self.t.below(94) + 33) as u8).collect()
        } else {
            let s = self.t.below(26) as u8;
            (0..n).map(|i| b'a' + ((s as usize + i) % 26) as u8).collect()
        }
    }

    pub fn prim(&mut self, p: Prim) -> Value {
        match p {
            Prim::U32 => Value::U32(self.t.edge_u32()),
            Prim::I32 => Value::I32(self.t.edge_u32() as i32),
            Prim::U64 => Value::U64(self.e64()),
            Prim::I64 => Value::I64(self.e64() as i64),
            Prim::F32 => Value::F32(self.f32()),
            Prim::F64 => Value::F64(self.f64()),
            Prim::Bool => Value::Bool(self.t.pct(50)),
        }
    }
    fn e64(&mut self) -> u64 {
        match self.t.below(5) {
            0 => self.t.edge_u32() as u64,
            1 => (self.t.edge_u32() as u64) << 32,
            2 => *self.t.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, u64::MAX - 1, 0x0102030405060708]),
            _ => self.t.u64(),
        }
    }
    fn f32(&mut self) -> u32 {
        if self.t.pct(60) {
            (self.t.below(2000) as f32 * 0.37 - 300.0).to_bits()
        } else if self.t.pct(50) {
            *self.t.pick(&[
                0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x3f80_0000,
            ])
        } else {
            let b = self.t.u32();
            if f32::from_bits(b).is_nan() { 0x3f80_0000 } else { b }
        }
    }
    fn f64(&mut self) -> u64 {
        if self.t.pct(60) {
            (self.t.below(2000) as f64 * 0.37 - 300.0).to_bits()
        } else if self.t.pct(50) {
            *self.t.pick(&[0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 1, 0x3ff0 << 48, 0x7fef_ffff_ffff_ffff])
        } else {
            let b = self.t.u64();
            if f64::from_bits(b).is_nan() { 0x3ff0 << 48 } else { b }
        }
    }

    pub fn item(&mut self, ty: &Ty, arr: &Arr, opt: bool) -> Value {
        self.budget -= 1;
        if opt {
            let some = self.budget > 0 && (self.deep || self.t.pct(70));
            return Value::Opt(if some { Some(Box::new(self.one(ty))) } else { None });
        }
        match (ty, arr) {
            (Ty::Opaque, Arr::None) => {
                let n = self.len(None);
                Value::Opaque(self.payload(n))
            }
            (Ty::Opaque, Arr::Fixed(b)) => Value::Opaque(self.payload(b.val as usize)),
            (Ty::Opaque, Arr::Var(b)) => {
                let n = self.len(b.as_ref().map(|b| b.val));
                Value::Opaque(self.payload(n))
            }
            (Ty::Str, Arr::Var(b)) => Value::Str(self.string(b.as_ref().map(|b| b.val))),
            (_, Arr::None) => self.one(ty),
            (_, Arr::Fixed(b)) => Value::Arr((0..b.val).map(|_| self.one(ty)).collect()),
            (_, Arr::Var(b)) => {
                let me = self.ix.min_item(ty, &Arr::None, false, 0);
                let n = self.count(b.as_ref().map(|b| b.val), me);
                Value::Arr((0..n).map(|_| self.one(ty)).collect())
            }
        }
    }

    pub fn one(&mut self, ty: &Ty) -> Value {
        match ty {
            Ty::Prim(p, _) => self.prim(*p),
            Ty::Str => Value::Str(self.string(None)),
            Ty::Opaque => {
                let n = self.len(None);
                Value::Opaque(self.payload(n))
            }
            Ty::Named(n) => self.named(n),
        }
    }

    pub fn named(&mut self, n: &str) -> Value {
        self.budget -= 1;
        let d = *self.ix.types.get(n).unwrap_or_else(|| panic!("harness: unknown type {}", n));
        match d {
            Decl::Enum { members, .. } => Value::Enum(self.t.pick(members).1.val()),
            Decl::Struct { fields, .. } => {
                Value::Struct(fields.iter().map(|f| self.item(&f.ty, &f.arr, f.opt)).collect())
            }
            Decl::Typedef { ty, arr, .. } => Value::New(Box::new(self.item(ty, arr, false))),
            Decl::Union { sw, arms, .. } => {
                let disc = self.disc(sw, arms);
                self.union_with(d, disc)
            }
            Decl::Const { .. } => unreachable!(),
        }
    }

    pub fn union_with(&mut self, d: &Decl, disc: i128) -> Value {
        if let Decl::Union { arms, .. } = d {
            let (_, body) = select_arm(arms, disc).expect("harness: disc without arm");
            let b = body.map(|t| Box::new(self.item(t, &Arr::None, false)));
            Value::Union(disc, b)
        } else {
            unreachable!()
        }
    }

    /// A discriminant the specification accepts.
    pub fn disc(&mut self, sw: &Ty, arms: &[Arm]) -> i128 {
        let labels: Vec<i128> = arms.iter().flat_map(|a| a.labels.iter().map(|l| l.value)).collect();
        let has_default = arms.iter().any(|a| a.is_default);
        if labels.is_empty() || (has_default && self.t.pct(30)) {
            if let Some(v) = self.default_disc(sw, &labels) {
                return v;
            }
        }
        *self.t.pick(&labels)
    }

    /// A value of the discriminant type not named by any label.
    pub fn default_disc(&mut self, sw: &Ty, labels: &[i128]) -> Option<i128> {
        let (k, e) = self.ix.sw_resolve(sw);
        let cands: Vec<i128> = match k {
            SwKind::Bool => vec![0, 1],
            SwKind::Enum => match e {
                Some(Decl::Enum { members, .. }) => members.iter().map(|m| m.1.val() as i128).collect(),
                _ => vec![],
            },
            SwKind::U32 => {
                let r = self.t.edge_u32() as i128;
                vec![r, 0, 1, 2, u32::MAX as i128, 77]
            }
            SwKind::I32 => {
                let r = self.t.edge_u32() as i32 as i128;
                vec![r, -1, 0, 1, i32::MIN as i128, 77]
            }
            SwKind::U64 => {
                let r = self.e64() as i128;
                vec![r, 0, 1, u64::MAX as i128, 1 << 32, 77]
            }
            SwKind::I64 => {
                let r = self.e64() as i64 as i128;
                vec![r, -1, 0, i64::MIN as i128, 1 << 32, 77]
            }
            SwKind::Bad => vec![],
        };
        let c: Vec<i128> = cands.into_iter().filter(|c| !labels.contains(c)).collect();
        if c.is_empty() {
            None
        } else if self.t.pct(60) {
            Some(c[0])
        } else {
            Some(*self.t.pick(&c))
        }
    }
}

/// The arm a discriminant selects: (Rust variant name, body type).
pub fn select_arm(arms: &[Arm], disc: i128) -> Option<(String, Option<&Ty>)> {
    for a in arms {
        if let Some(l) = a.labels.iter().find(|l| l.value == disc) {
            let body = a.body.as_ref().map(|b| &b.0);
            // labels falling through to a default with data share its variant
            if a.is_default && body.is_some() {
                return Some(("default".into(), body));
            }
            return Some((variant_name(&l.text), body));
        }
    }
    arms.iter().find(|a| a.is_default).map(|a| ("default".to_string(), a.body.as_ref().map(|b| &b.0)))
}
