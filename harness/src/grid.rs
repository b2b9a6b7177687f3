//! Systematic specifications: every leaf form in every pair of nested contexts.
use crate::model::*;

fn lit(v: u32) -> Bound {
    Bound { val: v, named: None }
}

struct B {
    decls: Vec<Decl>,
    n: usize,
    consts: Vec<(u32, String)>,
    en: String,
    members: Vec<(String, i32)>,
}

impl B {
    fn name(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}_{}", p, self.n)
    }
    fn con(&mut self, v: u32) -> Bound {
        if let Some((_, n)) = self.consts.iter().find(|c| c.0 == v) {
            return Bound { val: v, named: Some(n.clone()) };
        }
        let name = self.name("CONST");
        let text = if self.n % 2 == 0 { format!("0x{:x}", v) } else { v.to_string() };
        self.decls.push(Decl::Const { name: name.clone(), val: v, text });
        self.consts.push((v, name.clone()));
        Bound { val: v, named: Some(name) }
    }
    fn st(&mut self, fields: Vec<(&str, Ty, Arr, bool)>) -> String {
        let name = self.name("St");
        self.decls.push(Decl::Struct {
            name: name.clone(),
            fields: fields
                .into_iter()
                .map(|(n, ty, arr, opt)| Field { name: n.to_string(), ty, arr, opt })
                .collect(),
        });
        name
    }
    fn td(&mut self, ty: Ty, arr: Arr) -> String {
        let name = self.name("Td");
        self.decls.push(Decl::Typedef { name: name.clone(), ty, arr });
        name
    }
    fn un(&mut self, sw: Ty, arms: Vec<Arm>) -> String {
        let name = self.name("Un");
        self.decls.push(Decl::Union { name: name.clone(), sw, var: "which".into(), arms });
        name
    }
    /// context k applied to the named type n
    fn ctx(&mut self, k: usize, n: &str) -> String {
        let t = Ty::Named(n.to_string());
        let u = || Ty::Prim(Prim::U32, 0);
        match k {
            0 => self.td(t, Arr::None),
            1 => self.td(t, Arr::Fixed(lit(2))),
            2 => self.td(t, Arr::Var(None)),
            3 => {
                let b = self.con(3);
                self.td(t, Arr::Var(Some(b)))
            }
            4 => self.st(vec![("before", u(), Arr::None, false), ("x", t, Arr::None, false), ("after", Ty::Str, Arr::Var(None), false)]),
            5 => {
                let b = self.con(2);
                self.st(vec![("x", t, Arr::Fixed(b), false), ("after", u(), Arr::None, false)])
            }
            6 => self.st(vec![("x", t, Arr::Var(None), false), ("after", u(), Arr::None, false)]),
            7 => self.st(vec![("x", t, Arr::None, true), ("after", Ty::Prim(Prim::I64, 0), Arr::None, false)]),
            8 => self.un(
                Ty::Prim(Prim::I32, 0),
                vec![
                    Arm { labels: vec![label(1)], is_default: false, body: Some((t.clone(), "a".into())) },
                    Arm { labels: vec![label(2), label(3)], is_default: false, body: Some((t, "b".into())) },
                    Arm { labels: vec![], is_default: true, body: None },
                ],
            ),
            9 => {
                let en = self.en.clone();
                let (m, v) = self.members[0].clone();
                self.un(
                    Ty::Named(en),
                    vec![
                        Arm { labels: vec![Label { text: m, value: v as i128 }], is_default: false, body: Some((u(), "a".into())) },
                        Arm { labels: vec![], is_default: true, body: Some((t, "d".into())) },
                    ],
                )
            }
            10 => self.st(vec![("x", t, Arr::Var(Some(lit(4))), false), ("type", Ty::Opaque, Arr::Var(None), false)]),
            _ => self.un(
                Ty::Prim(Prim::Bool, 0),
                vec![
                    Arm { labels: vec![Label { text: "TRUE".into(), value: 1 }], is_default: false, body: Some((t, "a".into())) },
                    Arm { labels: vec![Label { text: "FALSE".into(), value: 0 }], is_default: false, body: None },
                ],
            ),
        }
    }
}
pub const CTX: usize = 12;

fn label(v: i128) -> Label {
    Label { text: v.to_string(), value: v }
}

/// The leaf forms: (label, builder returning the named type that holds the form)
pub fn leaf_count() -> usize {
    24
}

fn leaf(b: &mut B, k: usize) -> String {
    let u = || Ty::Prim(Prim::U32, 0);
    match k {
        0 => b.td(Ty::Prim(Prim::U32, 0), Arr::None),
        1 => b.td(Ty::Prim(Prim::I64, 0), Arr::None),
        2 => b.td(Ty::Prim(Prim::Bool, 0), Arr::None),
        3 => b.td(Ty::Prim(Prim::F32, 0), Arr::None),
        4 => b.td(Ty::Prim(Prim::F64, 0), Arr::Fixed(lit(2))),
        5 => b.td(Ty::Str, Arr::Var(None)),
        6 => {
            let c = b.con(7);
            b.td(Ty::Str, Arr::Var(Some(c)))
        }
        7 => b.td(Ty::Str, Arr::None),
        8 => b.td(Ty::Opaque, Arr::None),
        9 => b.td(Ty::Opaque, Arr::Var(None)),
        10 => b.td(Ty::Opaque, Arr::Var(Some(lit(6)))),
        11 => {
            let c = b.con(9);
            b.td(Ty::Opaque, Arr::Var(Some(c)))
        }
        12 => b.td(Ty::Opaque, Arr::Fixed(lit(5))),
        13 => {
            let c = b.con(10);
            b.td(Ty::Opaque, Arr::Fixed(c))
        }
        14 => b.st(vec![("d", Ty::Opaque, Arr::Fixed(lit(3)), false), ("e", u(), Arr::None, false)]),
        15 => {
            let c = b.con(11);
            b.st(vec![("d", Ty::Opaque, Arr::Var(Some(c)), false), ("e", Ty::Prim(Prim::Bool, 0), Arr::None, false)])
        }
        16 => b.st(vec![("s", Ty::Str, Arr::Var(Some(lit(5))), false), ("o", Ty::Opaque, Arr::Var(None), false)]),
        17 => b.en.clone(),
        18 => {
            let c = b.con(4);
            b.st(vec![("a", Ty::Prim(Prim::U64, 1), Arr::Fixed(c), false), ("b", Ty::Prim(Prim::I32, 0), Arr::Fixed(lit(3)), false)])
        }
        19 => {
            // self-referential list
            let name = b.name("List");
            b.decls.push(Decl::Struct {
                name: name.clone(),
                fields: vec![
                    Field { name: "data".into(), ty: Ty::Opaque, arr: Arr::Var(None), opt: false },
                    Field { name: "next".into(), ty: Ty::Named(name.clone()), arr: Arr::None, opt: true },
                ],
            });
            name
        }
        20 => b.un(
            Ty::Prim(Prim::U64, 0),
            vec![
                Arm { labels: vec![label(1), label(4294967297)], is_default: false, body: Some((Ty::Str, "a".into())) },
                Arm { labels: vec![label(7)], is_default: false, body: None },
            ],
        ),
        21 => {
            // tree through a counted array
            let name = b.name("Tree");
            b.decls.push(Decl::Struct {
                name: name.clone(),
                fields: vec![
                    Field { name: "kids".into(), ty: Ty::Named(name.clone()), arr: Arr::Var(None), opt: false },
                    Field { name: "tag".into(), ty: Ty::Str, arr: Arr::Var(None), opt: false },
                ],
            });
            name
        }
        22 => {
            let en = b.en.clone();
            let e = b.td(Ty::Named(en.clone()), Arr::None);
            let m = b.members.clone();
            b.un(
                Ty::Named(e),
                vec![
                    Arm {
                        labels: vec![
                            Label { text: m[0].0.clone(), value: m[0].1 as i128 },
                            Label { text: m[2].0.clone(), value: m[2].1 as i128 },
                        ],
                        is_default: false,
                        body: Some((u(), "a".into())),
                    },
                    Arm { labels: vec![Label { text: m[1].0.clone(), value: m[1].1 as i128 }], is_default: false, body: None },
                ],
            )
        }
        _ => b.st(vec![
            ("o", u(), Arr::None, true),
            ("p", Ty::Str, Arr::None, true),
            ("q", Ty::Prim(Prim::F64, 0), Arr::None, false),
            ("r", Ty::Str, Arr::None, false),
        ]),
    }
}

/// One specification per leaf: the leaf, every context of it and every context of those.
pub fn grid_spec(k: usize, depth2: bool) -> Spec {
    let mut b = B { decls: vec![], n: 0, consts: vec![], en: "Mode_0".into(), members: vec![] };
    b.members = vec![("M_A".into(), 0), ("M_B".into(), 3), ("M_C".into(), 0x7fffffff)];
    let m = b.members.clone();
    b.decls.push(Decl::Enum {
        name: "Mode_0".into(),
        members: vec![
            (m[0].0.clone(), EnumVal::Dec(0)),
            (m[1].0.clone(), EnumVal::Hex(3, "03".into())),
            (m[2].0.clone(), EnumVal::Hex(0x7fffffff, "7fffffff".into())),
        ],
    });
    let l = leaf(&mut b, k);
    let mut lvl = vec![];
    for c in 0..CTX {
        lvl.push(b.ctx(c, &l));
    }
    if depth2 {
        for n in lvl {
            for c in 0..CTX {
                b.ctx(c, &n);
            }
        }
    }
    // forward references: definitions after uses for odd leaves
    if k % 2 == 1 {
        b.decls.reverse();
    }
    Spec { decls: b.decls }
}
