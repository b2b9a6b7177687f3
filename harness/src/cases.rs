//! Case construction and judgement for the properties decided by executing generated modules
//! (C01-C06, C08, C09).
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::tape::Tape;
use crate::wire::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Exp {
    /// the payload encodes this value
    Value { dump: String, len: usize, opaques: Vec<(usize, usize)>, bare: usize },
    /// verdict of the reference decoder for the visible bytes
    Ref(RefOut),
    /// must be an error (strict prefix), of these kinds
    Any,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub class: String,
    pub reqs: Vec<Req>,
    pub exp: Exp,
    pub nontrivial: bool,
    /// extra allowance: (declared maximum, element type)
    #[serde(default)]
    pub bounded: Vec<(u32, Option<String>)>,
}

pub struct Val {
    pub ty: String,
    pub value: Value,
    pub enc: Enc,
    pub dump: String,
    pub class: &'static str,
}

fn dump_of(ix: &Ix, ty: &str, bytes: &[u8]) -> String {
    match Decoder::run(ix, ty, bytes) {
        RefOut::Ok { dump, consumed, .. } => {
            assert_eq!(consumed, bytes.len(), "harness: reference codec disagrees with itself on {}", ty);
            dump
        }
        RefOut::Err(e) => panic!("harness: reference decoder rejects a reference encoding of {}: {:?}", ty, e),
    }
}

pub fn mk(ix: &Ix, ty: &str, value: Value, class: &'static str) -> Val {
    let enc = Encoder::encode(ix, ty, &value);
    let dump = dump_of(ix, ty, &enc.out);
    Val { ty: ty.to_string(), value, enc, dump, class }
}

pub struct Knobs {
    pub per_type: usize,
    pub budget: i64,
    pub big: bool,
    pub only: Option<Vec<String>>,
    pub deep: i64,
    /// length of the long payload of one value of this specification (0: none)
    pub huge: usize,
}

fn recursive(ix: &Ix, name: &str) -> bool {
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    let mut work: Vec<&str> = vec![name];
    while let Some(n) = work.pop() {
        if let Some(d) = ix.types.get(n) {
            for t in refs(d) {
                if let Ty::Named(m) = t {
                    if m == name {
                        return true;
                    }
                    if seen.insert(m) {
                        work.push(m);
                    }
                }
            }
        }
    }
    false
}

/// Values: random ones per type, one per union label / default, one per enum member.
pub fn values(ix: &Ix, t: &mut Tape, k: &Knobs) -> Vec<Val> {
    let mut out = vec![];
    let mut big_left = if k.big { 2 } else { 0 };
    let mut deep_left = 2;
    for (name, d) in &ix.types {
        if let Some(o) = &k.only {
            if !o.iter().any(|x| x == name) {
                continue;
            }
        }
        match d {
            Decl::Enum { members, .. } => {
                for m in members {
                    out.push(mk(ix, name, Value::Enum(m.1.val()), "enum-member"));
                }
                continue;
            }
            Decl::Union { sw, arms, .. } => {
                let mut discs: Vec<i128> = arms.iter().flat_map(|a| a.labels.iter().map(|l| l.value)).collect();
                if arms.iter().any(|a| a.is_default) {
                    let mut g = VGen::new(t, ix, VCfg { budget: 0, big_payload: false });
                    for _ in 0..3 {
                        if let Some(v) = g.default_disc(sw, &discs) {
                            discs.push(v);
                        }
                    }
                }
                for disc in discs {
                    let mut g = VGen::new(t, ix, VCfg { budget: k.budget, big_payload: false });
                    let v = g.union_with(d, disc);
                    out.push(mk(ix, name, v, "union-label"));
                }
            }
            _ => {}
        }
        for i in 0..k.per_type {
            let big = big_left > 0 && t.pct(30);
            if big {
                big_left -= 1;
            }
            let budget = if i == 0 { k.budget / 4 } else { k.budget };
            let mut g = VGen::new(t, ix, VCfg { budget, big_payload: big });
            let v = g.named(name);
            out.push(mk(ix, name, v, if big { "random-big" } else { "random" }));
        }
        // types that contain themselves: a long chain
        if deep_left > 0 && k.deep > 0 && recursive(ix, name) {
            deep_left -= 1;
            let budget = (*t.pick(&[150i64, 500, 1100, 2600])).min(k.deep);
            let mut g = VGen::new(t, ix, VCfg { budget, big_payload: false });
            g.deep = true;
            let v = g.named(name);
            out.push(mk(ix, name, v, "long-chain"));
        }
    }
    out
}

fn filler(t: &mut Tape, n: usize) -> Vec<u8> {
    match t.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| if i % 4 == 3 { 1 } else { 0 }).collect(),
        _ => {
            let s = t.raw();
            (0..n).map(|i| (s.wrapping_add(i as u32).wrapping_mul(2654435761) >> 13) as u8).collect()
        }
    }
}

/// sizes beyond what buffers, counters and thresholds usually have in mind
const FAR: [usize; 10] = [4_097, 65_536, 70_001, 131_073, 262_147, 1_048_577, 2_097_155, 4_194_309, 8_388_609, 16_777_221];

fn far(t: &mut Tape) -> usize {
    let n = if t.pct(80) { 6 } else { FAR.len() };
    FAR[t.below(n)]
}

fn view_req(t: &mut Tape, ty: &str, payload: &[u8], suffix: &[u8]) -> Req {
    around(t, Req { suffix: suffix.to_vec(), ..Req::new(ty, payload) })
}

fn around(t: &mut Tape, mut r: Req) -> Req {
    r.kind = any_kind(t);
    r.prefix = if t.pct(60) { t.range(1, 23) } else { 0 };
    r.hidden = if t.pct(60) { t.range(1, 40) } else { 0 };
    if t.below(400) == 7 {
        // the message is a small part of a long buffer
        match t.below(3) {
            0 => r.prefix = far(t),
            1 => r.hidden = far(t),
            _ if !r.suffix.is_empty() => r.far = far(t),
            _ => {}
        }
    }
    r
}

fn suffix(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[30, 40, 20]) {
        0 => t.range(1, 3),
        1 => t.range(4, 32),
        _ => t.range(33, 200),
    };
    filler(t, n)
}

/// how the input buffer is made, and whether the decoder gets the only handle to it
fn any_kind(t: &mut Tape) -> u8 {
    t.below(6) as u8 + if t.pct(40) { 8 } else { 0 }
}

/// (offset, width, new value, site class)
fn site_overrides(t: &mut Tape, e: &Enc, sites: &[Site], all: bool) -> Vec<(usize, Vec<u8>, &'static str)> {
    let mut out: Vec<(usize, Vec<u8>, &'static str)> = vec![];
    for s in sites {
        let cur = |n: usize| -> u32 { u32::from_be_bytes(e.out[n..n + 4].try_into().unwrap()) };
        let left = (e.out.len() - s.off).saturating_sub(4) as u32;
        let mut w = |v: u32, c: &'static str| out.push((s.off, v.to_be_bytes().to_vec(), c));
        match &s.kind {
            SiteKind::Len { max, .. } | SiteKind::Count { max } => {
                let c = cur(s.off);
                let cls = if matches!(s.kind, SiteKind::Count { .. }) { "count" } else { "length" };
                let mut vals: BTreeSet<u32> = [
                    0, 1, c.wrapping_add(1), c.wrapping_sub(1), c.wrapping_add(4), c ^ 1, left, left.wrapping_add(1),
                    left.wrapping_sub(1), left.wrapping_add(3), left & !3, left | 3, 0x7fff_ffff, 0x8000_0000,
                    0xffff_ffff, 0xffff_fffe, 0xffff_fffd, 0xffff_fffc, 0xffff_fffb, 0x0100_0000, 65536, 65535, 256, 1024,
                ]
                .into_iter()
                .collect();
                if let Some(m) = max {
                    vals.extend([*m, m.wrapping_add(1), m.wrapping_sub(1), m.wrapping_mul(2), m.wrapping_add(3)]);
                }
                vals.remove(&c);
                let vals: Vec<u32> = vals.into_iter().collect();
                if all {
                    for v in vals {
                        w(v, cls);
                    }
                } else {
                    for _ in 0..4 {
                        w(*t.pick(&vals), cls);
                    }
                    w(*t.pick(&[0xffff_ffff, 0x7fff_ffff, 0x4000_0000, 0x8000_0000, 0xffff_fffc]), cls);
                    if let Some(m) = max {
                        w(m.wrapping_add(1), cls);
                    }
                }
            }
            SiteKind::Marker => {
                for v in [0u32, 1, 2, 3, 0xffff_ffff, 0x8000_0000, 0x0100_0000, 0x0000_0100, 0x0001_0000, 0x8000_0001] {
                    if v != cur(s.off) && (all || t.pct(40)) {
                        w(v, "marker");
                    }
                }
                w(t.u32(), "marker");
            }
            SiteKind::Bool => {
                for v in [0u32, 1, 2, 3, 0xffff_ffff, 0x8000_0000, 0x0100_0000, 0x0000_0100, 0x0001_0001, 0x8000_0001] {
                    if v != cur(s.off) && (all || t.pct(40)) {
                        w(v, "bool");
                    }
                }
                w(t.u32(), "bool");
            }
            SiteKind::Enum { declared } => {
                let mut vals: BTreeSet<u32> = BTreeSet::new();
                for d in declared.iter().take(40) {
                    let d = *d as u32;
                    vals.extend([d, d.wrapping_add(1), d.wrapping_sub(1), d | 0x8000_0000, d.wrapping_add(0x0001_0000), d.swap_bytes(), d.wrapping_add(256)]);
                }
                vals.extend([0, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000]);
                vals.remove(&cur(s.off));
                for v in vals {
                    if all || t.pct(15) {
                        w(v, "enum");
                    }
                }
                w(t.u32(), "enum");
            }
            SiteKind::Disc { wide, declared, bool_, .. } => {
                let mut vals: BTreeSet<u64> = BTreeSet::new();
                for d in declared.iter().take(80) {
                    let d = *d as u64;
                    vals.extend([d, d.wrapping_add(1), d.wrapping_sub(1), d.wrapping_add(256), d.wrapping_add(65536), d ^ 0x8000_0000]);
                    if *wide {
                        vals.extend([d ^ (1 << 32), d ^ (1 << 63), d << 32, d.wrapping_add(1 << 40)]);
                    }
                }
                vals.extend([0, 1, 2, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000]);
                if *wide {
                    vals.extend([u64::MAX, 1 << 63, i64::MAX as u64, 1 << 32]);
                }
                let _ = bool_;
                let r = t.u64();
                vals.insert(r);
                for v in vals {
                    if all || t.pct(25) {
                        if *wide {
                            out.push((s.off, v.to_be_bytes().to_vec(), "discriminant"));
                        } else {
                            out.push((s.off, (v as u32).to_be_bytes().to_vec(), "discriminant"));
                        }
                    }
                }
            }
            SiteKind::StrData { len } => {
                if *len > 0 {
                    let bad: [&[u8]; 10] = [
                        &[0x80], &[0xff], &[0xc0, 0xaf], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80],
                        &[0xf8, 0x88, 0x80, 0x80], &[0xc3], &[0xf0, 0x9f, 0x98], &[0xfe],
                    ];
                    for b in bad {
                        if b.len() <= *len && (all || t.pct(30)) {
                            let p = if t.pct(50) { len - b.len() } else { t.below(len - b.len() + 1) };
                            out.push((s.off + p, b.to_vec(), "utf8"));
                        }
                    }
                }
            }
            SiteKind::Pad { len } => {
                out.push((s.off, vec![0xff; *len], "padding"));
            }
        }
    }
    out
}

fn apply(e: &[u8], off: usize, w: &[u8]) -> Vec<u8> {
    let mut v = e.to_vec();
    let end = (off + w.len()).min(v.len());
    v[off..end].copy_from_slice(&w[..end - off]);
    v
}

fn random_mutation(t: &mut Tape, e: &Enc) -> Vec<u8> {
    let mut b = e.out.clone();
    for _ in 0..1 + t.below(3) {
        match t.below(8) {
            0 if !b.is_empty() => {
                let i = t.below(b.len());
                b[i] ^= 1 << t.below(8);
            }
            1 if b.len() >= 4 => {
                let i = t.below(b.len() / 4) * 4;
                let v = t.edge_u32();
                b[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
            2 => {
                let i = t.below(b.len() / 4 + 1) * 4;
                let v = t.edge_u32();
                for (k, x) in v.to_be_bytes().iter().enumerate() {
                    b.insert(i + k, *x);
                }
            }
            3 if b.len() >= 4 => {
                let i = t.below(b.len() / 4) * 4;
                b.drain(i..i + 4);
            }
            4 => {
                let n = t.below(b.len() + 1);
                b.truncate(n);
            }
            5 => {
                let n = t.range(1, 24);
                let f = filler(t, n);
                b.extend(f);
            }
            6 if b.len() >= 8 => {
                let n = b.len() / 4;
                let (i, j) = (t.below(n) * 4, t.below(n) * 4);
                for k in 0..4 {
                    b.swap(i + k, j + k);
                }
            }
            _ => {
                let n = t.below(40);
                b = filler(t, n);
            }
        }
    }
    b
}

fn has_container(ix: &Ix, ty: &str) -> bool {
    matches!(ix.types.get(ty), Some(Decl::Struct { .. } | Decl::Union { .. })) 
}

fn pick_sites<'s>(t: &mut Tape, e: &'s Enc, want: usize, pred: impl Fn(&SiteKind) -> bool) -> Vec<Site> {
    let all: Vec<&Site> = e.sites.iter().filter(|s| pred(&s.kind)).collect();
    if all.len() <= want {
        return all.into_iter().cloned().collect();
    }
    let mut ix: Vec<usize> = vec![0, all.len() - 1];
    while ix.len() < want {
        ix.push(t.below(all.len()));
    }
    ix.sort();
    ix.dedup();
    ix.into_iter().map(|i| all[i].clone()).collect()
}

fn value_exp(v: &Val) -> Exp {
    Exp::Value { dump: v.dump.clone(), len: v.enc.out.len(), opaques: v.enc.opaques.clone(), bare: v.enc.bare }
}

fn nontrivial_value(v: &Val) -> bool {
    v.enc.out.len() > 4 && (v.enc.depth >= 2 || v.enc.sites.len() >= 2)
}

/// Offset of the payload longer than 120 000 bytes.
fn long_at(e: &Enc) -> Option<usize> {
    e.opaques.iter().find(|o| o.1 > 120_000).map(|o| o.0).or_else(|| {
        e.sites.iter().find(|s| matches!(s.kind, SiteKind::StrData { len } if len > 120_000)).map(|s| s.off)
    })
}

/// Estimate of the size of a value of that type in memory.
fn mem(ix: &Ix, n: &str, depth: u32) -> u64 {
    if depth > 40 {
        return 0;
    }
    let item = |t: &Ty, arr: &Arr, opt: bool| -> u64 {
        let one = |t: &Ty| match t {
            Ty::Prim(..) => 8,
            Ty::Str => 24,
            Ty::Opaque => 32,
            Ty::Named(m) => mem(ix, m, depth + 1),
        };
        match (t, arr) {
            _ if opt => 8,
            (Ty::Opaque | Ty::Str, _) | (_, Arr::None) => one(t),
            (_, Arr::Var(_)) => 24,
            (_, Arr::Fixed(b)) => one(t).saturating_mul(b.val as u64),
        }
    };
    match ix.types.get(n) {
        Some(Decl::Struct { fields, .. }) => fields.iter().map(|f| item(&f.ty, &f.arr, f.opt)).sum(),
        Some(Decl::Union { arms, .. }) => 8 + arms.iter().map(|a| a.body.as_ref().map(|b| item(&b.0, &Arr::None, false)).unwrap_or(0)).max().unwrap_or(0),
        Some(Decl::Typedef { ty, arr, .. }) => item(ty, arr, false),
        _ => 8,
    }
}

/// One value with one very long payload, and inputs derived from it.
fn long_cases(prop: &str, ix: &Ix, t: &mut Tape, k: &Knobs, out: &mut Vec<Case>) {
    let case = |class: &str, reqs: Vec<Req>, exp: Exp| Case { class: class.into(), reqs, exp, nontrivial: true, bounded: vec![] };
    let names: Vec<String> = ix.types.keys().map(|s| s.to_string()).collect();
    for _ in 0..24 {
        let name = t.pick(&names).clone();
        let mut g = VGen::new(t, ix, VCfg { budget: k.budget / 2, big_payload: false });
        // a third of them: one counted array of many elements instead
        let slice = crate::shrink::slice(ix.spec, &[&name]);
        let cyclic = slice.decls.iter().any(|d| d.is_type() && recursive(ix, d.name()));
        let elements = k.huge % 3 == 0;
        if elements {
            if cyclic {
                continue;
            }
            g.huge_count = [70_001, 100_003, 131_073, 200_001][k.huge % 4];
            g.huge_bounded = prop == "C05";
        } else {
            g.huge = k.huge;
        }
        let v = g.named(&name);
        if g.huge > 0 || g.huge_count > 0 {
            continue;
        }
        let cls = if elements { "long-array" } else { "long-payload" };
        let v = mk(ix, &name, v, cls);
        let at = if elements { usize::MAX } else { long_at(&v.enc).expect("harness: long payload") };
        // (about the default stack of a thread: what does not nest must not take more.  Some room
        // for the values themselves, which unoptimised code moves through several temporaries)
        let sizes: u64 = slice.decls.iter().filter(|d| d.is_type()).map(|d| mem(ix, d.name(), 0)).sum();
        let stack = if cyclic { 0 } else { (1 << 20) + 64 * sizes as usize };
        let req = |b: &[u8]| Req { stack, ..Req::long(&v.ty, b, at) };
        let full = &v.enc.out;
        match prop {
            "C01" => {
                let r = around(t, req(full));
                out.push(case(cls, vec![Req { prefix: 0, hidden: 0, far: 0, ..r }], value_exp(&v)));
            }
            "C02" | "C03" | "C08" => {
                let mut reqs = vec![req(full)];
                for i in 0..2 {
                    let s = suffix(t);
                    let mut r = around(t, Req { suffix: s, ..req(full) });
                    if i == 1 && t.pct(50) {
                        r.far = far(t);
                    }
                    reqs.push(r);
                }
                if prop == "C02" {
                    reqs = vec![reqs.pop().unwrap()];
                }
                out.push(case(cls, reqs, value_exp(&v)));
            }
            _ => {
                let mut muts: Vec<(Vec<u8>, &'static str)> = vec![(full.clone(), cls)];
                if prop != "C06" && prop != "C09" {
                    let n = full.len();
                    let at = if elements { 4 } else { at };
                    let len = if elements { n - 8 } else { k.huge };
                    for c in [n - 1, n.saturating_sub(4), at + 1, at + len / 2, at + len - 1, at + len] {
                        if c < n {
                            muts.push((full[..c].to_vec(), if prop == "C05" { "prefix" } else { "truncated" }));
                        }
                    }
                }
                // (a type that contains itself could read the long payload as a chain of a
                // million links: deeper than any stack, and a recorded finding)
                let sites = pick_sites(t, &v.enc, if cyclic { 0 } else { 6 }, |s| !cyclic && match s {
                    SiteKind::Len { .. } | SiteKind::Count { .. } => prop != "C06",
                    SiteKind::Pad { .. } => false,
                    _ => prop == "C04" || prop == "C06",
                });
                for s in sites {
                    let mut ov = site_overrides(t, &v.enc, &[s], false);
                    ov.truncate(4);
                    for (off, w, c) in ov {
                        muts.push((apply(full, off, &w), c));
                    }
                }
                for (m, c) in muts {
                    let r = req(&m);
                    // (a run cut short by a changed byte leaves the rest literal)
                    if r.payload.len() > 200_000 && !elements {
                        continue;
                    }
                    let exp = match prop {
                        "C05" | "C06" => Exp::Ref(Decoder::run(ix, &v.ty, &m)),
                        _ => Exp::Any,
                    };
                    let mut cs = case(c, vec![r], exp);
                    if prop == "C09" {
                        let mut d = Decoder::new(ix, &m);
                        let _ = d.top(&v.ty);
                        cs.bounded = d.bounded.clone();
                        cs.bounded.truncate(400);
                    }
                    out.push(cs);
                }
            }
        }
        return;
    }
}

pub fn cases(prop: &str, ix: &Ix, t: &mut Tape, k: &Knobs) -> Vec<Case> {
    let mut out = vec![];
    if k.huge > 0 {
        long_cases(prop, ix, t, k, &mut out);
    }
    let vals = values(ix, t, k);
    let case = |class: &str, reqs: Vec<Req>, exp: Exp, nt: bool| Case { class: class.into(), reqs, exp, nontrivial: nt, bounded: vec![] };
    match prop {
        "C01" => {
            for v in &vals {
                let mut r = Req::new(&v.ty, &v.enc.out);
                r.kind = any_kind(t);
                out.push(case(v.class, vec![r], value_exp(v), nontrivial_value(v)));
            }
        }
        "C02" => {
            for v in &vals {
                let s = suffix(t);
                let r = view_req(t, &v.ty, &v.enc.out, &s);
                out.push(case(v.class, vec![r], value_exp(v), nontrivial_value(v)));
            }
        }
        "C08" => {
            for v in &vals {
                let big = v.enc.opaques.iter().any(|o| o.1 > 0);
                if !big && !t.pct(10) {
                    continue;
                }
                let n = if v.enc.opaques.len() > 1 { 2 } else { 1 };
                let mut reqs = vec![Req::new(&v.ty, &v.enc.out)];
                for _ in 0..n {
                    let s = if t.pct(50) { suffix(t) } else { vec![] };
                    reqs.push(view_req(t, &v.ty, &v.enc.out, &s));
                }
                out.push(case(v.class, reqs, value_exp(v), big));
            }
        }
        "C03" => {
            for v in &vals {
                // one value, several views and continuations
                let mut reqs = vec![Req::new(&v.ty, &v.enc.out)];
                for _ in 0..3 {
                    let s = suffix(t);
                    reqs.push(view_req(t, &v.ty, &v.enc.out, &s));
                }
                // the value followed by itself
                if v.enc.out.len() < 3000 {
                    reqs.push(view_req(t, &v.ty, &v.enc.out, &v.enc.out));
                }
                out.push(case(v.class, reqs, value_exp(v), nontrivial_value(v)));
                // (decoding long chains through arrays takes quadratic time)
                if v.enc.out.len() > 20_000 || v.class == "long-chain" && v.enc.out.len() > 4000 {
                    continue;
                }
                let mut muts: Vec<(Vec<u8>, &'static str)> = vec![];
                for s in pick_sites(t, &v.enc, 3, |_| true) {
                    let ov = site_overrides(t, &v.enc, &[s], false);
                    for (off, w, c) in ov.into_iter().take(3) {
                        muts.push((apply(&v.enc.out, off, &w), c));
                    }
                }
                muts.push((random_mutation(t, &v.enc), "random-mutation"));
                let cut = t.below(v.enc.out.len().max(1));
                muts.push((v.enc.out[..cut].to_vec(), "truncated"));
                // the buffer ends where padding would begin
                let pads = pick_sites(t, &v.enc, 3, |k| matches!(k, SiteKind::Pad { .. }));
                for p in pads {
                    if let SiteKind::Pad { len } = p.kind {
                        muts.push((v.enc.out[..p.off + t.below(len)].to_vec(), "truncated-padding"));
                    }
                }
                for (m, c) in muts {
                    let r0 = Req::new(&v.ty, &m);
                    let r1 = view_req(t, &v.ty, &m, &[]);
                    // what decodes alone decodes to the same whatever follows
                    let sfx = suffix(t);
                    let mut r2 = view_req(t, &v.ty, &m, &sfx);
                    // (a moved count may take what follows for its elements)
                    r2.far = r2.far.min(262_147);
                    let r = Decoder::run(ix, &v.ty, &m);
                    out.push(case(c, vec![r0, r1, r2], Exp::Ref(r), true));
                }
            }
        }
        "C04" | "C09" => {
            for v in &vals {
                if prop == "C09" || t.pct(20) {
                    let r = Req::new(&v.ty, &v.enc.out);
                    out.push(case("valid", vec![r], Exp::Any, prop == "C09" && v.enc.out.len() > 8));
                }
                if v.enc.out.len() > 20_000 {
                    continue;
                }
                let n = v.enc.out.len();
                if prop == "C04" {
                    let cuts: Vec<usize> = if n <= 120 {
                        (0..n).collect()
                    } else {
                        let mut c: Vec<usize> = (0..40).map(|_| t.below(n)).collect();
                        c.extend(n.saturating_sub(12)..n);
                        c.extend(0..12);
                        c
                    };
                    for c in cuts {
                        // the truncated bytes may continue in the allocation behind the view
                        let mut r = Req::new(&v.ty, &v.enc.out[..c]);
                        if t.pct(30) {
                            r = view_req(t, &v.ty, &v.enc.out[..c], &[]);
                        }
                        out.push(case("truncated", vec![r], Exp::Any, c > 0));
                    }
                }
                let sites = pick_sites(t, &v.enc, if prop == "C04" { 10 } else { 6 }, |k| {
                    prop == "C04" || matches!(k, SiteKind::Len { .. } | SiteKind::Count { .. })
                });
                for s in &sites {
                    for (off, w, c) in site_overrides(t, &v.enc, std::slice::from_ref(s), prop == "C09" || n < 400) {
                        let mut b = apply(&v.enc.out, off, &w);
                        match t.below(4) {
                            0 => {
                                // nothing after the field itself
                                b.truncate(off + w.len());
                            }
                            1 => {
                                let n = t.below(64);
                                let f = filler(t, n);
                                b.extend(f);
                            }
                            _ => {}
                        }
                        let mut r = Req::new(&v.ty, &b);
                        r.kind = any_kind(t);
                        out.push(case(c, vec![r], Exp::Any, true));
                    }
                }
                for _ in 0..if prop == "C04" { 5 } else { 2 } {
                    let m = random_mutation(t, &v.enc);
                    out.push(case("random-mutation", vec![Req::new(&v.ty, &m)], Exp::Any, !m.is_empty()));
                }
                // two fields at once
                if sites.len() >= 2 {
                    for _ in 0..3 {
                        let a = t.pick(&sites).clone();
                        let b2 = t.pick(&sites).clone();
                        let mut b = v.enc.out.clone();
                        for s in [a, b2] {
                            let ov = site_overrides(t, &v.enc, &[s], false);
                            if !ov.is_empty() {
                                let (off, w, _) = t.pick(&ov).clone();
                                b = apply(&b, off, &w);
                            }
                        }
                        out.push(case("two-fields", vec![Req::new(&v.ty, &b)], Exp::Any, true));
                    }
                }
            }
            // arbitrary bytes
            let names: Vec<String> = vals.iter().map(|v| v.ty.clone()).collect::<BTreeSet<_>>().into_iter().collect();
            for n in &names {
                for _ in 0..4 {
                    let l = match t.below(3) {
                        0 => t.below(12),
                        1 => t.below(64),
                        _ => t.below(16) * 4,
                    };
                    let b = if t.pct(50) {
                        filler(t, l)
                    } else {
                        let mut b = vec![];
                        while b.len() < l {
                            b.extend(t.edge_u32().to_be_bytes());
                        }
                        b.truncate(l);
                        b
                    };
                    out.push(case("arbitrary", vec![Req::new(n, &b)], Exp::Any, l > 0));
                }
            }
            if prop == "C04" {
                // long inputs that keep recursive / counted types busy
                for n in names.iter().take(6) {
                    for word in [1u32, 2, 0x0000_0001_u32.swap_bytes()] {
                        let k = *t.pick(&[33usize, 200, 600]);
                        let b: Vec<u8> = (0..k).flat_map(|_| word.to_be_bytes()).collect();
                        out.push(case("repeated-word", vec![Req::new(n, &b)], Exp::Any, true));
                    }
                }
            }
            if prop == "C09" {
                for c in &mut out {
                    let full = c.reqs[0].full();
                    let mut d = Decoder::new(ix, &full);
                    let _ = d.top(&c.reqs[0].ty);
                    // (max, elem) -> at most a handful of distinct entries, but one per array met
                    c.bounded = d.bounded.clone();
                    if c.bounded.len() > 400 {
                        c.bounded.truncate(400);
                    }
                }
            }
        }
        "C05" => {
            let mut far_left = 8;
            for v in &vals {
                let n = v.enc.out.len();
                if n > 20_000 {
                    continue;
                }
                // every strict prefix
                let cuts: Vec<usize> = if n <= 160 { (0..n).collect() } else {
                    let mut c: Vec<usize> = (0..30).map(|_| t.below(n)).collect();
                    c.extend(n - 9..n);
                    c.extend(0..5);
                    c
                };
                for c in cuts {
                    let r = Decoder::run(ix, &v.ty, &v.enc.out[..c]);
                    if let RefOut::Ok { .. } = r {
                        panic!("harness: reference accepts a strict prefix");
                    }
                    let req = if t.pct(30) { view_req(t, &v.ty, &v.enc.out[..c], &[]) } else { Req::new(&v.ty, &v.enc.out[..c]) };
                    out.push(case("prefix", vec![req], Exp::Ref(r), c > 0));
                }
                // every length / count moved, with and without more data behind it
                for s in pick_sites(t, &v.enc, 6, |k| matches!(k, SiteKind::Len { .. } | SiteKind::Count { .. })) {
                    for (off, w, c) in site_overrides(t, &v.enc, &[s], n < 300) {
                        let mut b = apply(&v.enc.out, off, &w);
                        if t.pct(40) {
                            let n = t.range(4, 80);
                            let f = filler(t, n);
                            b.extend(f);
                        }
                        let r = Decoder::run(ix, &v.ty, &b);
                        out.push(case(c, vec![Req::new(&v.ty, &b)], Exp::Ref(r), true));
                    }
                }
                // at, below and above a large maximum, with that many bytes present
                for s in pick_sites(t, &v.enc, 2, |k| matches!(k, SiteKind::Len { max: Some(m), .. } if *m > 20_000 && *m < 24_000_000)) {
                    if let SiteKind::Len { max: Some(m), .. } = s.kind {
                        for l in [m, m + 1, m - 1, m + 3] {
                            if m > 2_000_000 && far_left == 0 {
                                continue;
                            }
                            if m > 2_000_000 {
                                far_left -= 1;
                            }
                            let mut b = v.enc.out[..s.off].to_vec();
                            b.extend(l.to_be_bytes());
                            let far = m as usize + 64;
                            let short = b.clone();
                            b.resize(b.len() + far, 0);
                            let r = Decoder::run(ix, &v.ty, &b);
                            out.push(case("length-large-maximum", vec![Req { far, ..Req::new(&v.ty, &short) }], Exp::Ref(r), true));
                        }
                    }
                }
            }
            // the same for counted arrays: all elements are zero bytes
            let mut many_left = 4i32;
            for v in &vals {
                if many_left <= 0 || v.enc.out.len() > 20_000 {
                    continue;
                }
                for s in pick_sites(t, &v.enc, 1, |k| matches!(k, SiteKind::Count { max: Some(m) } if *m > 300 && *m < 1_100_000)) {
                    let SiteKind::Count { max: Some(m) } = s.kind else { continue };
                    if m > 300_000 && many_left < 4 {
                        continue;
                    }
                    many_left -= if m > 10_000 { 2 } else { 1 };
                    for l in [m, m + 1, m - 1] {
                        let mut b = v.enc.out[..s.off].to_vec();
                        b.extend(l.to_be_bytes());
                        let far = (m as usize * 16).min(4 << 20) + 64;
                        let short = b.clone();
                        b.resize(b.len() + far, 0);
                        let r = Decoder::run(ix, &v.ty, &b);
                        out.push(case("count-large-maximum", vec![Req { far, ..Req::new(&v.ty, &short) }], Exp::Ref(r), true));
                        if m > 300_000 && l == m + 1 {
                            break;
                        }
                    }
                }
            }
            // at the maximum, and one over it with all the data present
            let names: BTreeSet<String> = vals.iter().map(|v| v.ty.clone()).collect();
            for n in &names {
                let mut g = VGen::new(t, ix, VCfg { budget: k.budget * 4, big_payload: false });
                g.force = Force::Exact;
                let v = g.named(n);
                let (seen, forced) = (g.bounded_seen, g.forced);
                if seen == 0 {
                    continue;
                }
                if forced > 0 {
                    let v = mk(ix, n, v, "at-maximum");
                    out.push(case("at-maximum", vec![Req::new(n, &v.enc.out)], value_exp(&v), true));
                }
                for at in 0..seen.min(6) {
                    for attempt in 0..3 {
                        let mut g = VGen::new(t, ix, VCfg { budget: k.budget * (attempt + 1), big_payload: false });
                        g.force = Force::OverAt(at);
                        let v = g.named(n);
                        if g.forced == 0 {
                            continue;
                        }
                        let e = Encoder::encode(ix, n, &v);
                        let r = Decoder::run(ix, n, &e.out);
                        out.push(case("over-maximum", vec![Req::new(n, &e.out)], Exp::Ref(r), true));
                        break;
                    }
                }
            }
        }
        "C06" => {
            for v in &vals {
                let r = Req::new(&v.ty, &v.enc.out);
                let interesting = v.enc.sites.iter().any(|s| !matches!(s.kind, SiteKind::Len { .. } | SiteKind::Count { .. } | SiteKind::Pad { .. }));
                out.push(case(v.class, vec![r], Exp::Ref(Decoder::run(ix, &v.ty, &v.enc.out)), interesting));
                let n = v.enc.out.len();
                if n > 20_000 {
                    continue;
                }
                let direct = matches!(ix.types.get(v.ty.as_str()), Some(Decl::Union { .. } | Decl::Enum { .. }));
                let sites = pick_sites(t, &v.enc, 6, |k| {
                    !matches!(k, SiteKind::Len { .. } | SiteKind::Count { .. } | SiteKind::Pad { .. })
                });
                for (i, s) in sites.iter().enumerate() {
                    let all = i == 0 && (direct || n < 200);
                    for (off, w, c) in site_overrides(t, &v.enc, std::slice::from_ref(s), all) {
                        let mut b = apply(&v.enc.out, off, &w);
                        if t.pct(35) {
                            let n = t.below(60) + 4;
                            let f = filler(t, n);
                            b.extend(f);
                        }
                        let r = Decoder::run(ix, &v.ty, &b);
                        out.push(case(c, vec![Req::new(&v.ty, &b)], Exp::Ref(r), true));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    let _ = has_container;
    out
}

/// Names, variants, booleans and option tags of a dump; payloads dropped.
pub fn skeleton(d: &str) -> String {
    let mut s = String::new();
    let mut in_hex = false;
    let mut word = String::new();
    let flush = |w: &mut String, s: &mut String| {
        if !w.is_empty() {
            let num = w.chars().next().map(|c| c.is_ascii_digit() || c == '-').unwrap_or(false);
            let float = w.len() == 9 && w.starts_with('f') || w.len() == 17 && w.starts_with('d') || w == "fNaN" || w == "dNaN";
            if !num && !(float && w.chars().skip(1).all(|c| c.is_ascii_hexdigit() || c == 'N' || c == 'a')) {
                s.push_str(w);
            } else {
                s.push('#');
            }
            w.clear();
        }
    };
    for c in d.chars() {
        if in_hex {
            if c == '\'' {
                in_hex = false;
                s.push('\'');
            }
            continue;
        }
        if c == '\'' {
            in_hex = true;
            flush(&mut word, &mut s);
            s.push('\'');
            continue;
        }
        if c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == ':' {
            word.push(c);
        } else {
            flush(&mut word, &mut s);
            s.push(c);
        }
    }
    flush(&mut word, &mut s);
    s
}

pub enum Verdict {
    Held,
    Skipped(&'static str),
    Violation(String),
}

fn short(s: &str) -> String {
    if s.len() > 240 {
        let mut e = 240;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

pub fn show(o: &Outcome) -> String {
    match o {
        Outcome::Ok { dump, .. } => format!("Ok({})", short(dump)),
        Outcome::Err(e) => format!("Err({:?})", e),
        Outcome::Panic(p) => format!("panic: {}", short(p)),
    }
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Ok { dump: x, .. }, Outcome::Ok { dump: y, .. }) => x == y,
        (Outcome::Err(x), Outcome::Err(y)) => x == y,
        (Outcome::Panic(_), Outcome::Panic(_)) => true,
        _ => false,
    }
}

pub fn err_in(e: &E, set: &[E]) -> bool {
    set.iter().any(|x| x == e || (*x == E::AnyVariant && matches!(e, E::Variant(_))))
}

/// Upper bound for the bytes one decode of `len` input bytes may request: linear in the input
/// with a factor set by the in-memory size of the types involved, plus the declared maxima of
/// the arrays actually met on the wire.
pub fn alloc_bound(len: usize, sizes: &BTreeMap<String, usize>, bounded: &[(u32, Option<String>)]) -> u64 {
    let s = sizes.values().copied().max().unwrap_or(0).max(32) as u64;
    let mut b = 8 * s * (len as u64 / 4 + 2) + 4 * len as u64 + 512;
    for (m, e) in bounded {
        let es = match e {
            None => 1,
            Some(n) => sizes.get(n).copied().unwrap_or(32).max(1) as u64,
        };
        b = b.saturating_add((*m as u64).saturating_mul(es).saturating_mul(2));
    }
    b
}

pub fn judge(prop: &str, c: &Case, rs: &[Resp], sizes: &BTreeMap<String, usize>) -> Verdict {
    use Verdict::*;
    let mut done = vec![];
    for r in rs {
        match r {
            Resp::None(_) => return Skipped("not built"),
            Resp::Crash(s) => {
                return match prop {
                    "C04" => Violation(format!("the decoder took the process down ({})", s)),
                    "C09" | "C02" | "C08" => Skipped("decoder crashed"),
                    _ => Violation(format!("no result: the decoder took the process down ({})", s)),
                }
            }
            Resp::HugeAlloc(n) => {
                return match prop {
                    "C04" => Violation(format!("the decoder requests {} bytes in one allocation for {} input bytes: the allocation fails and the process aborts", n, c.reqs[0].view_len())),
                    "C09" => Violation(format!("one allocation of {} bytes for {} input bytes", n, c.reqs[0].view_len())),
                    "C02" | "C08" => Skipped("decoder crashed"),
                    _ => Violation(format!("no result: the decoder requests {} bytes in one allocation", n)),
                }
            }
            Resp::Hang => {
                return match prop {
                    "C04" => Violation("the decoder does not terminate (40 s of CPU time for this input alone)".into()),
                    "C02" | "C08" | "C09" => Skipped("decoder hangs"),
                    _ => Violation("no result: the decoder does not terminate (40 s of CPU time)".into()),
                }
            }
            Resp::Done { r, v } => done.push((r, v)),
        }
    }
    match (prop, &c.exp) {
        ("C01", Exp::Value { dump, .. }) => {
            let (_, v) = done[0];
            match &v.out {
                Outcome::Ok { dump: d, .. } if d == dump => Held,
                o => Violation(format!("TryFrom<Bytes> of the encoding of {} returned {}", short(dump), show(o))),
            }
        }
        ("C02", Exp::Value { dump, len, bare, .. }) => {
            let (r, v) = done[0];
            let mut seen = false;
            for (side, by_ref) in [(r, true), (v, false)] {
                if let Outcome::Ok { dump: d, wire, .. } = &side.out {
                    if d != dump {
                        continue;
                    }
                    seen = true;
                    match wire {
                        Err(p) => return Violation(format!("wire_size() of {} panicked: {}", short(dump), p)),
                        Ok(n) if n == len => {}
                        // recorded finding: bare opaque leaves are counted without their prefix
                        Ok(n) if *bare > 0 && *n + 4 * bare == *len => {}
                        Ok(n) => {
                            return Violation(format!("wire_size() of {} is {} but the value encodes to {} bytes", short(dump), n, len))
                        }
                    }
                    let consumed = c.reqs[0].view_len().wrapping_sub(side.remaining);
                    if by_ref && consumed != *len {
                        return Violation(format!("decoder of {} consumed {} bytes but the value encodes to {}", short(dump), consumed, len));
                    }
                }
            }
            if seen { Held } else { Skipped("value not decoded") }
        }
        ("C08", Exp::Value { dump, opaques, .. }) => {
            let mut seen = false;
            for (r, v) in &done {
                for (side, what) in [(r, "&mut Bytes"), (v, "Bytes")] {
                    if let Outcome::Ok { dump: d, ptrs, .. } = &side.out {
                        if d != dump {
                            continue;
                        }
                        seen = true;
                        for ((o, l), (po, pl)) in opaques.iter().zip(ptrs) {
                            if *l > 0 && (*po != *o as i64 || pl != l) {
                                return Violation(format!(
                                    "TryFrom<{}>: opaque of {} bytes at wire offset {} of {} is held at offset {} relative to the input (not a view of it)",
                                    what, l, o, short(dump), po
                                ));
                            }
                        }
                    }
                }
            }
            if seen { Held } else { Skipped("value not decoded") }
        }
        ("C03", exp) => {
            let (r0, _) = done[0];
            let used = |i: usize, s: &Side| c.reqs[i].view_len().wrapping_sub(s.remaining);
            for (i, (r, v)) in done.iter().enumerate() {
                if !same(&r.out, &v.out) {
                    return Violation(format!("view {}: TryFrom<&mut Bytes> gives {} but TryFrom<Bytes> gives {}", i, show(&r.out), show(&v.out)));
                }
                if i > 0 && matches!(exp, Exp::Ref(_)) && !(c.reqs[i].behind() == 0) && !matches!(r0.out, Outcome::Ok { .. }) {
                    continue; // bytes that are not a value alone may begin one
                }
                if let (Outcome::Ok { dump: d, .. }, true) = (&r.out, same(&r.out, &r0.out)) {
                    if used(i, r) != used(0, r0) {
                        return Violation(format!(
                            "decoding {} advances the buffer by {} bytes, and by {} when {} bytes follow",
                            short(d), used(0, r0), used(i, r), c.reqs[i].behind()
                        ));
                    }
                }
                if !same(&r.out, &r0.out) {
                    return Violation(format!(
                        "the result depends on the surroundings of the view: {} with (kind {}, prefix {}, suffix {}, hidden {}), {} alone",
                        show(&r.out), c.reqs[i].kind, c.reqs[i].prefix, c.reqs[i].behind(), c.reqs[i].hidden, show(&r0.out)
                    ));
                }
                if let Outcome::Ok { dump: d, .. } = &r.out {
                    if !r.tail_ok {
                        return Violation(format!("after decoding {} the caller's buffer is not the untouched rest of the input", short(d)));
                    }
                    let (want, ed) = match exp {
                        Exp::Value { dump, len, .. } => (*len, dump),
                        Exp::Ref(RefOut::Ok { dump, consumed, .. }) => (*consumed, dump),
                        _ => continue,
                    };
                    let consumed = c.reqs[i].view_len() - r.remaining;
                    if d == ed && consumed != want {
                        return Violation(format!("decoding {} advanced the buffer by {} bytes, the value is {} bytes long", short(d), consumed, want));
                    }
                }
            }
            Held
        }
        ("C04", _) => {
            for (r, v) in &done {
                for (side, what) in [(r, "&mut Bytes"), (v, "Bytes")] {
                    if let Outcome::Panic(p) = &side.out {
                        return Violation(format!("TryFrom<{}> panicked: {}", what, short(p)));
                    }
                }
            }
            Held
        }
        ("C09", _) => {
            let (r, v) = done[0];
            let bound = alloc_bound(c.reqs[0].view_len(), sizes, &c.bounded);
            for (side, what) in [(r, "&mut Bytes"), (v, "Bytes")] {
                if let Outcome::Panic(p) = &side.out {
                    if p.contains("capacity overflow") {
                        return Violation(format!("TryFrom<{}>: allocation of a size taken from the input: {}", what, short(p)));
                    }
                }
                if side.total > bound {
                    return Violation(format!(
                        "TryFrom<{}> requested {} bytes (largest single request {}) for {} input bytes; bound {}",
                        what, side.total, side.max, c.reqs[0].view_len(), bound
                    ));
                }
            }
            Held
        }
        ("C05", Exp::Value { .. }) => {
            for (side, what) in [(done[0].0, "&mut Bytes"), (done[0].1, "Bytes")] {
                match &side.out {
                    Outcome::Ok { .. } => {}
                    o => return Violation(format!("TryFrom<{}>: lengths exactly at their declared maxima are not accepted: {}", what, show(o))),
                }
            }
            Held
        }
        ("C05", Exp::Ref(RefOut::Err(set))) => {
            let prefix = c.class == "prefix";
            for (side, what) in [(done[0].0, "&mut Bytes"), (done[0].1, "Bytes")] {
                match &side.out {
                    Outcome::Err(e) if err_in(e, set) => {}
                    Outcome::Ok { .. } if prefix || set.contains(&E::Length) => {
                        return Violation(format!("TryFrom<{}>: {} accepted as {}, must be {:?}", what, c.class, show(&side.out), set))
                    }
                    o if set == &vec![E::Length] => {
                        return Violation(format!("TryFrom<{}>: {} gives {}, must be Err(InvalidLength)", what, c.class, show(o)))
                    }
                    _ => {}
                }
            }
            Held
        }
        ("C05", Exp::Ref(RefOut::Ok { .. })) => {
            // a moved length that is still within its bounds: must not be rejected as a length
            for (side, what) in [(done[0].0, "&mut Bytes"), (done[0].1, "Bytes")] {
                if let Outcome::Err(E::Length) = &side.out {
                    return Violation(format!("TryFrom<{}>: a length within its bounds is rejected with InvalidLength", what));
                }
            }
            Held
        }
        ("C06", Exp::Ref(RefOut::Ok { dump, .. })) => {
            for (side, what) in [(done[0].0, "&mut Bytes"), (done[0].1, "Bytes")] {
                match &side.out {
                    Outcome::Ok { dump: d, .. } if d == dump || skeleton(d) == skeleton(dump) => {}
                    o => {
                        return Violation(format!(
                            "TryFrom<{}>: declared discriminants decode to {}, the specification assigns {}",
                            what, show(o), short(dump)
                        ))
                    }
                }
            }
            Held
        }
        ("C06", Exp::Ref(RefOut::Err(set))) => {
            if set.iter().all(|e| *e == E::Length) {
                return Held;
            }
            for (side, what) in [(done[0].0, "&mut Bytes"), (done[0].1, "Bytes")] {
                match &side.out {
                    Outcome::Err(e) if err_in(e, set) => {}
                    o => {
                        return Violation(format!("TryFrom<{}>: undeclared value gives {}, must be one of {:?}", what, show(o), set))
                    }
                }
            }
            Held
        }
        _ => Skipped("no oracle"),
    }
}
