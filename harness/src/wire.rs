//! Reference RFC 4506 codec, written from the RFC and from the specification model only.
use crate::gen::select_arm;
use crate::model::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq)]
pub enum SiteKind {
    /// length of a counted opaque / string; declared maximum; payload length
    Len { max: Option<u32>, is_str: bool },
    Count { max: Option<u32> },
    Marker,
    /// discriminant of width 4 or 8; kind
    Disc { wide: bool, bool_: bool, enum_: bool, declared: Vec<i128>, has_default: bool },
    Enum { declared: Vec<i32> },
    Bool,
    StrData { len: usize },
    Pad { len: usize },
}
#[derive(Debug, Clone)]
pub struct Site {
    pub off: usize,
    pub kind: SiteKind,
}

#[derive(Debug, Clone, Default)]
pub struct Enc {
    pub out: Vec<u8>,
    pub sites: Vec<Site>,
    /// (offset, length) of each opaque payload in traversal order
    pub opaques: Vec<(usize, usize)>,
    /// number of bare opaque leaves (struct field / union arm `opaque x;`)
    pub bare: usize,
    pub depth: usize,
}

pub fn pad(n: usize) -> usize {
    (4 - n % 4) % 4
}

pub struct Encoder<'i> {
    pub ix: &'i Ix<'i>,
    pub e: Enc,
    depth: usize,
}

impl<'i> Encoder<'i> {
    pub fn encode(ix: &'i Ix<'i>, ty: &str, v: &Value) -> Enc {
        let mut s = Encoder { ix, e: Enc::default(), depth: 0 };
        s.named(ty, v);
        s.e
    }
    fn u32(&mut self, v: u32) {
        self.e.out.extend_from_slice(&v.to_be_bytes());
    }
    fn site(&mut self, kind: SiteKind) {
        let off = self.e.out.len();
        self.e.sites.push(Site { off, kind });
    }
    fn padded(&mut self, b: &[u8]) {
        self.e.out.extend_from_slice(b);
        let p = pad(b.len());
        if p > 0 {
            self.site(SiteKind::Pad { len: p });
        }
        self.e.out.extend(std::iter::repeat(0u8).take(p));
    }
    fn named(&mut self, n: &str, v: &Value) {
        self.depth += 1;
        self.e.depth = self.e.depth.max(self.depth);
        let d = *self.ix.types.get(n).unwrap_or_else(|| panic!("harness: unknown type {}", n));
        match (d, v) {
            (Decl::Enum { members, .. }, Value::Enum(x)) => {
                self.site(SiteKind::Enum { declared: members.iter().map(|m| m.1.val()).collect() });
                self.u32(*x as u32)
            }
            (Decl::Struct { fields, .. }, Value::Struct(vs)) => {
                for (f, v) in fields.iter().zip(vs) {
                    if f.ty == Ty::Opaque && f.arr == Arr::None && !f.opt {
                        self.e.bare += 1;
                    }
                    self.item(&f.ty, &f.arr, f.opt, v);
                }
            }
            (Decl::Typedef { ty, arr, .. }, Value::New(v)) => self.item(ty, arr, false, v),
            (Decl::Union { sw, arms, .. }, Value::Union(disc, body)) => {
                let kind = self.ix.sw_kind(sw);
                self.site(SiteKind::Disc {
                    wide: kind.wide(),
                    bool_: kind == SwKind::Bool,
                    enum_: kind == SwKind::Enum,
                    declared: arms.iter().flat_map(|a| a.labels.iter().map(|l| l.value)).collect(),
                    has_default: arms.iter().any(|a| a.is_default),
                });
                if kind.wide() {
                    self.e.out.extend_from_slice(&(*disc as u64).to_be_bytes());
                } else {
                    self.u32(*disc as u32);
                }
                if let Some(b) = body {
                    let (_, t) = select_arm(arms, *disc).expect("arm");
                    let t = t.expect("arm body");
                    if *t == Ty::Opaque {
                        self.e.bare += 1;
                    }
                    self.item(t, &Arr::None, false, b);
                }
            }
            _ => panic!("harness: value does not fit type {}", n),
        }
        self.depth -= 1;
    }
    fn one(&mut self, t: &Ty, v: &Value) {
        match (t, v) {
            (Ty::Named(n), v) => self.named(n, v),
            (_, Value::U32(x)) => self.u32(*x),
            (_, Value::I32(x)) => self.u32(*x as u32),
            (_, Value::F32(x)) => self.u32(*x),
            (_, Value::Bool(x)) => {
                self.site(SiteKind::Bool);
                self.u32(*x as u32)
            }
            (_, Value::U64(x)) => self.e.out.extend_from_slice(&x.to_be_bytes()),
            (_, Value::I64(x)) => self.e.out.extend_from_slice(&x.to_be_bytes()),
            (_, Value::F64(x)) => self.e.out.extend_from_slice(&x.to_be_bytes()),
            (Ty::Str, Value::Str(_)) | (Ty::Opaque, Value::Opaque(_)) => self.item(t, &Arr::Var(None), false, v),
            _ => panic!("harness: value does not fit {:?}", t),
        }
    }
    pub fn item(&mut self, t: &Ty, arr: &Arr, opt: bool, v: &Value) {
        if opt {
            self.site(SiteKind::Marker);
            match v {
                Value::Opt(None) => self.u32(0),
                Value::Opt(Some(x)) => {
                    self.u32(1);
                    self.one(t, x)
                }
                _ => panic!("harness: optional"),
            }
            return;
        }
        let max = match arr {
            Arr::Var(Some(b)) => Some(b.val),
            _ => None,
        };
        match (t, arr, v) {
            (Ty::Opaque, Arr::Fixed(_), Value::Opaque(b)) => {
                self.e.opaques.push((self.e.out.len(), b.len()));
                self.padded(b)
            }
            (Ty::Opaque, _, Value::Opaque(b)) => {
                self.site(SiteKind::Len { max, is_str: false });
                self.u32(b.len() as u32);
                self.e.opaques.push((self.e.out.len(), b.len()));
                self.padded(b)
            }
            (Ty::Str, _, Value::Str(b)) => {
                self.site(SiteKind::Len { max, is_str: true });
                self.u32(b.len() as u32);
                self.site(SiteKind::StrData { len: b.len() });
                self.padded(b)
            }
            (_, Arr::None, v) => self.one(t, v),
            (_, Arr::Fixed(_), Value::Arr(vs)) => {
                for v in vs {
                    self.one(t, v)
                }
            }
            (_, Arr::Var(_), Value::Arr(vs)) => {
                self.site(SiteKind::Count { max });
                self.u32(vs.len() as u32);
                for v in vs {
                    self.one(t, v)
                }
            }
            _ => panic!("harness: value does not fit item"),
        }
    }
}

/// Errors as the generated module reports them (admissible alternatives).
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum E {
    Length,
    Utf8,
    Bool,
    Variant(i32),
    /// discriminant wider than the payload of UnknownVariant: any value
    AnyVariant,
    OptVariant(u32),
    Other(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum RefOut {
    Ok { dump: String, consumed: usize, opaques: Vec<(usize, usize)>, bare: usize },
    Err(Vec<E>),
}

pub struct Decoder<'i, 'b> {
    ix: &'i Ix<'i>,
    b: &'b [u8],
    pos: usize,
    /// a count / length larger than what is left was already seen: InvalidLength is also right
    excess: bool,
    pub opaques: Vec<(usize, usize)>,
    pub bare: usize,
    /// bytes a conforming decoder may reserve for declared maxima: (max, element type name or None for bytes)
    pub bounded: Vec<(u32, Option<String>)>,
    fuel: u64,
}

type R<T> = Result<T, Vec<E>>;

impl<'i, 'b> Decoder<'i, 'b> {
    pub fn new(ix: &'i Ix<'i>, b: &'b [u8]) -> Self {
        Decoder { ix, b, pos: 0, excess: false, opaques: vec![], bare: 0, bounded: vec![], fuel: 3_000_000 + b.len() as u64 }
    }
    pub fn run(ix: &'i Ix<'i>, ty: &str, b: &'b [u8]) -> RefOut {
        let mut d = Decoder::new(ix, b);
        d.top(ty)
    }
    pub fn top(&mut self, ty: &str) -> RefOut {
        let mut s = String::new();
        match self.named(ty, &mut s) {
            Ok(()) => RefOut::Ok { dump: s, consumed: self.pos, opaques: self.opaques.clone(), bare: self.bare },
            Err(mut e) => {
                if self.excess && !e.contains(&E::Length) {
                    e.push(E::Length);
                }
                RefOut::Err(e)
            }
        }
    }
    fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    fn take(&mut self, n: usize) -> R<&'b [u8]> {
        if self.left() < n {
            return Err(vec![E::Length]);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u32(&mut self) -> R<u32> {
        self.fuel = self.fuel.saturating_sub(1);
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn u64(&mut self) -> R<u64> {
        let b = self.take(8)?;
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        Ok(u64::from_be_bytes(a))
    }
    fn bool(&mut self) -> R<bool> {
        match self.u32()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(vec![E::Bool]),
        }
    }
    fn named(&mut self, n: &str, o: &mut String) -> R<()> {
        let d = *self.ix.types.get(n).unwrap_or_else(|| panic!("harness: unknown type {}", n));
        match d {
            Decl::Enum { members, .. } => {
                let v = self.u32()? as i32;
                match members.iter().find(|m| m.1.val() == v) {
                    Some(m) => {
                        o.push_str(&m.0);
                        Ok(())
                    }
                    None => Err(vec![E::Variant(v)]),
                }
            }
            Decl::Struct { fields, .. } => {
                o.push_str(n);
                o.push('{');
                for f in fields {
                    o.push_str(&rust_field(&f.name));
                    o.push('=');
                    if f.ty == Ty::Opaque && f.arr == Arr::None && !f.opt {
                        self.bare += 1;
                    }
                    self.item(&f.ty, &f.arr, f.opt, o)?;
                    o.push(',');
                }
                o.push('}');
                Ok(())
            }
            Decl::Typedef { ty, arr, .. } => {
                o.push_str(n);
                o.push('(');
                self.item(ty, arr, false, o)?;
                o.push(')');
                Ok(())
            }
            Decl::Union { sw, arms, .. } => {
                let (k, en) = self.ix.sw_resolve(sw);
                let (disc, err): (i128, E) = match k {
                    SwKind::U32 => {
                        let v = self.u32()?;
                        (v as i128, E::Variant(v as i32))
                    }
                    SwKind::I32 => {
                        let v = self.u32()? as i32;
                        (v as i128, E::Variant(v))
                    }
                    SwKind::U64 => (self.u64()? as i128, E::AnyVariant),
                    SwKind::I64 => (self.u64()? as i64 as i128, E::AnyVariant),
                    SwKind::Bool => {
                        let v = self.bool()?;
                        (v as i128, E::Variant(v as i32))
                    }
                    SwKind::Enum => {
                        let v = self.u32()? as i32;
                        if let Some(Decl::Enum { members, .. }) = en {
                            if !members.iter().any(|m| m.1.val() == v) {
                                return Err(vec![E::Variant(v)]);
                            }
                        }
                        (v as i128, E::Variant(v))
                    }
                    SwKind::Bad => panic!("harness: bad switch"),
                };
                match select_arm(arms, disc) {
                    None => Err(vec![err]),
                    Some((var, body)) => {
                        o.push_str(n);
                        o.push_str("::");
                        o.push_str(&var);
                        if let Some(t) = body {
                            if *t == Ty::Opaque {
                                self.bare += 1;
                            }
                            o.push('(');
                            self.item(t, &Arr::None, false, o)?;
                            o.push(')');
                        }
                        Ok(())
                    }
                }
            }
            Decl::Const { .. } => unreachable!(),
        }
    }
    fn one(&mut self, t: &Ty, o: &mut String) -> R<()> {
        match t {
            Ty::Named(n) => self.named(n, o),
            Ty::Str | Ty::Opaque => self.item(t, &Arr::Var(None), false, o),
            Ty::Prim(p, _) => {
                let s = match p {
                    Prim::U32 => self.u32()?.to_string(),
                    Prim::I32 => (self.u32()? as i32).to_string(),
                    Prim::U64 => self.u64()?.to_string(),
                    Prim::I64 => (self.u64()? as i64).to_string(),
                    Prim::F32 => dump_f32(self.u32()?),
                    Prim::F64 => dump_f64(self.u64()?),
                    Prim::Bool => self.bool()?.to_string(),
                };
                o.push_str(&s);
                Ok(())
            }
        }
    }
    fn limit(&mut self, n: u32, arr: &Arr, elem: Option<&str>) -> R<()> {
        if let Arr::Var(Some(b)) = arr {
            self.bounded.push((b.val, elem.map(|s| s.to_string())));
            if n > b.val {
                return Err(vec![E::Length]);
            }
        }
        Ok(())
    }
    fn item(&mut self, t: &Ty, arr: &Arr, opt: bool, o: &mut String) -> R<()> {
        if self.fuel == 0 {
            panic!("harness: reference decoder out of fuel");
        }
        if opt {
            return match self.u32()? {
                0 => {
                    o.push_str("None");
                    Ok(())
                }
                1 => {
                    o.push_str("Some(");
                    self.one(t, o)?;
                    o.push(')');
                    Ok(())
                }
                v => Err(vec![E::OptVariant(v)]),
            };
        }
        match (t, arr) {
            (Ty::Opaque, Arr::Fixed(b)) => {
                let n = b.val as usize;
                self.opaques.push((self.pos, n));
                let p = self.take(n)?;
                self.take(pad(n))?;
                dump_hex("o", p, o);
                Ok(())
            }
            (Ty::Opaque, _) => {
                let n = self.u32()?;
                self.limit(n, arr, None)?;
                self.opaques.push((self.pos, n as usize));
                let p = self.take(n as usize)?;
                self.take(pad(n as usize))?;
                dump_hex("o", p, o);
                Ok(())
            }
            (Ty::Str, _) => {
                let n = self.u32()?;
                self.limit(n, arr, None)?;
                let p = self.take(n as usize)?;
                let utf8 = std::str::from_utf8(p).is_ok();
                if self.take(pad(n as usize)).is_err() {
                    return Err(if utf8 { vec![E::Length] } else { vec![E::Length, E::Utf8] });
                }
                if !utf8 {
                    return Err(vec![E::Utf8]);
                }
                dump_hex("s", p, o);
                Ok(())
            }
            (_, Arr::None) => self.one(t, o),
            (_, Arr::Fixed(b)) => {
                o.push('[');
                for _ in 0..b.val {
                    self.one(t, o)?;
                    o.push(',');
                }
                o.push(']');
                Ok(())
            }
            (_, Arr::Var(_)) => {
                let n = self.u32()?;
                self.limit(n, arr, if let Ty::Named(m) = t { Some(m) } else { None })?;
                if n as u64 * self.ix.min_item(t, &Arr::None, false, 0).max(1) > self.left() as u64 {
                    self.excess = true;
                }
                o.push('[');
                for _ in 0..n {
                    self.one(t, o)?;
                    o.push(',');
                }
                o.push(']');
                Ok(())
            }
        }
    }
}

pub fn dump_f32(b: u32) -> String {
    if f32::from_bits(b).is_nan() {
        "fNaN".into()
    } else {
        format!("f{:08x}", b)
    }
}
pub fn dump_f64(b: u64) -> String {
    if f64::from_bits(b).is_nan() {
        "dNaN".into()
    } else {
        format!("d{:016x}", b)
    }
}
/// of a long payload (the same in vrt.rs)
fn digest(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
    h
}
/// `n` bytes of long payloads (the same in vrt.rs)
pub fn pattern(n: usize) -> Vec<u8> {
    let c: Vec<u8> = (0..97u32).map(|i| 0x20 + (i * 37 % 95) as u8).collect();
    let mut v = c.repeat(n / 97 + 1);
    v.truncate(n);
    v
}
pub fn dump_hex(tag: &str, b: &[u8], o: &mut String) {
    o.push_str(tag);
    o.push('\'');
    if b.len() > 120_000 {
        o.push_str(&format!("#{}:{:016x}'", b.len(), digest(b)));
        return;
    }
    for x in b {
        o.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        o.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    o.push('\'');
}
