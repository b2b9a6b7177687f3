//! Emits the probe program around a generated module: one `Dump` impl per type naming every
//! field and variant, plus (for the API check) the documented type of each of them.
use crate::model::*;
use std::fmt::Write;

/// Documented Rust type of a declaration form, with `Bytes` as the container.
pub fn rust_ty(ix: &Ix, ty: &Ty, arr: &Arr, opt: bool) -> String {
    let one = match ty {
        Ty::Prim(p, _) => match p {
            Prim::U32 => "u32",
            Prim::I32 => "i32",
            Prim::U64 => "u64",
            Prim::I64 => "i64",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
            Prim::Bool => "bool",
        }
        .to_string(),
        Ty::Str => "::std::string::String".into(),
        Ty::Opaque => "::fastxdr::bytes::Bytes".into(),
        Ty::Named(n) => named(ix, n),
    };
    if opt {
        return format!("::std::option::Option<::std::boxed::Box<{}>>", one);
    }
    match (ty, arr) {
        (Ty::Str | Ty::Opaque, _) => one,
        (_, Arr::None) => one,
        (_, Arr::Fixed(b)) => format!("[{}; {}]", one, b.val),
        (_, Arr::Var(_)) => format!("::std::vec::Vec<{}>", one),
    }
}

pub fn named(ix: &Ix, n: &str) -> String {
    if ix.generic.contains(n) {
        format!("xdr::{}<::fastxdr::bytes::Bytes>", n)
    } else {
        format!("xdr::{}", n)
    }
}

/// All (variant, body) pairs a union declares.
pub fn union_variants(arms: &[Arm]) -> Vec<(String, Option<Ty>)> {
    let mut out = vec![];
    for a in arms {
        let body = a.body.as_ref().map(|b| b.0.clone());
        // labels that fall through to a default with data share the `default` variant
        if !(a.is_default && body.is_some()) {
            for l in &a.labels {
                out.push((variant_name(&l.text), body.clone()));
            }
        }
        if a.is_default {
            out.push(("default".into(), body));
        }
    }
    out
}

pub fn emit(spec: &Spec, module: &str, check_types: bool, extra: &str) -> String {
    let ix = Ix::new(spec);
    let mut s = String::with_capacity(module.len() * 2);
    s.push_str(module);
    s.push_str("\nuse crate::vrt::{Dump, Out};\n");
    s.push_str(
        "fn __err(e: &xdr::Error) -> String { match e { xdr::Error::InvalidLength => \"L\".into(), \
         xdr::Error::NonUtf8String(_) => \"S\".into(), xdr::Error::InvalidBoolean => \"B\".into(), \
         xdr::Error::UnknownVariant(v) => format!(\"V{}\", v), xdr::Error::UnknownOptionVariant(v) => format!(\"O{}\", v), \
         #[allow(unreachable_patterns)] e => format!(\"X{}\", e) } }\n",
    );
    for (name, d) in &ix.types {
        let t = named(&ix, name);
        let _ = writeln!(s, "impl Dump for {} {{ fn dump(&self, o: &mut Out) {{", t);
        match d {
            Decl::Enum { members, .. } => {
                s.push_str("o.put(match self {");
                for (m, _) in members {
                    let _ = write!(s, "xdr::{}::{} => \"{}\",", name, m, m);
                }
                s.push_str(if check_types { "});\n" } else { "#[allow(unreachable_patterns)] _ => \"?variant\" });\n" });
            }
            Decl::Struct { fields, .. } => {
                let _ = writeln!(s, "o.put(\"{}{{\");", name);
                if check_types {
                    // every field, and no other
                    let names: Vec<String> = fields.iter().map(|f| format!("{}: _", rust_field(&f.name))).collect();
                    let _ = writeln!(s, "let xdr::{} {{ {} }} = self;", name, names.join(", "));
                }
                for f in fields {
                    let n = rust_field(&f.name);
                    if check_types {
                        let _ = writeln!(s, "crate::vrt::same::<_, {}>(&self.{});", rust_ty(&ix, &f.ty, &f.arr, f.opt), n);
                    }
                    let _ = writeln!(s, "o.put(\"{0}=\"); self.{0}.dump(o); o.put(\",\");", n);
                }
                s.push_str("o.put(\"}\");\n");
            }
            Decl::Typedef { ty, arr, .. } => {
                if check_types {
                    let _ = writeln!(s, "crate::vrt::same::<_, {}>(&self.0);", rust_ty(&ix, ty, arr, false));
                }
                let _ = writeln!(s, "o.put(\"{}(\"); self.0.dump(o); o.put(\")\");", name);
            }
            Decl::Union { arms, .. } => {
                s.push_str("match self {\n");
                for (v, body) in union_variants(arms) {
                    match body {
                        None => {
                            let _ = writeln!(s, "xdr::{0}::{1} => o.put(\"{0}::{1}\"),", name, v);
                        }
                        Some(t) => {
                            let chk = if check_types {
                                format!("crate::vrt::same::<_, {}>(__b);", rust_ty(&ix, &t, &Arr::None, false))
                            } else {
                                String::new()
                            };
                            let _ = writeln!(
                                s,
                                "xdr::{0}::{1}(__b) => {{ {2} o.put(\"{0}::{1}(\"); __b.dump(o); o.put(\")\"); }}",
                                name, v, chk
                            );
                        }
                    }
                }
                if !check_types {
                    s.push_str("#[allow(unreachable_patterns)] _ => o.put(\"?variant\"),");
                }
                s.push_str("}\n");
            }
            Decl::Const { .. } => unreachable!(),
        }
        s.push_str("}}\n");
    }
    s.push_str("pub static TABLE: &[crate::vrt::Entry] = &[\n");
    for name in ix.types.keys() {
        let _ = writeln!(s, "crate::entry!(\"{}\", {}),", name, named(&ix, name));
    }
    s.push_str("];\n");
    s.push_str(extra);
    s
}
