//! Pretty printer: specification model -> XDR text, with arbitrary layout.
use crate::model::*;
use crate::tape::Tape;

fn ty_tokens(t: &Ty, out: &mut Vec<String>) {
    match t {
        Ty::Prim(p, s) => {
            let sp = spellings(*p);
            for w in sp[*s as usize % sp.len()].split(' ') {
                out.push(w.to_string());
            }
        }
        Ty::Str => out.push("string".into()),
        Ty::Opaque => out.push("opaque".into()),
        Ty::Named(n) => out.push(n.clone()),
    }
}

pub fn bound_text(b: &Bound) -> String {
    b.named.clone().unwrap_or_else(|| b.val.to_string())
}

fn arr_tokens(a: &Arr, out: &mut Vec<String>) {
    match a {
        Arr::None => {}
        Arr::Fixed(b) => out.extend(["[".to_string(), bound_text(b), "]".into()]),
        Arr::Var(None) => out.extend(["<".to_string(), ">".into()]),
        Arr::Var(Some(b)) => out.extend(["<".to_string(), bound_text(b), ">".into()]),
    }
}

pub fn decl_tokens(d: &Decl) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    macro_rules! p { ($($e:expr),*) => {{ $( o.push($e.to_string()); )* }} }
    match d {
        Decl::Const { name, text, .. } => p!("const", name, "=", text, ";"),
        Decl::Enum { name, members } => {
            p!("enum", name, "{");
            for (i, (m, v)) in members.iter().enumerate() {
                if i > 0 {
                    p!(",");
                }
                p!(m, "=", v.text());
            }
            p!("}", ";");
        }
        Decl::Struct { name, fields } => {
            p!("struct", name, "{");
            for f in fields {
                ty_tokens(&f.ty, &mut o);
                if f.opt {
                    o.push("*".into());
                }
                o.push(f.name.clone());
                arr_tokens(&f.arr, &mut o);
                o.push(";".into());
            }
            o.extend(["}".to_string(), ";".into()]);
        }
        Decl::Union { name, sw, var, arms } => {
            p!("union", name, "switch", "(");
            ty_tokens(sw, &mut o);
            o.extend([var.clone(), ")".into(), "{".into()]);
            for a in arms {
                for l in &a.labels {
                    o.extend(["case".to_string(), l.text.clone(), ":".into()]);
                }
                if a.is_default {
                    o.extend(["default".to_string(), ":".into()]);
                }
                match &a.body {
                    None => o.extend(["void".to_string(), ";".into()]),
                    Some((t, n)) => {
                        ty_tokens(t, &mut o);
                        o.extend([n.clone(), ";".into()]);
                    }
                }
            }
            o.extend(["}".to_string(), ";".into()]);
        }
        Decl::Typedef { name, ty, arr } => {
            o.push("typedef".into());
            ty_tokens(ty, &mut o);
            o.push(name.clone());
            arr_tokens(arr, &mut o);
            o.push(";".into());
        }
    }
    o
}

fn wordy(s: &str) -> bool {
    s.chars().next().map(|c| c.is_ascii_alphanumeric() || c == '_').unwrap_or(false)
}

fn ws(t: &mut Tape, out: &mut String) {
    let n = 1 + t.weighted(&[70, 15, 10, 5]);
    for _ in 0..n {
        out.push_str(*t.pick(&[" ", " ", " ", "\n", "\t", "    ", "\n\n", "\r\n", "\n\t\t", "\r"]));
    }
}

/// Fragments comments are assembled from.
const BITS: &[&str] = &[
    "comment", " ", "a longer comment, with words", ";", "{", "}", "=", "const X = 1;", "struct foo { int a; };", "int", "opaque ",
    "//", "/*", "*", "/", "**", "\"", "'", "é漢字", "<>[]()*:;,", "case 1: default: void;", "-*- C -*-", "unsigned int x", "%passthru",
    "enum", " * / ", "\t", "union u switch (int d) {", "\\", "#define", "0x", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "\u{85}", "\u{b}", "\u{c}",
];

fn comment(t: &mut Tape, out: &mut String) {
    let n = match t.weighted(&[60, 25, 12, 2]) {
        0 => 1,
        1 => 0,
        2 => 2 + t.below(5),
        _ => 10 + t.below(200),
    };
    let mut body = String::new();
    let line = t.pct(40);
    for _ in 0..n {
        body.push_str(*t.pick(BITS));
        if !line && t.pct(12) {
            body.push_str(*t.pick(&["\n", "\r\n", "\n\n", "\r", "\n * "]));
        }
    }
    if line {
        out.push_str("//");
        out.push_str(&body);
        out.push_str(*t.pick(&["\n", "\n", "\n", "\r\n", "\r"]));
    } else {
        // the comment ends where we want it to
        while body.contains("*/") {
            body = body.replace("*/", "* /");
        }
        out.push_str("/*");
        out.push_str(&body);
        out.push_str("*/");
    }
}

/// How much is inserted: 0 compact, 1 usual, 2 noisy.
pub fn print_decls(decls: &[Decl], t: &mut Tape, noise: u32) -> String {
    let toks: Vec<Vec<String>> = decls.iter().map(decl_tokens).collect();
    print_tokens(&toks, t, noise)
}

/// The same for declarations given as tokens.
pub fn print_tokens(decls: &[Vec<String>], t: &mut Tape, noise: u32) -> String {
    let mut s = String::new();
    let mut prev: Option<String> = None;
    let sep = |t: &mut Tape, s: &mut String, need: bool| {
        let c = match noise {
            0 => 0,
            1 => 4,
            _ => 30,
        };
        if t.pct(c) {
            ws(t, s);
            for _ in 0..1 + t.below(2) {
                comment(t, s);
                ws(t, s);
            }
        } else if noise >= 1 && t.pct(if noise > 1 { 60 } else { 15 }) {
            ws(t, s);
        } else if need {
            s.push(' ');
        }
    };
    sep(t, &mut s, false);
    for d in decls {
        for tok in d {
            let tok = tok.clone();
            if let Some(p) = &prev {
                let need = (wordy(p) && wordy(&tok)) || tok == "*" || (noise >= 1 && (tok == "{" || tok == "="));
                sep(t, &mut s, need);
            }
            s.push_str(&tok);
            prev = Some(tok);
        }
        if noise >= 1 {
            s.push('\n');
        }
    }
    sep(t, &mut s, false);
    if noise > 1 && t.pct(15) {
        s.push_str(" // last comment, no newline");
    }
    s
}

/// Human-readable canonical layout.
pub fn canonical(spec: &Spec) -> String {
    let mut s = String::new();
    for d in &spec.decls {
        let toks = decl_tokens(d);
        let mut line = String::new();
        let mut prev = String::new();
        for t in toks {
            let glue = matches!(t.as_str(), ";" | "," | "[" | "]" | "<" | ">" | ":" | ")")
                || matches!(prev.as_str(), "[" | "<" | "*" | "(");
            if !line.is_empty() && !line.ends_with('\t') && !(glue) {
                line.push(' ');
            }
            line.push_str(&t);
            if t == "{" || (t == ";" && prev != "}") && !matches!(d, Decl::Const { .. } | Decl::Typedef { .. }) {
                line.push_str("\n\t");
            }
            prev = t;
        }
        s.push_str(&line.replace("\t}", "}").replace("\n\t\n", "\n"));
        s.push('\n');
    }
    s
}
