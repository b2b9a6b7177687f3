From 9bcb1c39e099841f66818b6b9981af0e43605c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 01/28] fix: read_bytes must not advance past the end when
 padding is missing

---
 src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..c770487 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,8 +133,8 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding
+            if self.remaining() < n || self.remaining() - n < pad_length(n) {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From bb181c5623ccec9b6def3cd25473ab029b043c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 02/28] fix: read_variable_array must not reserve memory from
 the wire count

---
 src/header.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index c770487..c10f844 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -160,7 +160,10 @@ pub mod xdr {
 
             // Try and decode n instances of T.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            //
+            // The count is not trusted to size the allocation - the Vec grows
+            // as elements are successfully decoded.
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
-- 
2.43.0


From 060c2fc1b16381bb1a541c6a4b2329e3e4dcc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 03/28] fix: read_variable_array must not advance past missing
 padding

---
 src/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index c10f844..59e10c5 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -174,6 +174,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From 67ba6724a79c735a95e8466e44b08d44d2b2155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 04/28] fix: wire_size of a counted opaque struct field must
 include the length prefix

---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..440d9b0 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -23,6 +23,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 SafeName(&f.field_name)
                             )?;
                         }
+
+                        // Variable length opaques carry a length prefix
+                        if let ArrayType::VariableSize(BasicType::Opaque, _) = f.field_value {
+                            writeln!(w, " 4 +")?;
+                        }
                     }
 
                     writeln!(w, "0")?;
-- 
2.43.0


From b8b73bf6600c4c1c3b61c450e13f7e5264f923bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 05/28] fix: wire_size of a typedef to a fixed length opaque
 has no length prefix

---
 src/impls/wire_size.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 440d9b0..cc196e0 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -94,10 +94,16 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                     |w| {
                         writeln!(w, "self.0.wire_size()")?;
 
-                        // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
-                        if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                        // If the target is opaque, it needs padding, and unless
+                        // it is of a fixed size, a length prefix adding.
+                        match (&v.target, &v.alias) {
+                            (BasicType::Opaque, ArrayType::FixedSize(..)) => {
+                                writeln!(w, "+ pad_length(self.0.wire_size())")?
+                            }
+                            (BasicType::Opaque, _) => {
+                                writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?
+                            }
+                            _ => {}
                         }
 
                         Ok(())
-- 
2.43.0


From 859fd471145283ebd96cc1e65abd46b40f8491b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 06/28] fix: enforce the declared maximum of a typedef to a
 bounded opaque

---
 src/ast/typedef.rs |  6 ------
 src/impls/from.rs  | 13 ++++++-------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..562cd1b 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -24,12 +24,6 @@ impl Typedef {
         let alias = if !vs.is_empty() {
             match vs.remove(0) {
                 Node::ArrayFixed(s) => ArrayType::FixedSize(alias, ArraySize::from(s)),
-
-                // Typedefs to opaque types include a variable array identifier so the
-                // caller knows to read the length prefix bytes. This is already handled
-                // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
-
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
                     match s.trim() {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..4c803dc 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -307,17 +307,16 @@ where
 
     // Print a length-prefixed variable sized array, or a string with a maximum value.
     let print_variable = |w: &mut W, t: &BasicType, size: Option<u32>| -> Result<()> {
-        let mut type_str = t.to_string();
+        let mut field = t.clone();
 
         // If requested, resolve a typedef the type to the target type.
         if !resolve_typedefs.use_alias() {
-            type_str = ast
-                .types()
-                .get(&type_str)
-                .map(|t| t.to_string())
-                .unwrap_or(type_str)
+            if let Some(typedef) = ast.types().typedef_target(t.as_str()) {
+                field = typedef.target.clone();
+            }
         }
 
+        let mut type_str = field.to_string();
         if ast.generics().contains(type_str.as_str()) {
             type_str = format!("{}<{}>", type_str, template.type_name());
         };
@@ -326,7 +325,7 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        match field {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
-- 
2.43.0


From 32b61dd7e5d3d11a2284bc8355428dd2bbac92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 07/28] fix: a typedef to a bounded string is a String, not an
 array of strings

---
 src/impls/types.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..61403bb 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -140,6 +140,13 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     continue;
                 }
 
+                // Likewise the array quantifier of a string is the maximum
+                // length of a single string.
+                if let (BasicType::String, ArrayType::VariableSize(..)) = (&v.target, &v.alias) {
+                    writeln!(w, "(pub String);")?;
+                    continue;
+                }
+
                 if ast.generics().contains(v.target.as_str()) {
                     write!(w, " (pub ")?;
                     target.write_with_bounds(w, Some(&["T"]))?;
-- 
2.43.0


From 29eec324ad5bd68bc70bb8e058a04b2d7b718ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 08/28] fix: a union default with data must hold and size its
 data

---
 src/impls/from.rs      |  2 +-
 src/impls/types.rs     | 33 ++++++++++++++++++++-------------
 src/impls/wire_size.rs | 41 +++++++++++++++++++++++------------------
 3 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 4c803dc..04dec87 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -176,7 +176,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 61403bb..922a335 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArrayType, Ast, BasicType, UnionCase};
 use crate::Result;
 
 const TRAIT_BOUNDS: &str = "<T> where T: AsRef<[u8]> + Debug";
@@ -72,16 +72,7 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     //
                     for c_value in case.case_values.iter() {
                         write!(w, "{}(", NonDigitName(SafeName(&c_value)))?;
-
-                        match case.field_value.unwrap_array() {
-                            BasicType::Opaque => write!(w, "T")?,
-                            BasicType::String => write!(w, "String")?,
-                            BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => {
-                                write!(w, "{}<T>", i)?
-                            }
-                            _ => write!(w, "{}", case.field_value)?,
-                        }
-
+                        print_case_type(w, ast, case)?;
                         writeln!(w, "),")?;
                     }
                 }
@@ -91,8 +82,12 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
+                // Any case values that fall through to a default with data are
+                // decoded as (and covered by) the default variant.
+                if let Some(case) = &v.default {
+                    write!(w, "default(")?;
+                    print_case_type(w, ast, case)?;
+                    writeln!(w, "),")?;
                 }
 
                 writeln!(w, "}}")?;
@@ -161,6 +156,18 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
     Ok(())
 }
 
+/// Prints the type of the data held by a union case.
+fn print_case_type<W: std::fmt::Write>(w: &mut W, ast: &Ast, case: &UnionCase) -> Result<()> {
+    match case.field_value.unwrap_array() {
+        BasicType::Opaque => write!(w, "T")?,
+        BasicType::String => write!(w, "String")?,
+        BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => write!(w, "{}<T>", i)?,
+        _ => write!(w, "{}", case.field_value)?,
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index cc196e0..f8a0cca 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType, UnionCase};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -38,9 +38,23 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
                     writeln!(w, "4 + match self {{")?;
-                    // Iterate over all the variants of v, including the
-                    // default.
-                    for case in v.cases.iter().chain(v.default.iter()) {
+                    let print_case = |w: &mut W, variant: &str, case: &UnionCase| -> Result<()> {
+                        write!(
+                            w,
+                            r#"Self::{}(inner) => inner.wire_size()"#,
+                            NonDigitName(SafeName(variant))
+                        )?;
+
+                        // In-line opaques require padding
+                        if case.contains_opaque() {
+                            writeln!(w, r#" + pad_length(inner.wire_size()),"#)?;
+                        } else {
+                            writeln!(w, ",")?;
+                        }
+                        Ok(())
+                    };
+
+                    for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
                         //
@@ -49,18 +63,7 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         // 		// statement
                         //
                         for c_value in case.case_values.iter() {
-                            write!(
-                                w,
-                                r#"Self::{}(inner) => inner.wire_size()"#,
-                                NonDigitName(SafeName(c_value))
-                            )?;
-
-                            // In-line opaques require padding
-                            if case.contains_opaque() {
-                                writeln!(w, r#" + pad_length(inner.wire_size()),"#)?;
-                            } else {
-                                writeln!(w, ",")?;
-                            }
+                            print_case(w, c_value, case)?;
                         }
                     }
 
@@ -69,8 +72,10 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
+                    // All case values that fall through to a default with data
+                    // are held in the single default variant.
+                    if let Some(case) = &v.default {
+                        print_case(w, "default", case)?;
                     }
 
                     writeln!(w, "}}")?;
-- 
2.43.0


From 355a419bcda901ad9e7f81abb32a1a6ac1621e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 09/28] fix: match void TRUE/FALSE union cases by value instead
 of binding an identifier

---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 04dec87..96435e5 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -157,7 +157,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From c9fb8a7cbe0ab998105c24b677cb97b5003a9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 10/28] fix: a void default must not shadow the void cases
 declared after it

---
 src/impls/from.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 96435e5..f177c87 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -136,14 +136,16 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     }
 
                     // There may also be several "void" cases
-                    let mut did_void_default = false;
-                    for c in v.void_cases.iter() {
+                    //
+                    // The default is a catch all, so it must follow every other
+                    // case irrespective of where it is declared.
+                    let (void_defaults, void_cases): (Vec<_>, Vec<_>) =
+                        v.void_cases.iter().partition(|c| *c == "default");
+                    let did_void_default = !void_defaults.is_empty();
+                    for c in void_cases.into_iter().chain(void_defaults) {
                         let variant = c.as_str();
                         let matcher = match variant {
-                            "default" => {
-                                did_void_default = true;
-                                "_".to_string()
-                            }
+                            "default" => "_".to_string(),
                             other => ast
                                 .constants()
                                 .get(other)
-- 
2.43.0


From 93ad03e8d8c48b224bf0124aebed022a0af40a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 11/28] fix: resolve the whole typedef chain of a union switch
 type

---
 src/ast/indexes/type_index.rs | 21 ++++++++++++++++++++-
 src/impls/from.rs             | 10 +++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ast/indexes/type_index.rs b/src/ast/indexes/type_index.rs
index 80047e1..9dda7a3 100644
--- a/src/ast/indexes/type_index.rs
+++ b/src/ast/indexes/type_index.rs
@@ -1,4 +1,4 @@
-use crate::ast::{Enum, Node, Struct, Typedef, Union};
+use crate::ast::{ArrayType, BasicType, Enum, Node, Struct, Typedef, Union};
 use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -72,6 +72,25 @@ impl TypeIndex {
         }
     }
 
+    /// Follows the typedef chain starting at `t`, returning the type at the end
+    /// of it. If `t` is not a typedef of a single value, `t` is returned.
+    pub fn resolve_typedef<'a>(&'a self, t: &'a BasicType) -> &'a BasicType {
+        let mut resolved = t;
+
+        // Bound the search, typedefs may be declared as a cycle.
+        for _ in 0..self.0.len() {
+            match (resolved, self.typedef_target(resolved.as_str())) {
+                (BasicType::Ident(_), Some(typedef)) => match typedef.alias {
+                    ArrayType::None(_) => resolved = &typedef.target,
+                    _ => break,
+                },
+                _ => break,
+            }
+        }
+
+        resolved
+    }
+
     /// Iterates over the types in the type index.
     pub fn iter(&self) -> impl std::iter::Iterator<Item = &AstType> {
         self.0.values()
diff --git a/src/impls/from.rs b/src/impls/from.rs
index f177c87..a3b4968 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -74,11 +74,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
             }
 
             AstType::Union(v) => {
+                // The switch is matched on the type at the end of any typedef
+                // chain, and not the typedef.
+                let switch_type = ast.types().resolve_typedef(&v.switch.var_type);
+
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
                     write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
                     print_decode_basic_type(
                         w,
-                        &v.switch.var_type,
+                        switch_type,
                         ast,
                         TypeResolve::UseTarget,
                         try_from,
@@ -112,7 +116,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(c_value).to_string());
@@ -156,7 +160,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(other).to_string()),
-- 
2.43.0


From 5072dee87fec8e6976544a61117d2bc7140457be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 12/28] fix: wire_size of a union with a 64-bit discriminant

---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index f8a0cca..340a8f8 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -37,7 +37,12 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    // The discriminant may be an 8 byte integer
+                    let switch_size = match ast.types().resolve_typedef(&v.switch.var_type) {
+                        BasicType::U64 | BasicType::I64 => 8,
+                        _ => 4,
+                    };
+                    writeln!(w, "{} + match self {{", switch_size)?;
                     let print_case = |w: &mut W, variant: &str, case: &UnionCase| -> Result<()> {
                         write!(
                             w,
-- 
2.43.0


From f706a3b3662eaf49037ff62b40e00f98539a2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 13/28] fix: integer case labels of a union switching on an
 enum

---
 src/impls/from.rs | 89 ++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index a3b4968..3d65f6e 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -80,13 +80,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
                     write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
-                    print_decode_basic_type(
-                        w,
-                        switch_type,
-                        ast,
-                        TypeResolve::UseTarget,
-                        try_from,
-                    )?;
+                    print_decode_basic_type(w, switch_type, ast, TypeResolve::UseTarget, try_from)?;
                     writeln!(w, "?;")?;
 
                     writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
@@ -99,27 +93,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                         // 		// statement
                         //
                         for c_value in c.case_values.iter() {
-                            // The case value may be a declared constant or enum
-                            // value.
-                            //
-                            // Enum values are i32, which may not be the same as
-                            // the type of the variable this code is matching
-                            // on, so write enums in a longer form to allow a
-                            // primitive cast.
-                            let matcher = ast
-                                .constants()
-                                .get(c_value.as_str())
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, switch_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| SafeName(c_value).to_string());
+                            let matcher = case_matcher(ast, switch_type, c_value)?;
 
                             write!(
                                 w,
@@ -150,20 +124,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                         let variant = c.as_str();
                         let matcher = match variant {
                             "default" => "_".to_string(),
-                            other => ast
-                                .constants()
-                                .get(other)
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, switch_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| SafeName(other).to_string()),
+                            other => case_matcher(ast, switch_type, other)?,
                         };
                         writeln!(
                             w,
@@ -232,6 +193,48 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Returns the pattern matching a union discriminant of type `switch_type`
+/// against the case value `label`.
+fn case_matcher(ast: &Ast, switch_type: &BasicType, label: &str) -> Result<String> {
+    // Enum values are i32, which may not be the same as the type of the
+    // variable this code is matching on, so write enums in a longer form to
+    // allow a primitive cast.
+    let enum_matcher = |enum_name: &str, variant: &str| {
+        format!("c if c == {}::{} as {}", enum_name, variant, switch_type)
+    };
+
+    // The case value may be a declared constant or enum value.
+    let value = match ast.constants().get(label) {
+        Some(ConstantType::EnumValue { enum_name, variant }) => {
+            return Ok(enum_matcher(enum_name, variant));
+        }
+        Some(ConstantType::ConstValue(v)) => v,
+        None => label,
+    };
+
+    // An integer cannot be matched against an enum, use the member it is the
+    // value of instead.
+    if let Some(AstType::Enum(e)) = ast.types().get(switch_type.as_str()) {
+        let member = e
+            .variants
+            .iter()
+            .find(|m| match &m.value {
+                VariantValue::String(name) => match ast.constants().get(name) {
+                    Some(ConstantType::ConstValue(v)) => {
+                        VariantValue::from(v) == VariantValue::from(value)
+                    }
+                    _ => false,
+                },
+                v => *v == VariantValue::from(value),
+            })
+            .ok_or(format!("case {} is not a member of {}", label, e.name))?;
+
+        return Ok(enum_matcher(&e.name, &member.name));
+    }
+
+    Ok(SafeName(value).to_string())
+}
+
 /// Prints the `impl TryFrom` block around the output of func.
 ///
 /// `func` should write the body of the `try_from` implementation to `w`, using
-- 
2.43.0


From 14a97d563b03ceb51b6e971f3ebbfa6b27f9661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 14/28] fix: accept hexadecimal constants as array sizes

---
 src/impls/from.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 3d65f6e..2a753e0 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -357,7 +357,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -370,7 +370,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
@@ -380,6 +380,16 @@ where
     Ok(())
 }
 
+/// Parses the value of a constant used as an array size, either in decimal or
+/// hexadecimal form.
+fn parse_size(size: &str) -> Result<u32> {
+    let size = match size.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16)?,
+        None => size.parse()?,
+    };
+    Ok(size)
+}
+
 /// Generates the template required to decode `t` from a variable called `v`
 /// that implements the reader trait.
 ///
-- 
2.43.0


From 40668e813c7592507e6c63637cabb7936d3c5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 15/28] fix: white space and comments are not part of a numeric
 literal

---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..196a0ca 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
-- 
2.43.0


From f94b3fa20f5c5223847975a15d546d7d79374a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 16/28] fix: any white space and comments may separate the
 words of an unsigned type

---
 src/ast/mod.rs | 8 +++++++-
 src/xdr.pest   | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..bcd5f72 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -114,7 +114,13 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
         Rule::union_void => Node::UnionVoid,
         Rule::option => Node::Option(collect_values(ast)),
         Rule::basic_type => {
-            Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
+            // Any white space and comments may separate the words of a type.
+            let name = match ast.as_str().trim() {
+                v if v.starts_with("unsigned") && v.ends_with("int") => "unsigned int",
+                v if v.starts_with("unsigned") && v.ends_with("hyper") => "unsigned hyper",
+                v => v,
+            };
+            Node::Type(BasicType::try_from(name).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
         e => panic!("unknown token type {:?}", e),
diff --git a/src/xdr.pest b/src/xdr.pest
index 196a0ca..4b3984e 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ (WHITESPACE | comment)+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From f5c21c081e67b12ab44b202462a748946086f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 17/28] fix: return an error for unsupported struct and union
 fields instead of panicking

---
 src/ast/indexes/generic_types.rs |  1 +
 src/ast/mod.rs                   | 17 +++++++++++++--
 src/ast/node.rs                  |  4 ++++
 src/ast/structure.rs             | 19 ++++++++--------
 src/ast/union.rs                 | 37 +++++++++++++++++++-------------
 5 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/ast/indexes/generic_types.rs b/src/ast/indexes/generic_types.rs
index 757cb69..e445e5c 100644
--- a/src/ast/indexes/generic_types.rs
+++ b/src/ast/indexes/generic_types.rs
@@ -66,6 +66,7 @@ impl GenericIndex {
 
                 // These Nodes will never contain an opaque/generic type.
                 Node::EOF
+                | Node::Invalid(_)
                 | Node::Enum(_)
                 | Node::Constant(_)
                 | Node::EnumVariant(_)
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index bcd5f72..68b3ec0 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -53,6 +53,15 @@ impl Ast {
         // Parse into an AST
         let ast = walk(root.next().ok_or("unable to tokenise input")?);
 
+        // Reject any declarations that cannot be represented
+        if let Node::Root(items) = &ast {
+            for item in items {
+                if let Node::Invalid(reason) = item {
+                    return Err(reason.as_str().into());
+                }
+            }
+        }
+
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
         let constant_index = ConstantIndex::new(&ast);
@@ -105,10 +114,14 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
         Rule::array => Node::Array(collect_values(ast)),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
+        Rule::struct_type => Struct::new(collect_values(ast))
+            .map(Node::Struct)
+            .unwrap_or_else(Node::Invalid),
         Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
         Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
+        Rule::union => Union::new(collect_values(ast))
+            .map(Node::Union)
+            .unwrap_or_else(Node::Invalid),
         Rule::union_case => Node::UnionCase(collect_values(ast)),
         Rule::union_default => Node::UnionDefault(collect_values(ast)),
         Rule::union_void => Node::UnionVoid,
diff --git a/src/ast/node.rs b/src/ast/node.rs
index dfdef83..061cb83 100644
--- a/src/ast/node.rs
+++ b/src/ast/node.rs
@@ -20,6 +20,10 @@ pub(crate) enum Node<'a> {
     EnumVariant(Vec<Node<'a>>),
     Root(Vec<Node<'a>>),
 
+    /// A declaration accepted by the grammar that cannot be represented, and the
+    /// reason why.
+    Invalid(String),
+
     EOF,
 }
 
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..826c82f 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,16 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> std::result::Result<Self, String> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            let field = StructField::new(v).map_err(|e| format!("struct {}: {}", name, e))?;
+            fields.push(field);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +42,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> std::result::Result<Self, String> {
         let f = match v {
             Node::StructDataField(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not a struct field: {:?}", e)),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +73,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".to_string()),
                 };
 
                 Self {
@@ -81,8 +82,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            v => return Err(format!("unsupported struct field {:?}", v)),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..9eb52d8 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> std::result::Result<Self, String> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -41,8 +41,9 @@ impl Union {
                     case_values.push("default".to_string());
                     CaseStmt::parse(case_values, nodes)
                 }
-                v => panic!("unexpected token type for union {:?}", v),
+                v => return Err(format!("union {}: unexpected token type {:?}", name, v)),
             };
+            let stmt = stmt.map_err(|e| format!("union {}: {}", name, e))?;
 
             match stmt {
                 CaseStmt::Defined(c) if is_default_case => default = Some(c),
@@ -59,13 +60,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,14 +103,17 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(
+        case_values: Vec<String>,
+        field: Vec<Node<'_>>,
+    ) -> std::result::Result<Self, String> {
         match field.as_slice() {
-            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
+            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Ok(Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
-            },
-            _ => panic!("invalid number of union field tokens"),
+            }),
+            v => Err(format!("unsupported union field {:?}", v)),
         }
     }
 
@@ -130,29 +134,32 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(
+        mut case_values: Vec<String>,
+        mut nodes: Vec<Node<'_>>,
+    ) -> std::result::Result<Self, String> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
             _ => unreachable!(),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
-        match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
+        Ok(match nodes.remove(0) {
+            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)?),
             Node::UnionVoid => Self::Void(case_values),
             _ => unreachable!(),
-        }
+        })
     }
 }
 
-- 
2.43.0


From 4f731778d9d1bf3ca232aeb139744d7dfc4aadad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 18/28] fix: do not panic on an enum value that is not a valid
 hexadecimal i32

---
 src/ast/enumeration.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..6d61269 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -49,12 +49,12 @@ where
 {
     fn from(v: T) -> Self {
         let v = v.as_ref();
-        if v.starts_with("0x") {
-            let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
-        }
+        let parsed = match v.strip_prefix("0x") {
+            Some(hex) => i32::from_str_radix(hex, 16),
+            None => v.parse::<i32>(),
+        };
 
-        v.parse::<i32>()
+        parsed
             .map(Self::Numeric)
             .unwrap_or_else(|_| Self::String(v.to_string()))
     }
-- 
2.43.0


From 8ce500ffe9e8fc208fc55c556074aa99f0017784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 19/28] fix: return an error for fixed length strings instead
 of panicking

---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 2a753e0..eed5f6a 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -301,7 +301,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unsupported fixed length string".into()),
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From 4326199f614b600a08c8c6db0ae24a5e7f29e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 20/28] fix: return an error for duplicate constants instead of
 panicking

---
 src/ast/indexes/constants.rs | 11 +++++++----
 src/ast/mod.rs               |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..f842039 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -1,4 +1,5 @@
 use crate::ast::Node;
+use crate::Result;
 use std::collections::BTreeMap;
 
 #[derive(Debug)]
@@ -21,7 +22,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +36,7 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(format!("duplicate case keys {}", vs[0].ident_str()).into());
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +55,9 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(
+                                    format!("duplicate case keys {}", v.name.as_str()).into()
+                                );
                             }
                         }
                     }
@@ -63,7 +66,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 68b3ec0..b78dc32 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -64,7 +64,7 @@ impl Ast {
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
-- 
2.43.0


From 7e1cd038a420d547bba091c0546a0a43500ac18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 21/28] fix: escape the remaining reserved words

---
 src/ast/basic_type.rs | 12 +++++++-----
 src/impls/mod.rs      | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..bafe250 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -42,11 +42,13 @@ impl<'a> BasicType {
         };
 
         match name.as_str() {
-            "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn"
-            | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
-            | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
-            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+            | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false"
+            | "final" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "macro"
+            | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return"
+            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "try"
+            | "type" | "typeof" | "union" | "unsafe" | "unsized" | "use" | "virtual" | "where"
+            | "while" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..be244fb 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -19,11 +19,13 @@ where
 {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self.0.as_ref() {
-            "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn"
-            | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
-            | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
-            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+            | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false"
+            | "final" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "macro"
+            | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return"
+            | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "try"
+            | "type" | "typeof" | "union" | "unsafe" | "unsized" | "use" | "virtual" | "where"
+            | "while" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From 51c8737136d2bb873c4b5a84f7ece2304fa45391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 22/28] fix: do not implement traits for the undeclared type of
 a typedef to itself

---
 src/ast/typedef.rs     | 5 +++++
 src/impls/from.rs      | 3 +++
 src/impls/types.rs     | 2 +-
 src/impls/wire_size.rs | 3 +++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 562cd1b..13a0f7e 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -39,4 +39,9 @@ impl Typedef {
 
         Self { target, alias }
     }
+    /// Returns true if the target and alias are names for the same type, such as
+    /// `typedef unsigned int uint32_t`.
+    pub(crate) fn is_self_alias(&self) -> bool {
+        self.target == *self.alias.unwrap_array()
+    }
 }
diff --git a/src/impls/from.rs b/src/impls/from.rs
index eed5f6a..76cb375 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -168,6 +168,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // No typedefs to self, there is no type declared for them.
+            AstType::Typedef(v) if v.is_self_alias() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 922a335..da24e02 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -104,7 +104,7 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
             AstType::Typedef(v) => {
                 // No typedefs to self - this occurs because the ident/type values
                 // convert common types directly.
-                if v.target == *v.alias.unwrap_array() {
+                if v.is_self_alias() {
                     continue;
                 }
 
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 340a8f8..8964263 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -95,6 +95,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // No typedefs to self, there is no type declared for them.
+            AstType::Typedef(v) if v.is_self_alias() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From 1e8656c3778a28fcfca17e356be5d26d85fb3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 23/28] fix: the CLI must print exactly the generated text

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 1d700f194949b4e048e4af8465ac8daada6093e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 24/28] fix: the CLI must not panic on arguments that are not
 UTF-8

---
 src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b182a2b..fa18860 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,12 +3,12 @@ use fastxdr::Result;
 use std::env;
 
 fn main() -> Result<()> {
-    if env::args().len() < 2 {
-        println!("usage: {} ./path/to/spec.x", env::args().next().unwrap());
+    if env::args_os().len() < 2 {
+        println!("usage: {} ./path/to/spec.x", env!("CARGO_PKG_NAME"));
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
         print!("{}", code);
-- 
2.43.0


From 4fbe57cf012e3b5730edc44df48168ebc12afed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 25/28] fix: decode optional primitive types with their readers

---
 src/impls/from.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 76cb375..6687ba1 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -46,12 +46,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             // 		}
                             writeln!(w, "{{ match v.read_u32()? {{")?;
                             writeln!(w, "0 => None,")?;
-                            writeln!(
+                            write!(w, "1 => Some(Box::new(")?;
+                            print_decode_basic_type(
                                 w,
-                                "1 => Some(Box::new({}::try_from({})?)),",
                                 f.field_value.unwrap_array(),
-                                try_from
+                                ast,
+                                TypeResolve::UseAlias,
+                                try_from,
                             )?;
+                            writeln!(w, "?)),")?;
                             writeln!(w, "d => return Err(Error::UnknownOptionVariant(d)),")?;
                             writeln!(w, "}}}},")?;
                         } else {
-- 
2.43.0


From b8d52ad79def895fbe97980977a3469acf0b274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 26/28] fix: a union discriminant called v must not shadow the
 buffer

---
 src/impls/from.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 6687ba1..8f677a0 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -81,12 +81,18 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 // chain, and not the typedef.
                 let switch_type = ast.types().resolve_typedef(&v.switch.var_type);
 
+                // The discriminant must not shadow the buffer, which is called "v".
+                let switch_var = match v.switch.var_name.as_str() {
+                    "v" => "v_v".to_string(),
+                    other => SafeName(other).to_string(),
+                };
+
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
-                    write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
+                    write!(w, "let {} = ", switch_var)?;
                     print_decode_basic_type(w, switch_type, ast, TypeResolve::UseTarget, try_from)?;
                     writeln!(w, "?;")?;
 
-                    writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
+                    writeln!(w, "Ok(match {} {{", switch_var)?;
                     for c in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
-- 
2.43.0


From 84230b834a69f8c82211e607cad8d975067246f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 27/28] fix: a union discriminant must not share its name with
 a constant or typedef

---
 src/impls/from.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 8f677a0..5c48ffd 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -81,10 +81,16 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 // chain, and not the typedef.
                 let switch_type = ast.types().resolve_typedef(&v.switch.var_type);
 
-                // The discriminant must not shadow the buffer, which is called "v".
+                // The discriminant must not shadow the buffer, which is called "v",
+                // and a binding cannot share its name with a constant or typedef.
                 let switch_var = match v.switch.var_name.as_str() {
-                    "v" => "v_v".to_string(),
-                    other => SafeName(other).to_string(),
+                    name if name == "v"
+                        || ast.constants().get(name).is_some()
+                        || ast.types().get(name).is_some() =>
+                    {
+                        format!("{}_v", name)
+                    }
+                    name => SafeName(name).to_string(),
                 };
 
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
-- 
2.43.0


From 5bc1d394123718871ab9b7f4b32c599cfc09bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 28/28] fix: count the length prefix of optional opaques

---
 src/impls/wire_size.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 8964263..ca5c6b7 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -28,6 +28,15 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         if let ArrayType::VariableSize(BasicType::Opaque, _) = f.field_value {
                             writeln!(w, " 4 +")?;
                         }
+
+                        // As do optional opaques, if they are present
+                        if f.is_optional && f.contains_opaque() {
+                            writeln!(
+                                w,
+                                " self.{}.as_ref().map_or(0, |_| 4) +",
+                                SafeName(&f.field_name)
+                            )?;
+                        }
                     }
 
                     writeln!(w, "0")?;
-- 
2.43.0

