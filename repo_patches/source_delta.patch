From cbc7fbb0008fe23bdd40a499ffb4f4130107b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 01/16] fix: compute jump offsets across the 32 KiB mark
 without overflowing

Location::relative cast both locations to i16 before subtracting, so a short
jump between locations on either side of 32768 overflowed (a panic in builds
with overflow checks).
---
 core/src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..f882b6b 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -975,7 +975,7 @@ impl Location {
 
     #[inline]
     pub fn relative(&self, base: Location) -> Offset {
-        Offset::new(self.value as i16 - base.value as i16)
+        Offset::new(self.value.wrapping_sub(base.value) as i16)
     }
 }
 
-- 
2.43.0


From 4e6af1cc9b38067704adb66d08b183e5b039b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 02/16] fix: refuse bundles with unknown tags instead of
 panicking

An unknown definition kind, bit field, visibility or type tag aborted the
process; report InvalidData like an unknown instruction code does.
---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..e6f2a25 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => {
+                let msg = format!("Unknown Type enum value {tag}");
+                Err(io::Error::new(io::ErrorKind::InvalidData, msg))
+            }
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From e576e0dc25e1dd147f22981a1e577506cae3f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:10 +0000
Subject: [PATCH 03/16] fix: keep grouping arguments after one that holds two
 quoted paths

---
 scc/cli/src/opts.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..17904a9 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -9,7 +9,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
 
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
-        let contains_quote = arg.contains('"');
+        let quote_count = arg.matches('"').count();
+        let contains_quote = quote_count > 0;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +40,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        // a pair of quotes in a single arg leaves the grouping of the args that follow it intact
+        if quote_count % 2 != 0 {
             broken = !broken;
         }
     }
-- 
2.43.0


From 5e6adb558a62de83198c7ba816946dfaedf63ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 04/16] fix: show super calls with an explicit this context as
 super calls

---
 decompiler/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..198f2bb 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -291,6 +291,11 @@ impl<'a> Decompiler<'a> {
                 let fun = self.pool.function(idx)?;
                 let name = Ident::from_heap(self.pool.names.get(def.name)?);
                 let params = self.consume_params()?;
+                let is_super_call = !fun.flags.is_static()
+                    && self.definition.name == def.name
+                    && self.definition.parent != def.parent;
+                // super calls can come with an explicit `this` context
+                let context = context.filter(|ctx| !is_super_call || !ctx.is_this());
                 if let Some(ctx) = context {
                     Expr::MethodCall(Box::new(ctx), name, params, Span::ZERO)
                 } else if fun.flags.is_static() {
@@ -310,7 +315,7 @@ impl<'a> Decompiler<'a> {
                         Expr::MethodCall(expr, name, params, Span::ZERO)
                     }
                 } else {
-                    let ctx = if self.definition.name == def.name && self.definition.parent != def.parent {
+                    let ctx = if is_super_call {
                         Expr::Super(Span::ZERO)
                     } else {
                         Expr::This(Span::ZERO)
-- 
2.43.0


From 8e13475031129f2c3e5cb3c0ffa3a8809d1eea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 05/16] fix: continue after the end of a loop or else branch
 that breaks or returns early

---
 decompiler/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 198f2bb..00b5472 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -126,12 +126,15 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            // the body can end early, with a break or a return
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
             self.code.seek_abs(target)?;
             if let Some(jump) = resolve_jump(&mut body) {
                 let else_case = self.consume_path(jump.position, block)?;
+                self.code.seek_abs(jump.position)?;
                 Expr::If(condition.into(), body, Some(else_case), Span::ZERO)
             } else {
                 Expr::If(condition.into(), body, None, Span::ZERO)
-- 
2.43.0


From c9af7621fdce74d7797066b980b59f341c848ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 06/16] fix: recognise breaks nested in the last case of a
 switch without default

---
 decompiler/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 00b5472..a82b775 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -161,7 +161,11 @@ impl<'a> Decompiler<'a> {
 
         let mut default = None;
         let mut cases = Vec::new();
-        let mut block = None;
+        // without a default the switch ends right after its last case
+        let mut block = match self.code.peek() {
+            Some(Instr::SwitchDefault) => None,
+            _ => Some(BlockContext::new_switch(self.code.pos())),
+        };
         for (label, start_position) in labels {
             self.code.seek_abs(label)?;
 
@@ -199,6 +203,11 @@ impl<'a> Decompiler<'a> {
             }
         }
 
+        if let Some(BlockContext::Switch { epilogue }) = block {
+            // the last body can end early, with a break or a return
+            self.code.seek_abs(epilogue)?;
+        }
+
         Ok(Expr::Switch(Box::new(subject), cases, default, Span::ZERO))
     }
 
-- 
2.43.0


From 5c5613392ad068259600b975b5b985adec427237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:23 +0000
Subject: [PATCH 07/16] fix: print numeric literals so that they read back as
 the same number

---
 decompiler/src/print.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..5fc3240 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -1,3 +1,4 @@
+use std::fmt::Display;
 use std::io::Write;
 use std::str::FromStr;
 
@@ -259,9 +260,9 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
+            Constant::F32(lit) => write!(out, "{}", format_float(*lit))?,
+            Constant::F64(lit) => write!(out, "{}d", format_float(*lit))?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
@@ -477,6 +478,15 @@ fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
     Ok(result)
 }
 
+/// Two decimals, or as many as it takes to read back as the same number.
+fn format_float<F: PartialEq + FromStr + Display>(lit: F) -> String {
+    let short = format!("{lit:.2}");
+    match short.parse::<F>() {
+        Ok(read) if read == lit => short,
+        _ => lit.to_string(),
+    }
+}
+
 fn format_binop(op: BinOp) -> &'static str {
     match op {
         BinOp::AssignAdd => "+=",
-- 
2.43.0


From e7ee20b63eb5d0f09a919b8a73cccd84517470bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:04 +0000
Subject: [PATCH 08/16] fix: print parentheses wherever an expression would
 read back differently without them

---
 core/src/ast.rs         |  16 +++---
 decompiler/src/print.rs | 106 ++++++++++++++++++++++++++++------------
 2 files changed, 82 insertions(+), 40 deletions(-)

diff --git a/core/src/ast.rs b/core/src/ast.rs
index 4d5d9ba..3bb5236 100644
--- a/core/src/ast.rs
+++ b/core/src/ast.rs
@@ -140,7 +140,7 @@ pub enum Constant {
 
 pub type Ident = super::Str;
 
-#[derive(Debug, Clone, Copy, Display, EnumString, IntoStaticStr)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Display, EnumString, IntoStaticStr)]
 pub enum BinOp {
     #[strum(serialize = "OperatorAssignAdd")]
     AssignAdd,
@@ -217,6 +217,7 @@ impl BinOp {
             | BinOp::AssignDivide
             | BinOp::AssignOr
             | BinOp::AssignAnd
+            | BinOp::Subtract
             | BinOp::Divide
             | BinOp::Modulo
             | BinOp::Equal
@@ -225,19 +226,14 @@ impl BinOp {
             | BinOp::LessEqual
             | BinOp::Greater
             | BinOp::GreaterEqual => false,
-            BinOp::LogicOr
-            | BinOp::LogicAnd
-            | BinOp::Or
-            | BinOp::Xor
-            | BinOp::And
-            | BinOp::Add
-            | BinOp::Subtract
-            | BinOp::Multiply => true,
+            BinOp::LogicOr | BinOp::LogicAnd | BinOp::Or | BinOp::Xor | BinOp::And | BinOp::Add | BinOp::Multiply => {
+                true
+            }
         }
     }
 
     pub fn does_associate(self, parent: BinOp) -> bool {
-        parent.precedence() > self.precedence() || (parent.precedence() == self.precedence() && parent.associative())
+        parent.precedence() > self.precedence() || (parent == self && parent.associative())
     }
 }
 
diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 5fc3240..c1fe974 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -250,6 +250,12 @@ fn write_expr_nested<W: Write>(
     verbose: bool,
     depth: usize,
 ) -> Result<(), Error> {
+    if parent_op.is_some_and(|op| op.needs_parens(expr, verbose)) {
+        write!(out, "(")?;
+        write_expr(out, expr, verbose, depth)?;
+        write!(out, ")")?;
+        return Ok(());
+    }
     match expr {
         Expr::Ident(ident, _) => write!(out, "{}", ident)?,
         Expr::Constant(cons, _) => match cons {
@@ -267,15 +273,8 @@ fn write_expr_nested<W: Write>(
             Constant::Bool(false) => write!(out, "false")?,
         },
         Expr::Cast(type_, expr, _) => {
-            if parent_op.is_some() {
-                write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
-                write!(out, " as {}", type_.pretty())?;
-                write!(out, ")")?;
-            } else {
-                write_expr(out, expr, verbose, 0)?;
-                write!(out, " as {}", type_.pretty())?;
-            }
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
+            write!(out, " as {}", type_.pretty())?;
         }
         Expr::Declare(name, type_, val, _) => {
             write!(out, "let {}", name)?;
@@ -288,7 +287,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Assign(lhs, rhs, _) => {
-            write_expr(out, lhs, verbose, 0)?;
+            write_expr_nested(out, lhs, Some(ParentOp::BinOpLeft(BinOp::AssignAdd)), verbose, 0)?;
             write!(out, " = ")?;
             write_expr(out, rhs, verbose, 0)?;
         }
@@ -299,7 +298,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -356,7 +355,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            write_expr_nested(out, condition, Some(ParentOp::BinOpLeft(BinOp::AssignAdd)), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
@@ -371,7 +370,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -400,24 +399,11 @@ fn write_call<W: Write>(
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
     if let Ok(binop) = BinOp::from_str(fun_name) {
-        if parent_op
-            .filter(|op| match op {
-                ParentOp::UnOp | ParentOp::Dot => true,
-                ParentOp::BinOp(op) => !binop.does_associate(*op),
-            })
-            .is_some()
-        {
-            write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
-            write!(out, ")")?;
-            Ok(())
-        } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
-        }
+        write_binop(out, &params[0], &params[1], binop, verbose)
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
         write_unop(out, &params[0], unop, verbose)
-    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+    } else if is_hidden_conversion(fun_name) && !verbose {
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -443,7 +429,7 @@ fn write_binop<W: Write>(
     op: BinOp,
     verbose: bool,
 ) -> Result<(), Error> {
-    write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
+    write_expr_nested(out, lhs, Some(ParentOp::BinOpLeft(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
     write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
 }
@@ -522,8 +508,68 @@ fn format_unop(op: UnOp) -> &'static str {
     }
 }
 
+fn is_hidden_conversion(fun_name: &str) -> bool {
+    matches!(fun_name, "WeakRefToRef" | "RefToWeakRef" | "AsRef")
+}
+
+#[derive(Clone, Copy)]
 enum ParentOp {
     UnOp,
+    /// left operand
+    BinOpLeft(BinOp),
+    /// right operand
     BinOp(BinOp),
+    /// left operand of a postfix operator
     Dot,
 }
+
+impl ParentOp {
+    fn needs_parens(self, expr: &Expr<SourceAst>, verbose: bool) -> bool {
+        match (self, Binding::of(expr, verbose)) {
+            (_, Binding::Postfix) => false,
+            (ParentOp::Dot, _) => true,
+            (_, Binding::Prefix) => false,
+            (ParentOp::UnOp, _) => true,
+            (ParentOp::BinOpLeft(parent), Binding::Infix(op)) => {
+                op.precedence() > parent.precedence() || op.precedence() == BinOp::AssignAdd.precedence()
+            }
+            (ParentOp::BinOp(parent), Binding::Infix(op)) => !op.does_associate(parent),
+        }
+    }
+}
+
+/// How tightly an expression holds together once printed
+enum Binding {
+    Postfix,
+    Prefix,
+    Infix(BinOp),
+}
+
+impl Binding {
+    fn of(expr: &Expr<SourceAst>, verbose: bool) -> Self {
+        match expr {
+            Expr::Constant(Constant::String(..) | Constant::Bool(_), _) => Binding::Postfix,
+            // might start with a sign, or take a dot that follows for its own
+            Expr::Constant(..) => Binding::Prefix,
+            // parsed at the same level as the assignment operators
+            Expr::Assign(..) | Expr::Conditional(..) => Binding::Infix(BinOp::AssignAdd),
+            // what follows could be read as a part of the type
+            Expr::Cast(..) => Binding::Infix(BinOp::AssignAdd),
+            Expr::BinOp(_, _, op, _) => Binding::Infix(*op),
+            Expr::UnOp(..) => Binding::Prefix,
+            Expr::Call(name, _, params, _) => {
+                let fun_name = name.as_ref().split(';').next().unwrap_or_default();
+                if let Ok(binop) = BinOp::from_str(fun_name) {
+                    Binding::Infix(binop)
+                } else if UnOp::from_str(fun_name).is_ok() {
+                    Binding::Prefix
+                } else if is_hidden_conversion(fun_name) && !verbose {
+                    Binding::of(&params[0], verbose)
+                } else {
+                    Binding::Postfix
+                }
+            }
+            _ => Binding::Postfix,
+        }
+    }
+}
-- 
2.43.0


From 905170c507534e1fbd390c1c6f5f4f83bd648411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:47 +0000
Subject: [PATCH 09/16] fix: declare locals ahead of the statements that
 mention them before their first assignment

---
 decompiler/src/lib.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index a82b775..1a337b2 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -469,11 +469,14 @@ impl<'a> Decompiler<'a> {
 fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>) -> Result<Seq<SourceAst>, Error> {
     let mut body = Vec::with_capacity(seq.exprs.len() + locals.len());
     let mut init = Vec::new();
+    // locals that occur ahead of their first assignment
+    let mut used = BTreeMap::new();
     let mut it = seq.exprs.into_iter();
 
     let stmt = loop {
         match it.next() {
             Some(Expr::Assign(ident, val, _)) => {
+                take_used_locals(&val, &mut locals, &mut used);
                 if let Expr::Ident(name, _) = ident.as_ref() {
                     if let Some(ty) = locals.remove(name) {
                         init.push(Expr::Declare(name.clone(), Some(ty.into()), Some(val), Span::ZERO));
@@ -481,6 +484,7 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
                         init.push(Expr::Assign(ident, val, Span::ZERO));
                     }
                 } else {
+                    take_used_locals(&ident, &mut locals, &mut used);
                     init.push(Expr::Assign(ident, val, Span::ZERO));
                 }
             }
@@ -488,6 +492,7 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
         }
     };
 
+    locals.append(&mut used);
     for (name, ty) in locals {
         body.push(Expr::Declare(name.clone(), Some(ty.into()), None, Span::ZERO));
     }
@@ -498,6 +503,36 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
     Ok(Seq::new(body))
 }
 
+fn take_used_locals(
+    expr: &Expr<SourceAst>,
+    locals: &mut BTreeMap<Ident, TypeName>,
+    used: &mut BTreeMap<Ident, TypeName>,
+) {
+    match expr {
+        Expr::Ident(name, _) => used.extend(locals.remove_entry(name)),
+        Expr::Cast(_, expr, _) | Expr::Member(expr, _, _) | Expr::UnOp(expr, _, _) => {
+            take_used_locals(expr, locals, used);
+        }
+        Expr::Assign(lhs, rhs, _) | Expr::ArrayElem(lhs, rhs, _) | Expr::BinOp(lhs, rhs, _, _) => {
+            take_used_locals(lhs, locals, used);
+            take_used_locals(rhs, locals, used);
+        }
+        Expr::Conditional(cond, true_, false_, _) => {
+            take_used_locals(cond, locals, used);
+            take_used_locals(true_, locals, used);
+            take_used_locals(false_, locals, used);
+        }
+        Expr::Call(_, _, args, _) | Expr::New(_, args, _) => {
+            args.iter().for_each(|arg| take_used_locals(arg, locals, used));
+        }
+        Expr::MethodCall(obj, _, args, _) => {
+            take_used_locals(obj, locals, used);
+            args.iter().for_each(|arg| take_used_locals(arg, locals, used));
+        }
+        _ => {}
+    }
+}
+
 fn resolve_jump(seq: &mut Seq<SourceAst>) -> Option<Target> {
     seq.exprs.iter_mut().rev().find_map(|expr| match expr {
         Expr::Goto(target, _) => {
-- 
2.43.0


From 62cf9826bf548727470c9f08814dfa8e64851c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 10/16] fix: trailing switch cases without a body jumped to the
 start of the function

---
 compiler/src/assembler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..90dceea 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -171,6 +171,7 @@ impl<'a> Assembler<'a> {
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    let mut has_body = false;
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -181,9 +182,14 @@ impl<'a> Assembler<'a> {
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
+                            has_body = true;
                             break;
                         }
                     }
+                    if !has_body {
+                        // trailing cases without a body continue to the default
+                        self.emit_label(body_label);
+                    }
                 }
                 self.emit_label(next_case_label);
 
-- 
2.43.0


From 506832d987faa984f502ba1c59af2660ea7f7320 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:28:17 +0000
Subject: [PATCH 11/16] fix: accept negative numbers as field defaults

The grammar reads '-7' as a negation of a constant, which compile_default rejected as not constant.
---
 compiler/src/unit.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..d230c5b 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeSet;
 use std::path::PathBuf;
 
 use hashbrown::{HashMap, HashSet};
-use redscript::ast::{Constant, Expr, Ident, Literal, Pos, Seq, SourceAst, Span, TypeName};
+use redscript::ast::{Constant, Expr, Ident, Literal, Pos, Seq, SourceAst, Span, TypeName, UnOp};
 use redscript::bundle::{ConstantPool, PoolIndex};
 use redscript::bytecode::{Code, Instr};
 use redscript::definition::*;
@@ -1035,6 +1035,18 @@ impl<'a> CompilationUnit<'a> {
                         Err(Cause::InvalidConstant.with_span(expr.span()))
                     }
                 }
+                // negative numbers are parsed as a negation of a constant
+                Expr::UnOp(inner, UnOp::Neg, _)
+                    if matches!(
+                        inner.as_ref(),
+                        Expr::Constant(
+                            Constant::F32(_) | Constant::F64(_) | Constant::I32(_) | Constant::I64(_),
+                            _
+                        )
+                    ) =>
+                {
+                    Ok(format!("-{}", stringify_default(inner)?))
+                }
                 Expr::Null(_) => Ok("null".to_owned()),
                 _ => Err(Cause::InvalidConstant.with_span(expr.span())),
             }
-- 
2.43.0


From 0d7f8ccdfbae2f66c8db336040e05398c79de1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 12/16] fix: remember which cache file a backup was made of
 even if compilation fails

---
 scc/lib/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..ad63bd8 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -162,6 +162,9 @@ fn try_compile_files(
                     backup_path.display()
                 );
                 fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                write_timestamp
+                    .write(&mut *ts_file)
+                    .context("Failed to save the timestamp of the cache file")?;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
-- 
2.43.0


From 4e42f8ca9d8b585cee49f82fe4b852051475ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 13/16] fix: an interrupted write of the cache file made the
 next run overwrite the backup with it

---
 scc/lib/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index ad63bd8..91974ff 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -215,6 +215,9 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
+            // an interrupted write must not be mistaken for a cache file that isn't ours
+            ts_file.set_len(0).context("Failed to reset the timestamp file")?;
+
             let mut file = File::create(output_cache_path).map_err(|err| match err.kind() {
                 io::ErrorKind::PermissionDenied => anyhow::anyhow!(
                     "Could not write to '{}', make sure the file is not read-only",
-- 
2.43.0


From ac0701998675b5cc4e23f60261aea25277fc0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 14/16] fix: report failures to write the end of the cache file

---
 scc/lib/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 91974ff..e0f0edf 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -225,7 +225,9 @@ fn try_compile_files(
                 ),
                 _ => err.into(),
             })?;
-            bundle.save(&mut io::BufWriter::new(&mut file))?;
+            let mut writer = io::BufWriter::new(&mut file);
+            bundle.save(&mut writer)?;
+            writer.into_inner().map_err(io::IntoInnerError::into_error)?;
             file.sync_all()?;
 
             CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
-- 
2.43.0


From 3cc5536e635f7925b0eb499c149affe0a2f0972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 15/16] fix: interrupted copies left incomplete cache and
 backup files behind

---
 scc/lib/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index e0f0edf..d80e04a 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -28,6 +28,7 @@ const LEGACY_TIMESTAMP_FILE_NAME: &str = "redscript.ts";
 
 const BACKUP_FILE_EXT: &str = "redscripts.bk";
 const TIMESTAMP_FILE_EXT: &str = "redscripts.ts";
+const TEMP_FILE_EXT: &str = "tmp";
 
 const USER_HINTS_DIR: &str = "redsUserHints";
 
@@ -62,7 +63,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
             .parent()
             .context("Provided cache file path has no parent directory")?;
         fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        fs::copy(base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
+        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
     }
 
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
@@ -71,7 +72,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     if fallback_backup_path.exists() && !backup_path.exists() {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        fs::copy(fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
@@ -161,7 +162,7 @@ fn try_compile_files(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
                 write_timestamp
                     .write(&mut *ts_file)
                     .context("Failed to save the timestamp of the cache file")?;
@@ -266,6 +267,16 @@ fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     }
 }
 
+/// Copies a file such that the destination is either left alone or complete.
+fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
+    let temp_path = to.with_extension(TEMP_FILE_EXT);
+    let result = fs::copy(from, &temp_path).and_then(|_| fs::rename(&temp_path, to));
+    if result.is_err() {
+        fs::remove_file(&temp_path).ok();
+    }
+    result
+}
+
 fn add_redscript_signature_def(pool: &mut ConstantPool) {
     let name = pool.names.add(REDSCRIPT_SIGNATURE_DEF.into());
     let enum_ = Enum {
-- 
2.43.0


From 597a31bf673f0061765e8a1fd72fea3246bdc437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 16/16] fix: give null its type when no other definition has it

The compiler panicked when the type of null was first needed by something
other than a value of that type: 'let x = null;' in a bundle where nothing
uses ref<IScriptable>.
---
 compiler/src/scope.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0e47324..dd0aac8 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -209,7 +209,19 @@ impl Scope {
                 TypeId::Array(inner) => Type::Array(self.get_type_index(inner, pool)?),
                 TypeId::StaticArray(inner, size) => Type::StaticArray(self.get_type_index(inner, pool)?, *size),
                 TypeId::ScriptRef(inner) => Type::ScriptRef(self.get_type_index(inner, pool)?),
-                TypeId::Null | TypeId::Void => panic!(),
+                TypeId::Null => {
+                    let inner = Ident::from_static("IScriptable");
+                    let inner_idx = if let Some(inner_idx) = self.types.find(&inner) {
+                        *inner_idx
+                    } else {
+                        let name_idx = pool.names.add(inner.to_heap());
+                        let inner_idx = pool.add_definition(Definition::type_(name_idx, Type::Class));
+                        self.add_type(inner, inner_idx);
+                        inner_idx
+                    };
+                    Type::Ref(inner_idx)
+                }
+                TypeId::Void => panic!(),
             };
             let type_idx = pool.add_definition(Definition::type_(name_idx, value));
             self.add_type(name, type_idx);
-- 
2.43.0

