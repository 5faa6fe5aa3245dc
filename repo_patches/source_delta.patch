From f5c95f2c3bb9acf2aeb9353aebbf248c151b9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 01/44] fix: report too few arguments for variadic macros
 instead of panicking

---
 src/macro_set/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..2bc1c48 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -539,6 +539,15 @@ impl MacroSet {
           })
         }
       }
+    } else if let Some(args) = args {
+      // The ellipsis may be left without an argument, all other parameters require one.
+      if args.len() < arg_names.len() - 1 {
+        return Err(ExpansionError::FnMacroArgumentError {
+          name: name.to_owned(),
+          required: arg_names.len() - 1,
+          given: args.len(),
+        })
+      }
     }
 
     // Parameter names must be unique.
-- 
2.43.0


From bf3a7aae4be14f15e8f18bbe5e34a6b74e49e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 02/44] fix: do not panic on comments between `##` and a macro
 parameter

---
 src/macro_set/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 2bc1c48..a224cfb 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -748,7 +748,16 @@ impl MacroSet {
             // Ignore whitespace between this `##` and the next non-whitespace token.
             until_no_whitespace!(it.next(), ConcatEnd)
           };
-          tokens.push(lhs.concat(rhs)?)
+
+          match (&lhs, &rhs) {
+            // The operands of `##` can only be concatenated once macro arguments are known.
+            (Token::MacroArg(_) | Token::VarArgs, _) | (_, Token::MacroArg(_) | Token::VarArgs) => {
+              tokens.push(lhs);
+              tokens.push(token);
+              tokens.push(rhs);
+            },
+            _ => tokens.push(lhs.concat(rhs)?),
+          }
         },
         token => tokens.push(token),
       }
-- 
2.43.0


From bcffabdcf990b074533c8120d0da59fc21fad1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 03/44] fix: report invalid prefixed literals created by `##`
 instead of panicking

---
 src/macro_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index a224cfb..c07ec78 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -290,7 +290,7 @@ impl<'t> Token<'t> {
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
             return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
+              Lit::try_from(lhs.id.as_ref()).map_err(|_| ExpansionError::InvalidConcat)?.into_static(),
               Cow::Owned(lhs.id.into_owned()),
             ))
           },
-- 
2.43.0


From 76f2df5798d44b10044bb2cb192a0e415226824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 04/44] fix: ignore comments when determining the index of
 `__VA_ARGS__`

---
 src/macro_set/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index c07ec78..b1d01df 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -862,7 +862,10 @@ impl MacroSet {
     let body = tokenize(&arg_names, body);
     let tokens = self.expand_fn_macro_body(HashSet::new(), name, &arg_names, None, &body)?;
 
-    let tokens = detokenize(&arg_names, tokens)?;
+    // Comments are not counted when determining the index of a parameter.
+    let params: Vec<_> = arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).cloned().collect();
+
+    let tokens = detokenize(&params, tokens)?;
     let arg_names = detokenize(&[], arg_names)?;
 
     Ok((arg_names, tokens))
-- 
2.43.0


From 1a1aa5c47c5c8e591da7623a1b538dbeeae1e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 05/44] fix: detect redefinitions which only differ in length

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index b1d01df..0d19f96 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -786,7 +786,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -832,11 +832,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From e1a853c5cdbc8a5d67501a7ca58fd81652c9c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 06/44] fix: keep repeated `volatile` qualifiers volatile

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..ebcd204 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -345,7 +345,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From a7b69de7dbb60cc2f8ef3c348cb90cc46d715bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 07/44] fix: report stringified `__VA_ARGS__` as unsupported
 instead of panicking

---
 src/ast/stringify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..5477a05 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -43,6 +43,11 @@ impl<'t> Stringify<'t> {
   {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
+        // `$__VA_ARGS__` is a repetition and cannot be stringified as a single expression.
+        if ctx.arg_name(arg.index()) == "..." {
+          return Err(crate::CodegenError::UnsupportedExpression("stringification of variable arguments".to_owned()))
+        }
+
         let arg_ty = ctx.arg_type_mut(arg.index());
         if *arg_ty != MacroArgType::Ident {
           *arg_ty = MacroArgType::Expr;
-- 
2.43.0


From 07b6f8af30e84993433eccb22f37b3d864265800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 08/44] fix: report constant integer division by zero instead
 of panicking

---
 src/ast/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..644b63f 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -575,6 +575,18 @@ impl<'t> Expr<'t> {
       Self::Binary(op) => {
         let ty = op.finish(ctx)?;
 
+        // Integer division by zero cannot be calculated.
+        if matches!(
+          (op.op, &*op.lhs, &*op.rhs),
+          (
+            BinaryOp::Div | BinaryOp::Rem,
+            Self::Literal(Lit::Int(_)),
+            Self::Literal(Lit::Int(LitInt { value: 0, .. }))
+          )
+        ) {
+          return Err(crate::CodegenError::UnsupportedExpression("division by zero".to_owned()))
+        }
+
         // Calculate numeric expression.
         match (op.op, &*op.lhs, &*op.rhs) {
           (BinaryOp::Mul, Self::Literal(Lit::Float(lhs)), Self::Literal(Lit::Float(rhs))) => {
-- 
2.43.0


From 9797b127c2589a2d5d62669b84aec62f839e7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 09/44] fix: remove the input tied to an output operand instead
 of an unrelated one

---
 src/ast/asm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..eb5903e 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -240,14 +240,16 @@ impl<'t> Asm<'t> {
     let mut outputs = self.outputs.clone();
     let mut inputs = self.inputs.clone();
 
-    for (constraint, _) in self.inputs.iter() {
+    inputs.retain(|(constraint, _)| {
       if let RegConstraint::Digit(d) = constraint {
         if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
           *dir = Dir::InOut;
+          return false
         }
       }
-    }
+
+      true
+    });
 
     let outputs = outputs
       .iter()
-- 
2.43.0


From 7b7803926effff7314fef2930fbd4856d73deac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 10/44] fix: apply the operator of compound assignments to
 volatile pointers

---
 src/ast/binary_expr.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..0f0950b 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -125,6 +125,23 @@ impl BinaryOp {
         | Self::BitOrAssign
     )
   }
+
+  /// The operator applied by a compound assignment, e.g. `+` for `+=`.
+  const fn compound_assignment_op(&self) -> Option<Self> {
+    Some(match self {
+      Self::AddAssign => Self::Add,
+      Self::SubAssign => Self::Sub,
+      Self::MulAssign => Self::Mul,
+      Self::DivAssign => Self::Div,
+      Self::RemAssign => Self::Rem,
+      Self::ShlAssign => Self::Shl,
+      Self::ShrAssign => Self::Shr,
+      Self::BitAndAssign => Self::BitAnd,
+      Self::BitXorAssign => Self::BitXor,
+      Self::BitOrAssign => Self::BitOr,
+      _ => return None,
+    })
+  }
 }
 
 impl ToTokens for BinaryOp {
@@ -309,6 +326,11 @@ impl<'t> BinaryExpr<'t> {
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
@@ -317,11 +339,16 @@ impl<'t> BinaryExpr<'t> {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.compound_assignment_op() {
+                let (op_prec, _) = op.precedence();
+                if rhs_prec >= op_prec {
+                  rhs = quote! { (#rhs) };
+                }
+
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 3b1b7f16df3a778bdc2ea1d04d139ff57b3b5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 11/44] fix: convert integers to the type of the floating-point
 operand they are combined with

---
 src/ast/binary_expr.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 0f0950b..62ee346 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -223,6 +223,13 @@ impl<'t> BinaryExpr<'t> {
       None
     };
 
+    // The integer operand is converted to the type of the floating-point operand.
+    let int_to_float = |int: i128, float: &LitFloat| match float {
+      LitFloat::Float(_) => LitFloat::Float(int as f32),
+      LitFloat::Double(_) => LitFloat::Double(int as f64),
+      LitFloat::LongDouble(_) => LitFloat::LongDouble(int as f64),
+    };
+
     let mut lhs_ty = self.lhs.finish(ctx)?;
     let mut rhs_ty = self.rhs.finish(ctx)?;
 
@@ -240,22 +247,12 @@ impl<'t> BinaryExpr<'t> {
 
     // Cast mixed float and int expression.
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
-        };
-        self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
+      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(rhs))) => {
+        self.lhs = Box::new(Expr::Literal(Lit::Float(int_to_float(*lhs, rhs))));
         lhs_ty = self.lhs.finish(ctx)?;
       },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
-        };
-        self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
+      (Expr::Literal(Lit::Float(lhs)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
+        self.rhs = Box::new(Expr::Literal(Lit::Float(int_to_float(*rhs, lhs))));
         rhs_ty = self.rhs.finish(ctx)?;
       },
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
-- 
2.43.0


From 83263bb4bbbac1041158f69a53051ae67c0d2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 12/44] fix: emit logical negation of non-boolean expressions
 as comparison

---
 src/ast/expr.rs       | 6 +++++-
 src/ast/unary_expr.rs | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 644b63f..19f8e7f 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -516,6 +516,7 @@ impl<'t> Expr<'t> {
       },
       Self::Unary(op) => {
         let ty = op.finish(ctx)?;
+        let is_not = op.op == UnaryOp::Not;
 
         match (op.op, &*op.expr) {
           (UnaryOp::Plus, expr @ Self::Literal(Lit::Int(_)) | expr @ Self::Literal(Lit::Float(_))) => {
@@ -540,6 +541,7 @@ impl<'t> Expr<'t> {
           },
           (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -550,6 +552,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
@@ -570,7 +573,8 @@ impl<'t> Expr<'t> {
           _ => (),
         }
 
-        Ok(ty)
+        // A logical negation always results in a boolean.
+        Ok(if is_not { Some(Type::BuiltIn(BuiltInType::Bool)) } else { ty })
       },
       Self::Binary(op) => {
         let ty = op.finish(ctx)?;
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..00a94d1 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -71,7 +71,6 @@ impl<'t> UnaryExpr<'t> {
     let ty = self.expr.finish(ctx)?;
 
     match self.op {
-      UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
         if ctx.is_variable_macro() {
-- 
2.43.0


From 75130b437b59730561b0286633bcb4537bfb8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 13/44] fix: parenthesize every left operand ending with a cast
 before `<` and `<<`

---
 src/ast/binary_expr.rs |  6 +++---
 src/ast/expr.rs        | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 62ee346..3ade07e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -313,9 +313,9 @@ impl<'t> BinaryExpr<'t> {
       (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
     };
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a left side ending with a cast is quoted when followed
+    // by `<` or `<<` to avoid ambiguous type parameter errors.
+    if matches!(op, BinaryOp::Shl | BinaryOp::Lt) && self.lhs.ends_with_cast() {
       lhs_parens = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 19f8e7f..1fc6488 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -43,6 +43,16 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if the generated code for this expression may end with a cast, e.g. `a + b as c_int`.
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    match self {
+      Self::Cast(..) | Self::SizeOf(..) => true,
+      Self::Var(Var { name: IdentifierExpr::Plain(name) }) => name.as_str() == "__LINE__",
+      Self::Binary(expr) => expr.rhs.ends_with_cast(),
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
-- 
2.43.0


From e245ffd973228bd4b56c4b526d592c8dd40ec585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 14/44] fix: apply the Rust target to function-like macros and
 all string literals

---
 src/ast/literal/string.rs |  8 ++++----
 src/context.rs            | 18 ++++++++++++++++--
 src/var_macro.rs          | 19 -------------------
 3 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..4c21385 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -423,7 +423,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -443,7 +443,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -463,7 +463,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -490,7 +490,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
diff --git a/src/context.rs b/src/context.rs
index 06d43ec..acfa197 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,3 +1,5 @@
+use semver::Version;
+
 use super::*;
 
 /// Type of a macro argument.
@@ -29,18 +31,30 @@ pub(crate) struct LocalContext<'g, 't, C> {
   pub(crate) is_variable_macro: bool,
 }
 
+/// Check if the given Rust target supports features stabilized in the given version.
+///
+/// Targets which are not a version, e.g. `nightly`, are assumed to support all features.
+fn supports_rust_version(target: Option<&str>, major: u64, minor: u64) -> bool {
+  target
+    .and_then(|v| Version::parse(v).or_else(|_| Version::parse(&format!("{v}.0"))).ok())
+    .map(|version| (version.major, version.minor) >= (major, minor))
+    .unwrap_or(true)
+}
+
 impl<'g, 't, C> LocalContext<'g, 't, C>
 where
   C: CodegenContext,
 {
   pub fn new(cx: &'g C) -> Self {
+    let rust_target = cx.rust_target();
+
     Self {
       arg_names: Default::default(),
       arg_types: Default::default(),
       export_as_macro: false,
       global_context: cx,
-      generate_cstr: true,
-      static_lifetime_elision: true,
+      generate_cstr: supports_rust_version(rust_target.as_deref(), 1, 59),
+      static_lifetime_elision: supports_rust_version(rust_target.as_deref(), 1, 17),
       is_variable_macro: false,
     }
   }
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..9048887 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, str};
 
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
-use semver::{Version, VersionReq};
 
 use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
 
@@ -54,24 +53,6 @@ impl<'t> VarMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-    ctx.static_lifetime_elision = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.17").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
-    ctx.generate_cstr = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.59").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-- 
2.43.0


From 7caf174d58014c19274c0e72350c43559542075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 15/44] fix: do not expand arguments next to `##` before
 concatenation

---
 src/macro_set/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 0d19f96..99713c1 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -689,8 +689,7 @@ impl MacroSet {
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
+              // Operands of `##` are not expanded.
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -698,8 +697,7 @@ impl MacroSet {
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
+              // Operands of `##` are not expanded.
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-- 
2.43.0


From 0169de9eb25a4c9df458b35778e50ef4e7a97ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 16/44] fix: do not treat `#` and `##` from macro arguments as
 operators

---
 src/macro_set/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 99713c1..7ebcbf6 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -668,7 +668,7 @@ impl MacroSet {
           _ => return Err(ExpansionError::StringifyNonArgument),
         },
         Token::MacroArg(_) | Token::VarArgs => {
-          let arg = if let Token::MacroArg(arg_index) = token {
+          let mut arg = if let Token::MacroArg(arg_index) = token {
             args[arg_index].clone()
           } else {
             let mut var_args = vec![];
@@ -683,6 +683,13 @@ impl MacroSet {
             var_args
           };
 
+          // `#` and `##` are only operators if they are part of the macro body.
+          for token in arg.iter_mut() {
+            if matches!(token, Token::Punctuation(p) if *p == "#" || *p == "##") {
+              *token = Token::NonReplacable(Box::new(token.clone()));
+            }
+          }
+
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
-- 
2.43.0


From 639454048d7470c80714a7126bee2ab7b52bdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 17/44] fix: recognize primitive types when an FFI prefix is
 used

---
 src/ast/ty.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ebcd204..ab18caf 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -81,6 +81,25 @@ impl BuiltInType {
   fn from_rust_ty(ty: &syn::TypePath, ffi_prefix: Option<&syn::Path>) -> Option<Self> {
     match ty {
       syn::TypePath { qself: None, path: syn::Path { leading_colon, segments } } => {
+        // Primitive types are not part of the FFI prefix.
+        if leading_colon.is_none() && segments.len() == 1 {
+          let id = &segments[0].ident;
+
+          if id == "f32" {
+            return Some(Self::Float)
+          } else if id == "f64" {
+            return Some(Self::Double)
+          } else if id == "bool" {
+            return Some(Self::Bool)
+          } else if id == "u8" {
+            return Some(Self::Char8T)
+          } else if id == "u16" {
+            return Some(Self::Char16T)
+          } else if id == "u32" {
+            return Some(Self::Char32T)
+          }
+        }
+
         let mut it = segments.iter();
 
         if let Some(ffi_prefix) = ffi_prefix {
-- 
2.43.0


From eeae4583f707a4762d87237f3021fabb7de8f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 18/44] fix: escape braces at every position of an assembly
 template

---
 src/ast/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index eb5903e..376e1ad 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -91,7 +91,7 @@ impl<'t> Asm<'t> {
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
-- 
2.43.0


From f757f6f276f35815013c4904a48cdd5bee30acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 19/44] fix: encode universal characters in ordinary string
 literals as UTF-8

---
 src/ast/literal/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 4c21385..e5f48a9 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, universal_char};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,6 +72,11 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
+          // Universal characters are always encoded as UTF-8.
+          map_opt(preceded(char('\\'), universal_char), |c| {
+            let mut s = [0; 4];
+            Some(Cow::Owned(char::from_u32(c)?.encode_utf8(&mut s).as_bytes().to_vec()))
+          }),
           map_opt(escaped_char, |c| {
             if let Ok(c) = u8::try_from(c) {
               Some(Cow::Owned(vec![c]))
-- 
2.43.0


From 51c46e516d4c102d88b7e73952e8de22bc308c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 20/44] fix: require identifiers for macro arguments used as
 declared names

---
 src/ast/function_decl.rs | 7 ++++++-
 src/ast/var_decl.rs      | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..1da6cde 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -46,12 +46,17 @@ impl<'t> FunctionDecl<'t> {
   {
     self.ret_ty.finish(ctx)?;
 
+    self.name.finish(ctx)?;
     if let IdentifierExpr::Arg(arg) = &self.name {
       *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
     }
 
-    for (ty, _arg) in self.args.iter_mut() {
+    for (ty, name) in self.args.iter_mut() {
       ty.finish(ctx)?;
+      name.finish(ctx)?;
+      if let IdentifierExpr::Arg(arg) = name {
+        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      }
     }
 
     // A declaration has no type.
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..f17f2be 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A variable declaration.
 ///
@@ -40,6 +40,9 @@ impl<'t> VarDecl<'t> {
   {
     self.ty.finish(ctx)?;
     self.name.finish(ctx)?;
+    if let IdentifierExpr::Arg(arg) = &self.name {
+      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+    }
     self.rhs.finish(ctx)?;
 
     Ok(None)
-- 
2.43.0


From c4d49f9506e950540de2c6dac679b595df510178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 21/44] fix: allow dereferencing qualified pointers

---
 src/ast/unary_expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 00a94d1..7352591 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -77,6 +77,12 @@ impl<'t> UnaryExpr<'t> {
           return Err(crate::CodegenError::UnsupportedExpression("dereference in variable-like macro".to_owned()))
         }
 
+        // A qualified pointer, e.g. `*const T`, can be dereferenced as well.
+        let ty = match ty {
+          Some(Type::Qualified { ty, .. }) => Some(*ty),
+          ty => ty,
+        };
+
         match ty {
           Some(Type::Ptr { ty, .. }) => Ok(Some(*ty)),
           None => Ok(None),
-- 
2.43.0


From fbae74fc0cc135a995b9be0fbb92e18506c51de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 22/44] fix: do not emit the unary plus operator, which does
 not exist in Rust

---
 src/ast/unary_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 7352591..1c31eec 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -214,7 +214,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
+      // Rust does not have an unary plus operator.
+      UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-- 
2.43.0


From df75efaa18dda2eca49208e66ee19132e8b57e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 23/44] fix: access volatile data through qualified pointers
 with volatile operations

---
 src/ast/binary_expr.rs |  4 ++--
 src/ast/ty.rs          |  9 +++++++++
 src/ast/unary_expr.rs  | 20 ++++++++++----------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 3ade07e..fb2b3fe 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -332,8 +332,8 @@ impl<'t> BinaryExpr<'t> {
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          if let Expr::Cast(Cast { ty, .. }) = &**expr {
+            if ty.is_volatile_ptr() {
               let lhs_ptr = expr.to_token_stream(ctx);
 
               let value = if let Some(op) = self.op.compound_assignment_op() {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ab18caf..c664870 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -444,6 +444,15 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// Check if this is a pointer to a volatile type, however the pointer itself is qualified.
+  pub(crate) fn is_volatile_ptr(&self) -> bool {
+    match self {
+      Self::Ptr { ty } => matches!(&**ty, Self::Qualified { qualifier, .. } if qualifier.is_volatile()),
+      Self::Qualified { ty, .. } => ty.is_volatile_ptr(),
+      _ => false,
+    }
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 1c31eec..a8ab31d 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -114,8 +114,8 @@ impl<'t> UnaryExpr<'t> {
     match self.op {
       UnaryOp::Inc => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          if let Expr::Cast(Cast { ty, .. }) = &**expr {
+            if ty.is_volatile_ptr() {
               let lhs_ptr = expr.to_token_stream(ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
@@ -139,8 +139,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Dec => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          if let Expr::Cast(Cast { ty, .. }) = &**expr {
+            if ty.is_volatile_ptr() {
               let lhs_ptr = expr.to_token_stream(ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
@@ -164,8 +164,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::PostInc => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          if let Expr::Cast(Cast { ty, .. }) = &**expr {
+            if ty.is_volatile_ptr() {
               let lhs_ptr = expr.to_token_stream(ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
@@ -189,8 +189,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::PostDec => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          if let Expr::Cast(Cast { ty, .. }) = &**expr {
+            if ty.is_volatile_ptr() {
               let lhs_ptr = expr.to_token_stream(ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
@@ -219,8 +219,8 @@ impl<'t> UnaryExpr<'t> {
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-          Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
+          Expr::Cast(Cast { ty, .. }) => {
+            if ty.is_volatile_ptr() {
               let prefix = ctx.trait_prefix().into_iter();
               return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
             }
-- 
2.43.0


From fffebc71e5ab979e8002585878886edeccc598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 24/44] fix: parenthesize `__LINE__` like the cast it is
 generated as

---
 src/ast/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 1fc6488..8c400d4 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -30,8 +30,10 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
+      // Generated as a cast.
+      Self::Var(Var { name: IdentifierExpr::Plain(name) }) if name.as_str() == "__LINE__" => (3, Associativity::Left),
       Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
-- 
2.43.0


From 7dd3c12983c7561a2d2240cce9cef02f12ad09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 25/44] fix: parenthesize the pointer in dereferenced
 increments

---
 src/ast/unary_expr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index a8ab31d..7508e61 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -246,11 +246,19 @@ impl<'t> UnaryExpr<'t> {
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
 
+            let (expr_prec, _) = expr.precedence();
+
+            let ptr = if expr_prec > 1 {
+              quote! { (#raw_expr) }
+            } else {
+              raw_expr.clone()
+            };
+
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
+              UnaryOp::Inc => return quote! { *{ #raw_expr = #ptr.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #raw_expr = #ptr.sub(1); #raw_expr } },
+              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #ptr.add(1); prev } },
+              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #ptr.sub(1); prev } },
               _ => (),
             }
           },
-- 
2.43.0


From 8b412252beefb0a507550d172c2767e93301c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 26/44] fix: do not accept empty arguments for macros without
 parameters

A macro without parameters may be called with one empty argument, which can
contain a comment. Any number of arguments was accepted if only the first one
was empty, and a comment was counted as an argument.
---
 src/macro_set/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 7ebcbf6..9921537 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -187,6 +187,10 @@ enum StringifyAction<'s> {
 }
 
 impl<'t> Token<'t> {
+  fn is_comment(&self) -> bool {
+    matches!(self, Self::Comment(_))
+  }
+
   pub fn from_str(token: &'t str) -> Self {
     if token == "__VA_ARGS__" {
       Token::VarArgs
@@ -530,7 +534,7 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty() && args.len() <= 1 && args.iter().flatten().all(Token::is_comment))
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
-- 
2.43.0


From d00ea3668141a52c415b40d91c0c87ee34b49801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 27/44] fix: ignore comments around # and ## when substituting
 arguments

A parameter separated from the operator by a comment was expanded or rejected,
and an argument consisting of a comment was not treated as an empty operand.
---
 src/macro_set/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9921537..7821467 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -665,11 +665,16 @@ impl MacroSet {
 
     while let Some(token) = it.next() {
       match token {
-        Token::Punctuation(ref p) if p == "#" => match it.peek() {
-          Some(Token::MacroArg(_) | Token::VarArgs) => {
-            tokens.push(token.clone());
-          },
-          _ => return Err(ExpansionError::StringifyNonArgument),
+        Token::Punctuation(ref p) if p == "#" => {
+          // Ignore whitespace between this `#` and the next non-whitespace token.
+          while it.next_if(Token::is_comment).is_some() {}
+
+          match it.peek() {
+            Some(Token::MacroArg(_) | Token::VarArgs) => {
+              tokens.push(token.clone());
+            },
+            _ => return Err(ExpansionError::StringifyNonArgument),
+          }
         },
         Token::MacroArg(_) | Token::VarArgs => {
           let mut arg = if let Token::MacroArg(arg_index) = token {
@@ -694,22 +699,26 @@ impl MacroSet {
             }
           }
 
-          match tokens.last() {
+          // Comments are not operands of `##`.
+          let is_empty = arg.iter().all(Token::is_comment);
+          let next_token = it.clone().find(|t| !t.is_comment());
+
+          match tokens.iter().rfind(|t| !t.is_comment()) {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               // Operands of `##` are not expanded.
-              if arg.is_empty() {
+              if is_empty {
                 tokens.push(Token::Placemarker);
               } else {
                 tokens.extend(arg);
               }
             },
-            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
+            _ if next_token == Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               // Operands of `##` are not expanded.
-              if arg.is_empty() {
+              if is_empty {
                 tokens.push(Token::Placemarker);
               } else {
                 tokens.extend(arg);
-- 
2.43.0


From a4ec930166e11c0e0adffb744236010a077a1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 28/44] fix: report ## at the start or end of a body next to a
 parameter

---
 src/macro_set/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 7821467..70d53d0 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -740,10 +740,7 @@ impl MacroSet {
 
     while let Some(token) = it.next() {
       match token {
-        Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
-        {
+        Token::Punctuation(Punctuation { punctuation: "##" }) => {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
               loop {
-- 
2.43.0


From 09cecc7b7ce550204ba39e1e58bab73e5c87cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 29/44] fix: do not treat # from the expansion of an argument
 as an operator

---
 src/macro_set/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 70d53d0..128eecb 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -661,7 +661,8 @@ impl MacroSet {
     's: 't,
   {
     let mut it = tokens.iter().cloned().peekable();
-    let mut tokens = vec![];
+    let mut tokens: Vec<Token<'t>> = vec![];
+    let mut is_stringified = false;
 
     while let Some(token) = it.next() {
       match token {
@@ -670,9 +671,7 @@ impl MacroSet {
           while it.next_if(Token::is_comment).is_some() {}
 
           match it.peek() {
-            Some(Token::MacroArg(_) | Token::VarArgs) => {
-              tokens.push(token.clone());
-            },
+            Some(Token::MacroArg(_) | Token::VarArgs) => is_stringified = true,
             _ => return Err(ExpansionError::StringifyNonArgument),
           }
         },
@@ -704,8 +703,7 @@ impl MacroSet {
           let next_token = it.clone().find(|t| !t.is_comment());
 
           match tokens.iter().rfind(|t| !t.is_comment()) {
-            Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
-              tokens.pop();
+            _ if mem::take(&mut is_stringified) => {
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-- 
2.43.0


From bbb653d3ececcd67442f3f1170d682e30e9e5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 30/44] fix: keep the order of strings and parameters when
 stringifying a nested invocation

---
 src/macro_set/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 128eecb..b45e980 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -347,6 +347,11 @@ impl<'t> Token<'t> {
 }
 
 fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
+  fn string_literal<'t>(s: String) -> Token<'t> {
+    let token = format!("{s:?}");
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(token))
+  }
+
   let it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
@@ -357,6 +362,14 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   for token in it {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
+        // Keep the order of the token and the strings before and after it.
+        if space_before_next {
+          current_string.get_or_insert(String::new()).push(' ');
+        }
+
+        space_before_next = true;
+
+        tokens.extend(current_string.take().map(string_literal));
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
         continue
@@ -377,9 +390,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
-  }));
+  tokens.extend(current_string.take().map(string_literal));
 
   if tokens.is_empty() {
     return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
-- 
2.43.0


From d8c6a6e3e68ebbad9f1f50eeafaa7fe2d7adba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 31/44] fix: read unsigned and signed without int as integer
 types

---
 src/ast/ty.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index c664870..d8512ae 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -286,6 +286,17 @@ fn int_ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>],
         }
       },
     ),
+    // [const] (unsigned | signed)
+    map(permutation((opt(const_volatile_qualifier), int_signedness)), |(qualifier, s)| {
+      let ty = if s == "unsigned" { BuiltInType::UInt } else { BuiltInType::Int };
+      let ty = Type::BuiltIn(ty);
+
+      if let Some(qualifier) = qualifier {
+        ty.qualify(qualifier)
+      } else {
+        ty
+      }
+    }),
   ))(input)
 }
 
-- 
2.43.0


From 333fccc40a78b6ff96accf8735f15bd68df5fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 32/44] fix: reject trailing tokens when reading a type from a
 string

---
 src/ast/ty.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index d8512ae..ac209fa 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,7 +2,7 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
+  combinator::{all_consuming, map, opt, value},
   multi::fold_many0,
   sequence::{pair, preceded, terminated, tuple},
   IResult,
@@ -630,7 +630,8 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) =
+      all_consuming(Type::parse)(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From 552bb9586de53a89952546f1b923ebe4aab93f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 33/44] fix: reject the digits 8 and 9 in octal literals

---
 src/ast/literal/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index dd632a2..4d385e8 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -7,7 +7,7 @@ use std::{
 use nom::{
   branch::alt,
   bytes::complete::{is_a, tag, tag_no_case},
-  character::complete::{digit1, hex_digit1, oct_digit1},
+  character::complete::{digit1, hex_digit1, oct_digit0},
   combinator::{all_consuming, eof, map, map_opt, opt, value},
   sequence::{pair, preceded},
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice,
@@ -121,7 +121,7 @@ impl LitInt {
     let digits = alt((
       map_opt(preceded(tag_no_case("0x"), hex_digit1), Self::parse_i128(16)),
       map_opt(preceded(tag_no_case("0b"), is_a("01")), Self::parse_i128(2)),
-      map_opt(preceded(tag("0"), oct_digit1), Self::parse_i128(8)),
+      map_opt(preceded(tag("0"), oct_digit0), Self::parse_i128(8)),
       map_opt(digit1, Self::parse_i128(10)),
     ));
 
-- 
2.43.0


From ddbfad95938a081bedf618699acbb38e89d557a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 34/44] fix: read hexadecimal escapes up to their end

---
 src/ast/literal.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..ec311c4 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -2,13 +2,13 @@ use std::{fmt::Debug, ops::RangeFrom, str};
 
 use nom::{
   branch::alt,
-  bytes::complete::tag_no_case,
+  bytes::complete::tag,
   character::{
     complete::{anychar, char, none_of, one_of},
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -156,13 +156,14 @@ where
       |acc, n| acc * 8 + n,
     ),
     preceded(
-      tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      tag("x"),
+      map_opt(
+        fold_many1(
+          map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc?.checked_mul(16)?.checked_add(n),
+        ),
+        |n| n,
       ),
     ),
   ))(input)
-- 
2.43.0


From bbe0ad9910a6ddfa76de0e8aede8d3657ef8a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 35/44] fix: reject escapes that do not fit the characters of
 an ordinary string

---
 src/ast/literal/string.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index e5f48a9..50ffea2 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -77,16 +77,7 @@ impl<'t> LitString<'t> {
             let mut s = [0; 4];
             Some(Cow::Owned(char::from_u32(c)?.encode_utf8(&mut s).as_bytes().to_vec()))
           }),
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
-              let mut s = [0; 4];
-              Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
-            } else {
-              None
-            }
-          }),
+          map_opt(escaped_char, |c| u8::try_from(c).ok().map(|c| Cow::Owned(vec![c]))),
           map(is_not("\\\"\n"), |b: &str| Cow::Borrowed(b.as_bytes())),
         )),
         || Cow::Borrowed(&[] as &[u8]),
-- 
2.43.0


From 3ea661b0bfdb3c3cf99f168080c68e19b132404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 36/44] fix: accept universal character names behind other
 characters of an identifier

---
 src/ast/identifier.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..52d929d 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -3,9 +3,9 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::{anychar, char, satisfy},
-  combinator::{all_consuming, map, map_opt, recognize, verify},
+  combinator::{all_consuming, map, map_opt, not, recognize, verify},
   multi::{fold_many0, fold_many1},
-  sequence::{pair, preceded},
+  sequence::{pair, preceded, terminated},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -44,10 +44,13 @@ impl<'t> Identifier<'t> {
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
       map(
-        recognize(pair(
-          satisfy(is_identifier_start),
-          fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
-        )),
+        terminated(
+          recognize(pair(
+            satisfy(is_identifier_start),
+            fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
+          )),
+          not(char('\\')),
+        ),
         |s| Self { id: Cow::Borrowed(s) },
       ),
       |token| {
@@ -104,9 +107,13 @@ impl<'t> IdentifierContinue<'t> {
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
-      map(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())), |s| Self {
-        id_cont: Cow::Borrowed(s),
-      }),
+      map(
+        terminated(
+          recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())),
+          not(char('\\')),
+        ),
+        |s| Self { id_cont: Cow::Borrowed(s) },
+      ),
       |token| {
         let identifier_char = alt((map_opt(preceded(char('\\'), universal_char), char::from_u32), anychar));
 
-- 
2.43.0


From d3bb078bcb9145602925efc22860bb99cb1c91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 37/44] fix: decode ordinary strings appended to wide strings

---
 src/ast/literal/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 50ffea2..674ca58 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -315,7 +315,10 @@ impl<'t> LitString<'t> {
               opt(id("L")),
               map_opt(take_one, |token| match token {
                 MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
+                  Some(Cow::Owned(match str::from_utf8(bytes.as_ref()) {
+                    Ok(s) => s.chars().map(u32::from).collect::<Vec<_>>(),
+                    Err(_) => bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>(),
+                  }))
                 },
                 _ => None,
               }),
-- 
2.43.0


From 7031b9938a872e9f7092e61cca109be9383fc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 38/44] fix: generate string literals for the parts of a string
 concatenation

---
 src/ast/expr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 8c400d4..b3c7c61 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -518,6 +518,9 @@ impl<'t> Expr<'t> {
         if new_names.len() == 1 {
           *self = new_names.remove(0);
           self.finish(ctx)
+        } else if new_names.iter().any(|e| matches!(e, Self::Literal(Lit::String(lit)) if lit.as_str().is_none())) {
+          // `concat!` only supports strings which are valid UTF-8.
+          Err(crate::CodegenError::UnsupportedExpression("concatenation of non-UTF-8 strings".to_owned()))
         } else {
           *self = Self::ConcatString(new_names);
           Ok(Some(Type::Qualified {
@@ -704,6 +707,10 @@ impl<'t> Expr<'t> {
               quote! { #(#trait_prefix::)*file!() }
             },
             Self::Stringify(stringify) => stringify.to_token_stream_inner(ctx),
+            Self::Literal(Lit::String(lit)) => {
+              let s = lit.as_str();
+              quote! { #s }
+            },
             e => e.to_token_stream(ctx),
           })
           .collect::<Vec<_>>();
-- 
2.43.0


From 528042ceb75c19d2a23d218c30cb783268e00e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 39/44] fix: inputs tied to an output keep their value and
 operand numbers

An input with a matching constraint was dropped, so the output register
was not initialised with it unless both operands were the same, and the
operand numbers behind it in the template referred to the wrong operands.
Also `clobber_abi` is not allowed together with outputs in registers
chosen by the compiler.
---
 src/ast/asm.rs | 78 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 376e1ad..c3715f1 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -234,28 +234,70 @@ impl<'t> Asm<'t> {
       .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
-  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
+  /// Replace the operand numbers (e.g. `{0}`) in a template line.
+  fn renumber_operands(line: &str, operands: &[usize]) -> String {
+    let mut renumbered = String::new();
+    let mut rest = line;
+
+    while let Some(start) = rest.find('{') {
+      let (text, reference) = rest.split_at(start + 1);
+      renumbered.push_str(text);
+      rest = reference;
+
+      if let Some(escaped) = rest.strip_prefix('{') {
+        renumbered.push('{');
+        rest = escaped;
+      } else if let Some(end) = rest.find('}') {
+        let (n, text) = rest.split_at(end);
+        let operand = n.parse::<usize>().ok().and_then(|n| operands.get(n));
+        renumbered.push_str(&operand.map(|n| n.to_string()).unwrap_or_else(|| n.to_owned()));
+        rest = text;
+      }
+    }
 
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
+    renumbered.push_str(rest);
+    renumbered
+  }
 
-    inputs.retain(|(constraint, _)| {
-      if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          *dir = Dir::InOut;
-          return false
-        }
+  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
+    // An input tied to an output is passed in the register of that output, so
+    // it is not an operand of its own and the operands following it move up.
+    let mut tied = vec![None; self.outputs.len()];
+    let mut operands = (0..self.outputs.len()).collect::<Vec<_>>();
+    let mut inputs = Vec::new();
+
+    for (constraint, input) in &self.inputs {
+      let output = match constraint {
+        RegConstraint::Digit(d) if usize::from(*d) < tied.len() => Some(usize::from(*d)),
+        _ => None,
+      };
+
+      if let Some(output) = output {
+        tied[output] = Some(input);
+        operands.push(output);
+      } else {
+        operands.push(tied.len() + inputs.len());
+        inputs.push((constraint, input));
       }
+    }
 
-      true
-    });
+    let template = self.template.iter().map(|line| Self::renumber_operands(line, &operands)).collect::<Vec<_>>();
 
-    let outputs = outputs
+    let outputs = self
+      .outputs
       .iter()
-      .map(|(dir, reg, var)| {
-        let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
+      .zip(tied)
+      .map(|((dir, reg, var), input)| {
+        let tokens = var.to_token_stream(ctx);
+
+        match input {
+          Some(input) if input == var => quote! { inout(#reg) #tokens },
+          Some(input) => {
+            let input = input.to_token_stream(ctx);
+            quote! { inout(#reg) #input => #tokens }
+          },
+          None => quote! { #dir(#reg) #tokens },
+        }
       })
       .collect::<Vec<_>>();
     let inputs = inputs
@@ -287,7 +329,9 @@ impl<'t> Asm<'t> {
         options.push(quote! { preserves_flags });
       }
 
-      let clobber_abi = if clobbers.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
+      // `clobber_abi` is only allowed if all outputs are explicit registers.
+      let clobber_abi =
+        if clobbers.is_empty() || !outputs.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
 
       (quote! { asm! }, clobber_abi)
     };
-- 
2.43.0


From 061e6c67f5e104965e2e8a6aa0cf05964f3ca3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 40/44] fix: assembly without operands is not a function call

---
 src/macro_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro_body.rs b/src/macro_body.rs
index 0b92656..7513c6b 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -7,7 +7,7 @@ use nom::{
 };
 
 use crate::{
-  ast::{meta, Type},
+  ast::{meta, Asm, Type},
   CodegenContext, Expr, LocalContext, MacroToken, Statement,
 };
 
@@ -45,6 +45,8 @@ impl<'t> MacroBody<'t> {
     }
 
     let (tokens, body) = alt((
+      // Without operands, an assembly statement looks like a function call.
+      all_consuming(map(Asm::parse, |asm| Self::Statement(Statement::Asm(asm)))),
       all_consuming(map(Expr::parse, Self::Expr)),
       all_consuming(map(Statement::parse, Self::Statement)),
     ))(tokens)?;
-- 
2.43.0


From b5e345083d662e273ab98cb9f2866b5416bf7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 41/44] fix: macro bodies that refer to arguments which do not
 exist are rejected instead of panicking

---
 src/fn_macro.rs  | 5 +++++
 src/var_macro.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b28c118..30d9229 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -140,6 +140,11 @@ impl<'t> FnMacro<'t> {
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
+    // Arguments are given by index, so the body must not refer to more of them than there are.
+    if body.iter().any(|token| matches!(token, MacroToken::Arg(arg) if arg.index() >= args.len())) {
+      return Err(crate::ParserError::InvalidMacroBody)
+    }
+
     let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
 
     Ok(Self { name, args, body })
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 9048887..09c1e86 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -37,6 +37,11 @@ impl<'t> VarMacro<'t> {
   pub fn parse(name: &str, value: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
     let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
 
+    // A variable-like macro has no arguments to refer to.
+    if value.iter().any(|token| matches!(token, MacroToken::Arg(_))) {
+      return Err(crate::ParserError::InvalidMacroBody)
+    }
+
     let body = match MacroBody::parse(value) {
       Ok((_, body)) => body,
       Err(_) => return Err(crate::ParserError::InvalidMacroBody),
-- 
2.43.0


From 28e0afb60f59df00b5f2e82a678853f32a19fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 42/44] fix: wide strings do not panic when wchar_t cannot be
 resolved while generating code

---
 src/ast/literal/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 674ca58..e5033c5 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -481,8 +481,9 @@ impl<'t> LitString<'t> {
         let wchars =
           s.iter().cloned().chain(iter::once(0)).map(proc_macro2::Literal::u32_unsuffixed).collect::<Vec<_>>();
 
-        let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
-          Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
+        let wchar_ty = ctx.resolve_ty("wchar_t").and_then(|ty| Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).ok());
+        let wchar_ty = if let Some(ty) = wchar_ty {
+          ty.to_token_stream(ctx)
         } else {
           quote! { wchar_t }
         };
-- 
2.43.0


From d265ce17d3c4814ad9c3c5dfb7346a3d293f42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 43/44] fix: raw identifiers in types of the context do not
 panic

---
 src/ast/identifier.rs | 9 ++++++++-
 src/ast/ty.rs         | 8 ++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index 52d929d..0c6c2b5 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -74,8 +74,15 @@ impl<'t> Identifier<'t> {
     Identifier { id: Cow::Owned(self.id.clone().into_owned()) }
   }
 
+  pub(crate) fn to_ident(&self) -> Ident {
+    match self.id.strip_prefix("r#") {
+      Some(id) => Ident::new_raw(id, Span::call_site()),
+      None => Ident::new(&self.id, Span::call_site()),
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, _ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let id = Ident::new(&self.id, Span::call_site());
+    let id = self.to_ident();
     quote! { #id }
   }
 
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ac209fa..7d140b5 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
@@ -495,7 +495,7 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => name.to_tokens(ctx, tokens),
       Self::Path { segments, leading_colon } => {
         let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };
-        let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
+        let ids = segments.iter().map(Identifier::to_ident);
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
@@ -562,7 +562,7 @@ impl<'t> Type<'t> {
       Self::BuiltIn(ty) => ty.to_rust_ty(ctx),
       Self::Identifier { name, .. } => {
         if let IdentifierExpr::Plain(name) = name {
-          let name = Ident::new(name.as_str(), Span::call_site());
+          let name = name.to_ident();
           syn::parse_quote! { #name }
         } else {
           return None
@@ -571,7 +571,7 @@ impl<'t> Type<'t> {
       Self::Path { leading_colon, segments } => {
         let colon = if *leading_colon { Some(quote! { :: }) } else { None }.into_iter();
 
-        let segments = segments.iter().map(|s| Ident::new(s.as_str(), Span::call_site()));
+        let segments = segments.iter().map(Identifier::to_ident);
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
-- 
2.43.0


From 536fe4503b4f6a03520cdda84d8549717af9edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 44/44] fix: verbatim types of the context that are not
 identifiers are unsupported instead of panicking

---
 src/ast/ty.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 7d140b5..1638f05 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -11,7 +11,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{is_identifier, CodegenContext, LocalContext, MacroToken};
 
 /// A built-in type.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -534,7 +534,13 @@ impl<'t> Type<'t> {
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
       syn::Type::Verbatim(ty) => {
-        Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
+        let id = ty.to_string();
+
+        if !is_identifier(&id) {
+          return Err(crate::CodegenError::UnsupportedType(id))
+        }
+
+        Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: id.into() }), is_struct: false })
       },
       syn::Type::Path(path_ty) => {
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
-- 
2.43.0

