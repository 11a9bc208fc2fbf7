From bc2058ee1916e2a75712d955a2e3392584fa24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 01/11] fix: reset each member of a split compound register to
 its own part of the reset value

---
 spade-mir/src/passes/split_compound_regs.rs | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..6816860 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,31 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // Each member is reset to its part of the reset value
+            let (reset, reset_stmt) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let reset_stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (
+                        Some((trigger.clone(), reset_name)),
+                        Some(reset_stmt.at_loc(reg)),
+                    )
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +90,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 5359de16068615892a5f69b168d8c8a0e4334376 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 02/11] fix: treat integer patterns as inclusive ranges in the
 exhaustiveness check

---
 spade-hir-lowering/src/pattern.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..a26252f 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -29,10 +29,13 @@ fn split_int_range(
     max: BigInt,
     other_ctors: impl Iterator<Item = Constructor> + Clone,
 ) -> Vec<Constructor> {
+    // Both ends of a range are inclusive, so a new range starts at `min` and right after `max`.
+    // Wildcards have no edges to split at
     let mut edges = other_ctors
+        .filter(|other| !matches!(other, Constructor::Wildcard))
         .flat_map(|other| {
             let (min, max) = other.as_range();
-            [min, max]
+            [min, max + 1u32.to_bigint()]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +44,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -327,7 +330,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From 1f902be3d478f468e78966d671290a0814fdecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 03/11] fix: consume linear resources used in match scrutinees
 and asserts

---
 spade-hir-lowering/src/linear_check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 6cec91d..2163c3e 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -136,7 +136,9 @@ pub fn visit_statement(
             None => {}
         },
         Statement::Label(_) => {}
-        Statement::Assert(_) => {}
+        Statement::Assert(expr) => {
+            visit_expression(expr, linear_state, ctx)?;
+        }
         Statement::Set { target, value } => {
             visit_expression(target, linear_state, ctx)?;
             visit_expression(value, linear_state, ctx)?;
@@ -319,6 +321,7 @@ fn visit_expression(
         }
         spade_hir::ExprKind::Match(cond, variants) => {
             visit_expression(cond, linear_state, ctx)?;
+            linear_state.consume_expression(cond)?;
             for (pat, if_cond, expr) in variants {
                 linear_state.push_pattern(pat, ctx)?;
                 if let Some(if_cond) = if_cond {
-- 
2.43.0


From 047921b68fc7f6fc82e9ee79d533a617e7abec72 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 04/11] fix: select the right bit for 1 bit members of single
 variant enums

The member index was dropped whenever the member is one bit wide and the
enum has no tag, which reads the last member instead of the requested one
if the variant has several members.
---
 spade-mir/src/codegen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..98c33f6 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -705,8 +705,8 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            if full_size == BigUint::one() {
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 45600c4847c61eef32896232414ba5c8155796a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 05/11] fix: use the backward size of elements when slicing
 arrays of ports backwards

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 98c33f6..6087084 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -855,7 +855,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From c7eeb3602284ed6e9824c496bbe0af7c3020ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 06/11] fix: do not emit always blocks for zero size registers,
 which are not declared

---
 spade-mir/src/codegen/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 6087084..3b057e4 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1116,6 +1116,10 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Zero size registers are not declared, so there is nothing to assign
+        Statement::Register(reg) if reg.ty.size() == BigUint::zero() => {
+            code! {}
+        }
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
-- 
2.43.0


From 5836ac372ba5dc45d026964a7cbe963d187a10ad Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 07/11] fix: emit valid Verilog when extending, truncating or
 reducing values of 0 or 1 bits

---
 spade-mir/src/codegen/mod.rs | 57 +++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 3b057e4..6d2d330 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -267,12 +267,20 @@ fn forward_expression_code(
     }
 
     macro_rules! unop {
-        ($verilog:expr) => {{
+        ($verilog:expr $(; zst => $on_zero:expr)?) => {{
             assert!(
                 binding.operands.len() == 1,
                 "expected 1 operands to binary operator"
             );
-            format!("{}{}", $verilog, op_names[0])
+            #[allow(unused_mut)]
+            let mut result = format!("{}{}", $verilog, op_names[0]);
+
+            $(
+                if types[&ops[0]].size() == BigUint::ZERO {
+                    result = $on_zero.to_string();
+                }
+            )?
+            result
         }};
     }
 
@@ -322,9 +330,9 @@ fn forward_expression_code(
         Operator::BitwiseXor => binop!("^"),
         Operator::USub => unop!("-"),
         Operator::Not => unop!("!"),
-        Operator::ReduceAnd => unop!("&"),
-        Operator::ReduceOr => unop!("|"),
-        Operator::ReduceXor => unop!("^"),
+        Operator::ReduceAnd => unop!("&"; zst => "1'b1"),
+        Operator::ReduceOr => unop!("|"; zst => "1'b0"),
+        Operator::ReduceXor => unop!("^"; zst => "1'b0"),
         Operator::DivPow2 => {
             // Split into 3 cases: if the division amount is 2^0, nothing should
             // be done. Must be handled as a special case of the rest of the computation
@@ -347,11 +355,16 @@ fn forward_expression_code(
             }.to_string()
         }
         Operator::Truncate => {
-            format!(
-                "{}[{}:0]",
-                op_names[0],
-                binding.ty.size() - 1u32.to_biguint()
-            )
+            // Scalars cannot be indexed
+            if self_type.size() == BigUint::one() && types[&ops[0]].size() == BigUint::one() {
+                op_names[0].to_string()
+            } else {
+                format!(
+                    "{}[{}:0]",
+                    op_names[0],
+                    binding.ty.size() - 1u32.to_biguint()
+                )
+            }
         }
         Operator::Concat => {
             format!(
@@ -365,20 +378,22 @@ fn forward_expression_code(
         Operator::SignExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - &operand_size;
+                // Scalars cannot be indexed
+                let sign_bit = if operand_size == BigUint::one() {
+                    op_names[0].to_string()
+                } else {
+                    format!("{}[{}]", op_names[0], operand_size - 1u32.to_biguint())
+                };
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
-                    Some(1) => format!(
-                        "{{{}[{}], {}}}",
-                        op_names[0],
-                        operand_size - 1u32.to_biguint(),
-                        op_names[0]
-                    ),
+                    Some(1) => format!("{{{}, {}}}", sign_bit, op_names[0]),
                     _ => format!(
-                        "#[#[ {extra_bits} #[ {op}[{last_index}] #]#], {op}#]",
+                        "#[#[ {extra_bits} #[ {sign_bit} #]#], {op}#]",
                         op = op_names[0],
-                        last_index = operand_size - 1u32.to_biguint(),
                     )
                     // For readability with the huge amount of braces that both
                     // rust and verilog want here, we'll insert them at the end
@@ -393,7 +408,9 @@ fn forward_expression_code(
         Operator::ZeroExtend => {
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
-            if self_size > operand_size {
+            if operand_size == BigUint::ZERO {
+                format!("{self_size}'b0")
+            } else if self_size > operand_size {
                 let extra_bits = self_size - operand_size;
                 format!("{{{}'b0, {}}}", extra_bits, op_names[0])
             } else {
-- 
2.43.0


From 147516bb50e2c638a26d1c46ebb4b26857747e75 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 08/11] fix: reject let and reg patterns that match only some
 variants of an enum

---
 spade-hir-lowering/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..4f56d62 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,25 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
-            }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
+            }
+            // A pattern for an enum variant only covers all values if there are no other variants
+            spade_hir::PatternKind::Type(path, inner) => {
+                matches!(
+                    ctx.symtab.symtab().patternable_type_by_id(path).kind,
+                    PatternableKind::Struct
+                ) && inner
+                    .iter()
+                    .all(|arg| arg.value.is_trivially_irrefutable(ctx))
             }
         }
     }
@@ -917,7 +923,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From 30a0eb777fefc3fd180f9ebe35dff5735b9ef403 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 09/11] fix: match on a clock, tri, memory or inout next to
 other values was exhaustive whatever it left out

---
 spade-hir-lowering/src/pattern.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index a26252f..d40b38f 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -132,13 +132,13 @@ pub(crate) fn split_wildcard(
 
                 group_missing_constructors(all_ctors, other_ctors)
             }
-            // Bit literals can't be matched on because you can't compare against z in hardware
-            spade_types::PrimitiveType::Tri => vec![],
-            // Special types for which there are no constructors which makes matching
-            // on them impossible
-            spade_types::PrimitiveType::Clock
+            // Bit literals can't be matched on because you can't compare against z in hardware,
+            // and the special types have no literals. No pattern tells values of these types
+            // apart, but the values exist, so they must be covered
+            spade_types::PrimitiveType::Tri
+            | spade_types::PrimitiveType::Clock
             | spade_types::PrimitiveType::Memory
-            | spade_types::PrimitiveType::InOut => vec![],
+            | spade_types::PrimitiveType::InOut => vec![Constructor::Single],
         },
         ConcreteType::Backward(_) => vec![Constructor::Single],
         ConcreteType::CopyView(_) => vec![Constructor::Single],
-- 
2.43.0


From 78268bb112123b58989d39d5a0ebf0f7075cd21c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 10/11] fix: do not give two things in a module the same
 Verilog identifier

The copies of a name were numbered without looking at other names, so `x`, `x_n1`
and a second `x` gave two declarations of `x_n1`; variables could also coincide
with ports (`a_i`), wires for inverted values (`p_mut`), instances (`b_0`) and
temporaries (`_e_3`).
---
 spade-mir/src/codegen/util.rs | 12 +++++-
 spade-mir/src/renaming.rs     | 79 ++++++++++++++++++++++++++++++-----
 2 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/spade-mir/src/codegen/util.rs b/spade-mir/src/codegen/util.rs
index daa3a65..23130b0 100644
--- a/spade-mir/src/codegen/util.rs
+++ b/spade-mir/src/codegen/util.rs
@@ -29,11 +29,11 @@ impl ValueName {
         }
     }
 
-    pub fn backward_var_name(&self) -> String {
+    pub fn unescaped_backward_var_name(&self) -> String {
         match self {
             ValueName::Named(id, name, _) => {
                 if *id == 0 {
-                    format!("\\{}_mut ", name)
+                    format!("{}_mut", name)
                 } else {
                     format!("{}_n{}_mut", name, id)
                 }
@@ -43,6 +43,14 @@ impl ValueName {
             }
         }
     }
+
+    pub fn backward_var_name(&self) -> String {
+        if self.needs_escaping() {
+            format!("\\{} ", self.unescaped_backward_var_name())
+        } else {
+            self.unescaped_backward_var_name()
+        }
+    }
 }
 
 pub fn escape_path(path: &str) -> String {
diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index a371af2..c41d8e1 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -1,4 +1,4 @@
-use rustc_hash::FxHashMap as HashMap;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     id_tracker::ExprID,
@@ -6,7 +6,9 @@ use spade_common::{
     name::NameID,
 };
 
-use crate::{Binding, Entity, MirInput, Register, ValueName};
+use crate::codegen::{mangle_input, mangle_output};
+use crate::unit_name::{InstanceMap, InstanceNameTracker};
+use crate::{Binding, Entity, MirInput, Operator, Register, ValueName};
 
 /// Mapping from verilog name back to the corresponding NameID
 #[derive(Serialize, Deserialize, Debug, Clone)]
@@ -57,6 +59,8 @@ pub struct NameState {
     names: HashMap<String, u64>,
     /// Mapping between ValueName and predictable name
     name_map: HashMap<Loc<ValueName>, Loc<ValueName>>,
+    /// Verilog identifiers which are already taken in this module
+    used: HashSet<String>,
 }
 
 impl Default for NameState {
@@ -70,19 +74,35 @@ impl NameState {
         Self {
             names: HashMap::default(),
             name_map: HashMap::default(),
+            used: HashSet::default(),
         }
     }
 
+    /// Reserve a Verilog identifier that is not the name of a value, such as a port
+    pub fn reserve(&mut self, identifier: String) {
+        self.used.insert(identifier);
+    }
+
     pub fn push(&mut self, name: &Loc<ValueName>) {
         let new_name = match &name.inner {
             ValueName::Named(_, name_str, source) => {
-                let id = self
-                    .names
-                    .entry(name_str.clone())
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                let id = self.names.entry(name_str.clone()).or_insert(0);
 
-                ValueName::Named(*id, name_str.clone(), source.clone())
+                // A copy of a name may coincide with something else in the module: `x_n1` can be
+                // both a variable and the second copy of `x`. Skip ids for which that happens
+                loop {
+                    let candidate = ValueName::Named(*id, name_str.clone(), source.clone());
+                    *id += 1;
+
+                    let identifiers = [
+                        candidate.unescaped_var_name(),
+                        candidate.unescaped_backward_var_name(),
+                    ];
+                    if identifiers.iter().all(|i| !self.used.contains(i)) {
+                        self.used.extend(identifiers);
+                        break candidate;
+                    }
+                }
             }
             v @ ValueName::Expr(_) => v.clone(),
         }
@@ -105,7 +125,7 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
     {
         // Walk through all statements adding defined names to the state
         let Entity {
-            name: _, // we should not translate the outer name
+            name: unit_name, // we should not translate the outer name
             inputs,
             output: _,
             output_type: _,
@@ -114,8 +134,45 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
             inline: _,
         } = e;
 
-        for input in inputs {
-            state.push(&input.clone().val_name);
+        // Ports without mangling share their name with their value, so those come first
+        for input in inputs.iter().filter(|input| input.no_mangle.is_some()) {
+            state.push(&input.val_name);
+        }
+
+        // Identifiers which end up in the generated code regardless of the names of values
+        state.reserve("output__".to_string());
+        state.reserve("input__".to_string());
+        for input in inputs.iter().filter(|input| input.no_mangle.is_none()) {
+            state.reserve(mangle_input(&input.no_mangle, &input.name));
+            state.reserve(mangle_output(&input.no_mangle, &input.name));
+        }
+        let mut instance_names = InstanceNameTracker::new();
+        for stmt in statements.iter() {
+            let name = match &stmt.inner {
+                crate::Statement::Binding(b) => {
+                    if let Operator::Instance { name, .. } = &b.operator {
+                        state.reserve(name.instance_name(
+                            unit_name.source.clone(),
+                            &mut InstanceMap::new(),
+                            &mut instance_names,
+                        ));
+                    }
+                    &b.name
+                }
+                crate::Statement::Register(r) => &r.name,
+                crate::Statement::Constant(name, _, _) => name,
+                crate::Statement::Assert(_)
+                | crate::Statement::Set { .. }
+                | crate::Statement::Error => continue,
+            };
+            if let ValueName::Expr(_) = name.inner {
+                state.reserve(name.unescaped_var_name());
+                state.reserve(name.unescaped_backward_var_name());
+            }
+        }
+
+        for input in inputs.iter().filter(|input| input.no_mangle.is_none()) {
+            state.push(&input.val_name);
         }
 
         for stmt in statements {
-- 
2.43.0


From 5b8638459cd5f22d7c2af71d3f2ffaabf08cdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 11/11] fix: count the condition of an if and the value of a
 match when computing in which pipeline stage a result is available

---
 spade-hir-lowering/src/pipelines.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..82c9cc1 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -701,11 +701,12 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
-                &values
+            ExprKind::Match(value, branches) => try_compute_availability(
+                &branches
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain(std::iter::once(value.as_ref()))
                     .collect::<Vec<_>>(),
                 ctx,
             ),
@@ -764,10 +765,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0

