From 4f891dd027e11b935b53b11c548a1980b4622950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 01/66] fix: StaticHashMap terminates for keys congruent modulo
 the hash prime

---
 .../src/utils/static_hash_map.rs              | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/utils/static_hash_map.rs b/expander_compiler/src/utils/static_hash_map.rs
index 6d936aa..e452cd2 100644
--- a/expander_compiler/src/utils/static_hash_map.rs
+++ b/expander_compiler/src/utils/static_hash_map.rs
@@ -21,13 +21,12 @@ impl StaticHashMap {
         }
         loop {
             for _ in 0..10 {
-                let a = rng.next_u64() % (MOD - 1) + 1;
-                let b = rng.next_u64() % (MOD - 1) + 1;
+                let a = rng.next_u64() | 1;
+                let b = rng.next_u64();
                 let mut v = vec![0; m as usize];
                 let mut ok = true;
                 for (i, &x) in s.iter().enumerate() {
-                    let x = (x as u64) % MOD;
-                    let pos = ((x * a + b) % MOD * x % MOD) & (m - 1);
+                    let pos = position(x, a, b, m);
                     if v[pos as usize] != 0 {
                         ok = false;
                         break;
@@ -40,7 +39,7 @@ impl StaticHashMap {
                             *x -= 1;
                         }
                     }
-                    return Self { m: m - 1, a, b, v };
+                    return Self { m, a, b, v };
                 }
             }
             if m < MOD / 250 {
@@ -50,12 +49,18 @@ impl StaticHashMap {
     }
 
     pub fn get(&self, x: usize) -> usize {
-        let x = (x as u64) % MOD;
-        let pos = ((x * self.a + self.b) % MOD * x % MOD) & self.m;
+        let pos = position(x, self.a, self.b, self.m);
         self.v[pos as usize]
     }
 }
 
+// The slot of x in a table of m slots. The multiplier a is odd, so distinct keys have distinct
+// hashes, and the high bits of the hash choose the slot: any set of keys can be separated.
+fn position(x: usize, a: u64, b: u64, m: u64) -> u64 {
+    let hash = (x as u64).wrapping_mul(a).wrapping_add(b);
+    ((hash as u128 * m as u128) >> 64) as u64
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0e0fabfc42c3e3cc4f0f26be0e5e720ce8ef5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 02/66] fix: splitting a circuit without constraints no longer
 treats its first output as a constraint

---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..833c745 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // the combined constraint is only there if the circuit has any constraint
+    let num_add_outputs = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_add_outputs,
     }
 }
 
-- 
2.43.0


From 206d4937e974a5b8de267e4d760aea4e7b286415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 03/66] fix: unused divisions, boolean operations and bit
 decompositions keep their constraints

---
 expander_compiler/src/circuit/ir/common/mod.rs |  4 ++++
 expander_compiler/src/circuit/ir/common/opt.rs | 13 ++++++++++++-
 expander_compiler/src/circuit/ir/source/mod.rs |  6 ++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index 18b7f27..cd9b4ee 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -35,6 +35,10 @@ pub trait Instruction<C: Config>: Debug + Clone + Hash + PartialEq + Eq {
     fn inputs(&self) -> Vec<usize>;
     fn num_outputs(&self) -> usize;
     fn as_sub_circuit_call(&self) -> Option<(usize, &Vec<usize>, usize)>;
+    // whether the instruction restricts its inputs even if its outputs are unused
+    fn implies_constraint(&self) -> bool {
+        false
+    }
     fn sub_circuit_call(sub_circuit_id: usize, inputs: Vec<usize>, num_outputs: usize) -> Self;
     fn replace_vars<F: Fn(usize) -> usize>(&self, f: F) -> Self;
     fn from_kx_plus_b(x: usize, k: CircuitField<C>, b: CircuitField<C>) -> Self;
diff --git a/expander_compiler/src/circuit/ir/common/opt.rs b/expander_compiler/src/circuit/ir/common/opt.rs
index 362a738..016604d 100644
--- a/expander_compiler/src/circuit/ir/common/opt.rs
+++ b/expander_compiler/src/circuit/ir/common/opt.rs
@@ -220,7 +220,18 @@ impl<Irc: IrConfig> RootCircuit<Irc> {
                     typ: Var,
                 }));
             }
-            if !circuit.constraints.is_empty() {
+            let mut constrained = !circuit.constraints.is_empty();
+            for (i, insn) in circuit.instructions.iter().enumerate() {
+                if insn.implies_constraint() {
+                    constrained = true;
+                    queue.push(vertice_id(&Element {
+                        circuit_id: *circuit_id,
+                        id: i,
+                        typ: Insn,
+                    }));
+                }
+            }
+            if constrained {
                 queue.push(vertice_id(&Element {
                     circuit_id: *circuit_id,
                     id: 0,
diff --git a/expander_compiler/src/circuit/ir/source/mod.rs b/expander_compiler/src/circuit/ir/source/mod.rs
index aacc693..0c02e49 100644
--- a/expander_compiler/src/circuit/ir/source/mod.rs
+++ b/expander_compiler/src/circuit/ir/source/mod.rs
@@ -198,6 +198,12 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
             _ => None,
         }
     }
+    fn implies_constraint(&self) -> bool {
+        matches!(
+            self,
+            Instruction::Div { .. } | Instruction::BoolBinOp { .. } | Instruction::ToBinary { .. }
+        )
+    }
     fn sub_circuit_call(sub_circuit_id: usize, inputs: Vec<usize>, num_outputs: usize) -> Self {
         Instruction::SubCircuitCall {
             sub_circuit_id,
-- 
2.43.0


From 2fe1f148d18c41c764169332c60ae5baf39fa41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 04/66] fix: a value too large for its bit decomposition fails
 witness solving instead of panicking

---
 expander_compiler/src/hints/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..57fa19d 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From 9196f2fd9077824e8f82c51b1a0a6d8b0e01bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 05/66] fix: calling an unregistered hint returns an error
 instead of panicking

---
 expander_compiler/src/hints/registry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/hints/registry.rs b/expander_compiler/src/hints/registry.rs
index d3259be..95396c8 100644
--- a/expander_compiler/src/hints/registry.rs
+++ b/expander_compiler/src/hints/registry.rs
@@ -42,7 +42,7 @@ impl<F: Field> HintRegistry<F> {
             let mut outputs = vec![F::zero(); num_outputs];
             hint(args, &mut outputs).map(|_| outputs)
         } else {
-            panic!("Hint with id {id} not found");
+            Err(Error::UserError(format!("hint with id {id} not found")))
         }
     }
 }
-- 
2.43.0


From e21638da9f01cd0aeae460deb4c473945a904127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 06/66] fix: marking a condition as known no longer drops an
 earlier assertion of it

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From 370cf23fcc07696b0a8028b01843aae48019f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 07/66] fix: a root circuit left without inputs still gets a
 solvable witness program

---
 .../src/circuit/ir/hint_normalized/mod.rs        |  7 ++++++-
 expander_compiler/src/compile/mod.rs             | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 012a3dd..3a91110 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -412,7 +412,12 @@ impl<C: Config> Circuit<C> {
         Circuit {
             num_inputs: self.num_inputs,
             instructions,
-            constraints: if is_root { vec![1] } else { vec![] },
+            // variable 1 is the first input, if there is one
+            constraints: if is_root && self.num_inputs > 0 {
+                vec![1]
+            } else {
+                vec![]
+            },
             outputs,
         }
     }
diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 90debc9..c3e730a 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -365,11 +365,17 @@ pub fn compile_with_options<C: Config, I: InputType>(
     hl_im.compose_in_place(&dest_im);
 
     let rhe_c0 = r_hint_exported.circuits.get_mut(&0).unwrap();
-    rhe_c0.outputs = hl_im
-        .map_inputs(&rhe_c0.outputs)
-        .iter()
-        .map(|&x| x.max(1))
-        .collect();
+    let mut outputs = hl_im.map_inputs(&rhe_c0.outputs);
+    // positions that hold no input are filled with a variable the solver can evaluate
+    let filler = if rhe_c0.num_inputs > 0 {
+        1
+    } else {
+        outputs.iter().copied().find(|&x| x != 0).unwrap_or(1)
+    };
+    for x in outputs.iter_mut().filter(|x| **x == 0) {
+        *x = filler;
+    }
+    rhe_c0.outputs = outputs;
 
     let mut r_hint_exported_opt = compile_step_4(r_hint_exported, &mut src_im, options.clone())?;
     r_hint_exported_opt.add_back_removed_inputs(&src_im);
-- 
2.43.0


From a39ee45c075ac24b464a0ddaf53937c7a68ca571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 08/66] fix: the witness program drops values nothing depends
 on at optimization level 1 too

---
 expander_compiler/src/compile/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index c3e730a..3ab2c9e 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -293,7 +293,9 @@ pub fn compile_step_4<C: Config>(
     r_hint_exported
         .validate()
         .map_err(|e| e.prepend("final hint exported circuit invalid"))?;
-    let r_hint_exported_opt = if options.opt_level >= 2 {
+    // the witness solver refuses values it cannot compute, so those that no
+    // output depends on must go at every level
+    let r_hint_exported_opt = if options.opt_level >= 1 {
         optimize_until_fixed_point(&r_hint_exported, src_im, |r| {
             let (r, im) = r.remove_unreachable();
             (r, im)
-- 
2.43.0


From 10ff362531761dc19f02d1f86f77e258937b9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 09/66] fix: a value that needs copying is relayed, not drawn
 again, if it is random

---
 expander_compiler/src/circuit/ir/dest/mod.rs  | 19 +++++++++++++++++--
 .../src/circuit/ir/dest/mul_fanout_limit.rs   | 12 ++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mod.rs b/expander_compiler/src/circuit/ir/dest/mod.rs
index c7f93f7..d8e0045 100644
--- a/expander_compiler/src/circuit/ir/dest/mod.rs
+++ b/expander_compiler/src/circuit/ir/dest/mod.rs
@@ -34,6 +34,19 @@ pub enum Instruction<C: Config> {
     },
 }
 
+impl<C: Config> Instruction<C> {
+    /// Whether two copies of this instruction may have different values.
+    fn is_random(&self) -> bool {
+        match self {
+            Instruction::InternalVariable { expr } => expr
+                .iter()
+                .any(|term| matches!(term.vars, VarSpec::RandomLinear(_))),
+            Instruction::ConstantLike { value } => matches!(value, Coef::Random),
+            Instruction::SubCircuitCall { .. } => true,
+        }
+    }
+}
+
 #[derive(Default, Debug, Clone, Hash, PartialEq, Eq)]
 pub struct Irc<C: Config> {
     _a: C,
@@ -195,8 +208,10 @@ impl<C: Config> CircuitRelaxed<C> {
                             new_inputs.push(i);
                         } else {
                             let copy_insn = match &insn_of_var[i] {
-                                Some(insn_id) => new_instructions[*insn_id].clone(),
-                                None => Instruction::InternalVariable {
+                                Some(insn_id) if !new_instructions[*insn_id].is_random() => {
+                                    new_instructions[*insn_id].clone()
+                                }
+                                _ => Instruction::InternalVariable {
                                     expr: Expression::new_linear(CircuitField::<C>::one(), i),
                                 },
                             };
diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..7518721 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -58,7 +58,11 @@ impl<C: Config> CircuitRelaxed<C> {
             match insn {
                 Instruction::ConstantLike { .. } => {
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(1));
+                    max_copy_cnt.push(if insn.is_random() {
+                        0
+                    } else {
+                        compute_max_copy_cnt(1)
+                    });
                     internal_var_insn_id.push(None);
                 }
                 Instruction::SubCircuitCall { num_outputs, .. } => {
@@ -76,7 +80,11 @@ impl<C: Config> CircuitRelaxed<C> {
                         }
                     }
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(expr.len()));
+                    max_copy_cnt.push(if insn.is_random() {
+                        0
+                    } else {
+                        compute_max_copy_cnt(expr.len())
+                    });
                     internal_var_insn_id.push(Some(i))
                 }
             }
-- 
2.43.0


From d701ee0071703fb156c8f8b1b70f72b3a1ecf5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 10/66] fix: the plain final build accepts custom gates over
 inputs it has not yet materialized

---
 expander_compiler/src/builder/final_build.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/final_build.rs b/expander_compiler/src/builder/final_build.rs
index 3c876bf..500aa70 100644
--- a/expander_compiler/src/builder/final_build.rs
+++ b/expander_compiler/src/builder/final_build.rs
@@ -60,7 +60,12 @@ impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Buil
             } => {
                 self.sub_circuit_call(*sub_circuit_id, inputs, *num_outputs, root);
             }
-            InsnOut::CustomGate { .. } => self.add_out_vars(1),
+            InsnOut::CustomGate { inputs, .. } => {
+                for &i in inputs.iter() {
+                    to_really_single(&mut self.mid_vars, &self.out_var_exprs[i]);
+                }
+                self.add_out_vars(1)
+            }
         }
     }
 }
-- 
2.43.0


From d848fc107b0ba8048ef1755f0799366c802225f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 11/66] fix: gates that occur repeatedly in a segment are not
 collapsed when common parts are shared

---
 expander_compiler/src/circuit/layered/opt.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/opt.rs b/expander_compiler/src/circuit/layered/opt.rs
index 21c50c1..714f069 100644
--- a/expander_compiler/src/circuit/layered/opt.rs
+++ b/expander_compiler/src/circuit/layered/opt.rs
@@ -275,19 +275,31 @@ impl<C: Config, I: InputType> Segment<C, I> {
         gates
     }
 
+    /// All gates that occur exactly once. Repeated gates add up, so they can't be represented in a set.
     fn all_gates(&self) -> HashSet<UniGate<C, I>> {
         let mut gates = HashSet::new();
+        let mut repeated = HashSet::new();
+        let mut add = |gate: UniGate<C, I>| {
+            if gates.contains(&gate) {
+                repeated.insert(gate);
+            } else {
+                gates.insert(gate);
+            }
+        };
         for gate in self.gate_muls.iter() {
-            gates.insert(UniGate::Mul(gate.clone()));
+            add(UniGate::Mul(gate.clone()));
         }
         for gate in self.gate_adds.iter() {
-            gates.insert(UniGate::Add(gate.clone()));
+            add(UniGate::Add(gate.clone()));
         }
         for gate in self.gate_consts.iter() {
-            gates.insert(UniGate::Const(gate.clone()));
+            add(UniGate::Const(gate.clone()));
         }
         for gate in self.gate_customs.iter() {
-            gates.insert(UniGate::Custom(gate.clone()));
+            add(UniGate::Custom(gate.clone()));
+        }
+        for gate in repeated.iter() {
+            gates.remove(gate);
         }
         gates
     }
-- 
2.43.0


From 2a68637699179ad342e9b71cf0b25851b10b9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 12/66] fix: reading a witness trusts its declared sizes and
 divides by zero when they are zero

---
 .../src/circuit/layered/witness.rs            | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..74717f2 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -54,6 +54,9 @@ fn pack_block<F: Field, SF: arith::SimdField<Scalar = F>>(
     let pack_size = SF::PACK_SIZE;
     let mut res = Vec::with_capacity(a);
     let mut res2 = Vec::with_capacity(b);
+    if a + b == 0 {
+        return (res, res2);
+    }
     let s_size = (s.len() / (a + b)).min(pack_size);
     for i in 0..a {
         let mut tmp = Vec::with_capacity(pack_size);
@@ -183,6 +186,10 @@ impl<C: Config> Witness<C> {
         };
         let mut res = Vec::new();
         let a = self.num_inputs_per_witness + self.num_public_inputs_per_witness;
+        if a == 0 {
+            self.values = WitnessValues::Simd(res);
+            return;
+        }
         let pack_size = SIMDField::<C>::PACK_SIZE;
         let num_blocks = (self.num_witnesses + pack_size - 1) / pack_size;
         for i in 0..num_blocks {
@@ -305,10 +312,15 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|x| x.checked_mul(num_witnesses))
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        // the sizes are not trusted before the values have been read
+        let mut values = Vec::with_capacity(num_values.min(1 << 16));
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From 259f935ef75057e7c07fba8472163fbf01067066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 13/66] fix: validation overflows on instructions with huge
 numbers of outputs

---
 expander_compiler/src/circuit/ir/common/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index cd9b4ee..acb4da0 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -119,7 +119,9 @@ impl<Irc: IrConfig> Circuit<Irc> {
                 }
             }
             insn.validate(num_public_inputs)?;
-            cur_var_max += insn.num_outputs();
+            cur_var_max = cur_var_max
+                .checked_add(insn.num_outputs())
+                .ok_or_else(|| Error::InternalError("too many variables".to_string()))?;
             if !Irc::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS {
                 if let Some((_, inputs, _)) = insn.as_sub_circuit_call() {
                     let mut set = HashSet::new();
-- 
2.43.0


From 42902750e87f14a4ba32c58c19197eb98bcbb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 14/66] fix: reading a linear combination trusts its declared
 length

---
 expander_compiler/src/circuit/ir/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/expr.rs b/expander_compiler/src/circuit/ir/expr.rs
index 7ca0fbe..f81a069 100644
--- a/expander_compiler/src/circuit/ir/expr.rs
+++ b/expander_compiler/src/circuit/ir/expr.rs
@@ -482,7 +482,8 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        // the length is not trusted before the terms have been read
+        let mut terms = Vec::with_capacity(len.min(1 << 12));
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From 5aecea98350144b5d4aa3a24199f58450dca9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 15/66] fix: batch witness generation panics on a custom gate
 instead of returning an error

---
 expander_compiler/src/circuit/ir/hint_normalized/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 3a91110..eb3dccf 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -629,7 +629,9 @@ impl<C: Config> RootCircuit<C> {
                     )?;
                 }
                 Instruction::CustomGate { .. } => {
-                    panic!("CustomGate currently unsupported");
+                    return Err(Error::UserError(
+                        "CustomGate currently unsupported".to_string(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From 4ec16b005998a6c6036383bdf00a5671275fd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 16/66] fix: layered circuit validation panics on layers and
 offsets out of range

---
 expander_compiler/src/circuit/layered/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..028aa19 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
@@ -513,7 +513,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if y > z || x > z - y {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -525,7 +525,9 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if subc.num_outputs > seg.num_outputs
+                        || a.output_offset > seg.num_outputs - subc.num_outputs
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
-- 
2.43.0


From dac01583ff6183cea2491d02a92f721a510282a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 17/66] fix: layered circuit validation ignores coefficients
 and output counts

---
 expander_compiler/src/circuit/layered/mod.rs | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 028aa19..eedfd11 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -476,6 +476,16 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                     )));
                 }
             }
+            for coef in seg
+                .gate_muls
+                .iter()
+                .map(|g| &g.coef)
+                .chain(seg.gate_adds.iter().map(|g| &g.coef))
+                .chain(seg.gate_consts.iter().map(|g| &g.coef))
+                .chain(seg.gate_customs.iter().map(|g| &g.coef))
+            {
+                coef.validate(self.num_public_inputs)?;
+            }
             for (sub_id, allocs) in seg.child_segs.iter() {
                 if *sub_id >= i {
                     return Err(Error::InternalError(format!(
@@ -571,6 +581,19 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
         }
+        let num_outputs = layer_sizes[self.layer_ids.len()];
+        if self.num_actual_outputs > num_outputs {
+            return Err(Error::InternalError(format!(
+                "{} outputs declared, but the last layer has {}",
+                self.num_actual_outputs, num_outputs
+            )));
+        }
+        if self.expected_num_output_zeroes > self.num_actual_outputs {
+            return Err(Error::InternalError(format!(
+                "{} of {} outputs expected to be zero",
+                self.expected_num_output_zeroes, self.num_actual_outputs
+            )));
+        }
         let (input_mask, output_mask) = self.compute_masks();
         for i in 1..self.layer_ids.len() {
             for (l, len) in self.segments[self.layer_ids[i]]
-- 
2.43.0


From 19e10110264cd1be6f8a588591309f42ee231003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 18/66] fix: evaluating a decomposition hint on a value that
 does not fit panics

---
 .../src/circuit/ir/hint_normalized/mod.rs            |  8 +++++---
 expander_compiler/src/circuit/ir/source/mod.rs       |  8 +++++---
 expander_compiler/src/hints/builtin.rs               | 12 ++++++++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index eb3dccf..70415ee 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -181,12 +181,14 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
                 inputs,
                 num_outputs,
             } => {
-                let outputs = hints::stub_impl(
+                match hints::try_stub_impl(
                     *hint_id,
                     &inputs.iter().map(|i| values[*i]).collect(),
                     *num_outputs,
-                );
-                EvalResult::Values(outputs)
+                ) {
+                    Ok(outputs) => EvalResult::Values(outputs),
+                    Err(e) => EvalResult::Error(e),
+                }
             }
             Instruction::ConstantLike(coef) => EvalResult::Value(coef.get_value_unsafe()),
             Instruction::SubCircuitCall {
diff --git a/expander_compiler/src/circuit/ir/source/mod.rs b/expander_compiler/src/circuit/ir/source/mod.rs
index 0c02e49..f0f3e1a 100644
--- a/expander_compiler/src/circuit/ir/source/mod.rs
+++ b/expander_compiler/src/circuit/ir/source/mod.rs
@@ -373,12 +373,14 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
                 inputs,
                 num_outputs,
             } => {
-                let outputs = hints::stub_impl(
+                match hints::try_stub_impl(
                     *hint_id,
                     &inputs.iter().map(|i| values[*i]).collect(),
                     *num_outputs,
-                );
-                EvalResult::Values(outputs)
+                ) {
+                    Ok(outputs) => EvalResult::Values(outputs),
+                    Err(e) => EvalResult::Error(e),
+                }
             }
             Instruction::ConstantLike(coef) => EvalResult::Value(coef.get_value_unsafe()),
             Instruction::SubCircuitCall {
diff --git a/expander_compiler/src/hints/builtin.rs b/expander_compiler/src/hints/builtin.rs
index e0949be..74b95ef 100644
--- a/expander_compiler/src/hints/builtin.rs
+++ b/expander_compiler/src/hints/builtin.rs
@@ -272,6 +272,18 @@ pub fn stub_impl<F: Field>(hint_id: usize, inputs: &Vec<F>, num_outputs: usize)
     }
 }
 
+// same as stub_impl, but inputs that do not fit are an error instead of a panic
+pub fn try_stub_impl<F: Field>(
+    hint_id: usize,
+    inputs: &Vec<F>,
+    num_outputs: usize,
+) -> Result<Vec<F>, Error> {
+    match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
+        _ => Ok(stub_impl(hint_id, inputs, num_outputs)),
+    }
+}
+
 pub fn random_builtin(mut rand: impl RngCore) -> (usize, usize, usize) {
     loop {
         let hint_id = (rand.next_u64() as usize % 100) + (BuiltinHintIds::Identity as u64 as usize);
-- 
2.43.0


From 22dee697dc99dabbd43e38515fa1aa111ac02cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 19/66] fix: give memorized functions distinct sub-circuit keys

---
 expander_compiler/macros/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..af7f2d3 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,10 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            // different functions may have the same argument structure
+            hasher.update(
+                concat!(module_path!(), "::", stringify!(#fn_name), ":", line!(), ":", column!()).as_bytes(),
+            );
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From 57853e4e25f6109cb18ef68cd51c64aff7589baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 20/66] fix: do not share sub-circuits between stateful
 closures or function pointers

---
 expander_compiler/src/frontend/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 54659cc..428a80f 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -608,6 +608,7 @@ pub struct RootBuilder<C: Config> {
     sub_circuits: HashMap<usize, source::Circuit<C>>,
     sub_circuit_output_structure: HashMap<usize, Vec<usize>>,
     full_hash_id: HashMap<usize, [u8; 32]>,
+    num_stateful_calls: usize,
     outputs: Vec<Variable>,
 }
 
@@ -719,6 +720,12 @@ impl<C: Config> RootAPI<C> for RootBuilder<C> {
         hasher.update(b"simple");
         hasher.update(&inputs.len().to_le_bytes());
         hasher.update(&get_function_id::<F>().to_le_bytes());
+        if std::mem::size_of::<F>() != 0 {
+            // The type of a function pointer or capturing closure does not determine what it does,
+            // so such calls never share a sub-circuit.
+            self.num_stateful_calls += 1;
+            hasher.update(&self.num_stateful_calls.to_le_bytes());
+        }
         let mut hash = [0u8; 32];
         hasher.finalize(&mut hash);
 
@@ -803,6 +810,7 @@ impl<C: Config> RootBuilder<C> {
                 current_builders: vec![(0, builder0)],
                 sub_circuits: HashMap::new(),
                 full_hash_id: HashMap::new(),
+                num_stateful_calls: 0,
                 sub_circuit_output_structure: HashMap::new(),
                 outputs: Vec::new(),
             },
-- 
2.43.0


From b3716a9575203227c9644644e2d48ffa1e844925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 21/66] fix: allow repeated memorized calls in debug evaluation

---
 expander_compiler/src/frontend/debug.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..b17475d 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,12 +478,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
+        // The body runs on every call here, so the structure is registered on every call.
+        if let Some(prev) = self
             .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
+            .insert(circuit_id, structure.clone())
         {
-            panic!("subcircuit output structure already registered");
+            assert_eq!(
+                prev, structure,
+                "subcircuit output structure differs between calls"
+            );
         }
     }
 
-- 
2.43.0


From ed43fbdb86cec9193279da282bcf016bde3492ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 22/66] fix: unconstrained divisions by zero yield zero in
 debug evaluation too

---
 expander_compiler/src/frontend/debug.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index b17475d..41efa0e 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -550,6 +550,20 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> DebugBuilder<C, H> {
     }
 
     fn eval_ir_insn(&mut self, insn: IrInstruction<C>) -> Variable {
+        if let IrInstruction::UnconstrainedBinOp {
+            y,
+            op:
+                UnconstrainedBinOpType::Div
+                | UnconstrainedBinOpType::IntDiv
+                | UnconstrainedBinOpType::Mod,
+            ..
+        } = insn
+        {
+            if self.values[y].is_zero() {
+                // as in the built-in hints that compute these for a compiled circuit
+                return self.return_as_variable(CircuitField::<C>::zero());
+            }
+        }
         match insn.eval_unsafe(&self.values) {
             EvalResult::Error(e) => panic!("error: {e:?}"),
             EvalResult::SubCircuitCall(_, _) => unreachable!(),
-- 
2.43.0


From 397ef7af5e2d55d23ae37d65db90aa6d4ff84a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 23/66] fix: bit decompositions leave the bits beyond the field
 unconstrained

---
 expander_compiler/src/builder/hint_normalize.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/hint_normalize.rs b/expander_compiler/src/builder/hint_normalize.rs
index 9bc2f73..afcb247 100644
--- a/expander_compiler/src/builder/hint_normalize.rs
+++ b/expander_compiler/src/builder/hint_normalize.rs
@@ -1,3 +1,5 @@
+use ethnum::U256;
+
 use crate::circuit::ir::common::RawConstraint;
 use crate::circuit::ir::expr;
 use crate::field::FieldArith;
@@ -272,7 +274,14 @@ impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Buil
                 });
                 let mut sum = self.push_const(CircuitField::<C>::zero());
                 let mut coef = CircuitField::<C>::one();
-                for &bit in bits.iter() {
+                let value_bits =
+                    256 - (CircuitField::<C>::MODULUS - U256::ONE).leading_zeros() as usize;
+                for (i, &bit) in bits.iter().enumerate() {
+                    if i >= value_bits {
+                        // no element of the field has this bit
+                        self.assert((), bit);
+                        continue;
+                    }
                     self.assert_bool(bit);
                     let bit = self
                         .push_insn(InsnOut::LinComb(expr::LinComb {
-- 
2.43.0


From 8164fee74dcd97643e0bb63497f51519a694c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 24/66] fix: a hint that returns another number of outputs than
 asked for is not noticed

---
 expander_compiler/src/frontend/debug.rs | 10 ++++++----
 expander_compiler/src/hints/mod.rs      | 11 ++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 41efa0e..f08effe 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -158,10 +158,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> BasicAPI<C> for DebugBuilder<C,
         ensure_variables_valid(inputs);
         let inputs: Vec<CircuitField<C>> =
             inputs.iter().map(|v| self.convert_to_value(v)).collect();
-        match self
-            .hint_caller
-            .call(hint_key_to_id(hint_key), &inputs, num_outputs)
-        {
+        match hints::safe_impl(
+            &self.hint_caller,
+            hint_key_to_id(hint_key),
+            &inputs,
+            num_outputs,
+        ) {
             Ok(outputs) => outputs
                 .into_iter()
                 .map(|v| self.return_as_variable(v))
diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 57fa19d..00cec30 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -16,6 +16,15 @@ pub fn safe_impl<F: Field>(
     match BuiltinHintIds::from_usize(hint_id) {
         Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
-        None => hint_caller.call(hint_id, inputs, num_outputs),
+        None => {
+            let outputs = hint_caller.call(hint_id, inputs, num_outputs)?;
+            if outputs.len() != num_outputs {
+                return Err(Error::UserError(format!(
+                    "hint with id {hint_id} returned {} outputs instead of {num_outputs}",
+                    outputs.len()
+                )));
+            }
+            Ok(outputs)
+        }
     }
 }
-- 
2.43.0


From 6fd450d3d855f3ea1644ee5beac0a88c12209580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 25/66] fix: the low-level program loader rejects every
 assignment

---
 expander_compiler/src/utils/interpreter_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 6f9f2f3..760786c 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -50,7 +50,7 @@ impl M31Loader {
     fn parse_lval(toks: &[&str]) -> usize {
         let raw = toks[1];
         assert!((raw.chars().nth(0) == Some('=')));
-        assert!((raw.chars().nth(0) == Some('v')));
+        assert!((raw.chars().nth(1) == Some('v')));
         raw[2..].parse::<usize>().unwrap()
     }
 
-- 
2.43.0


From 0c1152f68f71b51c5a94e719d5a70423ebdd52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:08 +0000
Subject: [PATCH 26/66] fix: stores of a low-level program drop what was stored
 behind them

---
 expander_compiler/src/utils/interpreter_loader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 760786c..fbbc91f 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -185,8 +185,13 @@ impl M31Loader {
                     let i = Self::parse_idx(&v, 2);
                     let j = Self::parse_idx(&v, 3);
                     let idx = v[4][1..].parse::<usize>().unwrap();
-                    output.resize(i + 1, vec![]);
-                    output[i].resize(j + 1, vec![]);
+                    // stores come in any order
+                    if output.len() <= i {
+                        output.resize(i + 1, vec![]);
+                    }
+                    if output[i].len() <= j {
+                        output[i].resize(j + 1, vec![]);
+                    }
                     output[i][j] = self.symbols[idx].clone();
                 }
                 _ => {
-- 
2.43.0


From bc1e86b3db26be8469ee5739fbf918f287757896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 27/66] fix: transposing with repeated or unknown axes is
 accepted

---
 expander_compiler/src/zkcuda/shape.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..a039fb0 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -435,6 +435,12 @@ impl Transpose for ShapeHistory {
                 axes.len()
             );
         }
+        let mut seen = vec![false; axes.len()];
+        for &a in axes {
+            if a >= seen.len() || std::mem::replace(&mut seen[a], true) {
+                panic!("Transpose axes must be a permutation of the dimensions, got {axes:?}");
+            }
+        }
         let mut res = self.clone();
         match &res.entries.last().unwrap().axes {
             None => {
-- 
2.43.0


From 1dbf27fec5fb12e1fe9786c4de066f38dfa6d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 28/66] fix: a launch fails where an output variable holds an
 earlier array

---
 expander_compiler/src/zkcuda/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..a2b7f4e 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -342,11 +342,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         for (i, ((kernel_shape, io), spec)) in kernel
             .io_shapes()
             .iter()
-            .zip(ios.iter())
+            .zip(ios.iter_mut())
             .zip(kernel.io_specs().iter())
             .enumerate()
         {
             if !spec.is_input {
+                // what an output variable held before is of no interest
+                *io = None;
                 is_broadcast.push(false);
                 continue;
             }
-- 
2.43.0


From 65b3c303c8daa003c8021e5b31d4023b512f88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 29/66] fix: transposing an array with dimensions of length 1
 breaks its layout

---
 expander_compiler/src/zkcuda/shape.rs | 46 +++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index a039fb0..e14efd6 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -46,6 +46,11 @@ impl Entry {
             }
             Some(axes) => axes,
         };
+        if self.shape.contains(&1) {
+            // dimensions of length 1 never need a split
+            let keep_first_dim = keep_first_dim && self.shape[axes[0]] != 1;
+            return self.without_unit_dims().minimize(keep_first_dim);
+        }
         let mut merge_shape = vec![false; self.shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
@@ -73,6 +78,23 @@ impl Entry {
             axes: Some(new_axes),
         }
     }
+    fn without_unit_dims(&self) -> Self {
+        let mut new_id = vec![0; self.shape.len()];
+        let mut shape = Vec::with_capacity(self.shape.len());
+        for (i, &s) in self.shape.iter().enumerate() {
+            new_id[i] = shape.len();
+            if s != 1 {
+                shape.push(s);
+            }
+        }
+        let axes = self.axes.as_ref().map(|axes| {
+            axes.iter()
+                .filter(|&&a| self.shape[a] != 1)
+                .map(|&a| new_id[a])
+                .collect()
+        });
+        Entry { shape, axes }
+    }
     fn transposed_shape(&self) -> Shape {
         match &self.axes {
             None => self.shape.clone(),
@@ -83,22 +105,20 @@ impl Entry {
         if self.axes.is_none() {
             return shape.to_vec();
         }
-        let mut segments = vec![];
-        let mut cur_prod = 1;
-        let mut target = 1;
-        let mut self_shape_iter = self.shape.iter();
-        for &x in shape.iter() {
-            if cur_prod == target {
-                cur_prod = x.0;
-                target = *self_shape_iter.next().unwrap();
-                segments.push(vec![x]);
-            } else {
+        let mut segments = Vec::with_capacity(self.shape.len());
+        let mut shape_iter = shape.iter();
+        for &target in self.shape.iter() {
+            let mut segment = vec![];
+            let mut cur_prod = 1;
+            while cur_prod < target {
+                let x = *shape_iter.next().unwrap();
                 cur_prod *= x.0;
-                segments.last_mut().unwrap().push(x);
+                segment.push(x);
             }
+            assert_eq!(cur_prod, target);
+            segments.push(segment);
         }
-        assert_eq!(cur_prod, target);
-        assert_eq!(self_shape_iter.next(), None);
+        assert_eq!(shape_iter.next(), None);
         let mut res = Vec::with_capacity(shape.len());
         for i in self.axes.as_ref().unwrap() {
             res.extend(segments[*i].iter());
-- 
2.43.0


From 60494b1bafd9d951e652919da0829320d7d7fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 30/66] fix: a launch whose arguments are all broadcast breaks
 the computation graph

---
 expander_compiler/src/zkcuda/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index a2b7f4e..ddc3c6d 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -737,8 +737,10 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
             }
 
-            let any_shape = any_shape.unwrap();
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
+            // without any, every argument is broadcast
+            let any_shape = any_shape.map_or(vec![kernel_call.num_parallel], |s| {
+                keep_shape_until(&s, kernel_call.num_parallel)
+            });
             let dim0_len = shape_vec_padded_len(&any_shape);
 
             if kernel.hint_solver().is_some() {
-- 
2.43.0


From 9cd4f15cd8fe714ce99e713f380067d352ce06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 31/66] fix: solving hints fails or pads them wrongly where an
 input is broadcast or split

---
 expander_compiler/src/zkcuda/context.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index ddc3c6d..ef63725 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -800,6 +800,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
+        let dm_shapes = self.get_current_device_memory_shapes();
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
         {
@@ -816,6 +817,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 vec![None; kernel_primitive.io_specs().len()];
             let mut output_chunk_sizes: Vec<Option<usize>> =
                 vec![None; kernel_primitive.io_specs().len()];
+            // the shape as split in the device memory
+            let pad_shape = |handle: &DeviceMemoryHandleRaw| {
+                handle
+                    .shape_history
+                    .get_transposed_shape_and_bit_order(&dm_shapes[handle.id])
+                    .0
+            };
             let mut any_shape = None;
             for (((input, &ib), ir_inputs), chunk_size) in kernel_call
                 .input_handles
@@ -828,8 +836,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                if any_shape.is_none() && !ib {
+                    any_shape = Some(pad_shape(&handle));
                 }
                 let values = handle
                     .shape_history
@@ -851,7 +859,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
                 let handle = ensure_handle(output.clone());
                 if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                    any_shape = Some(pad_shape(&handle));
                 }
                 let values = handle
                     .shape_history
@@ -921,7 +929,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
+            // without any, every argument is broadcast
+            let any_shape = any_shape.unwrap_or(vec![kernel_call.num_parallel]);
             let mut any_shape_products =
                 keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
             if kernel_call.num_parallel != hints_len {
-- 
2.43.0


From b798a6a1477c0aef82447ace14237a4adea76f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 32/66] fix: a kernel at the address of an earlier one is taken
 for that one

---
 expander_compiler/src/zkcuda/context.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index ef63725..aa8e5f8 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -398,12 +398,14 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        // Another kernel may have taken the place of an earlier one, so that the cached kernel is compared.
+        let kernel_id = match self.kernel_ptr_cache.get(&ptr) {
+            Some(&cached_id) if self.kernel_primitives.get(cached_id) == kernel => cached_id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From 78b6687c823bcd98b0812a384f693ff783410e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 33/66] fix: transposed arrays whose axes stay together break
 the computation graph

---
 expander_compiler/src/zkcuda/shape.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index e14efd6..c90c49a 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -105,9 +105,11 @@ impl Entry {
         if self.axes.is_none() {
             return shape.to_vec();
         }
-        let mut segments = Vec::with_capacity(self.shape.len());
+        // axes which stay together do not have to be split
+        let e = self.minimize(false);
+        let mut segments = Vec::with_capacity(e.shape.len());
         let mut shape_iter = shape.iter();
-        for &target in self.shape.iter() {
+        for &target in e.shape.iter() {
             let mut segment = vec![];
             let mut cur_prod = 1;
             while cur_prod < target {
@@ -120,7 +122,7 @@ impl Entry {
         }
         assert_eq!(shape_iter.next(), None);
         let mut res = Vec::with_capacity(shape.len());
-        for i in self.axes.as_ref().unwrap() {
+        for i in e.axes.as_ref().unwrap() {
             res.extend(segments[*i].iter());
         }
         res
-- 
2.43.0


From 1c0c5c691f102232b7813219afd75eaf982d66e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 34/66] fix: a loaded computation graph is read at the wrong
 kernels

---
 expander_compiler/src/zkcuda/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index aa8e5f8..43af1ad 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -671,8 +671,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
             let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+                // Get kernel from loaded kernels by the kernel_id of this call's proof template
+                // (not that of the call, which is among the primitives)
+                let templates: &Vec<ProofTemplate> = cg_proof_templates.as_ref().unwrap();
+                let template = templates
+                    .get(self.proof_templates.len())
+                    .expect("More kernel calls than in the computation graph");
+                self.kernels.get(template.kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From 5e7f0c0bcc3914a58113a1ecb3f2d087d33819cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 35/66] fix: kernels misread array lengths given as expressions

---
 expander_compiler/macros/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index af7f2d3..f7e34e3 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -286,7 +286,7 @@ fn calculate_array_total_len(ty: &Type) -> proc_macro2::TokenStream {
         Type::Array(array) => {
             let len = &array.len;
             let inner_len = calculate_array_total_len(&array.elem);
-            quote! { (#len as usize) * (#inner_len) }
+            quote! { ((#len) as usize) * (#inner_len) }
         }
         _ => quote! { 1usize },
     }
@@ -297,7 +297,7 @@ fn get_array_shape(ty: &Type) -> proc_macro2::TokenStream {
         Type::Array(array) => {
             let len = &array.len;
             let inner_shape = get_array_shape(&array.elem);
-            quote! { (#len as usize) , #inner_shape }
+            quote! { ((#len) as usize) , #inner_shape }
         }
         _ => quote! {},
     }
@@ -375,7 +375,7 @@ fn generate_unflatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -419,7 +419,7 @@ fn generate_unflatten_code(
         };
 
         inner_code = quote! {
-            for #var in 0..#dim {
+            for #var in 0..(#dim) {
                 #init_code
                 #inner_code
             }
@@ -457,7 +457,7 @@ fn generate_flatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -485,7 +485,7 @@ fn generate_flatten_code(
 
     for (var, &dim) in loop_vars.iter().zip(dims.iter()).rev() {
         loop_code = quote! {
-            for #var in 0..#dim {
+            for #var in 0..(#dim) {
                 #loop_code
             }
         };
-- 
2.43.0


From 427f084fa9889010266b20f831451f52fd4efed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 36/66] fix: the locally deferred prover and verifier disagree,
 and check nothing, for launches with several instances

---
 .../expander_local_deferred/api.rs            | 35 +++++--------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 3ba0c40..0eda5b4 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -73,6 +73,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
 
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
+        use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_pcs_opening_and_aggregation_mpi;
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
@@ -88,30 +89,9 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
                 let mut cur = Cursor::new(&lp.data[0].bytes);
-                let (ok, ch, _v0, _v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
+                let (ok, ch, v0, v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
                 if !ok { return false; }
-                let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
-                for sc in &chs {
-                    for (&ref comm, &_ib) in comms.iter().zip(tmpl.is_broadcast().iter()) {
-                        let commitment_len = comm.vals_len;
-                        let local_size = commitment_len >> sc.r_mpi.len();
-                        let n_local = if local_size > 0 { local_size.ilog2() as usize } else { 0 };
-                        let mut eval_ch = sc.clone();
-                        eval_ch.rz.truncate(n_local);
-                        let _v: <C::FieldConfig as FieldEngine>::ChallengeField = t.generate_field_element();
-                        let max_len = *vs.v_keys.keys().max().unwrap();
-                        let params = <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::gen_params(max_len.ilog2() as usize, 1);
-                        let v_key = vs.v_keys.get(&max_len).unwrap();
-                        let mut pcs_ch = sc.clone();
-                        pcs_ch.rz.extend_from_slice(&pcs_ch.r_mpi);
-                        pcs_ch.r_mpi = vec![];
-                        let target_rz = max_len.ilog2() as usize;
-                        while pcs_ch.rz.len() < target_rz { pcs_ch.rz.push(<C::FieldConfig as FieldEngine>::ChallengeField::ZERO); }
-                        // TODO: actually verify PCS opening against commitment
-                        let _ = (v_key, &params, &pcs_ch, comm, &mut cur);
-                    }
-                }
-                true
+                verify_pcs_opening_and_aggregation_mpi::<C, ECCConfig>(&mut cur, kernel, vs, &ch, v0, v1, &comms, tmpl.is_broadcast(), pc, &mut t)
             } else {
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
@@ -193,12 +173,13 @@ fn prove_one<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>>(
         let t2 = std::time::Instant::now();
         let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
         for sc in &chs {
-            for (ci, (&ref v, &_ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
-                let pc2 = sc.clone();
+            for (ci, (v, &ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
                 let comm_idx = tmpl.commitment_indices()[ci];
+                let (challenge_for_pcs, _) = crate::zkcuda::proving_system::expander_parallelized::prove_impl::partition_challenge_and_location_for_pcs_mpi::<C::FieldConfig>(
+                    sc, v.len(), pc, ib);
                 let scratch = &commit_states[comm_idx].scratch;
-                crate::zkcuda::proving_system::expander::prove_impl::pcs_batch_open_with_scratch::<C>(
-                    v, &pc2, ps, &mut tr, Some(scratch));
+                crate::zkcuda::proving_system::expander::prove_impl::pcs_local_open_with_scratch::<C>(
+                    v, &challenge_for_pcs, ps, &mut tr, Some(scratch));
             }
         }
         let t3 = std::time::Instant::now();
-- 
2.43.0


From bc1b0c243bb387819c42df6ac3bf8b2f0ae636e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 37/66] fix: the dummy proving system accepts a proof that owns
 up to failed constraints

---
 expander_compiler/src/zkcuda/proving_system/dummy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..5e41a2d 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -119,7 +119,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond.contains(&false) || proof.cond.get(i) != Some(&cond) {
                 return false;
             }
         }
-- 
2.43.0


From c701be8679f16453ac567cedb77c77c90960dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:24 +0000
Subject: [PATCH 38/66] fix: kernels that multiply their inputs right away
 cannot be proved with deferred openings

---
 .../expander_no_oversubscribe/prove_impl.rs   | 30 +++++++++++--------
 .../expander_pcs_defered/prove_impl.rs        | 29 ++++++++++--------
 .../expander_pcs_defered/verify_impl.rs       | 28 ++++++++++-------
 3 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/prove_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/prove_impl.rs
index bc98037..bec82a2 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/prove_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/prove_impl.rs
@@ -99,19 +99,25 @@ where
                     true => {
                         if global_mpi_config.is_root() {
                             let (mut transcript, challenge) = gkr_end_state.unwrap();
-                            assert!(challenge.challenge_y().is_none());
-                            let challenge = challenge.challenge_x();
-
-                            let (local_vals_ref, local_challenges) =
-                                extract_pcs_claims::<ZC::GKRConfig>(
-                                    &commitment_values,
-                                    &challenge,
-                                    template.is_broadcast(),
-                                    next_power_of_two(template.parallel_count()),
-                                );
+                            let gkr_challenges = if let Some(challenge_y) = challenge.challenge_y()
+                            {
+                                vec![challenge.challenge_x(), challenge_y]
+                            } else {
+                                vec![challenge.challenge_x()]
+                            };
 
-                            vals_ref.extend(local_vals_ref);
-                            challenges.extend(local_challenges);
+                            for challenge in gkr_challenges.iter() {
+                                let (local_vals_ref, local_challenges) =
+                                    extract_pcs_claims::<ZC::GKRConfig>(
+                                        &commitment_values,
+                                        challenge,
+                                        template.is_broadcast(),
+                                        next_power_of_two(template.parallel_count()),
+                                    );
+
+                                vals_ref.extend(local_vals_ref);
+                                challenges.extend(local_challenges);
+                            }
 
                             Some(ExpanderProof {
                                 data: vec![transcript.finalize_and_get_proof()],
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/prove_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/prove_impl.rs
index 7254595..576e191 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/prove_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/prove_impl.rs
@@ -145,18 +145,23 @@ where
 
             if global_mpi_config.is_root() {
                 let (mut transcript, challenge) = gkr_end_state.unwrap();
-                assert!(challenge.challenge_y().is_none());
-                let challenge = challenge.challenge_x();
-
-                let (local_vals_ref, local_challenges) = extract_pcs_claims::<C>(
-                    &commitment_values,
-                    &challenge,
-                    template.is_broadcast(),
-                    next_power_of_two(template.parallel_count()),
-                );
-
-                vals_ref.extend(local_vals_ref);
-                challenges.extend(local_challenges);
+                let gkr_challenges = if let Some(challenge_y) = challenge.challenge_y() {
+                    vec![challenge.challenge_x(), challenge_y]
+                } else {
+                    vec![challenge.challenge_x()]
+                };
+
+                for challenge in gkr_challenges.iter() {
+                    let (local_vals_ref, local_challenges) = extract_pcs_claims::<C>(
+                        &commitment_values,
+                        challenge,
+                        template.is_broadcast(),
+                        next_power_of_two(template.parallel_count()),
+                    );
+
+                    vals_ref.extend(local_vals_ref);
+                    challenges.extend(local_challenges);
+                }
 
                 Some(ExpanderProof {
                     data: vec![transcript.finalize_and_get_proof()],
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index b06be3d..78d25d4 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -169,17 +169,25 @@ where
                 next_power_of_two(template.parallel_count()),
             );
 
-            assert!(challenge.challenge_y().is_none());
-            let challenge = challenge.challenge_x();
+            let gkr_challenges = if let Some(challenge_y) = challenge.challenge_y() {
+                vec![challenge.challenge_x(), challenge_y]
+            } else {
+                vec![challenge.challenge_x()]
+            };
 
-            let (local_commitments, challenges) = verifier_extract_pcs_claims::<C, ECCConfig>(
-                &local_commitments,
-                &challenge,
-                template.is_broadcast(),
-                next_power_of_two(template.parallel_count()),
-            );
-
-            (verified, local_commitments, challenges)
+            let (commitments, challenges): (Vec<_>, Vec<_>) = gkr_challenges
+                .iter()
+                .map(|challenge| {
+                    verifier_extract_pcs_claims::<C, ECCConfig>(
+                        &local_commitments,
+                        challenge,
+                        template.is_broadcast(),
+                        next_power_of_two(template.parallel_count()),
+                    )
+                })
+                .unzip();
+
+            (verified, commitments.concat(), challenges.concat())
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From 2423e9ffe1316fa7efd6203a5fbecf638f350c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 39/66] fix: the deferred verifier never compares the claims of
 GKR with the opened commitments

---
 .../expander_pcs_defered/verify_impl.rs       | 97 ++++++++++++++-----
 1 file changed, 74 insertions(+), 23 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index 78d25d4..8f2e0c7 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -7,6 +7,7 @@ use gkr_engine::{
     ExpanderDualVarChallenge, ExpanderPCS, ExpanderSingleVarChallenge, FieldEngine, GKREngine,
     Proof as BytesProof, Transcript,
 };
+use polynomials::EqPolynomial;
 use serdes::ExpSerde;
 
 use crate::{
@@ -24,6 +25,7 @@ use crate::{
 };
 
 fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
+    kernel: &Kernel<ECCConfig>,
     commitments: &[&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     gkr_challenge: &ExpanderSingleVarChallenge<C::FieldConfig>,
     is_broadcast: &[bool],
@@ -31,6 +33,7 @@ fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
 ) -> (
     Vec<&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>>,
     Vec<ExpanderSingleVarChallenge<C::FieldConfig>>,
+    Vec<<C::FieldConfig as FieldEngine>::ChallengeField>,
 )
 where
     C: GKREngine,
@@ -38,13 +41,19 @@ where
 {
     let mut commitments_rt = vec![];
     let mut challenges = vec![];
+    let mut weights = vec![];
 
-    for (&commitment, ib) in commitments.iter().zip(is_broadcast) {
+    for ((input, &commitment), ib) in kernel
+        .layered_circuit_input()
+        .iter()
+        .zip(commitments.iter())
+        .zip(is_broadcast)
+    {
         let val_len =
             <ExpanderCommitment<C::FieldConfig, C::PCSConfig> as Commitment<ECCConfig>>::vals_len(
                 commitment,
             );
-        let (challenge_for_pcs, _) = partition_challenge_and_location_for_pcs_mpi(
+        let (challenge_for_pcs, component_idx_vars) = partition_challenge_and_location_for_pcs_mpi(
             gkr_challenge,
             val_len,
             parallel_count,
@@ -53,16 +62,24 @@ where
 
         commitments_rt.push(commitment);
         challenges.push(challenge_for_pcs);
+        weights.push(EqPolynomial::ith_eq_vec_elem(
+            &component_idx_vars,
+            input.offset / input.len,
+        ));
     }
 
-    (commitments_rt, challenges)
+    (commitments_rt, challenges, weights)
 }
 
 pub fn verify_gkr<C, ECCConfig>(
     kernel: &Kernel<ECCConfig>,
     proof: &ExpanderProof,
     parallel_count: usize,
-) -> (bool, ExpanderDualVarChallenge<C::FieldConfig>)
+) -> (
+    bool,
+    ExpanderDualVarChallenge<C::FieldConfig>,
+    Vec<<C::FieldConfig as FieldEngine>::ChallengeField>,
+)
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -73,7 +90,7 @@ where
     expander_circuit.fill_rnd_coefs(&mut transcript);
 
     let mut cursor = Cursor::new(&proof.data[0].bytes);
-    let (verified, challenge, _claimed_v0, _claimed_v1) = gkr_verify(
+    let (verified, challenge, claimed_v0, claimed_v1) = gkr_verify(
         parallel_count,
         &expander_circuit,
         &[],
@@ -82,12 +99,18 @@ where
         &mut cursor,
     );
 
+    let claims = if let Some(claimed_v1) = claimed_v1 {
+        vec![claimed_v0, claimed_v1]
+    } else {
+        vec![claimed_v0]
+    };
+
     if !verified {
         println!("Failed to verify GKR proof");
-        return (false, challenge);
+        return (false, challenge, claims);
     }
 
-    (true, challenge)
+    (true, challenge, claims)
 }
 
 pub fn verify_defered_pcs_opening<C, ECCConfig>(
@@ -95,7 +118,7 @@ pub fn verify_defered_pcs_opening<C, ECCConfig>(
     verifier_setup: &ExpanderVerifierSetup<C::FieldConfig, C::PCSConfig>,
     commitments: &[&ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     challenges: &[ExpanderSingleVarChallenge<C::FieldConfig>],
-) -> bool
+) -> Option<Vec<<C::FieldConfig as FieldEngine>::ChallengeField>>
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -133,7 +156,7 @@ where
     );
     transcript.unlock_proof();
 
-    pcs_verified
+    (pcs_verified && vals.len() == commitments.len()).then_some(vals)
 }
 
 pub fn verify<C, ECCConfig>(
@@ -163,8 +186,9 @@ where
                 .map(|idx| &proof.commitments[*idx])
                 .collect::<Vec<_>>();
 
-            let (verified, challenge) = verify_gkr::<C, ECCConfig>(
-                &computation_graph.kernels()[template.kernel_id()],
+            let kernel = &computation_graph.kernels()[template.kernel_id()];
+            let (verified, challenge, claims) = verify_gkr::<C, ECCConfig>(
+                kernel,
                 local_proof,
                 next_power_of_two(template.parallel_count()),
             );
@@ -175,23 +199,35 @@ where
                 vec![challenge.challenge_x()]
             };
 
-            let (commitments, challenges): (Vec<_>, Vec<_>) = gkr_challenges
-                .iter()
-                .map(|challenge| {
+            assert_eq!(gkr_challenges.len(), claims.len());
+
+            let mut all_commitments = vec![];
+            let mut all_challenges = vec![];
+            let mut claims_and_weights = vec![];
+            for (challenge, claim) in gkr_challenges.iter().zip(claims) {
+                let (commitments, challenges, weights) =
                     verifier_extract_pcs_claims::<C, ECCConfig>(
+                        kernel,
                         &local_commitments,
                         challenge,
                         template.is_broadcast(),
                         next_power_of_two(template.parallel_count()),
-                    )
-                })
-                .unzip();
+                    );
+                all_commitments.extend(commitments);
+                all_challenges.extend(challenges);
+                claims_and_weights.push((claim, weights));
+            }
 
-            (verified, commitments.concat(), challenges.concat())
+            (
+                verified,
+                all_commitments,
+                all_challenges,
+                claims_and_weights,
+            )
         })
         .collect::<Vec<_>>();
 
-    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, _, _)| *v);
+    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, _, _, _)| *v);
     if !gkr_verified {
         println!("Failed to verify GKR proofs");
         return false;
@@ -201,16 +237,16 @@ where
     let pcs_verification_timer = Timer::new("PCS Verification", true);
     let commitments_ref = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, c, _)| c)
+        .flat_map(|(_, c, _, _)| c)
         .copied()
         .collect::<Vec<_>>();
 
     let challenges = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, _, c)| c.clone())
+        .flat_map(|(_, _, c, _)| c.clone())
         .collect::<Vec<_>>();
 
-    let pcs_verified = verify_defered_pcs_opening::<C, ECCConfig>(
+    let opened_vals = verify_defered_pcs_opening::<C, ECCConfig>(
         &pcs_batch_opening.data[0],
         verifier_setup,
         &commitments_ref,
@@ -218,6 +254,21 @@ where
     );
     pcs_verification_timer.stop();
 
+    // The claims GKR ends with have to be those the opened values of the commitments add up to.
+    let claims_verified = opened_vals.is_some_and(|vals| {
+        let mut vals = vals.into_iter();
+        verified_with_pcs_claims
+            .iter()
+            .flat_map(|(_, _, _, c)| c)
+            .all(|(claim, weights)| {
+                let mut target = <C::FieldConfig as FieldEngine>::ChallengeField::ZERO;
+                for weight in weights {
+                    target += *weight * vals.next().unwrap();
+                }
+                *claim == target
+            })
+    });
+
     verification_timer.stop();
-    gkr_verified && pcs_verified
+    claims_verified
 }
-- 
2.43.0


From b6c30c1648a7571f70237b075238840fcfc6c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 40/66] fix: proofs that leave out launches or commit to
 memories of other lengths are accepted

---
 .../src/zkcuda/proving_system/common.rs       | 21 ++++++++++++++++++-
 .../src/zkcuda/proving_system/dummy.rs        |  9 +++++++-
 .../expander/api_single_thread.rs             | 10 ++++++++-
 .../expander_local_deferred/api.rs            |  3 ++-
 .../expander_parallelized/api_parallel.rs     |  9 +++++++-
 .../expander_pcs_defered/verify_impl.rs       | 10 ++++++++-
 6 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/common.rs b/expander_compiler/src/zkcuda/proving_system/common.rs
index b8cd617..7db742e 100644
--- a/expander_compiler/src/zkcuda/proving_system/common.rs
+++ b/expander_compiler/src/zkcuda/proving_system/common.rs
@@ -8,7 +8,26 @@ use crate::{
 
 use arith::Field;
 
-use super::super::kernel::Kernel;
+use super::super::{context::ComputationGraph, kernel::Kernel};
+
+use super::{CombinedProof, Commitment, KernelWiseProvingSystem};
+
+/// A proof has to cover every launch of the graph, and to commit to memories of the lengths the
+/// graph was compiled for: launches without a proof would go unchecked, and a commitment of another
+/// length would be read at another place of the kernel's input.
+pub fn check_proof_shape<C: Config, KP: KernelWiseProvingSystem<C>>(
+    computation_graph: &ComputationGraph<C>,
+    proof: &CombinedProof<C, KP>,
+    num_proofs: usize,
+) -> bool {
+    proof.proofs.len() == num_proofs
+        && proof.commitments.len() == computation_graph.commitments_lens().len()
+        && proof
+            .commitments
+            .iter()
+            .zip(computation_graph.commitments_lens())
+            .all(|(commitment, len)| commitment.vals_len() == *len)
+}
 
 pub fn check_inputs<C: Config>(
     kernel: &Kernel<C>,
diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index 5e41a2d..2bcd095 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -8,7 +8,7 @@ use crate::zkcuda::proving_system::{CombinedProof, KernelWiseProvingSystem, Prov
 
 use super::super::kernel::Kernel;
 
-use super::{check_inputs, prepare_inputs, Commitment};
+use super::{check_inputs, check_proof_shape, prepare_inputs, Commitment};
 
 // dummy implementation of these traits
 
@@ -190,6 +190,13 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if !check_proof_shape(
+            computation_graph,
+            proof,
+            computation_graph.proof_templates().len(),
+        ) {
+            return false;
+        }
         let verified = proof
             .proofs
             .par_iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
index 836201a..ec4e9e2 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
@@ -13,7 +13,8 @@ use crate::zkcuda::proving_system::expander::prove_impl::{
 use crate::zkcuda::proving_system::expander::setup_impl::local_setup_impl;
 use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
 use crate::zkcuda::proving_system::{
-    common::check_inputs, CombinedProof, KernelWiseProvingSystem, ProvingSystem,
+    common::{check_inputs, check_proof_shape},
+    CombinedProof, KernelWiseProvingSystem, ProvingSystem,
 };
 
 use super::structs::{
@@ -231,6 +232,13 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if !check_proof_shape(
+            computation_graph,
+            proof,
+            computation_graph.proof_templates().len(),
+        ) {
+            return false;
+        }
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 0eda5b4..8092e05 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -5,7 +5,7 @@ use arith::Field;
 use gkr::{gkr_prove_batch, gkr_verify};
 use gkr_engine::{ExpanderPCS, FieldEngine, GKREngine, MPIConfig, Transcript};
 use crate::{frontend::{Config, SIMDField}, utils::misc::next_power_of_two,
-    zkcuda::{context::ComputationGraph, proving_system::{common::check_inputs,
+    zkcuda::{context::ComputationGraph, proving_system::{common::{check_inputs, check_proof_shape},
         expander::{prove_impl::{get_local_vals, prepare_expander_circuit, prepare_inputs_with_local_vals},
             structs::{ExpanderProof, ExpanderProverSetup, ExpanderVerifierSetup}},
                 CombinedProof, Expander, ProvingSystem}}};
@@ -74,6 +74,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
         use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_pcs_opening_and_aggregation_mpi;
+        if !check_proof_shape(cg, proof, cg.proof_templates().len()) { return false; }
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
index 8100531..d386eba 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
@@ -10,7 +10,7 @@ use crate::zkcuda::proving_system::expander_parallelized::client_utils::{
     ClientHttpHelper,
 };
 use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_kernel;
-use crate::zkcuda::proving_system::{CombinedProof, ProvingSystem};
+use crate::zkcuda::proving_system::{check_proof_shape, CombinedProof, ProvingSystem};
 
 use super::super::Expander;
 
@@ -55,6 +55,13 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         proof: &Self::Proof,
     ) -> bool {
         let verification_timer = Timer::new("Verify all kernels", true);
+        if !check_proof_shape(
+            computation_graph,
+            proof,
+            computation_graph.proof_templates().len(),
+        ) {
+            return false;
+        }
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index 8f2e0c7..841e28a 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -19,7 +19,7 @@ use crate::{
         proving_system::{
             expander::structs::{ExpanderCommitment, ExpanderProof, ExpanderVerifierSetup},
             expander_parallelized::prove_impl::partition_challenge_and_location_for_pcs_mpi,
-            CombinedProof, Commitment, Expander,
+            check_proof_shape, CombinedProof, Commitment, Expander,
         },
     },
 };
@@ -172,6 +172,14 @@ where
         AsRef<<C::PCSConfig as ExpanderPCS<C::FieldConfig>>::Commitment>,
 {
     let verification_timer = Timer::new("Total Verification", true);
+    // One proof for every launch, followed by the opening of all of them
+    if !check_proof_shape(
+        computation_graph,
+        &proof,
+        computation_graph.proof_templates().len() + 1,
+    ) {
+        return false;
+    }
     let pcs_batch_opening = proof.proofs.pop().unwrap();
 
     let gkr_verification_timer = Timer::new("GKR Verification", true);
-- 
2.43.0


From d8ccc4ee5b4d9059593240835a20cb96389687fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:15 +0000
Subject: [PATCH 41/66] fix: options of the server share short names: -f and -p
 are --field-type and --poly-commit only

---
 .../proving_system/expander_parallelized/server_ctrl.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index f51dd50..725eee8 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -374,7 +374,7 @@ pub struct ExpanderExecArgs {
     pub field_type: String,
 
     /// Fiat-Shamir Hash: SHA256, or Poseidon, or MiMC5
-    #[arg(short, long, default_value = "SHA256")]
+    #[arg(long, default_value = "SHA256")]
     pub fiat_shamir_hash: String,
 
     /// Polynomial Commitment Scheme: Raw, or Orion
@@ -382,7 +382,7 @@ pub struct ExpanderExecArgs {
     pub poly_commit: String,
 
     /// The port number for the server to listen on.
-    #[arg(short, long, default_value = "3000")]
+    #[arg(long, default_value = "3000")]
     pub port_number: String,
 
     /// Whether to batch PCS opening in proving.
-- 
2.43.0


From 35086c7bda0ca952f3731e8ce61673901d77569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:35 +0000
Subject: [PATCH 42/66] fix: a second setup request frees memory that lies in a
 shared window

---
 .../proving_system/expander_parallelized/server_fns.rs      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
index d3e326d..fa3caca 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
@@ -148,6 +148,12 @@ pub fn read_circuit<C, ECCConfig>(
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
 {
+    // dispose of the previous shared memory if it exists
+    if let Some(mut win_wrapper) = mpi_win.take() {
+        std::mem::take(computation_graph).discard_control_of_shared_mem();
+        global_mpi_config.free_shared_mem(&mut win_wrapper.win);
+    }
+
     let (cg, win) = if global_mpi_config.is_root() {
         let computation_graph_bytes =
             std::fs::read(setup_file).expect("Failed to read computation graph from file");
-- 
2.43.0


From c27bac6604be508bc8513c572cc640c819e77f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 43/66] fix: tell memorized Go calls with different simple
 arguments apart

---
 ecgo/builder/sub_circuit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/sub_circuit.go b/ecgo/builder/sub_circuit.go
index 72add55..fe3406c 100644
--- a/ecgo/builder/sub_circuit.go
+++ b/ecgo/builder/sub_circuit.go
@@ -318,8 +318,8 @@ func (parent *builder) MemorizedCall(fn SubCircuitFunc, inputs ...interface{}) i
 		h.Write([]byte("|"))
 	}
 	for _, i := range others {
-		vs := inputVals[i].String()
-		h.Write([]byte(strconv.Itoa(len(vs)) + vs))
+		vs := fmt.Sprint(inputVals[i].Interface())
+		h.Write([]byte(strconv.Itoa(len(vs)) + ":" + vs))
 	}
 	var tmp [32]byte
 	copy(tmp[:], h.Sum(nil))
-- 
2.43.0


From 146c98d53118f66682b89be876999717e7553a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 44/66] fix: memorize variadic Go functions

---
 ecgo/builder/sub_circuit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecgo/builder/sub_circuit.go b/ecgo/builder/sub_circuit.go
index fe3406c..5ef7e73 100644
--- a/ecgo/builder/sub_circuit.go
+++ b/ecgo/builder/sub_circuit.go
@@ -300,8 +300,12 @@ func (parent *builder) MemorizedCall(fn SubCircuitFunc, inputs ...interface{}) i
 		if numIn-1 > len(inputs) {
 			vars = vars[:len(vars)-1]
 		} else {
+			// the last declared argument is a slice of what is passed one by one
+			level := varLevel[numIn-1] - 1
+			varLevel[numIn-1] = level
 			for i := numIn; i <= len(inputs); i++ {
 				vars = append(vars, i)
+				varLevel = append(varLevel, level)
 			}
 		}
 	}
-- 
2.43.0


From 630ef9090d7d666102c8a54b2694951e7357713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 45/66] fix: finalize sub circuits first called by deferred
 functions

---
 ecgo/builder/finalize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/finalize.go b/ecgo/builder/finalize.go
index d8956fe..9f08701 100644
--- a/ecgo/builder/finalize.go
+++ b/ecgo/builder/finalize.go
@@ -10,8 +10,13 @@ import (
 // and adds public variables to the output.
 func (r *Root) Finalize() *irsource.RootCircuit {
 	res := make(map[uint64]*irsource.Circuit)
-	for x, b := range r.registry.m {
-		res[x] = b.builder.Finalize()
+	// deferred functions may call further sub circuits
+	for len(res) < len(r.registry.m) {
+		for x, b := range r.registry.m {
+			if _, ok := res[x]; !ok {
+				res[x] = b.builder.Finalize()
+			}
+		}
 	}
 	return &irsource.RootCircuit{
 		NumPublicInputs:         r.nbPublicInputs,
-- 
2.43.0


From 3f0b34fc61038a0ceabdc39f8b014301782b0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 46/66] fix: let the Go map's Set replace the value of a stored
 key

---
 ecgo/utils/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecgo/utils/map.go b/ecgo/utils/map.go
index b97ecb6..88561df 100644
--- a/ecgo/utils/map.go
+++ b/ecgo/utils/map.go
@@ -33,9 +33,9 @@ func (m Map) Set(e Hashable, v interface{}) {
 	if !ok {
 		s = make([]mapEntry, 0, 1)
 	} else {
-		for _, x := range s {
-			if x.e.EqualI(e) {
-				x.v = v
+		for i := range s {
+			if s[i].e.EqualI(e) {
+				s[i].v = v
 				return
 			}
 		}
-- 
2.43.0


From 9d035a7ad70ec8a9bb9054309c112b37be134076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 47/66] fix: check the divisor in Go's Div, and not in its
 DivUnchecked

---
 ecgo/builder/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecgo/builder/api.go b/ecgo/builder/api.go
index 732ddde..9c868ca 100644
--- a/ecgo/builder/api.go
+++ b/ecgo/builder/api.go
@@ -152,7 +152,7 @@ func (builder *builder) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable
 		Type:    irsource.Div,
 		X:       v1,
 		Y:       v2,
-		ExtraId: 1,
+		ExtraId: 0,
 	})
 	return builder.addVar()
 }
@@ -175,7 +175,7 @@ func (builder *builder) Div(i1, i2 frontend.Variable) frontend.Variable {
 		Type:    irsource.Div,
 		X:       v1,
 		Y:       v2,
-		ExtraId: 0,
+		ExtraId: 1,
 	})
 	return builder.addVar()
 }
-- 
2.43.0


From 13debf8cd24a5fdaabda0c357992e62896f69451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 48/66] fix: an element of GF2 has one bit

---
 ecgo/field/gf2/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecgo/field/gf2/field.go b/ecgo/field/gf2/field.go
index 48f0395..11a255f 100644
--- a/ecgo/field/gf2/field.go
+++ b/ecgo/field/gf2/field.go
@@ -81,7 +81,7 @@ func (engine *Field) Field() *big.Int {
 }
 
 func (engine *Field) FieldBitLen() int {
-	return 31
+	return 1
 }
 
 func (engine *Field) SerializedLen() int {
-- 
2.43.0


From fc9e6cdcf47a88f9894cb2be0cace21f3ffce0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 49/66] fix: give custom gates a number to write their output
 to

---
 ecgo/irwg/witness_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecgo/irwg/witness_gen.go b/ecgo/irwg/witness_gen.go
index 1595f1a..e26b727 100644
--- a/ecgo/irwg/witness_gen.go
+++ b/ecgo/irwg/witness_gen.go
@@ -176,7 +176,7 @@ func (rc *RootCircuit) evalSub(circuitId uint64, inputs []constraint.Element, pu
 			for _, x := range insn.Inputs {
 				custom_inputs = append(custom_inputs, rc.Field.ToBigInt(values[x]))
 			}
-			custom_outputs := make([]*big.Int, 1)
+			custom_outputs := []*big.Int{big.NewInt(0)}
 			err := customgates.GetFunc(insn.ExtraId)(rc.Field.Field(), custom_inputs, custom_outputs)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 8ed4b7c45291e6e18370a10debaf8b00cf7d4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 50/66] fix: report hints that are not registered instead of
 calling nil

---
 ecgo/irwg/witness_gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecgo/irwg/witness_gen.go b/ecgo/irwg/witness_gen.go
index e26b727..bed55c3 100644
--- a/ecgo/irwg/witness_gen.go
+++ b/ecgo/irwg/witness_gen.go
@@ -2,6 +2,7 @@ package irwg
 
 import (
 	"errors"
+	"fmt"
 	"math/big"
 	"reflect"
 
@@ -209,7 +210,11 @@ func callHint(hintId uint64, field *big.Int, inputs []*big.Int, outputs []*big.I
 		outputs[0] = a
 		return nil
 	}
-	return solver.GetRegisteredHint(solver.HintID(hintId))(field, inputs, outputs)
+	hint := solver.GetRegisteredHint(solver.HintID(hintId))
+	if hint == nil {
+		return fmt.Errorf("hint %d is not registered", hintId)
+	}
+	return hint(field, inputs, outputs)
 }
 
 // Serialize converts the Witness into a byte slice for storage or transmission.
-- 
2.43.0


From f30f6562e60d54bbb0ef092c29474e11be0c53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 51/66] fix: matmul gadget: use the constant one and compare
 dimensions, not variable ids

Variable::from(n) is the variable with id n, so the first entry of the
challenge vector was the first input instead of 1 (a zero there left the
first result column unchecked) and the dimension assertions constrained
unrelated inputs.
---
 circuit-std-rs/src/matmul.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..28f6a7c 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -40,9 +40,9 @@ impl<C: Config> Define<C> for MatMulCircuit {
         let r2 = self.result_mat[0].len();
         let zero = builder.constant(0);
 
-        builder.assert_is_equal(Variable::from(n1), Variable::from(m2));
-        builder.assert_is_equal(Variable::from(r1), Variable::from(m1));
-        builder.assert_is_equal(Variable::from(r2), Variable::from(n2));
+        assert_eq!(n1, m2, "n1 ! = m2");
+        assert_eq!(r1, m1, "r1 ! = m1");
+        assert_eq!(r2, n2, "r2 ! = n2");
 
         let loop_count = if CircuitField::<C>::SIZE == M31::SIZE {
             3
@@ -56,7 +56,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From d2ce65c9db7c79bf91902f2a20a58a2c71cdeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 52/66] fix: logup range proof: values below zero are not in
 range

When the width is not a multiple of the table's, only the shifted value was
looked up, which also admits -(2^shift-1)*2^n <= a < 0. Look up the unshifted
top chunk as well, and decompose the value itself so that rounding the width
up cannot wrap around a small modulus.
---
 circuit-std-rs/src/logup.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..c5dfaa1 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,27 +397,16 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
+        //round up to whole chunks
         let mut n = n;
-        let mut new_a = a;
         let rem = n % self.rangeproof_bits;
         if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
+            n += self.rangeproof_bits - rem;
         }
         let hint_input = vec![
             builder.constant(n as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
         let witnesses = builder.new_hint(
             "myhint.rangeproofhint",
@@ -433,10 +422,14 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
+        builder.assert_is_equal(sum, a);
         for witness in witnesses.iter().take(n / self.rangeproof_bits) {
             self.query_range(*witness);
         }
+        //the top chunk has only rem bits
+        if rem != 0 {
+            self.rangeproof_onechunk(builder, witnesses[n / self.rangeproof_bits - 1], rem);
+        }
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -459,6 +452,8 @@ impl LogUpRangeProofTable {
             mul_factor <<= n;
             let a_shift = builder.mul(constant, mul_factor);
             new_a = builder.add(a, a_shift);
+            //the shifted value alone would also admit values below zero
+            self.query_range(a);
         }
         self.query_range(new_a);
     }
-- 
2.43.0


From 20fcbd7985039d2262db361999a19c1f26cc4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:18 +0000
Subject: [PATCH 53/66] fix: logup single-key table: count queries by the whole
 key

Keys were truncated to 32 bits, so over a large field honest queries of keys
that agree modulo 2^32 were miscounted and refused.
---
 circuit-std-rs/src/logup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index c5dfaa1..7620145 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -519,14 +519,14 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From c7857e30dae1c330db7db4e3e285d81cbed02b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:37 +0000
Subject: [PATCH 54/66] fix: sha256 over GF2: pad messages that need an extra
 block

448 - (len + 1) % 512 underflowed when the last block has no room for the
length.
---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..e52efac 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - ((data_len + 1) % 512)) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From 7385a8bcf18a2fb2c19e2035fd7d272f059ca5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 55/66] fix: big_less_than: compare numbers of one limb

With k = 1 there is no pair of limbs to combine and ors[0] was out of bounds.
---
 circuit-std-rs/src/sha256/m31_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuit-std-rs/src/sha256/m31_utils.rs b/circuit-std-rs/src/sha256/m31_utils.rs
index 1f5d971..e2353be 100644
--- a/circuit-std-rs/src/sha256/m31_utils.rs
+++ b/circuit-std-rs/src/sha256/m31_utils.rs
@@ -362,6 +362,9 @@ pub fn big_less_than<C: Config, B: RootAPI<C>>(
         let diff = api.sub(a[i], b[i]);
         eq.push(api.is_zero(diff));
     }
+    if k == 1 {
+        return lt[0];
+    }
     let mut ors = vec![Variable::default(); k - 1];
     let mut ands = vec![Variable::default(); k - 1];
     let mut eq_ands = vec![Variable::default(); k - 1];
-- 
2.43.0


From 8c3fb7513be724cff1f810def06cdd4c4822d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:03 +0000
Subject: [PATCH 56/66] fix: rsa mod_mul: reduce the product modulo the modulus

---
 rsa_circuit/src/native.rs | 85 +--------------------------------------
 1 file changed, 1 insertion(+), 84 deletions(-)

diff --git a/rsa_circuit/src/native.rs b/rsa_circuit/src/native.rs
index 6f6a59a..e0a1d7d 100644
--- a/rsa_circuit/src/native.rs
+++ b/rsa_circuit/src/native.rs
@@ -249,89 +249,6 @@ impl RSAFieldElement {
 
     // Performs modular multiplication: (self * other) mod modulus
     pub fn mod_mul(&self, other: &Self, modulus: &Self) -> Self {
-        // First compute full multiplication without reduction
-        let mut product = [0u128; 2 * N_LIMBS];
-        Self::mul_without_reduction(self, other, &mut product);
-
-        // Now we need to reduce the result modulo our modulus
-        // We'll use the division algorithm to compute quotient and remainder
-        let mut quotient = [0u128; N_LIMBS];
-        let mut remainder = [0u128; N_LIMBS];
-
-        // Start from the most significant limb
-        for i in (0..N_LIMBS).rev() {
-            // Process each limb of the product
-            let current_value = product[i + N_LIMBS];
-
-            // If we have any value in the upper half, we need to reduce it
-            if current_value > 0 {
-                // Estimate how many times we need to subtract modulus
-                // Since we're working with 120-bit limbs, we can do a rough estimate
-                let q = current_value;
-
-                // Update quotient
-                quotient[i] = q;
-
-                // Subtract q * modulus from the current position
-                let mut borrow = 0u128;
-                let mut carry = 0u128;
-
-                // First multiply q with modulus
-                for j in 0..N_LIMBS {
-                    if i + j < 2 * N_LIMBS {
-                        let (prod, prod_carry) = mul_u120_with_carry(&q, &modulus.data[j], &carry);
-                        carry = prod_carry;
-
-                        // Subtract from product
-                        if prod > product[i + j] + borrow {
-                            product[i + j] = (1u128 << 120) + product[i + j] - prod - borrow;
-                            borrow = 1;
-                        } else {
-                            product[i + j] = product[i + j] - prod - borrow;
-                            borrow = 0;
-                        }
-                    }
-                }
-            }
-        }
-
-        // The lower N_LIMBS of product is now our remainder
-        for i in 0..N_LIMBS {
-            remainder[i] = product[i] & MASK120;
-        }
-        remainder[N_LIMBS - 1] &= MASK8;
-
-        // Final adjustments if remainder >= modulus
-        let mut is_greater = false;
-        let mut i = N_LIMBS - 1;
-        while i > 0 && !is_greater {
-            match remainder[i].cmp(&modulus.data[i]) {
-                std::cmp::Ordering::Greater => {
-                    is_greater = true;
-                }
-                std::cmp::Ordering::Less => {
-                    break;
-                }
-                std::cmp::Ordering::Equal => {
-                    break;
-                }
-            }
-            i -= 1;
-        }
-
-        if is_greater {
-            let mut borrow = 0u128;
-            for i in 0..N_LIMBS {
-                if modulus.data[i] + borrow > remainder[i] {
-                    remainder[i] = (1u128 << 120) + remainder[i] - modulus.data[i] - borrow;
-                    borrow = 1;
-                } else {
-                    remainder[i] = remainder[i] - modulus.data[i] - borrow;
-                    borrow = 0;
-                }
-            }
-        }
-
-        Self { data: remainder }
+        self.slow_mul_mod(other, modulus).0
     }
 }
-- 
2.43.0


From b3e220682d3d5a01fef4bb11bec4940e2f5f40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:03 +0000
Subject: [PATCH 57/66] fix: u2048 assert_mul: compare all limbs of the product

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From ac448c98c2c355d6c6a326fac54e11819c05a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:03 +0000
Subject: [PATCH 58/66] fix: rsa circuit: raise to 65537, with sixteen
 squarings

---
 rsa_circuit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index 5bd0ad0..e35c08f 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -130,7 +130,7 @@ impl Define<BN254Config> for RSACircuit<Variable> {
             );
 
             // compute x^4, to x^65536
-            for i in 1..11 {
+            for i in 1..16 {
                 U2048Variable::assert_mul(
                     &x_power_vars[i - 1],
                     &x_power_vars[i - 1],
-- 
2.43.0


From 6ac063e1f6ebf9aec73e536844ae5c059a0cc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 59/66] fix: assert_is_on_g1: compare -[x^2]phi(P) with P

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..e8f7b39 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -472,7 +472,8 @@ impl Pairing {
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        // [r]P == 0 <==> P == -[x²]ϕ(P)
+        self.g1.assert_is_equal(native, &neg_p_squared, p);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From b843d72caba20af3486aa512cc05e13a33a269c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 60/66] fix: map_to_curve1: constrain y when g(x0) is a square

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index bba0ee0..abed807 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -551,7 +551,7 @@ impl G1 {
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
 
-        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &res_y_sq);
+        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &y_sq);
 
         self.curve_f
             .assert_is_equal(native, &expected_y_sq, &res_y_sq);
-- 
2.43.0


From 0d586d307cca2a3aff519542f04469697d5ffa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:13 +0000
Subject: [PATCH 61/66] fix: PoseidonM31x16Permutation: apply the whole
 permutation, not one S-box layer

---
 circuit-std-go/poseidon-m31/poseidon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-go/poseidon-m31/poseidon.go b/circuit-std-go/poseidon-m31/poseidon.go
index 7fc88bc..8233498 100644
--- a/circuit-std-go/poseidon-m31/poseidon.go
+++ b/circuit-std-go/poseidon-m31/poseidon.go
@@ -155,7 +155,7 @@ type PoseidonM31x16Permutation struct {
 
 func (p *PoseidonM31x16Permutation) Define(api frontend.API) error {
 
-	digest := poseidonM31x16FullRoundSBox(api, p.State[:])
+	digest := PoseidonM31x16Permutate(api, p.State[:])
 
 	for i := 0; i < 16; i++ {
 		api.AssertIsEqual(p.Digest[i], digest[i])
-- 
2.43.0


From 6f8b2c1d3722cb9ba6f6881b59cf9ee4f760347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:25 +0000
Subject: [PATCH 62/66] fix: GetColumnRandomness: a table of one column has no
 second power

---
 circuit-std-go/logup/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuit-std-go/logup/utils.go b/circuit-std-go/logup/utils.go
index 43ad75a..3dd4cd8 100644
--- a/circuit-std-go/logup/utils.go
+++ b/circuit-std-go/logup/utils.go
@@ -69,7 +69,9 @@ func GetColumnRandomness(api ecgo.API, n_columns uint, column_combine_options Co
 	if column_combine_options == Poly {
 		beta := api.GetRandomValue()
 		randomness[0] = 1
-		randomness[1] = beta
+		if n_columns > 1 {
+			randomness[1] = beta
+		}
 
 		// Hopefully this will generate fewer layers than sequential pows
 		max_deg := uint(1)
-- 
2.43.0


From dc91e820c83ba3f2a46699322b1314e44cb058fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 63/66] fix: RangeProof: check the top limb's width without
 admitting negative values

---
 circuit-std-go/logup/logup.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/circuit-std-go/logup/logup.go b/circuit-std-go/logup/logup.go
index 938b413..eb658ae 100644
--- a/circuit-std-go/logup/logup.go
+++ b/circuit-std-go/logup/logup.go
@@ -98,15 +98,10 @@ func QueryRange(key frontend.Variable) {
 }
 
 func RangeProof(api frontend.API, a frontend.Variable, n int) {
-	//add a shift value
-	if n%LookupTableBits != 0 {
-		rem := n % LookupTableBits
-		shift := LookupTableBits - rem
-		constant := (1 << shift) - 1
-		mulFactor := big.NewInt(1)
-		mulFactor.Lsh(mulFactor, uint(n))
-		a = api.Add(a, api.Mul(constant, mulFactor))
-		n = n + shift
+	//round up to whole limbs
+	rem := n % LookupTableBits
+	if rem != 0 {
+		n = n + LookupTableBits - rem
 	}
 	hintInput := make([]frontend.Variable, 2)
 	hintInput[0] = n
@@ -125,6 +120,11 @@ func RangeProof(api frontend.API, a frontend.Variable, n int) {
 	for i := 0; i < n/LookupTableBits; i++ {
 		QueryRange(witnesses[i])
 	}
+	//the top limb has only rem bits: it stays in the table with a shift value added
+	if rem != 0 {
+		constant := (1<<(LookupTableBits-rem) - 1) << rem
+		QueryRange(api.Add(witnesses[len(witnesses)-1], constant))
+	}
 }
 
 func FinalCheck(api frontend.Variable, column_combine_option ColumnCombineOptions) {
-- 
2.43.0


From 28157b2fe9f6316f70a0accb29c89142370d5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 64/66] fix: QueryCountBaseKeysHintFn: tell keys apart beyond
 64 bits

---
 circuit-std-go/logup/hint.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/circuit-std-go/logup/hint.go b/circuit-std-go/logup/hint.go
index a4d2565..bb028fa 100644
--- a/circuit-std-go/logup/hint.go
+++ b/circuit-std-go/logup/hint.go
@@ -35,12 +35,13 @@ func QueryCountBaseKeysHintFn(field *big.Int, inputs []*big.Int, outputs []*big.
 	table := inputs[1 : tableSize+1]
 	queryKeys := inputs[tableSize+1:]
 
-	tableMap := make(map[int64]int)
+	// the keys are field elements, which need not fit in an int64
+	tableMap := make(map[string]int)
 	for i := 0; i < len(queryKeys); i++ {
-		tableMap[queryKeys[i].Int64()]++
+		tableMap[queryKeys[i].String()]++
 	}
 	for i := 0; i < len(table); i++ {
-		outputs[i].SetInt64(int64(tableMap[table[i].Int64()]))
+		outputs[i].SetInt64(int64(tableMap[table[i].String()]))
 	}
 	return nil
 }
-- 
2.43.0


From ea4aa39cffbc6ba904d9bf72cb40427c53c9cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:02 +0000
Subject: [PATCH 65/66] fix: Graphviz: draw the circuit of each layer, in layer
 order

---
 ecgo/layered/circuit.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ecgo/layered/circuit.go b/ecgo/layered/circuit.go
index d961205..27e8f65 100644
--- a/ecgo/layered/circuit.go
+++ b/ecgo/layered/circuit.go
@@ -232,14 +232,11 @@ func (rc *RootCircuit) Graphviz() string {
 		coef        string
 	}
 
-	// zip circuits and their lables, then sort
-	pairs := make([]Pair, len(rc.Circuits))
-	for i := range rc.Circuits {
-		pairs[i] = Pair{rc.Circuits[i], rc.Layers[i]}
+	// the circuit of every layer, in order
+	pairs := make([]Pair, len(rc.Layers))
+	for i, id := range rc.Layers {
+		pairs[i] = Pair{rc.Circuits[id], uint64(i)}
 	}
-	sort.Slice(pairs, func(i, j int) bool {
-		return pairs[i].Layer < pairs[j].Layer
-	})
 
 	// store edges and output them all in the end
 	// key = source
-- 
2.43.0


From b842c9d4b66389185236d770dfdfea76b655fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:02 +0000
Subject: [PATCH 66/66] fix: rsa_circuit main: hash inputs of the declared
 length, outputs of the last slice, keep the check

---
 rsa_circuit/src/main.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index e35c08f..5078091 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -89,11 +89,14 @@ fn build_hash_outputs(hash_inputs: &[u8]) -> [u8; HASH_OUTPUT_LEN] {
         hasher.update(&hash_input);
         let hash_output: [u8; 32] = hasher.finalize().into();
         hash_outputs.extend_from_slice(&hash_output);
-        hash_input = [
-            hash_inputs[(i + 2) * 32..(i + 3) * 32].as_ref(),
-            hash_output.as_ref(),
-        ]
-        .concat();
+        // the last iteration has consumed all the inputs
+        if i < 45 {
+            hash_input = [
+                hash_inputs[(i + 2) * 32..(i + 3) * 32].as_ref(),
+                hash_output.as_ref(),
+            ]
+            .concat();
+        }
     }
     assert!(hash_outputs.len() == HASH_OUTPUT_LEN);
 
@@ -238,7 +241,7 @@ fn main() {
     let n = (BigUint::from(1u64) << 120) + (BigUint::from(1u64) << 2047);
     let res = x.modpow(&pow, &n);
     let hash_inputs = {
-        let mut tmp = [0u8; HASH_OUTPUT_LEN];
+        let mut tmp = [0u8; HASH_INPUT_LEN];
         rng.fill_bytes(&mut tmp);
         tmp
     };
@@ -261,10 +264,8 @@ fn main() {
         .solve_witness(&assignment)
         .unwrap();
 
-    let _output = compile_result.layered_circuit.run(&witness);
-
-    // there is some bug within the circuit. let's skip this assertion for now
-    // assert_eq!(output, vec![true]);
+    let output = compile_result.layered_circuit.run(&witness);
+    assert_eq!(output, vec![true]);
 
     let file = std::fs::File::create("circuit_rsa.txt").unwrap();
     let writer = std::io::BufWriter::new(file);
-- 
2.43.0

