From 447a9e2e6402cb180ff852dba8d4b4b47626885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 1/6] Add verif_hooks-guarded Circuit::verif_mix

Compiled only with --cfg verif_hooks; lets verification harnesses assemble
Action witnesses from the parts of two contexts.
---
 src/circuit.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..846e574 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -186,6 +186,40 @@ impl Circuit {
     }
 }
 
+/// Verification hook, compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl Circuit {
+    /// Returns a circuit whose private witnesses are taken from `other` where the
+    /// corresponding bit of `mask` is set (bit `n` is the `n`-th field of [`Circuit`], in
+    /// declaration order), and from `self` elsewhere.
+    ///
+    /// This allows witnesses that break the rules of the Action statement to be assembled.
+    pub fn verif_mix(&self, other: &Circuit, mask: u32) -> Circuit {
+        let from = |n: u32| if mask & (1 << n) != 0 { other } else { self };
+        Circuit {
+            path: from(0).path,
+            pos: from(1).pos,
+            g_d_old: from(2).g_d_old,
+            pk_d_old: from(3).pk_d_old,
+            v_old: from(4).v_old,
+            rho_old: from(5).rho_old,
+            psi_old: from(6).psi_old,
+            rcm_old: from(7).rcm_old.clone(),
+            cm_old: from(8).cm_old.clone(),
+            alpha: from(9).alpha,
+            ak: from(10).ak.clone(),
+            nk: from(11).nk,
+            rivk: from(12).rivk,
+            g_d_new: from(13).g_d_new,
+            pk_d_new: from(14).pk_d_new,
+            v_new: from(15).v_new,
+            psi_new: from(16).psi_new,
+            rcm_new: from(17).rcm_new.clone(),
+            rcv: from(18).rcv.clone(),
+        }
+    }
+}
+
 impl plonk::Circuit<pallas::Base> for Circuit {
     type Config = Config;
     type FloorPlanner = floor_planner::V1;
-- 
2.43.0


From c6c87193f6d0576cc71d027bc02576e664b0239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 2/6] Add verif_hooks-guarded Bundle::verif_with_proof

Compiled only with --cfg verif_hooks; lets verification harnesses explore
signing without proving.
---
 src/builder.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 37bdc38..b99cb6d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -741,6 +741,24 @@ impl<S: InProgressSignatures, V> Bundle<InProgress<Unproven, S>, V> {
     }
 }
 
+/// Verification hook, compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl<S: InProgressSignatures, V> Bundle<InProgress<Unproven, S>, V> {
+    /// Attaches the given bytes as the proof of this bundle, without proving anything.
+    ///
+    /// This allows the signing of bundles to be explored without the cost of proving them.
+    pub fn verif_with_proof(self, proof: Proof) -> Bundle<InProgress<Proof, S>, V> {
+        self.map_authorization(
+            &mut (),
+            |_, _, a| a,
+            |_, auth| InProgress {
+                proof,
+                sigs: auth.sigs,
+            },
+        )
+    }
+}
+
 /// The parts needed to sign an [`Action`].
 #[derive(Clone, Debug)]
 pub struct SigningParts {
-- 
2.43.0


From 3d4ac29ade026797c2e83eee09dd3f2e6ed8ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 3/6] fix: represent an identity rk as (0, 0) in the public
 inputs

An action's rk may be the identity: redpallas verification keys and the
Action circuit both admit it. Instance::to_halo2_instance unwrapped the
affine coordinates of rk, so proving, verifying or batch-validating a
bundle containing such an action panicked. Encode it as (0, 0), the
representation used in the circuit (as already done for cv_net).
---
 src/circuit.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 846e574..543bde4 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -13,7 +13,10 @@ use halo2_proofs::{
     transcript::{Blake2bRead, Blake2bWrite},
 };
 use memuse::DynamicUsage;
-use pasta_curves::{arithmetic::CurveAffine, pallas, vesta};
+use pasta_curves::{
+    arithmetic::{Coordinates, CurveAffine},
+    pallas, vesta,
+};
 use rand::RngCore;
 
 use self::{
@@ -874,14 +877,15 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
+        // The identity is a valid `rk`, but has no affine coordinates; like `cv_net`, it is
+        // represented by (0, 0), which is its representation in the circuit.
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
-            .to_affine()
-            .coordinates()
-            .unwrap();
-
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+            .to_affine();
+        if let Some(rk) = Option::<Coordinates<_>>::from(rk.coordinates()) {
+            instance[RK_X] = *rk.x();
+            instance[RK_Y] = *rk.y();
+        }
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0


From baef518c9b65a8628e57ac8691dcc09393c68196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 4/6] circuit: hook exposing an instance's public inputs (cfg
 verif_hooks)

---
 src/circuit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/circuit.rs b/src/circuit.rs
index 543bde4..5982c86 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -894,6 +894,15 @@ impl Instance {
     }
 }
 
+/// Verification hook, compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl Instance {
+    /// Returns the public inputs that this instance stands for.
+    pub fn verif_public_inputs(&self) -> Vec<vesta::Scalar> {
+        self.to_halo2_instance()[0].to_vec()
+    }
+}
+
 /// A proof of the validity of an Orchard [`Bundle`].
 ///
 /// [`Bundle`]: crate::bundle::Bundle
-- 
2.43.0


From 369bee974b7b750b0170f51b2903e3e3a6df5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 5/6] fix: let builder::testing::arb_bundle produce valid
 bundles

The generated notes did not belong to the spending key, their Merkle
paths were taken from different trees, the outputs' addresses were
expected to belong to the spender, and the balance could exceed an i64:
drawing a value from arb_bundle or arb_bundle_with_key always panicked.
---
 src/builder.rs | 82 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b99cb6d..54fc9c9 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -990,7 +990,7 @@ impl OutputView for OutputInfo {
 #[cfg_attr(docsrs, doc(cfg(feature = "test-dependencies")))]
 pub mod testing {
     use core::fmt::Debug;
-    use incrementalmerkletree::{frontier::Frontier, Hashable};
+    use incrementalmerkletree::{Hashable, Level};
     use rand::{rngs::StdRng, CryptoRng, SeedableRng};
 
     use proptest::collection::vec;
@@ -1000,15 +1000,21 @@ pub mod testing {
         address::testing::arb_address,
         bundle::{Authorized, Bundle},
         circuit::ProvingKey,
-        keys::{testing::arb_spending_key, FullViewingKey, SpendAuthorizingKey, SpendingKey},
+        constants::MERKLE_DEPTH_ORCHARD,
+        keys::{
+            testing::arb_spending_key, FullViewingKey, Scope, SpendAuthorizingKey, SpendingKey,
+        },
         note::testing::arb_note,
         tree::{Anchor, MerkleHashOrchard, MerklePath},
-        value::{testing::arb_positive_note_value, NoteValue, MAX_NOTE_VALUE},
+        value::{testing::arb_positive_note_value, NoteValue},
         Address, Note,
     };
 
     use super::{Builder, BundleType};
 
+    /// The largest sum of note values that fits in a value balance.
+    const MAX_BALANCE: u64 = i64::MAX as u64;
+
     /// An intermediate type used for construction of arbitrary
     /// bundle values. This type is required because of a limitation
     /// of the proptest prop_compose! macro which does not correctly
@@ -1036,10 +1042,8 @@ pub mod testing {
                 builder.add_spend(fvk.clone(), note, path).unwrap();
             }
 
+            let ovk = fvk.to_ovk(Scope::External);
             for (addr, value) in self.output_amounts.into_iter() {
-                let scope = fvk.scope_for_address(&addr).unwrap();
-                let ovk = fvk.to_ovk(scope);
-
                 builder
                     .add_output(Some(ovk.clone()), addr, value, None)
                     .unwrap();
@@ -1069,40 +1073,70 @@ pub mod testing {
 
         )
         (
-            // generate note values that we're certain won't exceed MAX_NOTE_VALUE in total
+            // generate note values whose total we're certain won't exceed the range of a
+            // value balance
             notes in vec(
-                arb_positive_note_value(MAX_NOTE_VALUE / n_notes as u64).prop_flat_map(arb_note),
+                arb_positive_note_value(MAX_BALANCE / n_notes as u64).prop_flat_map(arb_note),
                 n_notes
             ),
             output_amounts in vec(
                 arb_address().prop_flat_map(move |a| {
-                    arb_positive_note_value(MAX_NOTE_VALUE / n_outputs as u64)
+                    arb_positive_note_value(MAX_BALANCE / n_outputs as u64)
                         .prop_map(move |v| (a, v))
                 }),
                 n_outputs as usize
             ),
             rng_seed in prop::array::uniform32(prop::num::u8::ANY)
         ) -> ArbitraryBundleInputs<StdRng> {
-            use crate::constants::MERKLE_DEPTH_ORCHARD;
-            let mut frontier = Frontier::<MerkleHashOrchard, { MERKLE_DEPTH_ORCHARD as u8 }>::empty();
-            let mut notes_and_auth_paths: Vec<(Note, MerklePath)> = Vec::new();
-
-            for note in notes.iter() {
-                let leaf = MerkleHashOrchard::from_cmx(&note.commitment().into());
-                frontier.append(leaf);
-
-                let path = frontier
-                    .witness(|addr| Some(<MerkleHashOrchard as Hashable>::empty_root(addr.level())))
-                    .ok()
-                    .flatten()
-                    .expect("we can always construct a correct Merkle path");
-                notes_and_auth_paths.push((*note, path.into()));
+            // The notes can only be spent with `sk` if they belong to it.
+            let recipient = FullViewingKey::from(&sk).address_at(0u32, Scope::External);
+            let notes: Vec<Note> = notes
+                .into_iter()
+                .map(|n| {
+                    Option::from(Note::from_parts(
+                        recipient,
+                        n.value(),
+                        n.rho(),
+                        *n.rseed(),
+                    ))
+                    .expect("a note commitment exists with overwhelming probability")
+                })
+                .collect();
+
+            // All of the spends are witnessed in the tree that contains every note.
+            let mut layer: Vec<MerkleHashOrchard> = notes
+                .iter()
+                .map(|note| MerkleHashOrchard::from_cmx(&note.commitment().into()))
+                .collect();
+            let mut auth_paths = vec![Vec::with_capacity(MERKLE_DEPTH_ORCHARD); notes.len()];
+            for l in 0..MERKLE_DEPTH_ORCHARD {
+                let level = Level::from(l as u8);
+                if layer.len() % 2 == 1 {
+                    layer.push(MerkleHashOrchard::empty_root(level));
+                }
+                for (position, path) in auth_paths.iter_mut().enumerate() {
+                    path.push(layer[(position >> l) ^ 1]);
+                }
+                layer = layer
+                    .chunks(2)
+                    .map(|pair| MerkleHashOrchard::combine(level, &pair[0], &pair[1]))
+                    .collect();
             }
 
+            let notes_and_auth_paths = notes
+                .into_iter()
+                .zip(auth_paths)
+                .enumerate()
+                .map(|(position, (note, path))| {
+                    let path = path.try_into().expect("one sibling per level");
+                    (note, MerklePath::from_parts(position as u32, path))
+                })
+                .collect();
+
             ArbitraryBundleInputs {
                 rng: StdRng::from_seed(rng_seed),
                 sk,
-                anchor: frontier.root().into(),
+                anchor: layer[0].into(),
                 notes: notes_and_auth_paths,
                 output_amounts
             }
-- 
2.43.0


From 36f723c3e1300aa817bd48e2cd95f32abc7a8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 6/6] fix: name outputs in the message of
 BuildError::OutputsDisabled

---
 src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 54fc9c9..e664e2b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -145,7 +145,9 @@ impl Display for BuildError {
                 f.write_str("Bundle structure did not conform to requested bundle type.")
             }
             SpendsDisabled => f.write_str("Spends are not enabled for the requested bundle type."),
-            OutputsDisabled => f.write_str("Spends are not enabled for the requested bundle type."),
+            OutputsDisabled => {
+                f.write_str("Outputs are not enabled for the requested bundle type.")
+            }
             AnchorMismatch => {
                 f.write_str("All spends must share the anchor requested for the transaction.")
             }
-- 
2.43.0

