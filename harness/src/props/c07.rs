//! C07: a proof is accepted only for the exact public data it was made for.

use crate::engine::Runner;
use crate::gens::*;
use crate::pool::*;
use crate::prove;
#[cfg(feature = "hooks")]
use crate::{orc, refm};
#[cfg(feature = "hooks")]
use ff::PrimeField;
use orchard::circuit::Instance;
#[cfg(feature = "hooks")]
use orchard::{
    bundle::Flags,
    primitives::redpallas::{Signature, SpendAuth},
    Anchor,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Altered {
    pick: u8,
    alters: Vec<Alter>,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the proof or a public input differs from the ones the proof was made for");
    r.assume("halo2_proofs' verifier is sound; proofs come from a pool built once per run");
    encoding(r);
    if !r.wants("altered") {
        return;
    }
    prove::warm();
    let pool = pool(r.seed, if r.thorough() { 13 } else { 7 });
    let gen = || {
        let one = prop_oneof![
            12 => alter(),
            1 => (any::<u64>(), prop_oneof![1u16..3, 31u16..34, 1u16..5000]).prop_map(|(s, n)| Alter::ProofExtend(s, n)),
        ];
        (any::<u8>(), prop_oneof![1 => Just(0usize), 16 => Just(1), 3 => Just(2)].prop_flat_map(move |n| proptest::collection::vec(one.clone(), n)))
            .prop_map(|(pick, alters)| Altered { pick, alters })
            .boxed()
    };
    r.family("altered", 1_300, 60_000, 60, gen, |c: &Altered, obs| {
        let p = &pool[c.pick as usize % pool.len()];
        let mut b = p.raw.clone();
        for a in &c.alters {
            a.apply(&mut b, &pool);
        }
        let bundle = b.bundle().ok_or("an altered bundle does not assemble")?;
        let same_inputs = b.instances() == p.raw.instances();
        let same = same_inputs && b.proof == p.raw.proof;
        if !same {
            obs.nontrivial();
        }
        obs.class(match (same_inputs, b.proof == p.raw.proof) {
            (true, true) => "unchanged-or-uncovered-field",
            (true, false) => "proof-changed",
            (false, true) => "inputs-changed",
            (false, false) => "both-changed",
        });
        let insts: Vec<Instance> = bundle
            .actions()
            .iter()
            .map(|a| a.to_instance(*bundle.flags(), *bundle.anchor()))
            .collect();
        let parts: Vec<Instance> = bundle
            .actions()
            .iter()
            .map(|a| {
                Instance::from_parts(
                    *bundle.anchor(),
                    a.cv_net().clone(),
                    *a.nullifier(),
                    a.rk().clone(),
                    *a.cmx(),
                    b.flags & 1 == 1,
                    b.flags & 2 == 2,
                )
            })
            .collect();
        let ok = bundle.verify_proof(&prove::VK).is_ok();
        let proof = bundle.authorization().proof();
        ensure_eq!(proof.verify(&prove::VK, &insts).is_ok(), ok, "verdict through the actions' instances");
        ensure_eq!(proof.verify(&prove::VK, &parts).is_ok(), ok, "verdict through standalone instances");
        if same_inputs && b.proof.len() > p.raw.proof.len() && b.proof.starts_with(&p.raw.proof) {
            obs.class("proof-extended");
            if ok {
                return obs.finding("C07", "trailing-proof-bytes", "a proof with bytes appended to it verifies".into());
            }
            return Ok(());
        }
        ensure_eq!(ok, b.proof_ok(), "verdict against the proof system on independently encoded inputs");
        ensure_eq!(ok, same, "verdict for {:?}", c.alters);
        Ok(())
    });
}

/// The public inputs of arbitrary decodable statements.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Statement {
    act: ActG,
    flags: u8,
    anchor: AnchorS,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AnchorS {
    Raw(B32),
    Empty(u8),
    /// The same as the statement's nullifier or output commitment.
    Nf,
    Cmx,
}

#[cfg(not(feature = "hooks"))]
fn encoding(_: &mut Runner) {
    let _ = |s: Statement| (s.act, s.flags, s.anchor);
    let _ = [AnchorS::Raw(By([0; 32])), AnchorS::Empty(0), AnchorS::Nf, AnchorS::Cmx];
}

#[cfg(feature = "hooks")]
fn encoding(r: &mut Runner) {
    let gen = || {
        let anchor = prop_oneof![
            3 => base32().prop_map(AnchorS::Raw),
            2 => Just(AnchorS::Empty(32)),
            1 => (0u8..=32).prop_map(AnchorS::Empty),
            1 => Just(AnchorS::Nf),
            1 => Just(AnchorS::Cmx),
        ];
        (act_g(), 0u8..4, anchor).prop_map(|(act, flags, anchor)| Statement { act, flags, anchor }).boxed()
    };
    r.family("encoding", 40_000, 1_500_000, 500, gen, |c: &Statement, obs| {
        obs.nontrivial();
        let raw = c.act.raw();
        let anchor = match &c.anchor {
            AnchorS::Raw(b) => b.0,
            AnchorS::Empty(l) => {
                obs.class("empty-tree-root");
                refm::EMPTY[*l as usize].to_repr()
            }
            AnchorS::Nf => raw.out.nf,
            AnchorS::Cmx => raw.out.cmx,
        };
        obs.class_if(c.act.rk.0 == [0; 32] || c.act.cv.0 == [0; 32], "identity-point");
        let want = refm::instance(&raw, c.flags, &anchor).ok_or("fields decode")?.to_vec();
        let flags = Flags::from_byte(c.flags).ok_or("flags decode")?;
        let anchor = Option::<Anchor>::from(Anchor::from_bytes(anchor)).ok_or("anchor decodes")?;
        let a = orc::action(&raw, Signature::<SpendAuth>::from(c.act.sig.0)).ok_or("action decodes")?;
        ensure_eq!(a.to_instance(flags, anchor).verif_public_inputs(), want, "public inputs of an action");
        let made = Instance::from_parts(
            anchor,
            a.cv_net().clone(),
            *a.nullifier(),
            a.rk().clone(),
            *a.cmx(),
            c.flags & 1 == 1,
            c.flags & 2 == 2,
        );
        ensure_eq!(made.verif_public_inputs(), want, "public inputs of assembled parts");
        Ok(())
    });
}
