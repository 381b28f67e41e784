//! C09: batch validation accepts exactly the batches of valid bundles.

use crate::engine::Runner;
use crate::gens::*;
use crate::orc;
use crate::pool::*;
use crate::prove;
use crate::refm;
use ff::PrimeField;
use orchard::bundle::BatchValidator;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    pick: u8,
    alter: Option<Alter>,
    /// Validate against this edit of the message instead.
    msg: Option<Edit>,
    /// Re-sign honestly for a new message (only possible for the binding signature and spends of
    /// known keys, hence done by taking another signed message of the pool).
    borrow: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    items: Vec<Item>,
    /// (item, signature) pairs whose responses are shifted by opposite amounts.
    cancel: Option<((u8, u8), (u8, u8), B32)>,
    /// Unaltered bundles that come before the others.
    #[serde(default)]
    before: u8,
    rng: B32,
}

fn item() -> BoxedStrategy<Item> {
    (
        any::<u8>(),
        prop_oneof![7 => Just(None), 1 => alter().prop_map(Some)],
        prop_oneof![20 => Just(None), 1 => edit().prop_map(Some)],
        prop_oneof![30 => Just(None), 1 => any::<u8>().prop_map(Some)],
    )
        .prop_map(|(pick, alter, msg, borrow)| Item { pick, alter, msg, borrow })
        .boxed()
}

fn shift(b: &mut RawBundle, which: u8, d: &refm::Scalar, neg: bool) {
    let n = b.sigs.len() + 1;
    let k = which as usize % n;
    let sig = if k < b.sigs.len() { &mut b.sigs[k] } else { &mut b.binding };
    if let Some(s) = refm::scalar_of(sig[32..].try_into().unwrap()) {
        let s = if neg { s - d } else { s + d };
        sig[32..].copy_from_slice(&s.to_repr());
    }
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the batch holds at least two bundles or an invalid one");
    r.assume("halo2_proofs' single verifier and an independent RedPallas verifier decide each bundle");
    if !r.wants("batches") {
        return;
    }
    prove::warm();
    let pool = pool(r.seed, if r.thorough() { 13 } else { 7 });
    let gen = || {
        let cancel = prop_oneof![
            6 => Just(None),
            1 => ((any::<u8>(), any::<u8>()), (any::<u8>(), any::<u8>()), scalar32()).prop_map(Some),
        ];
        (
            prop_oneof![1 => Just(0usize), 4 => Just(1), 4 => Just(2), 3 => 3usize..=4, 1 => 5usize..9]
                .prop_flat_map(|n| proptest::collection::vec(item(), n)),
            cancel,
            prop_oneof![30 => Just(0u8), 1 => 8u8..70],
            seed32(),
        )
            .prop_map(|(items, cancel, before, rng)| Batch { items, cancel, before, rng })
            .boxed()
    };
    r.family("batches", 1_300, 30_000, 60, gen, |c: &Batch, obs| {
        let mut bundles: Vec<(RawBundle, [u8; 32], usize)> = c
            .items
            .iter()
            .map(|it| {
                let k = it.pick as usize % pool.len();
                let mut b = pool[k].raw.clone();
                let mut h = pool[k].sighash;
                if let Some(a) = &it.alter {
                    a.apply(&mut b, &pool);
                }
                if let Some(e) = &it.msg {
                    e.apply(&mut h);
                }
                if let Some(o) = it.borrow {
                    // The signatures of another bundle of the pool, with that bundle's message.
                    let o = &pool[o as usize % pool.len()];
                    h = o.sighash;
                    b.binding = o.raw.binding;
                    let n = b.sigs.len().min(o.raw.sigs.len());
                    b.sigs[..n].copy_from_slice(&o.raw.sigs[..n]);
                }
                (b, h, k)
            })
            .collect();
        if let (Some(((i, s), (j, t), d)), false) = (&c.cancel, bundles.is_empty()) {
            let n = bundles.len();
            let d = refm::scalar_of(&d.0).unwrap();
            shift(&mut bundles[*i as usize % n].0, *s, &d, false);
            shift(&mut bundles[*j as usize % n].0, *t, &d, true);
            obs.class("cancelling-pair");
        }
        let mut v = BatchValidator::new();
        let mut want = true;
        let lead = &pool[c.rng.0[0] as usize % pool.len()];
        let lead_bundle = lead.raw.bundle().ok_or("a bundle does not assemble")?;
        for _ in 0..c.before {
            v.add_bundle(&lead_bundle, lead.sighash);
        }
        obs.class_if(c.before > 0 && !bundles.is_empty(), "long-batch");
        for (b, h, k) in &bundles {
            let bundle = b.bundle().ok_or("a bundle does not assemble")?;
            let unchanged = b.instances() == pool[*k].raw.instances() && b.proof == pool[*k].raw.proof;
            // Unaltered proofs of the pool are known to verify (C07).
            let proof_ok = unchanged || b.proof_ok();
            let sigs_ok = b.sigs_ok(h);
            obs.class_if(!proof_ok && sigs_ok, "only-the-proof-is-bad");
            obs.class_if(proof_ok && !sigs_ok, "only-a-signature-is-bad");
            want &= proof_ok && sigs_ok;
            v.add_bundle(&bundle, *h);
        }
        obs.class(if want { "valid-batch" } else { "invalid-batch" });
        if bundles.len() > 1 || !want {
            obs.nontrivial();
        }
        let got = v.validate(&prove::VK, orc::rng(&c.rng.0));
        ensure_eq!(got, want, "verdict of a batch of {}", c.before as usize + bundles.len());
        Ok(())
    });
}
