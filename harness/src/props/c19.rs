//! C19: bundle digests commit to every effecting and authorizing field.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool::*;
use crate::prove;
use crate::refm;
use orchard::{
    bundle::{commitments, Authorized},
    Bundle,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A bundle with arbitrary contents.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct WildG {
    pub acts: Vec<ActG>,
    pub flags: u8,
    pub balance: i64,
    pub anchor: B32,
    pub proof: (u64, u16),
    pub binding: By<64>,
    /// Continue the actions, in turn and with other ciphertexts, up to this many.
    #[serde(default)]
    pub upto: u16,
}
pub fn balance_g() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(0), Just(-1), Just(1), Just(i64::MIN + 1)],
        2 => val_u64().prop_map(|v| v as i64),
        1 => any::<i64>(),
    ]
    .boxed()
}
pub fn wild_g(max: usize) -> BoxedStrategy<WildG> {
    (
        (1..=max).prop_flat_map(|n| proptest::collection::vec(act_g(), n)),
        0u8..4,
        balance_g(),
        base32(),
        (any::<u64>(), prop_oneof![Just(0u16), 0u16..9000]),
        sig64(),
    )
        .prop_map(|(acts, flags, balance, anchor, proof, binding)| WildG {
            acts,
            flags,
            balance,
            anchor,
            proof,
            binding,
            upto: 0,
        })
        .boxed()
}
/// Bundles of many actions.
pub fn many_g(max: u16) -> BoxedStrategy<WildG> {
    (wild_g(5), 6..=max).prop_map(|(w, upto)| WildG { upto, ..w }).boxed()
}
impl WildG {
    pub fn raw(&self) -> RawBundle {
        let n = self.acts.len();
        let acts: Vec<ActG> = (0..n.max(self.upto as usize))
            .map(|i| {
                let mut a = self.acts[i % n].clone();
                a.enc = a.enc.wrapping_add((i / n) as u64);
                a.out = a.out.wrapping_add((i / n) as u64);
                a
            })
            .collect();
        RawBundle {
            acts: acts.iter().map(|a| a.raw()).collect(),
            sigs: acts.iter().map(|a| a.sig.0).collect(),
            flags: self.flags,
            balance: self.balance,
            anchor: self.anchor.0,
            proof: stream(self.proof.0, self.proof.1 as usize),
            binding: self.binding.0,
        }
    }
}

pub fn digests(b: &Bundle<Authorized, i64>) -> (Vec<u8>, Vec<u8>) {
    (b.commitment().0.as_bytes().to_vec(), b.authorizing_commitment().0.as_bytes().to_vec())
}
pub fn model_digests(b: &RawBundle) -> (Vec<u8>, Vec<u8>) {
    (
        refm::txid_digest(&b.acts, b.flags, b.balance, &b.anchor),
        refm::auth_digest(&b.proof, &b.sigs, &b.binding),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AlterCase {
    w: WildG,
    other: WildG,
    alters: Vec<Alter>,
}

fn model_case(c: &WildG, obs: &mut Obs) -> R {
    let raw = c.raw();
    let b = raw.bundle().ok_or("the bundle does not assemble")?;
    obs.nontrivial();
    obs.class_if(raw.acts.len() > 1, "several-actions");
    obs.class_if(raw.proof.is_empty(), "empty-proof");
    obs.class_if(raw.balance < 0, "negative-balance");
    let (t, a) = digests(&b);
    let (wt, wa) = model_digests(&raw);
    ensure_eq!(hex::encode(t), hex::encode(&wt), "identifier digest");
    ensure_eq!(hex::encode(a), hex::encode(wa), "authorizing digest");
    let arr: [u8; 32] = b.commitment().into();
    ensure_eq!(arr.to_vec(), wt, "identifier digest as bytes");
    // Another balance type carrying the same amount.
    if let Ok(v) = i32::try_from(raw.balance) {
        let b = b.try_map_value_balance(|_| Ok::<i32, ()>(v)).map_err(|_| "mapping failed")?;
        ensure_eq!(b.commitment().0.as_bytes().to_vec(), wt, "identifier digest with a narrower balance");
    }
    ensure_eq!(
        commitments::hash_bundle_txid_empty().as_bytes(),
        &refm::blake2b(32, b"ZTxIdOrchardHash", &[])[..],
        "identifier digest of an absent bundle"
    );
    ensure_eq!(
        commitments::hash_bundle_auth_empty().as_bytes(),
        &refm::blake2b(32, b"ZTxAuthOrchaHash", &[])[..],
        "authorizing digest of an absent bundle"
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when digests of a bundle with at least one action were compared with the model's");
    r.assume("BLAKE2b library shared by model and crate; no accidental collisions");

    r.family("model", 12_000, 400_000, 500, || wild_g(5), model_case);
    r.family("many-actions", 600, 20_000, 100, || many_g(700), model_case);

    let alters = || {
        (wild_g(4), wild_g(1), prop_oneof![8 => Just(1usize), 1 => Just(2)].prop_flat_map(|n| proptest::collection::vec(alter(), n)))
            .prop_map(|(w, other, alters)| AlterCase { w, other, alters })
            .boxed()
    };
    r.family("sensitivity", 20_000, 800_000, 500, alters, |c: &AlterCase, obs| {
        let a = c.w.raw();
        let mut b = a.clone();
        for x in &c.alters {
            x.apply_with(&mut b, &[c.other.raw().proof]);
        }
        let eff = |r: &RawBundle| (r.acts.clone(), r.flags, r.balance, r.anchor);
        let auth = |r: &RawBundle| {
            let mut v = r.proof.clone();
            r.sigs.iter().for_each(|s| v.extend_from_slice(s));
            v.extend_from_slice(&r.binding);
            v
        };
        let (ta, aa) = digests(&a.bundle().ok_or("the bundle does not assemble")?);
        let (tb, ab) = digests(&b.bundle().ok_or("the bundle does not assemble")?);
        let (de, da) = (eff(&a) != eff(&b), auth(&a) != auth(&b));
        obs.class(match (de, da) {
            (false, false) => "unchanged",
            (true, false) => "effecting",
            (false, true) => "authorizing",
            (true, true) => "both",
        });
        if de || da {
            obs.nontrivial();
        }
        ensure_eq!(ta != tb, de, "identifier digest changed by {:?}", c.alters);
        ensure_eq!(aa != ab, da, "authorizing digest changed by {:?}", c.alters);
        Ok(())
    });

    #[cfg(feature = "hooks")]
    r.family("states", 1_000, 40_000, 200, || plan_g(true, 6), |p: &Plan, obs| {
        let m = p.mat();
        let b = match m.builder().build::<i64>(orc::rng(&m.rng)) {
            Ok(Some((b, _))) => b,
            _ => return Ok(()),
        };
        obs.nontrivial();
        let want = refm::txid_digest(&raw_actions(&b), b.flags().to_byte(), *b.value_balance(), &b.anchor().to_bytes());
        let get = |x: orchard::bundle::BundleCommitment| x.0.as_bytes().to_vec();
        ensure_eq!(get(b.commitment()), want, "before proving");
        let b = b.verif_with_proof(orchard::Proof::new(vec![5; 7]));
        ensure_eq!(get(b.commitment()), want, "after proving");
        let sighash: [u8; 32] = want.clone().try_into().unwrap();
        let b = b.prepare(orc::rng(&m.rng), sighash);
        ensure_eq!(get(b.commitment()), want, "after preparing to sign");
        let mut b = b;
        for k in &m.sks {
            b = b.sign(orc::rng(&m.rng), &orc::ask(k).unwrap());
            ensure_eq!(get(b.commitment()), want, "while signing");
        }
        let b = b.finalize().map_err(|e| format!("finalize: {:?}", e))?;
        ensure_eq!(get(b.commitment()), want, "after signing");
        let raw = RawBundle::of(&b);
        ensure_eq!(model_digests(&raw), digests(&b), "digests of the finished bundle");
        Ok(())
    });

    // With real proofs (few: one takes over a second).
    if r.wants("proved") {
        prove::warm();
    }
    r.family("proved", 4, 60, 1, || plan_g(true, 2), |p: &Plan, obs| -> R {
        let m = p.mat();
        let b = match m.builder().build::<i64>(orc::rng(&m.rng)) {
            Ok(Some((b, _))) => b,
            _ => return Ok(()),
        };
        obs.nontrivial();
        let want: [u8; 32] = b.commitment().into();
        let b = b.create_proof(&prove::PK, orc::rng(&m.rng)).map_err(|e| format!("proof: {:?}", e))?;
        ensure_eq!(<[u8; 32]>::from(b.commitment()), want, "after proving");
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let b = b.apply_signatures(orc::rng(&m.rng), want, &asks).map_err(|e| format!("signing: {:?}", e))?;
        ensure_eq!(<[u8; 32]>::from(b.commitment()), want, "after signing");
        ensure_eq!(model_digests(&RawBundle::of(&b)), digests(&b), "digests of the finished bundle");
        Ok(())
    });
}
