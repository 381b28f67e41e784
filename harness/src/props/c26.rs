//! C26: the reported dynamic memory use is the heap memory actually held.

use crate::engine::{Obs, Runner, R};
use crate::enc;
use crate::gens::*;
use crate::heap;
use crate::orc;
use crate::pool::{act_g, sig64, stream, ActG};
use crate::refm::{self, Sc};
use memuse::DynamicUsage;
use nonempty::NonEmpty;
use orchard::{
    bundle::{Authorized, Flags},
    keys::{FullViewingKey, PreparedIncomingViewingKey},
    note_encryption::{CompactAction, OrchardDomain},
    primitives::redpallas::{Binding, Signature, SpendAuth},
    Anchor, Bundle, Proof,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The usage reported must be exactly `held`, and within the reported bounds.
fn exact<T: DynamicUsage>(what: &str, t: &T, held: i64) -> R {
    let got = t.dynamic_usage();
    ensure_eq!(got as i64, held, "{}: reported use", what);
    let (lo, hi) = t.dynamic_usage_bounds();
    ensure!(lo <= got && hi.map_or(true, |h| got <= h), "{}: use {} outside its bounds ({}, {:?})", what, got, lo, hi);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Held {
    acts: Vec<ActG>,
    proof: (u64, u16),
    /// Unused room in the list of actions and in the proof.
    slack: (u8, u16),
    binding: By<64>,
    flags: u8,
    anchor: B32,
    balance: (i64, u16),
}

fn held_case(c: &Held, obs: &mut Obs) -> R {
    let make = || -> Option<Bundle<Authorized, Vec<u8>>> {
        let mut v = Vec::with_capacity(c.acts.len() + c.slack.0 as usize);
        for a in &c.acts {
            v.push(orc::action(&a.raw(), Signature::<SpendAuth>::from(a.sig.0))?);
        }
        let mut p = Vec::with_capacity(c.proof.1 as usize + c.slack.1 as usize);
        p.extend(stream(c.proof.0, c.proof.1 as usize));
        let balance = Vec::with_capacity(c.balance.1 as usize);
        Some(Bundle::from_parts(
            NonEmpty::from_vec(v)?,
            Flags::from_byte(c.flags)?,
            balance,
            Option::<Anchor>::from(Anchor::from_bytes(c.anchor.0))?,
            Authorized::from_parts(Proof::new(p), Signature::<Binding>::from(c.binding.0)),
        ))
    };
    drop(make());
    let before = heap::live();
    let b = make().ok_or("fields do not decode")?;
    let held = heap::live() - before;
    exact("bundle", &b, held)?;
    let mid = heap::live();
    let proof = b.authorization().proof().clone();
    exact("copied proof", &proof, heap::live() - mid)?;
    drop(proof);
    for a in b.actions() {
        exact("action", a, 0)?;
        exact("nullifier", a.nullifier(), 0)?;
        exact("rho", &a.rho(), 0)?;
        exact("domain", &OrchardDomain::for_action(a), 0)?;
        exact("compact domain", &OrchardDomain::for_compact_action(&CompactAction::from(a)), 0)?;
    }
    // With a balance that holds no memory.
    let b = b.try_map_value_balance::<i64, (), _>(|_| Ok(c.balance.0)).map_err(|_| "balance")?;
    exact("bundle with a plain balance", &b, heap::live() - before)?;
    ensure_eq!(heap::live() - before, held - c.balance.1 as i64, "memory left after mapping the balance");
    // A copy holds what its own lists have room for.
    let mid = heap::live();
    let copy = b.clone();
    exact("copied bundle", &copy, heap::live() - mid)?;
    drop(copy);
    drop(b);
    ensure_eq!(heap::live() - before, 0, "memory left after dropping everything");
    if c.acts.len() > 1 {
        obs.nontrivial();
    }
    obs.class_if(c.slack.0 > 0, "room-for-more-actions");
    obs.class_if(c.slack.1 > 0, "room-for-more-proof");
    obs.class_if(c.acts.len() == 1, "one-action");
    obs.class_if(c.balance.1 > 0, "balance-on-the-heap");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prepared {
    sk: Option<B32>,
    internal: bool,
    ivk: B32,
    count: u8,
}

fn prepared_case(c: &Prepared, obs: &mut Obs) -> R {
    let ivk = match &c.sk {
        Some(s) => {
            let k = enc::keys(s);
            FullViewingKey::from_bytes(&k.fvk_bytes())
                .ok_or("viewing key refused")?
                .to_ivk(orc::scope(if c.internal { Sc::Int } else { Sc::Ext }))
        }
        None => {
            let b = refm::base_of(&c.ivk.0).unwrap();
            if c.ivk.0 == [0; 32] {
                return Ok(());
            }
            enc::ivk(&b)
        }
    };
    drop(PreparedIncomingViewingKey::new(&ivk));
    let before = heap::live();
    let k = PreparedIncomingViewingKey::new(&ivk);
    let held = heap::live() - before;
    exact("prepared key", &k, held)?;
    let k2 = ivk.prepare();
    exact("prepared key", &k2, heap::live() - before - held)?;
    drop(k2);
    // Several in a list.
    let mid = heap::live();
    let list: Vec<PreparedIncomingViewingKey> = (0..c.count).map(|_| k.clone()).collect();
    exact("list of prepared keys", &list, heap::live() - mid)?;
    obs.nontrivial();
    obs.class_if(c.count > 1, "several");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the bundle has at least two actions, or a key was prepared");
    r.assume("the harness's allocator counts every allocation and release of the thread that runs the case");
    let held = || {
        (
            prop_oneof![30 => proptest::collection::vec(act_g(), 1..7), 1 => proptest::collection::vec(act_g(), 1..200)],
            (any::<u64>(), prop_oneof![Just(0u16), 0u16..64, 0u16..9000]),
            (prop_oneof![2 => Just(0u8), 1 => 0u8..20], prop_oneof![2 => Just(0u16), 1 => 0u16..5000]),
            sig64(),
            0u8..4,
            base32(),
            (any::<i64>(), prop_oneof![1 => Just(0u16), 1 => 0u16..500]),
        )
            .prop_map(|(acts, proof, slack, binding, flags, anchor, balance)| Held {
                acts,
                proof,
                slack,
                binding,
                flags,
                anchor,
                balance,
            })
            .boxed()
    };
    r.family("bundles", 4_000, 200_000, 300, held, held_case);
    let prepared = || {
        (proptest::option::of(sk32()), any::<bool>(), base32(), 0u8..5)
            .prop_map(|(sk, internal, ivk, count)| Prepared { sk, internal, ivk, count })
            .boxed()
    };
    r.family("prepared-keys", 4_000, 200_000, 300, prepared, prepared_case);
}
