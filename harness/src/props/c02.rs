//! C02: every request appears exactly once, where the metadata says.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::refm;
use orchard::builder::{self, BuildError, BundleMetadata, OutputInfo, OutputView};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    plan: Plan,
    direct: bool,
}

fn check(m: &Mat, b: &Unauth<i64>, meta: &BundleMetadata, obs: &mut Obs) -> R {
    let spends = m.spends();
    let outputs = m.outputs();
    let outs = raw_outs(b);
    let n = outs.len();
    ensure_eq!(Some(n), m.bt.num_actions(spends.len(), outputs.len()), "number of actions");
    ensure_eq!(b.flags().to_byte(), m.bt.flags_byte(), "flags");
    ensure_eq!(b.anchor().to_bytes(), m.anchor().to_bytes(), "anchor");

    // Spends.
    let mut at = BTreeSet::new();
    for (i, s) in spends.iter().enumerate() {
        let idx = meta.spend_action_index(i).ok_or_else(|| format!("no index for spend {}", i))?;
        ensure!(idx < n, "spend {} reported at action {} of {}", i, idx, n);
        ensure!(at.insert(idx), "two spends reported at action {}", idx);
        ensure_eq!(outs[idx].nf, s.nf(), "nullifier at the action reported for spend {}", i);
    }
    ensure_eq!(meta.spend_action_index(spends.len()), None, "index of a spend that was not requested");
    let nfs: BTreeSet<[u8; 32]> = spends.iter().map(|s| s.nf()).collect();
    for (i, o) in outs.iter().enumerate() {
        ensure!(at.contains(&i) || !nfs.contains(&o.nf), "padding action {} reveals a requested nullifier", i);
    }

    // Outputs.
    let mut ivks: Vec<refm::Base> = m.all_ivks();
    ivks.sort();
    ivks.dedup();
    let mut ovks: Vec<[u8; 32]> = m.keys.iter().flat_map(|k| k.views.iter().map(|v| v.ovk)).collect();
    ovks.extend(outputs.iter().filter_map(|o| o.ovk));
    ovks.push([0; 32]);
    ovks.sort();
    ovks.dedup();
    let mut at = BTreeSet::new();
    for (i, o) in outputs.iter().enumerate() {
        let idx = meta.output_action_index(i).ok_or_else(|| format!("no index for output {}", i))?;
        ensure!(idx < n, "output {} reported at action {} of {}", i, idx, n);
        ensure!(at.insert(idx), "two outputs reported at action {}", idx);
        let d = refm::decrypt_ivk(&outs[idx], &o.ivk)
            .ok_or_else(|| format!("the recipient cannot decrypt action {} reported for output {}", idx, i))?;
        ensure_eq!(d.note.addr, o.addr, "recipient of output {}", i);
        ensure_eq!(d.note.value, o.value, "value of output {}", i);
        ensure!(d.memo.as_deref() == Some(&o.want_memo()[..]), "memo of output {}", i);
        // The outgoing key given with the request recovers it, and no other does.
        for k in &ovks {
            let r = refm::recover_ovk(&outs[idx], k);
            if o.ovk == Some(*k) {
                ensure_eq!(r.as_ref(), Some(&d), "what the outgoing key recovers of output {}", i);
            } else {
                ensure!(r.is_none(), "output {} is recoverable by an outgoing key it was not made for", i);
            }
        }
        obs.class(if o.ovk.is_some() { "recoverable" } else { "no-outgoing-key" });
    }
    ensure_eq!(meta.output_action_index(outputs.len()), None, "index of an output that was not requested");
    for (i, o) in outs.iter().enumerate() {
        if !at.contains(&i) {
            obs.class("padding-output");
            for k in &ivks {
                ensure!(refm::decrypt_ivk(o, k).is_none(), "padding action {} pays one of the requester's keys", i);
            }
            for k in &ovks {
                ensure!(refm::recover_ovk(o, k).is_none(), "padding action {} is recoverable", i);
            }
        }
    }
    Ok(())
}

fn classes(m: &Mat, obs: &mut Obs) {
    if !m.spends().is_empty() || !m.outputs().is_empty() {
        obs.nontrivial();
    }
    let (s, o) = (m.spends().len(), m.outputs().len());
    obs.class_if(s > o && o > 0, "more-spends");
    obs.class_if(o > s && s > 0, "more-outputs");
    obs.class_if(s.max(o) == 1, "padded-to-two");
    obs.class_if(m.bt == Bt::Coinbase, "coinbase");
    obs.class_if(m.outputs().iter().any(|o| o.memo.is_none()), "default-memo");
    obs.class_if(m.spends().iter().any(|s| s.scope == refm::Sc::Int), "internal-spend");
    let mut nf: Vec<_> = m.spends().iter().map(|s| s.nf()).collect();
    nf.sort();
    nf.dedup();
    obs.class_if(nf.len() < s, "same-note-twice");
}

fn built_case(c: &Built, obs: &mut Obs) -> R {
    let m = c.plan.mat();
    classes(&m, obs);
    let rng = orc::rng(&m.rng);
    let res = if c.direct {
        let spends = m.spends().iter().map(|s| s.info().ok_or("SpendInfo refused")).collect::<Result<Vec<_>, _>>()?;
        let outs = m.outputs().iter().map(|o| o.info()).collect();
        builder::bundle::<i64>(rng, m.anchor(), m.bt.ty(), spends, outs)
    } else {
        m.builder().build::<i64>(rng)
    };
    match res {
        Ok(None) => {
            obs.class("no-bundle");
            ensure_eq!(m.bt.num_actions(m.spends().len(), m.outputs().len()), Some(0), "actions of an absent bundle");
            Ok(())
        }
        Ok(Some((b, meta))) => check(&m, &b, &meta, obs),
        Err(BuildError::ValueSum(_)) if !m.totals_fit() => Ok(()),
        Err(e) => Err(format!("build failed: {:?}", e)),
    }
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when it requests at least one spend or output");
    r.assume("requested outputs are found by an independent implementation of note decryption");

    let small_values = |mut plan: Plan| {
        for q in &mut plan.reqs {
            match q {
                Req::Spend(s) => s.value >>= 5,
                Req::Output(o) => o.value >>= 5,
            }
        }
        plan
    };
    let built = move || {
        (prop_oneof![5 => plan_g(true, 6), 1 => plan_g(true, 20)], any::<bool>())
            .prop_map(move |(plan, direct)| Built { plan: small_values(plan), direct })
            .boxed()
    };
    r.family("built", 6_000, 50_000, 300, built, built_case);

    // Many requests at once, most of them of one kind or with repetitions.
    let many = || (many_plan_g(16, 90), any::<bool>()).prop_map(|(plan, direct)| Built { plan, direct }).boxed();
    r.family("many", 60, 2_000, 60, many, built_case);

    // The documented padding rule, for every small request count and bundle type.
    let counts = || {
        let n = || prop_oneof![6 => 0usize..6, 2 => 0usize..70_000, 1 => Just(usize::MAX)];
        (n(), n(), bt_g(false)).boxed()
    };
    r.family("padding-rule", 4_000, 100_000, 500, counts, |(s, o, bt): &(usize, usize, Bt), obs| {
        if *s > 0 || *o > 0 {
            obs.nontrivial();
        }
        ensure_eq!(bt.ty().num_actions(*s, *o).ok(), bt.num_actions(*s, *o), "num_actions({}, {}) of {:?}", s, o, bt);
        ensure_eq!(bt.ty().flags().to_byte(), bt.flags_byte(), "flags of {:?}", bt);
        Ok(())
    });

    // Padding outputs carry no value.
    let seeds = || seed32();
    r.family("dummies", 2_000, 4_000, 50, seeds, |s: &B32, obs| {
        obs.nontrivial();
        let d = OutputInfo::dummy(&mut orc::rng(&s.0));
        ensure_eq!(OutputView::value::<u64>(&d), 0, "value of a padding output");
        Ok(())
    });
}
