//! C08: verifying or scanning untrusted bundles never panics, and rejects what does not verify.

use crate::enc::*;
use crate::engine::{no_panic, Obs, Runner};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool::*;
use crate::props::c19::{digests, many_g, model_digests, wild_g, WildG};
use crate::prove;
use crate::refm::{self, Base};
use ff::PrimeField;
use group::GroupEncoding;
use memuse::DynamicUsage;
use orchard::{
    bundle::BatchValidator,
    keys::{IncomingViewingKey, OutgoingViewingKey},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Altered { pick: u8, alters: Vec<Alter> },
    Wild(WildG),
    /// A bundle of the pool with one action replaced by arbitrary fields.
    Mixed { pick: u8, at: u8, act: ActG },
    /// An arbitrary bundle with the proof and signatures of a pool bundle.
    Dressed { pick: u8, w: WildG },
    /// Outputs by senders who know the recipients' keys and follow the protocol where it suits them.
    Sent { keys: Vec<B32>, sends: Vec<SendG>, w: WildG },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    what: What,
    ivks: Vec<B32>,
    ovks: Vec<B32>,
    sighash: Option<B32>,
    /// Keys: also try the pool's own.
    own: bool,
}

fn scan_keys() -> BoxedStrategy<(Vec<B32>, Vec<B32>)> {
    (
        proptest::collection::vec(base32().prop_filter("zero key", |b| b.0 != [0; 32]), 0..3),
        proptest::collection::vec(bytes32(), 0..3),
    )
        .boxed()
}

fn case_g(wild: u32) -> BoxedStrategy<Case> {
    let what = prop_oneof![
        6 => (any::<u8>(), proptest::collection::vec(alter(), 0..5)).prop_map(|(pick, alters)| What::Altered { pick, alters }),
        wild => prop_oneof![40 => wild_g(4), 1 => many_g(200)].prop_map(What::Wild),
        2 => (any::<u8>(), any::<u8>(), act_g()).prop_map(|(pick, at, act)| What::Mixed { pick, at, act }),
        2 => (any::<u8>(), wild_g(3)).prop_map(|(pick, w)| What::Dressed { pick, w }),
        wild => (
            proptest::collection::vec(sk32(), 1..3),
            proptest::collection::vec(send_g(proptest::collection::vec(fault(), 0..4)), 1..4),
            wild_g(3),
        )
            .prop_map(|(keys, sends, w)| What::Sent { keys, sends, w }),
    ];
    (what, scan_keys(), proptest::option::weighted(0.3, bytes32()), any::<bool>())
        .prop_map(|(what, (ivks, ovks), sighash, own)| Case { what, ivks, ovks, sighash, own })
        .boxed()
}

fn pick(pool: &[Pooled], k: u8) -> &Pooled {
    &pool[k as usize % pool.len()]
}

impl What {
    fn raw(&self, pool: &[Pooled]) -> RawBundle {
        match self {
            What::Wild(w) => w.raw(),
            What::Altered { pick: k, alters } => {
                let mut b = pick(pool, *k).raw.clone();
                for a in alters {
                    a.apply(&mut b, pool);
                }
                b
            }
            What::Mixed { pick: k, at, act } => {
                let mut b = pick(pool, *k).raw.clone();
                let i = *at as usize % b.acts.len();
                b.acts[i] = act.raw();
                b.sigs[i] = act.sig.0;
                b
            }
            What::Dressed { pick: k, w } => {
                let p = &pick(pool, *k).raw;
                let mut b = w.raw();
                b.proof = p.proof.clone();
                b.binding = p.binding;
                for (i, s) in b.sigs.iter_mut().enumerate() {
                    *s = p.sigs[i % p.sigs.len()];
                }
                b
            }
            What::Sent { keys: k, sends, w } => {
                let k: Vec<_> = k.iter().map(keys).collect();
                let mut b = w.raw();
                for (i, s) in sends.iter().enumerate() {
                    let out = s.send(&k).out;
                    if i < b.acts.len() {
                        b.acts[i].out = out;
                    } else {
                        let mut a = b.acts[0].clone();
                        a.out = out;
                        b.acts.push(a);
                        b.sigs.push(b.sigs[0]);
                    }
                }
                b
            }
        }
    }
    /// Viewing keys that open some of the outputs.
    fn opening(&self) -> (Vec<Base>, Vec<[u8; 32]>) {
        match self {
            What::Sent { keys: k, sends, .. } => {
                let k: Vec<_> = k.iter().map(keys).collect();
                (
                    sends.iter().map(|s| s.note(&k).1).collect(),
                    sends.iter().filter_map(|s| ovk_of(&s.ovk, &k)).collect(),
                )
            }
            _ => (vec![], vec![]),
        }
    }
    fn base<'a>(&self, pool: &'a [Pooled]) -> Option<&'a Pooled> {
        match self {
            What::Wild(_) | What::Sent { .. } => None,
            What::Altered { pick: k, .. } | What::Mixed { pick: k, .. } | What::Dressed { pick: k, .. } => Some(pick(pool, *k)),
        }
    }
}

fn degenerate(b: &RawBundle) -> bool {
    b.acts
        .iter()
        .any(|a| a.rk == [0; 32] || a.out.cv == [0; 32] || refm::nonid_point_of(&a.out.epk).is_none())
}

/// Scanning, digests and keys: everything short of verification.
fn light(c: &Case, raw: &RawBundle, pool: &[Pooled], obs: &mut Obs) -> Result<(), String> {
    let b = raw.bundle().ok_or("the bundle does not assemble")?;
    let bvk = no_panic(|| <[u8; 32]>::from(&b.binding_validating_key())).map_err(|e| format!("binding key: {}", e))?;
    ensure_eq!(bvk, model_bvk(&raw.acts, raw.balance).to_bytes(), "binding validating key");
    let d = no_panic(|| digests(&b)).map_err(|e| format!("digests: {}", e))?;
    ensure_eq!(d, model_digests(raw), "digests");
    no_panic(|| (format!("{:?}", b).len(), b.dynamic_usage(), b.dynamic_usage_bounds()))
        .map_err(|e| format!("formatting or sizing: {}", e))?;
    let mut ivks: Vec<Base> = c.ivks.iter().map(|k| refm::base_of(&k.0).unwrap()).collect();
    let mut ovks: Vec<[u8; 32]> = c.ovks.iter().map(|k| k.0).collect();
    if let (true, Some(p)) = (c.own, c.what.base(pool)) {
        for k in &p.mat.keys {
            for v in &k.views {
                ivks.push(v.ivk);
                ovks.push(v.ovk);
            }
        }
    }
    if c.own {
        let (i, o) = c.what.opening();
        ivks.extend(i);
        ovks.extend(o);
    }
    let ki: Vec<IncomingViewingKey> = ivks.iter().map(ivk).collect();
    let ko: Vec<OutgoingViewingKey> = ovks.iter().map(|k| OutgoingViewingKey::from(*k)).collect();
    let got = no_panic(|| b.decrypt_outputs_with_keys(&ki)).map_err(|e| format!("decryption: {}", e))?;
    let goto = no_panic(|| b.recover_outputs_with_ovks(&ko)).map_err(|e| format!("recovery: {}", e))?;
    let (mut w, mut wo) = (vec![], vec![]);
    for (i, a) in raw.acts.iter().enumerate() {
        if let Some(d) = ivks.iter().find_map(|k| refm::decrypt_ivk(&a.out, k)) {
            w.push((i, d));
        }
        if let Some(d) = ovks.iter().find_map(|k| refm::recover_ovk(&a.out, k)) {
            wo.push((i, d));
        }
        let act = action(&a.out).ok_or("an action does not decode")?;
        for k in &ivks {
            let r = no_panic(|| crate_compact(&act, &pivk(k))).map_err(|e| format!("compact decryption: {}", e))??;
            ensure_eq!(r, refm::decrypt_compact(&a.out, k), "compact decryption of action {}", i);
        }
    }
    let got = got.into_iter().map(|(i, _, n, a, m)| Ok((i, rdec(Some((n, a, m)))?.unwrap()))).collect::<Result<Vec<_>, String>>()?;
    let goto = goto.into_iter().map(|(i, _, n, a, m)| Ok((i, rdec(Some((n, a, m)))?.unwrap()))).collect::<Result<Vec<_>, String>>()?;
    obs.class_if(!w.is_empty(), "something-decrypts");
    obs.class_if(!wo.is_empty(), "something-recovers");
    ensure_eq!(got, w, "decryption");
    ensure_eq!(goto, wo, "recovery");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the bundle is not an unaltered honest one");
    r.assume("the proof system's verifier and an independent RedPallas verifier decide what genuinely verifies");
    if !r.wants("verify") && !r.wants("scan") {
        return;
    }
    prove::warm();
    let pool = pool(r.seed, if r.thorough() { 13 } else { 7 });
    let pool = &pool;

    r.family("verify", 1_400, 40_000, 60, || case_g(3), |c: &Case, obs| {
        let raw = c.what.raw(pool);
        let b = raw.bundle().ok_or("the bundle does not assemble")?;
        let base = c.what.base(pool);
        let honest = base.map_or(false, |p| p.raw == raw);
        if !honest {
            obs.nontrivial();
        }
        obs.class_if(degenerate(&raw), "degenerate-point");
        let want_proof = match base {
            Some(p) if p.raw.proof == raw.proof && p.raw.instances() == raw.instances() => true,
            _ => raw.proof_ok(),
        };
        let ok = no_panic(|| b.verify_proof(&prove::VK).is_ok()).map_err(|e| format!("verify_proof: {}", e))?;
        ensure_eq!(ok, want_proof, "proof verdict");
        let sighash = c.sighash.map(|h| h.0).unwrap_or_else(|| base.map_or([0; 32], |p| p.sighash));
        let want = want_proof && raw.sigs_ok(&sighash);
        let got = no_panic(|| {
            let mut v = BatchValidator::new();
            v.add_bundle(&b, sighash);
            v.validate(&prove::VK, orc::rng(&sighash))
        })
        .map_err(|e| format!("batch validation: {}", e))?;
        obs.class(match (want_proof, want) {
            (_, true) => "valid",
            (true, false) => "only-the-proof-verifies",
            (false, false) => "invalid",
        });
        ensure_eq!(got, want, "batch verdict");
        light(c, &raw, pool, obs)
    });

    r.family("scan", 12_000, 400_000, 200, || case_g(8), |c: &Case, obs| {
        let raw = c.what.raw(pool);
        if c.what.base(pool).map_or(true, |p| p.raw != raw) {
            obs.nontrivial();
        }
        obs.class_if(degenerate(&raw), "degenerate-point");
        obs.class_if(raw.balance == i64::MIN, "lowest-balance");
        light(c, &raw, pool, obs)
    });
}
