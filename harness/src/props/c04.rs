//! C04: only a fully and correctly signed bundle can be finalized (state machine over signing).

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::prove;
use crate::refm;
use orchard::{
    builder::{BuildError, BundleMetadata, InProgress, MaybeSigned, PartiallyAuthorized},
    bundle::Authorization,
    keys::SpendAuthorizingKey,
    primitives::redpallas::{Signature, SpendAuth},
    Bundle, Proof,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Partial = Bundle<InProgress<Proof, PartiallyAuthorized>, i64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SigG {
    /// The valid signature of some action, made elsewhere.
    Valid(u8),
    /// A valid signature of some action for another message.
    OtherMessage(u8),
    Edited(u8, Edit),
    Random(B32, B32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Sign(u8),
    SignForeign(B32),
    Append(Vec<SigG>),
    /// Append valid signatures for all actions (or all unsigned ones), in a rotated order.
    AppendAll { unsigned_only: bool, rotate: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    plan: Plan,
    /// Build with a source of randomness that repeats itself, so that spends of one key share rk.
    stuck: bool,
    sighash: B32,
    ops: Vec<Op>,
    rng: B32,
    oneshot: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PoolHist {
    pick: u8,
    sighash: B32,
    ops: Vec<Op>,
    rng: B32,
    oneshot: Vec<u8>,
}

fn sig_g() -> BoxedStrategy<SigG> {
    prop_oneof![
        6 => (0u8..8).prop_map(SigG::Valid),
        1 => (0u8..8).prop_map(SigG::OtherMessage),
        1 => (0u8..8, edit()).prop_map(|(i, e)| SigG::Edited(i, e)),
        1 => (bytes32(), scalar32()).prop_map(|(a, b)| SigG::Random(a, b)),
    ]
    .boxed()
}

fn ops_g() -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        8 => (0u8..3).prop_map(Op::Sign),
        1 => seed32().prop_map(Op::SignForeign),
        3 => proptest::collection::vec(sig_g(), 0..3).prop_map(Op::Append),
        2 => (prop::bool::weighted(0.85), 0u8..6).prop_map(|(unsigned_only, rotate)| Op::AppendAll { unsigned_only, rotate }),
    ];
    proptest::collection::vec(op, 0..6).boxed()
}

/// A plan made mostly of spends of several keys.
fn signing_plan(max: usize) -> BoxedStrategy<Plan> {
    let req = prop_oneof![
        4 => spend_g(true).prop_map(Req::Spend),
        1 => out_g().prop_map(Req::Output),
    ];
    (
        proptest::collection::vec(seed32(), 1..4),
        proptest::collection::vec(req, 0..=max),
        any::<u64>(),
        seed32(),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(keys, mut reqs, fill, rng, coinbase)| {
            let bt = if coinbase {
                reqs.retain(|r| matches!(r, Req::Output(_)));
                Bt::Coinbase
            } else {
                Bt::Tx { spends: true, outputs: true, required: true }
            };
            for q in &mut reqs {
                match q {
                    Req::Spend(s) => s.value >>= 5,
                    Req::Output(o) => o.value >>= 5,
                }
            }
            Plan { keys, bt, reqs, fill, anchor: AnchorG::Tree, rng }
        })
        .boxed()
}

fn peek(b: Partial) -> (Partial, Vec<Option<[u8; 64]>>) {
    let mut seen = vec![];
    let b = b.map_authorization(
        &mut seen,
        |seen, _, m| {
            seen.push(match &m {
                MaybeSigned::Signature(s) => Some(<[u8; 64]>::from(s)),
                MaybeSigned::SigningMetadata(_) => None,
            });
            m
        },
        |_, a| a,
    );
    (b, seen)
}

#[derive(PartialEq, Debug, Clone)]
struct Fixed {
    acts: Vec<refm::RAction>,
    flags: u8,
    balance: i64,
    anchor: [u8; 32],
}
fn fixed<A: Authorization>(b: &Bundle<A, i64>) -> Fixed {
    Fixed {
        acts: raw_actions(b),
        flags: b.flags().to_byte(),
        balance: *b.value_balance(),
        anchor: b.anchor().to_bytes(),
    }
}

/// Runs one history against the model.
fn drive(m: &Mat, b: &Proven<i64>, meta: &BundleMetadata, sighash: &[u8; 32], ops: &[Op], seed: &B32, oneshot: &[u8], obs: &mut Obs) -> R {
    let before = fixed(b);
    let n = before.acts.len();
    let asks: Vec<SpendAuthorizingKey> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
    // Which key (by validating key) controls each action; None for padding.
    let mut owner: Vec<Option<[u8; 32]>> = vec![None; n];
    for (i, s) in m.spends().iter().enumerate() {
        owner[meta.spend_action_index(i).ok_or("no index for a spend")?] = Some(m.keys[s.key].ak_bytes);
    }
    let verify = |i: usize, sig: &[u8; 64]| refm::redpallas_verify(false, &before.acts[i].rk, sighash, sig);

    // Signatures made elsewhere, for this and another message.
    let mut rng = orc::rng(&seed.0);
    let mut other = *sighash;
    other[5] ^= 4;
    let donor = |msg: [u8; 32], rng: &mut rand_chacha::ChaCha20Rng| {
        let mut d = b.clone().prepare(&mut *rng, msg);
        for a in &asks {
            d = d.sign(&mut *rng, a);
        }
        peek(d).1
    };
    let ext = donor(*sighash, &mut rng);
    let ext_other = donor(other, &mut rng);
    for (i, s) in ext.iter().enumerate() {
        let s = s.ok_or_else(|| format!("action {} is unsigned after every key has signed", i))?;
        ensure!(verify(i, &s), "the signature made for action {} is not valid", i);
    }

    let (mut cur, mut state) = peek(b.clone().prepare(&mut rng, *sighash));
    for i in 0..n {
        match (&owner[i], &state[i]) {
            (None, Some(s)) => ensure!(verify(i, s), "invalid padding signature at {}", i),
            (None, None) => return Err(format!("padding spend {} is not signed by prepare", i)),
            (Some(_), Some(_)) => return Err(format!("spend {} is signed by prepare alone", i)),
            (Some(_), None) => {}
        }
    }
    ensure_eq!(fixed(&cur), before, "bundle after prepare");

    for (k, op) in ops.iter().enumerate() {
        let prev = state.clone();
        match op {
            Op::Sign(_) | Op::SignForeign(_) => {
                let (ask, ak) = match op {
                    Op::Sign(j) => {
                        let j = *j as usize % asks.len();
                        (asks[j].clone(), m.keys[j].ak_bytes)
                    }
                    Op::SignForeign(s) => (orc::ask(&s.0).unwrap(), refm::Keys::from_sk(&s.0).unwrap().ak_bytes),
                    _ => unreachable!(),
                };
                let (c, s) = peek(cur.sign(&mut rng, &ask));
                cur = c;
                state = s;
                for i in 0..n {
                    match (&prev[i], &state[i]) {
                        (Some(a), b) => ensure_eq!(Some(*a), *b, "op {}: signature of action {} was replaced by signing", k, i),
                        (None, Some(s)) => {
                            ensure_eq!(owner[i], Some(ak), "op {}: key signed action {} it does not control", k, i);
                            ensure!(verify(i, s), "op {}: invalid signature at action {}", k, i);
                        }
                        (None, None) => ensure!(owner[i] != Some(ak), "op {}: key left its own action {} unsigned", k, i),
                    }
                }
            }
            Op::Append(_) | Op::AppendAll { .. } => {
                let sigs: Vec<[u8; 64]> = match op {
                    Op::Append(v) => v
                        .iter()
                        .map(|g| match g {
                            SigG::Valid(i) => ext[*i as usize % n].unwrap(),
                            SigG::OtherMessage(i) => ext_other[*i as usize % n].unwrap(),
                            SigG::Edited(i, e) => {
                                let mut s = ext[*i as usize % n].unwrap();
                                e.apply(&mut s);
                                s
                            }
                            SigG::Random(a, b) => {
                                let mut s = [0; 64];
                                s[..32].copy_from_slice(&a.0);
                                s[32..].copy_from_slice(&b.0);
                                s
                            }
                        })
                        .collect(),
                    Op::AppendAll { unsigned_only, rotate } => {
                        let mut v: Vec<[u8; 64]> = (0..n)
                            .filter(|i| !unsigned_only || state[*i].is_none())
                            .map(|i| ext[i].unwrap())
                            .collect();
                        if !v.is_empty() {
                            let r = *rotate as usize % v.len();
                            v.rotate_left(r);
                        }
                        v
                    }
                    _ => unreachable!(),
                };
                // Model: each signature must be valid for exactly one unsigned spend.
                let mut want = state.clone();
                let mut ok = true;
                for s in &sigs {
                    let hits: Vec<usize> = (0..n).filter(|i| want[*i].is_none() && verify(*i, s)).collect();
                    if hits.len() == 1 {
                        want[hits[0]] = Some(*s);
                    } else {
                        ok = false;
                        break;
                    }
                }
                let typed: Vec<Signature<SpendAuth>> = sigs.iter().map(|s| Signature::from(*s)).collect();
                match cur.append_signatures(&typed) {
                    Ok(b) => {
                        ensure!(ok, "op {}: a signature valid for no unsigned spend was accepted", k);
                        obs.class_if(!sigs.is_empty(), "appended");
                        let (c, s) = peek(b);
                        cur = c;
                        state = s;
                        ensure_eq!(state, want, "op {}: signatures after appending", k);
                    }
                    Err(e) => {
                        super::c03::message(&e)?;
                        obs.class_if(matches!(e, BuildError::DuplicateSignature), "valid-for-several");
                        ensure!(!ok, "op {}: valid external signatures were refused: {:?}", k, e);
                        ensure!(
                            matches!(e, BuildError::InvalidExternalSignature | BuildError::DuplicateSignature),
                            "op {}: unexpected error {:?}", k, e
                        );
                        obs.class("append-refused");
                        return Ok(());
                    }
                }
            }
        }
        ensure_eq!(fixed(&cur), before, "op {}: bundle after the operation", k);
    }

    let complete = state.iter().all(|s| s.is_some());
    match cur.finalize() {
        Ok(f) => {
            ensure!(complete, "a bundle with unsigned spends was finalized");
            obs.class("finalized");
            ensure_eq!(fixed(&f), before, "bundle after finalizing");
            for (i, a) in f.actions().iter().enumerate() {
                ensure_eq!(Some(<[u8; 64]>::from(a.authorization())), state[i], "signature {} in the finalized bundle", i);
            }
            check_signatures(&f, sighash)?;
            ensure!(
                f.binding_validating_key().verify(&other, f.authorization().binding_signature()).is_err(),
                "the binding signature verifies for another message"
            );
            for a in f.actions() {
                ensure!(a.rk().verify(&other, a.authorization()).is_err(), "a spend signature verifies for another message");
            }
        }
        Err(e) => {
            ensure!(!complete, "a fully signed bundle is refused: {:?}", e);
            super::c03::message(&e)?;
            ensure!(matches!(e, BuildError::MissingSignatures), "unexpected error {:?}", e);
            obs.class("missing-signatures");
        }
    }

    // The one-call helper.
    let given: Vec<usize> = oneshot.iter().filter(|k| **k < 3).map(|k| *k as usize % asks.len()).collect();
    let list: Vec<SpendAuthorizingKey> = oneshot
        .iter()
        .map(|k| match k {
            0..=2 => asks[*k as usize % asks.len()].clone(),
            _ => orc::ask(&[*k; 32]).unwrap(),
        })
        .collect();
    obs.class_if(list.len() > 8, "many-keys");
    let all = owner.iter().flatten().all(|o| given.iter().any(|k| m.keys[*k].ak_bytes == *o));
    match b.clone().apply_signatures(&mut rng, *sighash, &list) {
        Ok(f) => {
            ensure!(all, "apply_signatures succeeded without a needed key");
            ensure_eq!(fixed(&f), before, "bundle after apply_signatures");
            check_signatures(&f, sighash)?;
        }
        Err(e) => ensure!(!all && matches!(e, BuildError::MissingSignatures), "apply_signatures: {:?} (complete: {})", e, all),
    }

    let real = owner.iter().flatten().count();
    obs.class_if(real < n, "with-padding");
    if real > 0 && !ops.is_empty() {
        obs.nontrivial();
    }
    obs.class_if(owner.iter().flatten().collect::<std::collections::BTreeSet<_>>().len() > 1, "several-signers");
    Ok(())
}

fn oneshot_g() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => Just(vec![0, 1, 2]),
        2 => Just(vec![2, 1, 0, 0]),
        4 => proptest::collection::vec(0u8..3, 0..3),
        // Long lists: one key many times before the others, and keys that control nothing (from 3 on).
        1 => (0u8..6, 4usize..40, Just(vec![0u8, 1, 2]).prop_shuffle()).prop_map(|(k, n, rest)| {
            let mut v = vec![k; n];
            v.extend(rest);
            v
        }),
        1 => proptest::collection::vec(0u8..6, 3..40),
    ]
    .boxed()
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the bundle has at least one real spend and the history at least one operation");
    r.assume("signature validity is decided by an independent implementation of RedPallas verification");

    // Every history on its own bundle; the proof is a stand-in (hook).
    #[cfg(feature = "hooks")]
    {
        let hist = || {
            (prop_oneof![60 => signing_plan(6), 1 => signing_plan(60)], prop::bool::weighted(0.15), bytes32(), ops_g(), seed32(), oneshot_g())
                .prop_map(|(plan, stuck, sighash, ops, rng, oneshot)| Hist { plan, stuck, sighash, ops, rng, oneshot })
                .boxed()
        };
        r.family("histories", 2_000, 50_000, 300, hist, |c: &Hist, obs| {
            let m = c.plan.mat();
            let built = if c.stuck {
                m.builder().build::<i64>(orc::Stuck::new(m.rng))
            } else {
                m.builder().build::<i64>(orc::rng(&m.rng))
            };
            let (b, meta) = match built.map_err(|e| format!("build: {:?}", e))? {
                None => return Ok(()),
                Some(x) => x,
            };
            let b = b.verif_with_proof(Proof::new(vec![1, 2, 3]));
            drive(&m, &b, &meta, &c.sighash.0, &c.ops, &c.rng, &c.oneshot, obs)
        });
    }

    // Many histories on a few really proven bundles.
    if r.wants("proven-histories") {
        prove::warm();
        let pool = proven_pool(r.seed, if r.thorough() { 12 } else { 4 });
        let hist = || {
            (any::<u8>(), bytes32(), ops_g(), seed32(), oneshot_g())
                .prop_map(|(pick, sighash, ops, rng, oneshot)| PoolHist { pick, sighash, ops, rng, oneshot })
                .boxed()
        };
        r.family("proven-histories", 800, 20_000, 300, hist, |c: &PoolHist, obs| {
            let (m, b, meta) = &pool[c.pick as usize % pool.len()];
            drive(m, b, meta, &c.sighash.0, &c.ops, &c.rng, &c.oneshot, obs)
        });
    }
}

/// A few proven bundles with 0 to 4 real spends of up to three keys.
fn proven_pool(seed: u64, n: usize) -> Vec<(Mat, Proven<i64>, BundleMetadata)> {
    use proptest::strategy::ValueTree;
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let h: [u8; 32] = refm::blake2b(32, b"harness-proofpol", &[&seed.to_le_bytes()]).try_into().unwrap();
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &h));
    let mut out = vec![];
    while out.len() < n {
        let plan = signing_plan(4).new_tree(&mut runner).unwrap().current();
        let m = plan.mat();
        if out.len() + 1 < n && m.spends().len() < 2 {
            continue;
        }
        if let Ok(Some((b, meta))) = m.builder().build::<i64>(orc::rng(&m.rng)) {
            let b = b.create_proof(&prove::PK, orc::rng(&m.rng)).expect("honest bundle can be proven");
            out.push((m, b, meta));
        }
    }
    out
}
