//! C27: the published generators of test data produce what they promise.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::{check_signatures, raw_actions};
use crate::pool::RawBundle;
use crate::prove;
use crate::enc::{self, send_g, SendG};
use crate::refm::{self, Keys, RDec, ROut};
use zcash_note_encryption as zne;
use group::GroupEncoding;
use orchard::{
    builder, bundle,
    bundle::{Authorization, Flags},
    keys, note,
    note_encryption::{testing::fake_compact_action, OrchardDomain},
    primitives::redpallas::{self, VerificationKey},
    tree::MerkleHashOrchard,
    value::{self, NoteValue, ValueCommitTrapdoor, ValueCommitment, ValueSum, MAX_NOTE_VALUE},
    Action, Bundle, Note,
};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use subtle::ConstantTimeEq;

/// One value of a published generator, after some shrinking steps; reproducible from the seed.
fn draw<S: Strategy>(s: S, seed: &B32, shrink: u8) -> Result<S::Value, String> {
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed.0));
    let mut t = s.new_tree(&mut runner).map_err(|e| format!("the generator gave up: {}", e))?;
    for _ in 0..shrink {
        if !t.simplify() {
            break;
        }
    }
    Ok(t.current())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    seed: B32,
    shrink: u8,
    max: u64,
}

/// Observes the integer inside a sum through its commitment.
fn is_sum(v: &ValueSum, want: i128) -> bool {
    let zero = ValueCommitTrapdoor::from_bytes([0; 32]).unwrap();
    ValueCommitment::derive(*v, zero).to_bytes() == refm::value_commit(want, &refm::Scalar::zero()).to_bytes()
}

/// `lo <= v <= hi` for a sum that is observed through its distance from both ends.
fn in_range(v: ValueSum, bound: u64) -> Result<(), String> {
    // |v| <= bound: adding the bound gives something not negative, and so does the opposite.
    if let Ok(i) = i64::try_from(v) {
        ensure!(is_sum(&v, i as i128), "the sum {:?} is not the one it converts to", v);
        ensure!((i as i128).unsigned_abs() <= bound as u128, "sum {} outside +-{}", i, bound);
    } else {
        ensure!(bound > i64::MAX as u64, "sum {:?} outside +-{}", v, bound);
    }
    Ok(())
}

fn small_case(c: &Small, obs: &mut Obs) -> R {
    let (s, k) = (&c.seed, c.shrink);
    let v = draw(value::testing::arb_note_value(), s, k)?;
    ensure!(v.inner() < MAX_NOTE_VALUE, "arb_note_value gave {}", v.inner());
    if c.max > 0 {
        let v = draw(value::testing::arb_note_value_bounded(c.max), s, k)?;
        ensure!(v.inner() < c.max, "arb_note_value_bounded({}) gave {}", c.max, v.inner());
    }
    if c.max > 1 {
        let v = draw(value::testing::arb_positive_note_value(c.max), s, k)?;
        ensure!(v.inner() > 0 && v.inner() < c.max, "arb_positive_note_value({}) gave {}", c.max, v.inner());
    }
    in_range(draw(value::testing::arb_value_sum(), s, k)?, MAX_NOTE_VALUE)?;
    in_range(draw(value::testing::arb_value_sum_bounded(NoteValue::from_raw(c.max)), s, k)?, c.max)?;
    draw(value::testing::arb_trapdoor(), s, k)?;

    let sk = draw(keys::testing::arb_spending_key(), s, k)?;
    let back = orc::sk(sk.to_bytes()).ok_or("arb_spending_key gave an invalid key")?;
    ensure!(bool::from(back.ct_eq(&sk)), "arb_spending_key gave a key that does not round-trip");
    draw(keys::testing::arb_esk(), s, k)?;
    let a = draw(keys::testing::arb_diversifier_index(), s, k)?;
    let fvk = keys::FullViewingKey::from(&sk);
    for scope in [keys::Scope::External, keys::Scope::Internal] {
        let addr = fvk.address_at(a, scope);
        ensure_eq!(
            fvk.to_ivk(scope).diversifier_index(&addr).map(|x| *x.as_bytes()),
            Some(*a.as_bytes()),
            "index of an address of generated key and index"
        );
    }

    let n = draw(note::testing::arb_note(NoteValue::from_raw(c.max)), s, k)?;
    check_note(&n, c.max)?;

    // Redpallas keys.
    let msg = &c.seed.0;
    let spend = draw(redpallas::testing::arb_spendauth_signing_key(), s, k)?;
    let vk = VerificationKey::from(&spend);
    let sig = spend.sign(orc::rng(&c.seed.0), msg);
    ensure!(
        refm::redpallas_verify(false, &(&vk).into(), msg, &(&sig).into()),
        "a generated spend authorization key does not sign"
    );
    let bind = draw(redpallas::testing::arb_binding_signing_key(), s, k)?;
    let vk = VerificationKey::from(&bind);
    let sig = bind.sign(orc::rng(&c.seed.0), msg);
    ensure!(
        refm::redpallas_verify(true, &(&vk).into(), msg, &(&sig).into()),
        "a generated binding key does not sign"
    );
    let vk: [u8; 32] = (&draw(redpallas::testing::arb_spendauth_verification_key(), s, k)?).into();
    ensure!(refm::nonid_point_of(&vk).is_some(), "generated spend validating key {:?}", vk);
    let vk: [u8; 32] = (&draw(redpallas::testing::arb_binding_verification_key(), s, k)?).into();
    ensure!(refm::nonid_point_of(&vk).is_some(), "generated binding validating key {:?}", vk);

    // Tree nodes.
    let a = MerkleHashOrchard::random(&mut orc::rng(&c.seed.0));
    let b = MerkleHashOrchard::random(&mut orc::rng(&c.seed.0));
    ensure!(a == b, "a random node does not follow its randomness");
    ensure!(refm::base_of(&a.to_bytes()).is_some(), "a random node is not canonical");

    obs.nontrivial();
    obs.class_if(k > 0, "shrunk");
    obs.class_if(c.max <= 1, "degenerate-bound");
    Ok(())
}

fn check_note(n: &Note, value: u64) -> R {
    let r = orc::rnote(n);
    ensure_eq!(r.value, value, "value of a generated note");
    let back = orc::note(&r).ok_or("a generated note is not a valid note")?;
    ensure!(back == *n, "a generated note differs from the note of its parts");
    ensure_eq!(Some(orc::cmx_bytes(n)), r.cmx().map(|c| ff::PrimeField::to_repr(&c)), "commitment of a generated note");
    Ok(())
}

// ---- fake bundles ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fake {
    seed: B32,
    shrink: u8,
    n: u8,
}

fn fake_common<A: Authorization>(b: &Bundle<A, ValueSum>, n: usize, obs: &mut Obs) -> R {
    ensure_eq!(b.actions().len(), n, "number of actions");
    let acts = raw_actions(b);
    // The commitments hide nothing, so they add up to the balance.
    let zero = ValueCommitTrapdoor::from_bytes([0; 32]).unwrap();
    let sum: refm::Point = acts.iter().map(|a| refm::point_of(&a.out.cv).unwrap()).sum();
    ensure_eq!(
        hex::encode(ValueCommitment::derive(*b.value_balance(), zero).to_bytes()),
        hex::encode(sum.to_bytes()),
        "commitment to the balance of a generated bundle"
    );
    let f: &Flags = b.flags();
    if let Ok(v) = i64::try_from(*b.value_balance()) {
        ensure!(f.spends_enabled() || v <= 0, "spends are disabled, but the balance is {}", v);
        ensure!(f.outputs_enabled() || v >= 0, "outputs are disabled, but the balance is {}", v);
        obs.class_if(v == 0, "zero-balance");
    }
    for a in &acts {
        ensure!(refm::base_of(&a.out.nf).is_some() && refm::base_of(&a.out.cmx).is_some(), "a generated action is not canonical");
        ensure!(refm::nonid_point_of(&a.rk).is_some(), "a generated action has no valid rk");
    }
    ensure!(refm::base_of(&b.anchor().to_bytes()).is_some(), "a generated anchor is not canonical");
    Ok(())
}

fn fake_case(c: &Fake, obs: &mut Obs) -> R {
    let n = c.n as usize;
    let b = draw(bundle::testing::arb_unauthorized_bundle(n), &c.seed, c.shrink)?;
    fake_common(&b, n, obs)?;
    let b = draw(bundle::testing::arb_bundle(n), &c.seed, c.shrink)?;
    fake_common(&b, n, obs)?;
    let back = b.try_map_value_balance::<i64, (), _>(|_| Ok(0)).map_err(|_| "balance")?;
    let raw = RawBundle::of(&back);
    ensure!(raw.bundle().is_some(), "a generated bundle does not decode");
    obs.nontrivial();
    obs.class_if(n > 1, "several-actions");
    Ok(())
}

// ---- actions ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Acts {
    seed: B32,
    shrink: u8,
    n: u32,
    spend: u64,
    output: u64,
}

/// The value an action's commitment (which hides nothing) is to.
fn is_net(cv: &ValueCommitment, v: &ValueSum) -> bool {
    let zero = ValueCommitTrapdoor::from_bytes([0; 32]).unwrap();
    cv.to_bytes() == ValueCommitment::derive(*v, zero).to_bytes()
}

fn one_action<A>(a: &Action<A>) -> R {
    ensure!(refm::base_of(&a.nullifier().to_bytes()).is_some(), "a generated nullifier is not canonical");
    ensure!(refm::base_of(&a.cmx().to_bytes()).is_some(), "a generated commitment is not canonical");
    let rk: [u8; 32] = a.rk().into();
    ensure!(refm::nonid_point_of(&rk).is_some(), "a generated action has no valid rk");
    Ok(())
}

fn acts_case(c: &Acts, obs: &mut Obs) -> R {
    let (s, k) = (&c.seed, c.shrink);
    let (spend, output) = (NoteValue::from_raw(c.spend), NoteValue::from_raw(c.output));
    let net = c.spend as i128 - c.output as i128;
    for cv in [
        {
            let a = draw(bundle::testing::arb_unauthorized_action(spend, output), s, k)?;
            one_action(&a)?;
            a.cv_net().clone()
        },
        {
            let a = draw(bundle::testing::arb_action(spend, output), s, k)?;
            one_action(&a)?;
            a.cv_net().clone()
        },
    ] {
        ensure_eq!(
            hex::encode(cv.to_bytes()),
            hex::encode(refm::value_commit(net, &refm::Scalar::zero()).to_bytes()),
            "value commitment of an action generated for {} - {}",
            c.spend,
            c.output
        );
    }
    let flags = draw(bundle::testing::arb_flags(), s, k)?;
    let max = MAX_NOTE_VALUE / c.n as u64;
    for (v, cv) in [
        {
            let (v, a) = draw(bundle::testing::arb_unauthorized_action_n(c.n as usize, flags), s, k)?;
            one_action(&a)?;
            (v, a.cv_net().clone())
        },
        {
            let (v, a) = draw(bundle::testing::arb_action_n(c.n as usize, flags), s, k)?;
            one_action(&a)?;
            (v, a.cv_net().clone())
        },
    ] {
        ensure!(is_net(&cv, &v), "the commitment of a generated action is not to the value given with it");
        in_range(v, max - 1)?;
        if let Ok(v) = i64::try_from(v) {
            ensure!(flags.spends_enabled() || v <= 0, "spends are disabled, but an action's value is {}", v);
            ensure!(flags.outputs_enabled() || v >= 0, "outputs are disabled, but an action's value is {}", v);
        }
    }
    draw(value::testing::arb_scalar(), s, k)?;
    obs.nontrivial();
    obs.class_if(net < 0, "negative");
    obs.class_if(c.n > 100, "small-share");
    obs.class_if(!flags.spends_enabled() || !flags.outputs_enabled(), "restricted");
    Ok(())
}

// ---- valid bundles ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Valid {
    seed: B32,
    key: Option<B32>,
}

fn valid_case(c: &Valid, obs: &mut Obs) -> R {
    let (b, key) = match &c.key {
        Some(k) => {
            let sk = orc::sk(&k.0).ok_or("invalid key")?;
            (draw(builder::testing::arb_bundle_with_key::<i64>(sk), &c.seed, 0)?, Some(k))
        }
        None => (draw(builder::testing::arb_bundle::<i64>(), &c.seed, 0)?, None),
    };
    let n = b.actions().len();
    ensure!(n >= 2, "a generated bundle has {} actions", n);
    let raw = RawBundle::of(&b);
    ensure_eq!(raw.flags, 3, "flags of a generated bundle");
    ensure!(raw.proof_ok(), "the proof of a generated bundle is not valid");
    ensure!(b.verify_proof(&prove::VK).is_ok(), "the proof of a generated bundle is refused");
    ensure!(raw.sigs_ok(&[0; 32]), "a signature of a generated bundle is not valid for the all-zero message");
    check_signatures(&b, &[0; 32])?;
    obs.nontrivial();
    obs.class(if key.is_some() { "given-key" } else { "any-key" });
    obs.class_if(n > 10, "more-than-10-actions");
    Ok(())
}

// ---- compact actions ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compact {
    keys: Vec<B32>,
    s: SendG,
    rng: B32,
}

fn compact_case(c: &Compact, obs: &mut Obs) -> R {
    let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
    let (want, ivk) = c.s.note(&mk);
    let ovk = enc::ovk_of(&c.s.ovk, &mk).map(keys::OutgoingViewingKey::from);
    let addr = Option::from(orchard::Address::from_raw_address_bytes(&want.addr)).ok_or("address refused")?;
    let nf = note::Nullifier::from_bytes(&c.s.nf.0).unwrap();
    let (a, n) =
        fake_compact_action(&mut orc::rng(&c.rng.0), nf, addr, NoteValue::from_raw(c.s.value), ovk);
    let got = orc::rnote(&n);
    ensure_eq!(got.addr, want.addr, "recipient of the generated note");
    ensure_eq!(got.value, want.value, "value of the generated note");
    ensure_eq!(got.rho, c.s.nf.0, "rho of the generated note");
    ensure!(orc::note(&got).map(|x| x == n).unwrap_or(false), "the generated note is not a valid note");
    ensure_eq!(a.nullifier().to_bytes(), c.s.nf.0, "nullifier of the generated compact action");
    ensure_eq!(Some(a.cmx().to_bytes()), got.cmx().map(|c| ff::PrimeField::to_repr(&c)), "commitment of the generated compact action");
    let d = OrchardDomain::for_compact_action(&a);
    let plain = RDec { note: got, memo: None };
    let read = |k: &keys::PreparedIncomingViewingKey| enc::rdec_compact(zne::try_compact_note_decryption(&d, k, &a));
    ensure_eq!(read(&enc::pivk(&ivk))?, Some(plain.clone()), "the recipient's reading of a generated compact action");
    // The independent implementation reads the same bytes.
    let out = ROut {
        nf: c.s.nf.0,
        cmx: a.cmx().to_bytes(),
        cv: [0; 32],
        epk: zne::ShieldedOutput::<OrchardDomain, 52>::ephemeral_key(&a).0,
        enc: zne::ShieldedOutput::<OrchardDomain, 52>::enc_ciphertext(&a).to_vec(),
        out: vec![0; 80],
    };
    ensure_eq!(refm::decrypt_compact(&out, &ivk), Some(plain.clone()), "the independent reading of a generated compact action");
    for m in &mk {
        for v in &m.views {
            let mine = v.ivk == ivk;
            ensure_eq!(read(&enc::pivk(&v.ivk))?, Some(plain.clone()).filter(|_| mine), "reading with a listed key");
        }
    }
    obs.nontrivial();
    obs.class_if(c.s.value == 0, "zero-value");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when every generator drawn from gave a value");
    r.assume("generators are run from a seeded generator and partly shrunk; their distribution is not judged");
    let small = || {
        (seed32(), prop_oneof![1 => Just(0u8), 1 => 1u8..40], val_u64())
            .prop_map(|(seed, shrink, max)| Small { seed, shrink, max })
            .boxed()
    };
    r.family("values", 3_000, 100_000, 100, small, small_case);
    let compact = || {
        (proptest::collection::vec(sk32(), 1..4), send_g(Just(vec![])), seed32())
            .prop_map(|(keys, s, rng)| Compact { keys, s, rng })
            .boxed()
    };
    r.family("compact-actions", 2_000, 100_000, 100, compact, compact_case);
    let acts = || {
        (
            seed32(),
            prop_oneof![1 => Just(0u8), 1 => 1u8..40],
            prop_oneof![3 => 1u32..20, 1 => (0u32..22).prop_map(|k| 1 << k)],
            val_u64(),
            val_u64(),
        )
            .prop_map(|(seed, shrink, n, spend, output)| Acts { seed, shrink, n, spend, output })
            .boxed()
    };
    r.family("actions", 3_000, 100_000, 60, acts, acts_case);
    let fake = || {
        (seed32(), prop_oneof![1 => Just(0u8), 1 => 1u8..60], prop_oneof![9 => 1u8..6, 1 => 6u8..40])
            .prop_map(|(seed, shrink, n)| Fake { seed, shrink, n })
            .boxed()
    };
    r.family("fake-bundles", 400, 20_000, 60, fake, fake_case);
    if r.wants("valid-bundles") {
        prove::warm();
        let valid = || {
            (seed32(), proptest::option::weighted(0.7, seed32())).prop_map(|(seed, key)| Valid { seed, key }).boxed()
        };
        r.family("valid-bundles", 3, 40, 0, valid, valid_case);
    }
}
