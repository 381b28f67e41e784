//! C22: on-chain field encodings.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::refm;
use ff::PrimeField;
use group::GroupEncoding;
use orchard::{
    bundle::Flags,
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho},
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::MerkleHashOrchard,
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment},
    Anchor,
};
use pasta_curves::pallas;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: B32,
    b: B32,
}

/// 32-byte strings around every boundary that matters: field order, scalar order, point encodings.
fn enc32() -> BoxedStrategy<B32> {
    fn plus(b: [u8; 32], k: i64) -> B32 {
        // 256-bit little-endian addition with wrap-around
        let mut out = [0u8; 32];
        let mut carry = k as i128;
        for i in 0..32 {
            let t = b[i] as i128 + carry;
            out[i] = t.rem_euclid(256) as u8;
            carry = t.div_euclid(256);
        }
        By(out)
    }
    fn shl(v: u32) -> [u8; 32] {
        let mut x = [0; 32];
        x[(v / 8) as usize] = 1 << (v % 8);
        x
    }
    let p_minus_1 = (-pallas::Base::one()).to_repr();
    let q_minus_1 = (-pallas::Scalar::one()).to_repr();
    prop_oneof![
        2 => base32(),
        1 => scalar32(),
        // canonical + multiple of the modulus when it still fits in 256 bits
        2 => (base32(), -2i64..=3).prop_map(move |(b, k)| {
            // b + p (mod 2^256) = b + (p-1) + 1
            let mut out = [0u8; 32];
            let mut carry = 1u16;
            for i in 0..32 { let t = b.0[i] as u16 + p_minus_1[i] as u16 + carry; out[i] = t as u8; carry = t >> 8; }
            plus(out, k)
        }),
        1 => (scalar32(), -2i64..=3).prop_map(move |(b, k)| {
            let mut out = [0u8; 32];
            let mut carry = 1u16;
            for i in 0..32 { let t = b.0[i] as u16 + q_minus_1[i] as u16 + carry; out[i] = t as u8; carry = t >> 8; }
            plus(out, k)
        }),
        1 => (-4i64..=4).prop_map(move |k| plus(p_minus_1, k)),
        1 => (-4i64..=4).prop_map(move |k| plus(q_minus_1, k)),
        1 => ((250u32..256), -2i64..=2).prop_map(move |(b, k)| plus(shl(b), k)),
        2 => scalar32().prop_map(|s| By((*refm::G_SPEND * refm::scalar_of(&s.0).unwrap()).to_bytes())),
        1 => scalar32().prop_map(|s| { let mut b = (*refm::G_SPEND * refm::scalar_of(&s.0).unwrap()).to_bytes(); b[31] ^= 0x80; By(b) }),
        1 => (base32(), any::<bool>()).prop_map(|(b, s)| { let mut b = b.0; if s { b[31] |= 0x80; } By(b) }),
        2 => bytes32(),
        1 => Just(By([0; 32])),
        1 => Just({ let mut b = [0; 32]; b[31] = 0x80; By(b) }),
    ]
    .boxed()
}

fn related() -> BoxedStrategy<Pair> {
    (enc32(), prop_oneof![2 => enc32().prop_map(Some), 1 => Just(None)], proptest::option::weighted(0.5, edit()))
        .prop_map(|(a, b, e)| {
            let mut b = b.unwrap_or(a);
            if let Some(e) = e {
                if b == a {
                    e.apply(&mut b.0);
                }
            }
            Pair { a, b }
        })
        .boxed()
}

/// Decode / re-encode check shared by all 32-byte codecs.
fn codec<T>(name: &str, b: &[u8; 32], valid: bool, dec: impl Fn(&[u8; 32]) -> Option<T>, enc: impl Fn(&T) -> [u8; 32]) -> Result<Option<T>, String> {
    let d = dec(b);
    ensure_eq!(d.is_some(), valid, "{}: decoding of {} accepted", name, hex::encode(b));
    if let Some(v) = &d {
        ensure_eq!(enc(v), *b, "{}: re-encoding", name);
    }
    Ok(d)
}

fn both<T>(name: &str, c: &Pair, valid: impl Fn(&[u8; 32]) -> bool, dec: impl Fn(&[u8; 32]) -> Option<T>, enc: impl Fn(&T) -> [u8; 32], eq: impl Fn(&T, &T) -> bool) -> R {
    let a = codec(name, &c.a.0, valid(&c.a.0), &dec, &enc)?;
    let b = codec(name, &c.b.0, valid(&c.b.0), &dec, &enc)?;
    if let (Some(a), Some(b)) = (a, b) {
        ensure_eq!(eq(&a, &b), c.a == c.b, "{}: equality of decoded values", name);
        ensure!(eq(&a, &a), "{}: value differs from itself", name);
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least one type accepts the bytes and at least one refuses them, or (flags) when the byte is tested for all 256 values");
    r.assume("canonicality is decided by the field and curve decoders of pasta_curves");

    let is_base = |b: &[u8; 32]| refm::base_of(b).is_some();
    let is_scalar = |b: &[u8; 32]| refm::scalar_of(b).is_some();
    let is_point = |b: &[u8; 32]| refm::point_of(b).is_some();

    r.family("fields", 90_000, 400_000, 2000, related, |c: &Pair, obs: &mut Obs| {
        let (fb, sb, pb) = (is_base(&c.a.0), is_scalar(&c.a.0), is_point(&c.a.0));
        obs.class_if(fb, "base-field");
        obs.class_if(sb && !fb, "scalar-not-base");
        obs.class_if(pb, "point");
        obs.class_if(!fb && !sb && !pb, "refused-by-all");
        obs.class_if(c.a != c.b, "distinct-pair");
        if (fb || sb || pb) && !(fb && sb && pb) {
            obs.nontrivial();
        }
        both("nullifier", c, is_base, |b| Nullifier::from_bytes(b).into(), |x: &Nullifier| x.to_bytes(), |x, y| x == y)?;
        both("cmx", c, is_base, |b| ExtractedNoteCommitment::from_bytes(b).into(), |x: &ExtractedNoteCommitment| x.to_bytes(), |x, y| x == y)?;
        both("cmx (into bytes)", c, is_base, |b| ExtractedNoteCommitment::from_bytes(b).into(), |x: &ExtractedNoteCommitment| <[u8; 32]>::from(x), |x, y| x == y)?;
        both("rho", c, is_base, |b| Rho::from_bytes(b).into(), |x: &Rho| x.to_bytes(), |x, y| x == y)?;
        both("anchor", c, is_base, |b| Anchor::from_bytes(*b).into(), |x: &Anchor| x.to_bytes(), |x, y| x == y)?;
        both("tree node", c, is_base, |b| MerkleHashOrchard::from_bytes(b).into(), |x: &MerkleHashOrchard| x.to_bytes(), |x, y| x == y)?;
        both("tree node (serde)", c, is_base,
            |b| serde_json::from_value::<MerkleHashOrchard>(serde_json::to_value(b).unwrap()).ok(),
            |x: &MerkleHashOrchard| serde_json::from_value(serde_json::to_value(x).unwrap()).unwrap(), |x, y| x == y)?;
        both("value commitment", c, is_point, |b| ValueCommitment::from_bytes(b).into(), |x: &ValueCommitment| x.to_bytes(), |x, y| x.to_bytes() == y.to_bytes())?;
        // A blinding factor has no encoder: observe it through the commitment it gives.
        for b in [&c.a.0, &c.b.0] {
            let t: Option<ValueCommitTrapdoor> = ValueCommitTrapdoor::from_bytes(*b).into();
            ensure_eq!(t.is_some(), is_scalar(b), "blinding factor: decoding of {} accepted", hex::encode(b));
            if let Some(t) = t {
                let z = NoteValue::from_raw(0) - NoteValue::from_raw(0);
                ensure_eq!(ValueCommitment::derive(z, t).to_bytes(), refm::value_commit(0, &refm::scalar_of(b).unwrap()).to_bytes(), "blinding factor value");
            }
        }
        Ok(())
    });

    r.family("signature-keys", 50_000, 150_000, 2000, related, |c: &Pair, obs: &mut Obs| {
        let (sb, pb) = (is_scalar(&c.a.0), is_point(&c.a.0));
        obs.class_if(sb, "signing-key");
        obs.class_if(pb, "verification-key");
        if sb != pb {
            obs.nontrivial();
        }
        macro_rules! keys {
            ($t:ty, $base:expr, $name:literal) => {
                both(concat!($name, " verification key"), c, is_point,
                    |b| redpallas::VerificationKey::<$t>::try_from(*b).ok(),
                    |x: &redpallas::VerificationKey<$t>| x.into(), |x, y| x == y)?;
                both(concat!($name, " signing key"), c, is_scalar,
                    |b| redpallas::SigningKey::<$t>::try_from(*b).ok(),
                    |x: &redpallas::SigningKey<$t>| x.into(), |x, y| <[u8; 32]>::from(x) == <[u8; 32]>::from(y))?;
                let vks: Vec<_> = [c.a, c.b].iter().filter_map(|b| redpallas::VerificationKey::<$t>::try_from(b.0).ok()).collect();
                for v in &vks {
                    ensure_eq!(<[u8; 32]>::from(v.clone()), <[u8; 32]>::from(v), "owned and borrowed encodings of a verification key");
                }
                if vks.len() == 2 {
                    use std::cmp::Ordering::*;
                    let o = vks[0].cmp(&vks[1]);
                    ensure_eq!(o == Equal, c.a == c.b, "ordering consistent with equality");
                    ensure_eq!(vks[1].cmp(&vks[0]), o.reverse(), "ordering antisymmetric");
                    ensure_eq!(vks[0].partial_cmp(&vks[1]), Some(o), "partial ordering");
                }
                if let Ok(s) = redpallas::SigningKey::<$t>::try_from(c.a.0) {
                    let want = ($base * refm::scalar_of(&c.a.0).unwrap()).to_bytes();
                    ensure_eq!(<[u8; 32]>::from(redpallas::VerificationKey::from(&s)), want, "public key of a signing key");
                    ensure_eq!(<[u8; 32]>::from(s.clone()), c.a.0, "owned encoding of a signing key");
                }
            };
        }
        keys!(SpendAuth, *refm::G_SPEND, "spend authorization");
        keys!(Binding, *refm::R_CV, "binding");
        // Signatures are arbitrary 64-byte strings.
        let mut s = [0u8; 64];
        s[..32].copy_from_slice(&c.a.0);
        s[32..].copy_from_slice(&c.b.0);
        ensure_eq!(<[u8; 64]>::from(&redpallas::Signature::<SpendAuth>::from(s)), s, "spend signature bytes");
        ensure_eq!(<[u8; 64]>::from(&redpallas::Signature::<Binding>::from(s)), s, "binding signature bytes");
        Ok(())
    });

    r.family("note-seed", 30_000, 100_000, 2000, || (bytes32(), base32()).prop_map(|(a, b)| Pair { a, b }).boxed(), |c: &Pair, obs: &mut Obs| {
        obs.nontrivial();
        let rho: Rho = Option::from(Rho::from_bytes(&c.b.0)).ok_or("canonical rho refused")?;
        let s: Option<RandomSeed> = RandomSeed::from_bytes(c.a.0, &rho).into();
        let esk = refm::to_scalar(refm::prf_expand(&c.a.0, 0x04, &[&c.b.0]));
        ensure_eq!(s.is_some(), esk != refm::Scalar::zero(), "seed accepted");
        if let Some(s) = s {
            ensure_eq!(*s.as_bytes(), c.a.0, "seed bytes");
        }
        Ok(())
    });

    // The flag byte has 256 values: each case checks all of them (exhaustive), plus a generated one.
    r.family("flags", 64, 256, 100, || any::<u8>().boxed(), |x: &u8, obs: &mut Obs| {
        obs.nontrivial();
        for b in std::iter::once(*x).chain(0..=255u8) {
            let f = Flags::from_byte(b);
            ensure_eq!(f.is_some(), b & !3 == 0, "flag byte {:#04x} accepted", b);
            if let Some(f) = f {
                ensure_eq!(f.to_byte(), b, "flag byte re-encoding");
                ensure_eq!(f.spends_enabled(), b & 1 != 0, "spends flag of {:#04x}", b);
                ensure_eq!(f.outputs_enabled(), b & 2 != 0, "outputs flag of {:#04x}", b);
                for c in 0..4u8 {
                    ensure_eq!(Flags::from_byte(c).map(|g| g == f), Some(b == c), "flag equality");
                }
            }
        }
        ensure_eq!(Flags::ENABLED.to_byte(), 3, "ENABLED");
        ensure_eq!(Flags::SPENDS_DISABLED.to_byte(), 2, "SPENDS_DISABLED");
        ensure_eq!(Flags::OUTPUTS_DISABLED.to_byte(), 1, "OUTPUTS_DISABLED");
        Ok(())
    });
}
