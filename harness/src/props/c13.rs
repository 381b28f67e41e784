//! C13: signatures verify only for the right key and message, and randomize.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::pool::{point32, sig64};
use crate::refm::{self, Keys, Scalar};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::{
    keys::{SpendAuthorizingKey, SpendValidatingKey},
    primitives::redpallas::{self, Binding, SigType, Signature, SigningKey, SpendAuth, VerificationKey},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn msg_g() -> BoxedStrategy<Bs> {
    prop_oneof![
        1 => Just(vec![]),
        4 => bytes32().prop_map(|b| b.0.to_vec()),
        2 => proptest::collection::vec(any::<u8>(), 0..80),
        1 => (0usize..300, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .prop_map(Bs)
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Msg(Edit),
    MsgPush(u8),
    MsgPop,
    Sig(Edit),
    SigNegR,
    SigNegS,
    SigShift(B32),
    Key(B32),
    KeyNeg,
    KeyEdit(Edit),
    Swap(By<64>),
    /// Present it as the other signature type.
    OtherType,
}
fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        edit().prop_map(Tamper::Msg),
        any::<u8>().prop_map(Tamper::MsgPush),
        Just(Tamper::MsgPop),
        edit().prop_map(Tamper::Sig),
        edit().prop_map(Tamper::Sig),
        Just(Tamper::SigNegR),
        Just(Tamper::SigNegS),
        scalar32().prop_map(Tamper::SigShift),
        point32().prop_map(Tamper::Key),
        Just(Tamper::KeyNeg),
        edit().prop_map(Tamper::KeyEdit),
        sig64().prop_map(Tamper::Swap),
        Just(Tamper::OtherType),
    ]
    .boxed()
}

/// A signature together with what it is checked against.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Claim {
    binding: bool,
    vk: [u8; 32],
    msg: Vec<u8>,
    sig: [u8; 64],
}

impl Tamper {
    fn apply(&self, c: &mut Claim) {
        match self {
            Tamper::Msg(e) => {
                e.apply(&mut c.msg);
            }
            Tamper::MsgPush(b) => c.msg.push(*b),
            Tamper::MsgPop => {
                c.msg.pop();
            }
            Tamper::Sig(e) => {
                e.apply(&mut c.sig);
            }
            Tamper::SigNegR => {
                if let Some(p) = refm::point_of(c.sig[..32].try_into().unwrap()) {
                    c.sig[..32].copy_from_slice(&(-p).to_bytes());
                }
            }
            Tamper::SigNegS => {
                if let Some(s) = refm::scalar_of(c.sig[32..].try_into().unwrap()) {
                    c.sig[32..].copy_from_slice(&(-s).to_repr());
                }
            }
            Tamper::SigShift(d) => {
                if let Some(s) = refm::scalar_of(c.sig[32..].try_into().unwrap()) {
                    c.sig[32..].copy_from_slice(&(s + refm::scalar_of(&d.0).unwrap()).to_repr());
                }
            }
            Tamper::Key(k) => c.vk = k.0,
            Tamper::KeyNeg => {
                if let Some(p) = refm::point_of(&c.vk) {
                    c.vk = (-p).to_bytes();
                }
            }
            Tamper::KeyEdit(e) => {
                let mut v = c.vk;
                e.apply(&mut v);
                c.vk = v;
            }
            Tamper::Swap(s) => c.sig = s.0,
            Tamper::OtherType => c.binding = !c.binding,
        }
    }
}

impl Claim {
    fn model(&self) -> bool {
        refm::redpallas_verify(self.binding, &self.vk, &self.msg, &self.sig)
    }
    fn check<T: SigType>(&self) -> Result<bool, String> {
        let vk = match VerificationKey::<T>::try_from(self.vk) {
            Ok(v) => v,
            Err(_) => {
                ensure!(refm::point_of(&self.vk).is_none(), "a valid verification key is refused");
                return Ok(false);
            }
        };
        ensure!(refm::point_of(&self.vk).is_some(), "an undecodable verification key is accepted");
        ensure_eq!(<[u8; 32]>::from(&vk), self.vk, "encoding of a decoded verification key");
        let s = Signature::<T>::from(self.sig);
        ensure_eq!(<[u8; 64]>::from(&s), self.sig, "encoding of a decoded signature");
        Ok(vk.verify(&self.msg, &s).is_ok())
    }
    fn crate_verdict(&self) -> Result<bool, String> {
        if self.binding {
            self.check::<Binding>()
        } else {
            self.check::<SpendAuth>()
        }
    }
    /// Queues it; false when the key does not decode.
    fn queue(&self, v: &mut redpallas::batch::Verifier<SpendAuth, Binding>) -> bool {
        if self.binding {
            match VerificationKey::<Binding>::try_from(self.vk) {
                Ok(k) => v.queue(k.create_batch_item(self.sig.into(), &self.msg)),
                Err(_) => return false,
            }
        } else {
            match VerificationKey::<SpendAuth>::try_from(self.vk) {
                Ok(k) => v.queue(k.create_batch_item(self.sig.into(), &self.msg)),
                Err(_) => return false,
            }
        }
        true
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SignG {
    binding: bool,
    sk: B32,
    msg: Bs,
    rng: B32,
    tamper: Vec<Tamper>,
}

fn sign_g(n: usize) -> BoxedStrategy<SignG> {
    (any::<bool>(), scalar32(), msg_g(), seed32(), proptest::collection::vec(tamper(), n))
        .prop_map(|(binding, sk, msg, rng, tamper)| SignG { binding, sk, msg, rng, tamper })
        .boxed()
}

fn crate_sign<T: SigType>(g: &SignG) -> Result<Claim, String> {
    let sk = SigningKey::<T>::try_from(g.sk.0).map_err(|_| "a canonical signing key is refused")?;
    ensure_eq!(<[u8; 32]>::from(&sk), g.sk.0, "encoding of a decoded signing key");
    let vk = VerificationKey::<T>::from(&sk);
    let sig = sk.sign(orc::rng(&g.rng.0), &g.msg.0);
    Ok(Claim { binding: g.binding, vk: (&vk).into(), msg: g.msg.0.clone(), sig: (&sig).into() })
}
fn do_sign(g: &SignG) -> Result<Claim, String> {
    let c = if g.binding { crate_sign::<Binding>(g)? } else { crate_sign::<SpendAuth>(g)? };
    let s = refm::scalar_of(&g.sk.0).unwrap();
    let base = if g.binding { *refm::R_CV } else { *refm::G_SPEND };
    ensure_eq!(c.vk, (base * s).to_bytes(), "verification key");
    Ok(c)
}

fn judge(c: &Claim, obs: &mut Obs) -> R {
    let want = c.model();
    obs.class(if want { "accepted" } else { "rejected" });
    ensure_eq!(c.crate_verdict()?, want, "verdict");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VerifyG {
    binding: bool,
    vk: B32,
    /// Sign properly with this key and nonce instead of using `raw`.
    proper: Option<(B32, B32)>,
    raw: By<64>,
    msg: Bs,
    tamper: Vec<Tamper>,
}

impl VerifyG {
    fn claim(&self) -> Claim {
        let (vk, sig) = match &self.proper {
            None => (self.vk.0, self.raw.0),
            Some((k, n)) => {
                let (k, n) = (refm::scalar_of(&k.0).unwrap(), refm::scalar_of(&n.0).unwrap());
                let base = if self.binding { *refm::R_CV } else { *refm::G_SPEND };
                ((base * k).to_bytes(), refm::redpallas_sign(self.binding, &k, &n, &self.msg.0))
            }
        };
        let mut c = Claim { binding: self.binding, vk, msg: self.msg.0.clone(), sig };
        for t in &self.tamper {
            t.apply(&mut c);
        }
        c
    }
}
fn verify_g(proper: u32, tamper_n: BoxedStrategy<usize>) -> BoxedStrategy<VerifyG> {
    (
        any::<bool>(),
        prop_oneof![point32(), bytes32()],
        prop_oneof![1 => Just(None), proper => (scalar32(), scalar32()).prop_map(Some)],
        sig64(),
        msg_g(),
        tamper_n.prop_flat_map(|n| proptest::collection::vec(tamper(), n)),
    )
        .prop_map(|(binding, vk, proper, raw, msg, tamper)| VerifyG { binding, vk, proper, raw, msg, tamper })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RandG {
    sk: B32,
    /// Arbitrary keys as well.
    scalar: B32,
    point: B32,
    alpha: B32,
    /// Use the negated key as the randomizer, so that the result is zero.
    cancel: bool,
    msg: Bs,
    rng: B32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BatchG {
    items: Vec<VerifyG>,
    cancel: Option<(u8, u8, B32)>,
    /// Valid signatures queued before the others.
    #[serde(default)]
    before: u16,
    rng: B32,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when a signature was made or a claim differs from an honest one");
    r.assume("the curve and BLAKE2b libraries; no accidental collisions");

    r.family("sign", 12_000, 500_000, 400, || sign_g(1), |g: &SignG, obs| {
        let c = do_sign(g)?;
        obs.nontrivial();
        ensure!(c.model(), "a fresh signature fails the verification equation");
        ensure!(c.crate_verdict()?, "a fresh signature is refused");
        let mut d = c.clone();
        for t in &g.tamper {
            t.apply(&mut d);
        }
        judge(&d, obs)?;
        let zero = refm::point_of(&c.vk) == Some(refm::Point::default());
        if d != c && !zero && refm::point_of(&d.vk) != Some(refm::Point::default()) {
            ensure!(!d.crate_verdict()?, "a claim changed by {:?} is accepted", g.tamper);
        }
        // Two signatures by one key are distinct and both good.
        let mut g2 = g.clone();
        g2.rng.0[0] ^= 1;
        let c2 = do_sign(&g2)?;
        ensure!(c2.model(), "a second signature fails");
        ensure!(c2.sig[..32] != c.sig[..32], "a nonce is repeated");
        Ok(())
    });

    let v = || verify_g(3, prop_oneof![1 => Just(0usize), 2 => Just(1), 1 => Just(2)].boxed());
    r.family("verify", 25_000, 1_000_000, 400, v, |g: &VerifyG, obs| {
        let c = g.claim();
        if !g.tamper.is_empty() || g.proper.is_none() {
            obs.nontrivial();
        }
        judge(&c, obs)
    });

    let keys = || {
        (any::<bool>(), bytes32(), bytes32())
            .prop_map(|(b, k, k2)| (b, k, k2))
            .boxed()
    };
    r.family("keys", 6_000, 200_000, 400, keys, |(binding, k, k2): &(bool, B32, B32), obs| {
        fn go<T: SigType>(k: &[u8; 32], k2: &[u8; 32]) -> R {
            ensure_eq!(
                SigningKey::<T>::try_from(*k).is_ok(),
                refm::scalar_of(k).is_some(),
                "signing key decodes"
            );
            let (a, b) = (VerificationKey::<T>::try_from(*k), VerificationKey::<T>::try_from(*k2));
            ensure_eq!(a.is_ok(), refm::point_of(k).is_some(), "verification key decodes");
            if let (Ok(a), Ok(b)) = (a, b) {
                ensure_eq!(a == b, k == k2, "equality of verification keys");
                ensure_eq!(a.cmp(&b) == std::cmp::Ordering::Equal, k == k2, "order of verification keys");
                ensure_eq!(a.cmp(&b), b.cmp(&a).reverse(), "order of verification keys");
                ensure_eq!(a.partial_cmp(&b), Some(a.cmp(&b)), "partial order of verification keys");
            }
            Ok(())
        }
        if refm::point_of(&k.0).is_some() || refm::scalar_of(&k.0).is_some() {
            obs.nontrivial();
        }
        if *binding {
            go::<Binding>(&k.0, &k2.0)?;
            go::<Binding>(&k.0, &k.0)
        } else {
            go::<SpendAuth>(&k.0, &k2.0)?;
            go::<SpendAuth>(&k.0, &k.0)
        }
    });

    let rg = || {
        (sk32(), scalar32(), point32(), scalar32(), prop_oneof![6 => Just(false), 1 => Just(true)], msg_g(), seed32())
            .prop_map(|(sk, scalar, point, alpha, cancel, msg, rng)| RandG { sk, scalar, point, alpha, cancel, msg, rng })
            .boxed()
    };
    r.family("randomize", 10_000, 300_000, 400, rg, |g: &RandG, obs| {
        obs.nontrivial();
        let m = Keys::from_sk(&g.sk.0).unwrap_or_else(|| Keys::from_sk(&[7; 32]).unwrap());
        let skb = if Keys::from_sk(&g.sk.0).is_some() { g.sk.0 } else { [7; 32] };
        let sk = orc::sk(&skb).ok_or("spending key refused")?;
        let alpha = if g.cancel { -m.ask } else { refm::scalar_of(&g.alpha.0).unwrap() };
        obs.class_if(bool::from((m.ask + alpha).is_zero()), "zero-result");
        obs.class_if(bool::from(alpha.is_zero()), "zero-randomizer");
        let ask = SpendAuthorizingKey::from(&sk);
        let ak = SpendValidatingKey::from(&ask);
        let ak2 = SpendValidatingKey::from(orchard::keys::FullViewingKey::from(&sk));
        ensure!(ak == ak2, "validating key of the viewing key");
        let rsk = ask.randomize(&alpha);
        ensure_eq!(<[u8; 32]>::from(&rsk), (m.ask + alpha).to_repr(), "randomized authorizing key");
        let rk = ak.randomize(&alpha);
        let want = (m.ak + *refm::G_SPEND * alpha).to_bytes();
        ensure_eq!(<[u8; 32]>::from(&rk), want, "randomized validating key");
        ensure!(VerificationKey::from(&rsk) == rk, "randomized keys do not match");
        // A signature under the randomized key.
        let sig = rsk.sign(orc::rng(&g.rng.0), &g.msg.0);
        ensure!(rk.verify(&g.msg.0, &sig).is_ok(), "a randomized signature is refused");
        let c = Claim { binding: false, vk: want, msg: g.msg.0.clone(), sig: (&sig).into() };
        ensure!(c.model(), "a randomized signature fails the verification equation");
        // Arbitrary keys.
        let alpha = if g.cancel { -refm::scalar_of(&g.scalar.0).unwrap() } else { alpha };
        let s = refm::scalar_of(&g.scalar.0).unwrap();
        let k = SigningKey::<SpendAuth>::try_from(g.scalar.0).map_err(|_| "signing key refused")?;
        ensure_eq!(<[u8; 32]>::from(&k.randomize(&alpha)), (s + alpha).to_repr(), "randomized signing key");
        let p = VerificationKey::<SpendAuth>::try_from(g.point.0).map_err(|_| "verification key refused")?;
        let want = (refm::point_of(&g.point.0).unwrap() + *refm::G_SPEND * alpha).to_bytes();
        ensure_eq!(<[u8; 32]>::from(&p.randomize(&alpha)), want, "randomized verification key");
        ensure!(
            VerificationKey::from(&k).randomize(&alpha) == VerificationKey::from(&k.randomize(&alpha)),
            "randomization does not commute with key derivation"
        );
        Ok(())
    });

    let bg = || {
        let n = prop_oneof![1 => Just(0usize), 1 => Just(1), 3 => 2usize..5, 1 => 5usize..12];
        let item = prop_oneof![
            12 => verify_g(30, Just(0usize).boxed()).prop_map(|mut v| {
                v.proper.get_or_insert((By([1; 32]), By([2; 32])));
                v
            }),
            1 => verify_g(2, Just(1usize).boxed()),
        ];
        let cancel = prop_oneof![3 => Just(None), 1 => (any::<u8>(), any::<u8>(), scalar32()).prop_map(Some)];
        let before = prop_oneof![150 => Just(0u16), 1 => 12u16..400];
        (n.prop_flat_map(move |n| proptest::collection::vec(item.clone(), n)), cancel, before, seed32())
            .prop_map(|(items, cancel, before, rng)| BatchG { items, cancel, before, rng })
            .boxed()
    };
    r.family("batch", 10_000, 300_000, 400, bg, |g: &BatchG, obs| {
        let mut cs: Vec<Claim> = g.items.iter().map(|i| i.claim()).collect();
        if let (Some((i, j, d)), true) = (&g.cancel, cs.len() > 1) {
            // Two responses changed by opposite amounts.
            let d = refm::scalar_of(&d.0).unwrap();
            let shift = |c: &mut Claim, d: Scalar| {
                if let Some(s) = refm::scalar_of(c.sig[32..].try_into().unwrap()) {
                    c.sig[32..].copy_from_slice(&(s + d).to_repr());
                }
            };
            let n = cs.len();
            shift(&mut cs[*i as usize % n], d);
            shift(&mut cs[*j as usize % n], -d);
            obs.class("cancelling-pair");
        }
        let mut v = redpallas::batch::Verifier::new();
        let mut want = true;
        let mut queued = 0;
        for i in 0..g.before {
            let k: [u8; 32] = refm::Scalar::from(u64::from(i) + 5).to_repr();
            let sk = SigningKey::<SpendAuth>::try_from(k).map_err(|_| "signing key refused")?;
            let msg = i.to_le_bytes();
            let sig = sk.sign(orc::rng(&g.rng.0), &msg);
            v.queue(VerificationKey::from(&sk).create_batch_item(sig, &msg));
            queued += 1;
        }
        obs.class_if(g.before > 0 && !cs.is_empty(), "long-batch");
        for c in &cs {
            if c.queue(&mut v) {
                want &= c.model();
                queued += 1;
            }
        }
        obs.class(if want { "all-valid" } else { "some-invalid" });
        if queued > 1 || !want {
            obs.nontrivial();
        }
        ensure_eq!(v.verify(orc::rng(&g.rng.0)).is_ok(), want, "verdict of a batch of {}", queued);
        Ok(())
    });
}
