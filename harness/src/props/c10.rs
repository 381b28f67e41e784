//! C10: key derivation.

use crate::engine::{no_panic, Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::refm::{self, Keys, Sc};
use group::GroupEncoding;
use orchard::keys::{Diversifier, FullViewingKey, SpendAuthorizingKey, SpendValidatingKey, SpendingKey};
use pasta_curves::pallas;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    sk: B32,
    idx: B11,
    d: B11,
    alpha: B32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ZipCase {
    seed: Bs,
    coin: u32,
    account: u32,
}

/// Everything observable about a key, compared with the model.
pub fn check_fvk(f: &FullViewingKey, k: &Keys, idx: &B11, d: &B11) -> R {
    ensure_eq!(f.to_bytes(), k.fvk_bytes(), "full viewing key");
    for s in [Sc::Ext, Sc::Int] {
        let v = k.view(s);
        let sc = orc::scope(s);
        let ivk = f.to_ivk(sc);
        ensure_eq!(ivk.to_bytes(), v.ivk_bytes(), "incoming viewing key {:?}", s);
        ensure_eq!(*f.to_ovk(sc).as_ref(), v.ovk, "outgoing viewing key {:?}", s);
        let want = v.address_at(&idx.0);
        ensure_eq!(f.address_at(idx.0, sc).to_raw_address_bytes(), want, "address at index {:?}", s);
        ensure_eq!(ivk.address_at(idx.0).to_raw_address_bytes(), want, "address at index from the incoming key {:?}", s);
        ensure_eq!(*f.address_at(idx.0, sc).diversifier().as_array(), v.diversifier(&idx.0), "diversifier {:?}", s);
        let want = v.address_for(&d.0);
        let dd = Diversifier::from_bytes(d.0);
        ensure_eq!(f.address(dd, sc).to_raw_address_bytes(), want, "address of a diversifier {:?}", s);
        ensure_eq!(ivk.address(dd).to_raw_address_bytes(), want, "address of a diversifier from the incoming key {:?}", s);
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the key is valid and every derived value was compared in both scopes; for ZIP 32, when coin type and account are in range and the child key was compared");
    r.assume("BLAKE2b, Sinsemilla, AES/FF1 and curve libraries are correct; the model shares only these with the crate");

    let strat = || {
        (sk32(), div11(), div11(), scalar32())
            .prop_map(|(sk, idx, d, alpha)| KeyCase { sk, idx, d, alpha })
            .boxed()
    };
    r.family("derive", 6_000, 60_000, 300, strat, |c: &KeyCase, obs: &mut Obs| {
        let k = Keys::from_sk(&c.sk.0);
        let sk = orc::sk(&c.sk.0);
        ensure_eq!(sk.is_some(), k.is_some(), "validity of the spending key");
        let (sk, k) = match (sk, k) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        obs.nontrivial();
        let raw_ask = refm::to_scalar(refm::prf_expand(&c.sk.0, 0x06, &[]));
        obs.class_if(raw_ask != k.ask, "ask-negated");
        obs.class_if(raw_ask == k.ask, "ask-kept");
        ensure_eq!(*sk.to_bytes(), c.sk.0, "spending key bytes");
        let ask = SpendAuthorizingKey::from(&sk);
        let zero = pallas::Scalar::zero();
        ensure_eq!(<[u8; 32]>::from(ask.randomize(&zero)), ff::PrimeField::to_repr(&k.ask), "spend authorizing key");
        let ak = SpendValidatingKey::from(&ask);
        ensure_eq!(<[u8; 32]>::from(ak.randomize(&zero)), k.ak_bytes, "spend validating key");
        ensure_eq!(pallas::Point::from(&ak).to_bytes(), k.ak_bytes, "spend validating key as a point");
        ensure!(k.ak_bytes[31] >> 7 == 0, "sign of the validating key");
        let f = FullViewingKey::from(&sk);
        let ak2: SpendValidatingKey = f.clone().into();
        ensure!(ak == ak2, "validating key of the viewing key");
        let alpha = refm::scalar_of(&c.alpha.0).unwrap();
        ensure_eq!(<[u8; 32]>::from(ak2.randomize(&alpha)), (k.ak + *refm::G_SPEND * alpha).to_bytes(), "randomized validating key");
        ensure_eq!(<[u8; 32]>::from(ask.randomize(&alpha)), ff::PrimeField::to_repr(&(k.ask + alpha)), "randomized authorizing key");
        check_fvk(&f, &k, &c.idx, &c.d)
    });

    // Many spending keys, cheaply: only the parts that do not need the incoming keys.
    r.family("validating-key", 15_000, 150_000, 1000, || sk32(), |b: &B32, obs: &mut Obs| {
        let k = match refm::to_scalar(refm::prf_expand(&b.0, 0x06, &[])) {
            a => a,
        };
        let sk = orc::sk(&b.0);
        if let Some(sk) = sk {
            obs.nontrivial();
            let mut want = *refm::G_SPEND * k;
            let mut a = k;
            if want.to_bytes()[31] >> 7 == 1 {
                want = -want;
                a = -a;
                obs.class("negated");
            }
            let ask = SpendAuthorizingKey::from(&sk);
            ensure_eq!(<[u8; 32]>::from(ask.randomize(&pallas::Scalar::zero())), ff::PrimeField::to_repr(&a), "spend authorizing key");
            let f = FullViewingKey::from(&sk).to_bytes();
            ensure_eq!(f[..32], want.to_bytes()[..], "ak");
            ensure_eq!(f[32..64], ff::PrimeField::to_repr(&refm::to_base(refm::prf_expand(&b.0, 0x07, &[])))[..], "nk");
            ensure_eq!(f[64..], ff::PrimeField::to_repr(&refm::to_scalar(refm::prf_expand(&b.0, 0x08, &[])))[..], "rivk");
        }
        Ok(())
    });

    let zip = || {
        let seed = prop_oneof![
            2 => proptest::collection::vec(any::<u8>(), 32..=32),
            1 => proptest::collection::vec(any::<u8>(), 64..=64),
            1 => proptest::collection::vec(any::<u8>(), 252..=252),
            1 => proptest::collection::vec(any::<u8>(), 32..=252),
            1 => (any::<u8>(), 32usize..=252).prop_map(|(b, n)| vec![b; n]),
        ];
        let coin = prop_oneof![
            3 => prop_oneof![Just(133u32), Just(1), Just(0), Just((1 << 31) - 1)],
            3 => pos_u32(),
            1 => prop_oneof![Just(1u32 << 31), Just((1 << 31) + 133), Just((1 << 31) + 1), Just(u32::MAX)],
        ];
        let account = prop_oneof![2 => 0u32..4, 1 => Just((1u32 << 31) - 1), 2 => pos_u32().prop_map(|a| a & 0x7fff_ffff)];
        (seed, coin, account)
            .prop_map(|(s, coin, account)| ZipCase { seed: Bs(s), coin, account })
            .boxed()
    };
    r.family("zip32", 4_000, 40_000, 200, zip, |c: &ZipCase, obs: &mut Obs| {
        let acc = zip32::AccountId::try_from(c.account).map_err(|_| "account id".to_string())?;
        let got = no_panic(|| SpendingKey::from_zip32_seed(&c.seed.0, c.coin, acc))?;
        if c.coin >= 1 << 31 {
            obs.class("coin-type-out-of-range");
            ensure!(got.is_err(), "coin type {:#x} accepted", c.coin);
            return Ok(());
        }
        obs.nontrivial();
        let want = refm::zip32_path(&c.seed.0, &[32, c.coin, c.account]);
        ensure_eq!(got.ok().map(|s| *s.to_bytes()), want, "child key");
        Ok(())
    });
}
