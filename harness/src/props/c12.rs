//! C12: address ownership, scope and diversifier index.

use crate::engine::{Obs, Runner};
use crate::gens::*;
use crate::orc;
use crate::refm::{Keys, Sc};
use orchard::keys::{Diversifier, FullViewingKey, Scope};
use orchard::Address;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sk: B32,
    other: B32,
    /// Part of the full viewing key replaced to make a related foreign key: 0 nk, 1 rivk.
    swap: u8,
    idx: B11,
    idx2: B11,
    d: B11,
    edit: Edit,
}

fn attributed(f: &FullViewingKey, a: &Address) -> (Option<[u8; 11]>, Option<[u8; 11]>, Option<Scope>) {
    (
        f.to_ivk(Scope::External).diversifier_index(a).map(|i| *i.as_bytes()),
        f.to_ivk(Scope::Internal).diversifier_index(a).map(|i| *i.as_bytes()),
        f.scope_for_address(a),
    )
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when both keys are valid and the two indices differ; every case checks own, foreign-scope, foreign-key and altered addresses");
    r.assume("the model of FF1 diversifier encryption and key agreement (fpe, aes, pasta_curves) is correct");
    let strat = || {
        let idx2 = prop_oneof![
            2 => div11().prop_map(|d| (0u8, d)),
            // a near neighbour: one bit away from the first index
            2 => (0u8..88).prop_map(|b| { let mut x = [0u8; 11]; x[(b / 8) as usize] = 1 << (b % 8); (1u8, By(x)) }),
        ];
        (sk32(), sk32(), 0u8..3, div11(), idx2, div11(), edit())
            .prop_map(|(sk, other, swap, idx, (k, mut idx2), d, edit)| {
                if k == 1 {
                    for i in 0..11 {
                        idx2.0[i] ^= idx.0[i];
                    }
                }
                Case { sk, other, swap, idx, idx2, d, edit }
            })
            .boxed()
    };
    r.family("ownership", 3_500, 40_000, 200, strat, |c: &Case, obs: &mut Obs| {
        let (k, o) = match (Keys::from_sk(&c.sk.0), Keys::from_sk(&c.other.0)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        if c.idx != c.idx2 {
            obs.nontrivial();
        }
        let f = orc::fvk(&c.sk.0).ok_or("spending key refused")?;
        // A foreign key: unrelated, or sharing all parts but one.
        let mut fb = f.to_bytes();
        match c.swap {
            0 => fb[32..64].copy_from_slice(&o.fvk_bytes()[32..64]),
            1 => fb[64..].copy_from_slice(&o.fvk_bytes()[64..]),
            _ => fb = o.fvk_bytes(),
        }
        let g = FullViewingKey::from_bytes(&fb).ok_or("foreign key refused")?;
        let gk = Keys::from_view(fb[..32].try_into().unwrap(), fb[32..64].try_into().unwrap(), fb[64..].try_into().unwrap()).ok_or("model refuses foreign key")?;
        let same_key = fb == f.to_bytes();
        obs.class(match c.swap {
            0 => "foreign-nk",
            1 => "foreign-rivk",
            _ => "foreign-all",
        });
        for s in [Sc::Ext, Sc::Int] {
            let sc = orc::scope(s);
            let a1 = f.address_at(c.idx.0, sc);
            let a2 = f.address_at(c.idx2.0, sc);
            ensure_eq!(a1 == a2, c.idx == c.idx2, "addresses at two indices equal");
            for (a, i) in [(a1, c.idx), (a2, c.idx2)] {
                let want = match s {
                    Sc::Ext => (Some(i.0), None, Some(sc)),
                    Sc::Int => (None, Some(i.0), Some(sc)),
                };
                ensure_eq!(attributed(&f, &a), want, "attribution of an own address");
                if !same_key {
                    ensure_eq!(attributed(&g, &a), (None, None, None), "attribution to a foreign key");
                }
                // By diversifier.
                ensure_eq!(f.address(a.diversifier(), sc), a, "address of the diversifier");
                ensure_eq!(f.to_ivk(sc).address(a.diversifier()), a, "address of the diversifier, incoming key");
                ensure_eq!(f.to_ivk(sc).address_at(i.0), a, "address at the index, incoming key");
            }
            // From a chosen diversifier.
            let a = f.address(Diversifier::from_bytes(c.d.0), sc);
            let want = k.view(s).index_of(&c.d.0);
            let got = f.to_ivk(sc).diversifier_index(&a).map(|i| *i.as_bytes());
            ensure_eq!(got, Some(want), "index of a chosen diversifier");
            ensure_eq!(f.address_at(want, sc), a, "address at the index of a chosen diversifier");
            ensure_eq!(f.scope_for_address(&a), Some(sc), "scope of a chosen diversifier's address");
            // Other scope, same index or diversifier.
            let other = orc::scope(if s == Sc::Ext { Sc::Int } else { Sc::Ext });
            ensure_eq!(f.to_ivk(other).diversifier_index(&a).is_some(), false, "attribution to the other scope");
            // Altered address bytes.
            let mut b = a1.to_raw_address_bytes();
            if c.edit.apply(&mut b) {
                if let Some(x) = Option::<Address>::from(Address::from_raw_address_bytes(&b)) {
                    obs.class("altered-decodes");
                    let want = (k.view(Sc::Ext).owns(&b), k.view(Sc::Int).owns(&b));
                    ensure_eq!(want, (None, None), "model: altered address owned");
                    ensure_eq!(attributed(&f, &x), (None, None, None), "attribution of an altered address");
                }
            }
            // Negated transmission key: same x coordinate, other sign.
            let mut b = a1.to_raw_address_bytes();
            b[42] ^= 0x80;
            let x: Address = Option::from(Address::from_raw_address_bytes(&b)).ok_or("negated transmission key refused")?;
            ensure_eq!(attributed(&f, &x), (None, None, None), "attribution of an address with a negated transmission key");
            // Foreign keys own their own.
            let ga = g.address_at(c.idx.0, sc);
            let w = (gk.view(Sc::Ext).owns(&ga.to_raw_address_bytes()), gk.view(Sc::Int).owns(&ga.to_raw_address_bytes()));
            let at = attributed(&g, &ga);
            ensure_eq!((at.0, at.1), w, "attribution of a foreign key's own address");
        }
        Ok(())
    });
}
