//! C25: values compare equal exactly when they are the same value, and orders are total orders.

use crate::engine::{Obs, Runner, R};
use crate::enc;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool::point32;
use crate::refm::{Keys, RNote, Sc};
use ff::PrimeField;
use orchard::{
    builder::{BundleMetadata, BundleType},
    bundle::Flags,
    keys::{Diversifier, FullViewingKey, IncomingViewingKey, SpendValidatingKey},
    note::{ExtractedNoteCommitment, Nullifier},
    note_encryption::OrchardDomain,
    primitives::redpallas::{Binding, SpendAuth, VerificationKey},
    tree::MerkleHashOrchard,
    value::NoteValue,
    Anchor,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::Debug;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use zcash_note_encryption::Domain;

/// How the next value is made from the one before it.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Next {
    Same,
    Edit(Edit),
    /// The sign bit of a point's encoding (or the top bit of anything else).
    TopBit(u8),
    /// Part `i` of the other base value.
    Part(u8),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    SpendingKey,
    FullViewingKey,
    IncomingViewingKey,
    ValidatingKey,
    SpendVk,
    BindingVk,
    Nullifier,
    Rho,
    Anchor,
    Node,
    Cmx,
    Address,
    Diversifier,
    Note,
    Value,
    Sum,
    Flags,
    BundleType,
}
const KINDS: [Kind; 18] = [
    Kind::SpendingKey,
    Kind::FullViewingKey,
    Kind::IncomingViewingKey,
    Kind::ValidatingKey,
    Kind::SpendVk,
    Kind::BindingVk,
    Kind::Nullifier,
    Kind::Rho,
    Kind::Anchor,
    Kind::Node,
    Kind::Cmx,
    Kind::Address,
    Kind::Diversifier,
    Kind::Note,
    Kind::Value,
    Kind::Sum,
    Kind::Flags,
    Kind::BundleType,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmp {
    kind: Kind,
    sks: (B32, B32),
    raw: (B32, B32),
    base: (B32, B32),
    points: (B32, B32),
    values: (u64, u64),
    idx: (B11, B11),
    next: Vec<Next>,
}

fn next_g() -> BoxedStrategy<Next> {
    prop_oneof![
        2 => Just(Next::Same),
        5 => edit().prop_map(Next::Edit),
        2 => any::<u8>().prop_map(Next::TopBit),
        3 => any::<u8>().prop_map(Next::Part),
        1 => Just(Next::Other),
    ]
    .boxed()
}

fn cmp_g() -> BoxedStrategy<Cmp> {
    (
        (0usize..KINDS.len()).prop_map(|i| KINDS[i]),
        (sk32(), sk32()),
        (bytes32(), bytes32()),
        (base32(), base32()),
        (point32(), point32()),
        ((val_u64(), val_u64()), (div11(), div11())),
        proptest::collection::vec(next_g(), 1..6),
    )
        .prop_map(|(kind, sks, raw, base, points, (values, idx), next)| Cmp {
            kind,
            sks,
            raw,
            base,
            points,
            values,
            idx,
            next,
        })
        .boxed()
}

impl Cmp {
    /// Two base encodings of the kind, and the ends of their parts.
    fn bases(&self) -> (Vec<u8>, Vec<u8>, Vec<usize>) {
        let ks = || (enc::keys(&self.sks.0), enc::keys(&self.sks.1));
        let note = |k: &Keys, i: &B11, v: u64, rho: &B32, rseed: &B32| -> Vec<u8> {
            [&k.view(Sc::Ext).address_at(&i.0)[..], &v.to_le_bytes(), &rho.0, &rseed.0].concat()
        };
        match self.kind {
            Kind::SpendingKey => (self.raw.0 .0.to_vec(), self.raw.1 .0.to_vec(), vec![16, 32]),
            Kind::FullViewingKey => {
                let (a, b) = ks();
                (a.fvk_bytes().to_vec(), b.fvk_bytes().to_vec(), vec![32, 64, 96])
            }
            Kind::IncomingViewingKey => {
                let v = |r: &B32, b: &B32| [r.0, b.0].concat();
                (v(&self.raw.0, &self.base.0), v(&self.raw.1, &self.base.1), vec![32, 64])
            }
            Kind::ValidatingKey => {
                let (a, b) = ks();
                (a.ak_bytes.to_vec(), b.ak_bytes.to_vec(), vec![32])
            }
            Kind::SpendVk | Kind::BindingVk => (self.points.0 .0.to_vec(), self.points.1 .0.to_vec(), vec![32]),
            Kind::Nullifier | Kind::Rho | Kind::Anchor | Kind::Node | Kind::Cmx => {
                (self.base.0 .0.to_vec(), self.base.1 .0.to_vec(), vec![16, 32])
            }
            Kind::Address => {
                let (a, b) = ks();
                let v = |k: &Keys, i: &B11| k.view(Sc::Ext).address_at(&i.0).to_vec();
                (v(&a, &self.idx.0), v(&b, &self.idx.1), vec![11, 43])
            }
            Kind::Diversifier => (self.idx.0 .0.to_vec(), self.idx.1 .0.to_vec(), vec![5, 11]),
            Kind::Note => {
                let (a, b) = ks();
                (
                    note(&a, &self.idx.0, self.values.0, &self.base.0, &self.raw.0),
                    note(&b, &self.idx.1, self.values.1, &self.base.1, &self.raw.1),
                    vec![11, 43, 51, 83, 115],
                )
            }
            Kind::Value => {
                (self.values.0.to_le_bytes().to_vec(), self.values.1.to_le_bytes().to_vec(), vec![4, 8])
            }
            Kind::Sum => {
                let v = |a: u64, b: u64| [a.to_le_bytes(), b.to_le_bytes()].concat();
                (v(self.values.0, self.values.1), v(self.values.1, self.values.0), vec![8, 16])
            }
            Kind::Flags => (vec![self.raw.0 .0[0] & 3], vec![self.raw.1 .0[0] & 3], vec![1]),
            Kind::BundleType => (vec![self.raw.0 .0[0] & 15], vec![self.raw.1 .0[0] & 15], vec![1]),
        }
    }

    fn encodings(&self) -> Vec<Vec<u8>> {
        let (a, b, ends) = self.bases();
        let mut out = vec![a.clone()];
        for n in &self.next {
            let mut x = out.last().unwrap().clone();
            match n {
                Next::Same => {}
                Next::Edit(e) => {
                    e.apply(&mut x);
                }
                Next::TopBit(p) => {
                    let e = ends[*p as usize % ends.len()];
                    x[e - 1] ^= 0x80;
                }
                Next::Part(p) => {
                    let p = *p as usize % ends.len();
                    let st = if p == 0 { 0 } else { ends[p - 1] };
                    x[st..ends[p]].copy_from_slice(&b[st..ends[p]]);
                }
                Next::Other => x = b.clone(),
            }
            out.push(x);
        }
        out
    }
}

/// Equality against the encodings, both ways round, and clones.
fn eqs<T: PartialEq + Clone + Debug, K: PartialEq + Debug>(v: &[(K, T)], obs: &mut Obs) -> R {
    for (i, (a, x)) in v.iter().enumerate() {
        ensure!(x == &x.clone(), "{:?} is not equal to its copy", x);
        for (j, (b, y)) in v.iter().enumerate() {
            ensure_eq!(x == y, a == b, "equality of {:?} and {:?} (encoded {:?}, {:?})", x, y, a, b);
            ensure_eq!(x != y, a != b, "inequality of {:?} and {:?}", x, y);
            if i < j {
                obs.class(if a == b { "same" } else { "different" });
                obs.nontrivial();
            }
        }
    }
    Ok(())
}

fn cteqs<T: ConstantTimeEq + Debug, K: PartialEq + Debug>(v: &[(K, T)], obs: &mut Obs) -> R {
    for (i, (a, x)) in v.iter().enumerate() {
        for (j, (b, y)) in v.iter().enumerate() {
            ensure_eq!(bool::from(x.ct_eq(y)), a == b, "constant-time equality of values encoded {:?} and {:?}", a, b);
            ensure_eq!(bool::from(x.ct_ne(y)), a != b, "constant-time inequality of values encoded {:?} and {:?}", a, b);
            if i < j {
                obs.class(if a == b { "same" } else { "different" });
                obs.nontrivial();
            }
        }
    }
    Ok(())
}

fn orders<T: Ord + Clone + Debug, K: Ord + Clone + Debug>(v: &[(K, T)], obs: &mut Obs) -> R {
    eqs(v, obs)?;
    for (a, x) in v {
        for (b, y) in v {
            let c = x.cmp(y);
            ensure_eq!(c == Ordering::Equal, a == b, "order of values encoded {:?} and {:?}", a, b);
            ensure_eq!(y.cmp(x), c.reverse(), "order of values encoded {:?} and {:?}, reversed", a, b);
            ensure_eq!(x.partial_cmp(y), Some(c), "partial order of values encoded {:?} and {:?}", a, b);
            for (d, z) in v {
                if c != Ordering::Greater && y.cmp(z) != Ordering::Greater {
                    ensure!(
                        x.cmp(z) != Ordering::Greater,
                        "the order is not transitive: {:?}, {:?}, {:?}",
                        a,
                        b,
                        d
                    );
                }
            }
        }
    }
    let set: BTreeSet<T> = v.iter().map(|x| x.1.clone()).collect();
    let keys: BTreeSet<K> = v.iter().map(|x| x.0.clone()).collect();
    ensure_eq!(set.len(), keys.len(), "size of a set of the values");
    obs.class("ordered-kind");
    Ok(())
}

fn selects<T: ConditionallySelectable>(v: &[(Vec<u8>, T)], bytes: impl Fn(&T) -> Vec<u8>) -> R {
    for (a, x) in v {
        for (b, y) in v {
            ensure_eq!(bytes(&T::conditional_select(x, y, Choice::from(0))), *a, "first of {:?} and {:?}", a, b);
            ensure_eq!(bytes(&T::conditional_select(x, y, Choice::from(1))), *b, "second of {:?} and {:?}", a, b);
        }
    }
    Ok(())
}

fn cmp_case(c: &Cmp, obs: &mut Obs) -> R {
    let e = c.encodings();
    fn a32(b: &[u8]) -> [u8; 32] {
        b.try_into().unwrap()
    }
    fn made<T>(e: &[Vec<u8>], f: impl Fn(&[u8]) -> Option<T>) -> Vec<(Vec<u8>, T)> {
        e.iter().filter_map(|b| f(b).map(|t| (b.clone(), t))).collect()
    }
    match c.kind {
        Kind::SpendingKey => cteqs(&made(&e, |b| orc::sk(&a32(b))), obs),
        Kind::FullViewingKey => {
            orders(&made(&e, |b| FullViewingKey::from_bytes(b.try_into().unwrap())), obs)
        }
        Kind::IncomingViewingKey => {
            orders(&made(&e, |b| Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(b.try_into().unwrap()))), obs)
        }
        Kind::ValidatingKey => orders(&made(&e, SpendValidatingKey::from_bytes), obs),
        Kind::SpendVk => orders(&made(&e, |b| VerificationKey::<SpendAuth>::try_from(a32(b)).ok()), obs),
        Kind::BindingVk => orders(&made(&e, |b| VerificationKey::<Binding>::try_from(a32(b)).ok()), obs),
        Kind::Nullifier => {
            let v = made(&e, |b| Option::<Nullifier>::from(Nullifier::from_bytes(&a32(b))));
            cteqs(&v, obs)?;
            orders(&v, obs)
        }
        Kind::Rho => orders(&made(&e, |b| orc::rho(&a32(b))), obs),
        Kind::Anchor => eqs(&made(&e, |b| Option::<Anchor>::from(Anchor::from_bytes(a32(b)))), obs),
        Kind::Node => {
            let v = made(&e, |b| Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(&a32(b))));
            selects(&v, |n| n.to_bytes().to_vec())?;
            orders(&v, obs)
        }
        Kind::Cmx => {
            let v = made(&e, |b| Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(&a32(b))));
            cteqs(&v, obs)?;
            eqs(&v, obs)
        }
        Kind::Address => eqs(&made(&e, |b| orc::addr(b.try_into().unwrap())), obs),
        Kind::Diversifier => eqs(&made(&e, |b| Some(Diversifier::from_bytes(b.try_into().unwrap()))), obs),
        Kind::Note => {
            let rn = |b: &[u8]| RNote {
                addr: b[..43].try_into().unwrap(),
                value: u64::from_le_bytes(b[43..51].try_into().unwrap()),
                rho: a32(&b[51..83]),
                rseed: a32(&b[83..]),
            };
            let v = made(&e, |b| orc::note(&rn(b)));
            eqs(&v, obs)?;
            // The parts that notes are encrypted with.
            let pk: Vec<(Vec<u8>, _)> =
                v.iter().map(|(b, n)| (b[11..43].to_vec(), <OrchardDomain as Domain>::get_pk_d(n))).collect();
            eqs(&pk, obs)?;
            for (_, x) in &pk {
                for (_, y) in &pk {
                    ensure!(&<_>::conditional_select(x, y, Choice::from(0)) == x, "first transmission key");
                    ensure!(&<_>::conditional_select(x, y, Choice::from(1)) == y, "second transmission key");
                }
            }
            let esk: Vec<([u8; 32], _)> = v
                .iter()
                .filter_map(|(b, n)| Some((rn(b).esk().to_repr(), <OrchardDomain as Domain>::derive_esk(n)?)))
                .collect();
            cteqs(&esk, obs)
        }
        Kind::Value => {
            let v = made(&e, |b| Some(NoteValue::from_raw(u64::from_le_bytes(b.try_into().unwrap()))));
            eqs(&v, obs)
        }
        Kind::Sum => {
            let two = |b: &[u8]| {
                (
                    u64::from_le_bytes(b[..8].try_into().unwrap()),
                    u64::from_le_bytes(b[8..].try_into().unwrap()),
                )
            };
            let v: Vec<_> = e
                .iter()
                .map(|b| {
                    let (x, y) = two(b);
                    (x as i128 - y as i128, NoteValue::from_raw(x) - NoteValue::from_raw(y))
                })
                .collect();
            eqs(&v, obs)
        }
        Kind::Flags => eqs(&made(&e, |b| Flags::from_byte(b[0])), obs),
        Kind::BundleType => {
            let v = made(&e, |b| {
                Some(match b[0] {
                    8 => BundleType::Coinbase,
                    x if x < 8 => BundleType::Transactional { flags: Flags::from_byte(x & 3)?, bundle_required: x & 4 != 0 },
                    _ => return None,
                })
            });
            eqs(&v, obs)
        }
    }
}

// ---- metadata ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Metas {
    spends: u8,
    outputs: u8,
    more: u8,
    seeds: Vec<B32>,
}

fn metas_case(c: &Metas, obs: &mut Obs) -> R {
    let mut v: Vec<((Vec<usize>, Vec<usize>), BundleMetadata)> =
        vec![((vec![], vec![]), BundleMetadata::empty())];
    for (k, s) in c.seeds.iter().enumerate() {
        let spends = c.spends as usize + usize::from(k == 1) * c.more as usize;
        let outputs = c.outputs as usize + usize::from(k == 2) * c.more as usize;
        let reqs = (0..spends)
            .map(|i| {
                Req::Spend(SpendG {
                    key: 0,
                    internal: false,
                    div: By([0; 11]),
                    value: 10 + i as u64,
                    rho: By([i as u8; 32]),
                    rseed: By([k as u8; 32]),
                    pos: i as u32,
                    fvk: FvkG::Own,
                    path: PathG::Good,
                    again: None,
                    stray: None,
                })
            })
            .chain((0..outputs).map(|i| {
                Req::Output(OutG {
                    to: ToG::Own { key: 0, internal: false, div: By([1; 11]) },
                    ovk: OvkG::None,
                    value: i as u64,
                    memo: None,
                })
            }))
            .collect();
        let p = Plan {
            keys: vec![By([9; 32])],
            bt: Bt::Tx { spends: true, outputs: true, required: true },
            reqs,
            fill: 1,
            anchor: AnchorG::Tree,
            rng: *s,
        };
        let m = p.mat();
        let (_, meta) = m.builder().build::<i64>(orc::rng(&m.rng)).map_err(|e| format!("{:?}", e))?.ok_or("no bundle")?;
        let at = |f: &dyn Fn(usize) -> Option<usize>| (0..).map_while(f).collect::<Vec<_>>();
        v.push(((at(&|i| meta.spend_action_index(i)), at(&|i| meta.output_action_index(i))), meta));
    }
    eqs(&v, obs)
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least two values were compared");
    r.assume("two values are the same when their canonical encodings are (for notes: recipient, value, rho and rseed)");
    r.family("comparisons", 40_000, 2_000_000, 600, cmp_g, cmp_case);
    let metas = || {
        (0u8..3, 0u8..3, 0u8..2, proptest::collection::vec(seed32(), 2..5))
            .prop_map(|(spends, outputs, more, seeds)| Metas { spends, outputs, more, seeds })
            .boxed()
    };
    r.family("metadata", 150, 6_000, 60, metas, metas_case);
}
