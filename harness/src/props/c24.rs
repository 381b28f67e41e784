//! C24: results depend on the arguments and the caller's randomness only, not on what was computed
//! before, elsewhere or at the same time.

use crate::engine::{Obs, Runner, R};
use crate::enc;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool;
use crate::prove;
use crate::refm::{self, Base, Keys, RNote, ROut, Sc};
use ff::PrimeField;
use group::GroupEncoding;
use incrementalmerkletree::{Hashable, Level};
use orchard::{
    builder::BundleMetadata,
    bundle::BatchValidator,
    keys::{Diversifier, FullViewingKey, PreparedIncomingViewingKey, SpendValidatingKey},
    note::ExtractedNoteCommitment,
    note_encryption::{OrchardDomain, OrchardNoteEncryption},
    primitives::redpallas::{Signature, SpendAuth},
    tree::MerkleHashOrchard,
    value::{NoteValue, ValueCommitment},
};
use proptest::prelude::*;
use rand::{seq::SliceRandom, RngCore};
use serde::{Deserialize, Serialize};
use zcash_note_encryption::Domain;

// ---- queries ----

/// Queries name their inputs by index into small pools, so that they often share parts.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Q {
    Address { key: u8, internal: bool, idx: u8 },
    IndexOf { key: u8, internal: bool, of: u8, of_internal: bool, idx: u8 },
    ScopeOf { key: u8, of: u8, of_internal: bool, idx: u8 },
    /// The address of one of several related diversifiers.
    Diversified { key: u8, internal: bool, d: u8 },
    /// Whether a key owns an address, or one that differs from it in one place.
    Owns { key: u8, internal: bool, idx: u8, edit: Option<Edit> },
    Keys { key: u8 },
    Commitment { note: u8 },
    Nullifier { note: u8, key: u8 },
    Node { level: u8, left: u8, right: u8 },
    EmptyRoot { level: u8 },
    Root { pos: u32, path: u8, leaf: u8 },
    Account { seed: u8, coin: u8, account: u8 },
    ValueCommit { a: u64, b: u64, rcv: u8 },
    Randomize { key: u8, alpha: u8 },
    Decrypt { out: u8, key: u8, internal: bool },
    Compact { out: u8, key: u8, internal: bool },
    Recover { out: u8, key: u8, internal: bool },
    Verify { key: u8, msg: u8, sig: u8 },
    Encrypt { note: u8, ovk: Option<(u8, bool)>, memo: u8, rng: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
    /// Three spending keys; the six full viewing keys mix their parts.
    sks: Vec<B32>,
    idx: Vec<B11>,
    values: Vec<u64>,
    rhos: Vec<B32>,
    rseeds: Vec<B32>,
    nodes: Vec<B32>,
    scalars: Vec<B32>,
    ds: Vec<B11>,
    sends: Vec<enc::SendG>,
    qs: Vec<Q>,
    shuffle: B32,
}

struct World {
    keys: Vec<Keys>,
    fvks: Vec<FullViewingKey>,
    idx: Vec<[u8; 11]>,
    ds: Vec<[u8; 11]>,
    notes: Vec<RNote>,
    nodes: Vec<Base>,
    scalars: Vec<refm::Scalar>,
    outs: Vec<ROut>,
    sigs: Vec<[u8; 64]>,
}

fn q_g() -> BoxedStrategy<Q> {
    let k = || 0u8..6;
    let i = || 0u8..3;
    let n = || 0u8..8;
    prop_oneof![
        (k(), any::<bool>(), i()).prop_map(|(key, internal, idx)| Q::Address { key, internal, idx }),
        (k(), any::<bool>(), k(), any::<bool>(), i())
            .prop_map(|(key, internal, of, of_internal, idx)| Q::IndexOf { key, internal, of, of_internal, idx }),
        (k(), k(), any::<bool>(), i()).prop_map(|(key, of, of_internal, idx)| Q::ScopeOf { key, of, of_internal, idx }),
        (k(), any::<bool>(), i()).prop_map(|(key, internal, d)| Q::Diversified { key, internal, d }),
        (k(), any::<bool>(), i(), proptest::option::of(edit()))
            .prop_map(|(key, internal, idx, edit)| Q::Owns { key, internal, idx, edit }),
        k().prop_map(|key| Q::Keys { key }),
        n().prop_map(|note| Q::Commitment { note }),
        (n(), k()).prop_map(|(note, key)| Q::Nullifier { note, key }),
        (0u8..32, i(), i()).prop_map(|(level, left, right)| Q::Node { level, left, right }),
        (0u8..=32).prop_map(|level| Q::EmptyRoot { level }),
        (prop_oneof![0u32..3, Just(u32::MAX)], i(), i()).prop_map(|(pos, path, leaf)| Q::Root { pos, path, leaf }),
        (i(), i(), i()).prop_map(|(seed, coin, account)| Q::Account { seed, coin, account }),
        (prop_oneof![0u64..3, Just(u64::MAX)], prop_oneof![0u64..3, Just(u64::MAX)], i())
            .prop_map(|(a, b, rcv)| Q::ValueCommit { a, b, rcv }),
        (k(), i()).prop_map(|(key, alpha)| Q::Randomize { key, alpha }),
        (i(), k(), any::<bool>()).prop_map(|(out, key, internal)| Q::Decrypt { out, key, internal }),
        (i(), k(), any::<bool>()).prop_map(|(out, key, internal)| Q::Compact { out, key, internal }),
        (i(), k(), any::<bool>()).prop_map(|(out, key, internal)| Q::Recover { out, key, internal }),
        (k(), i(), k()).prop_map(|(key, msg, sig)| Q::Verify { key, msg, sig }),
        (n(), proptest::option::of((k(), any::<bool>())), i(), i())
            .prop_map(|(note, ovk, memo, rng)| Q::Encrypt { note, ovk, memo, rng }),
    ]
    .boxed()
}

/// `n` strings, each of its own or the first one with a few edits (where that is still valid).
fn related<const N: usize>(s: BoxedStrategy<By<N>>, n: usize, valid: fn(&[u8; N]) -> bool) -> BoxedStrategy<Vec<By<N>>> {
    let edits = || proptest::option::of(proptest::collection::vec(edit(), 1..3));
    proptest::collection::vec((s, edits()), n)
        .prop_map(move |v| {
            let first = v[0].0;
            v.into_iter()
                .enumerate()
                .map(|(i, (own, edits))| match edits {
                    Some(es) if i > 0 => {
                        let mut x = first;
                        es.iter().for_each(|e| {
                            e.apply(&mut x.0);
                        });
                        if valid(&x.0) {
                            x
                        } else {
                            own
                        }
                    }
                    _ => own,
                })
                .collect()
        })
        .boxed()
}

fn asked() -> BoxedStrategy<Asked> {
    let is_base = |b: &[u8; 32]| refm::base_of(b).is_some();
    let is_scalar = |b: &[u8; 32]| refm::scalar_of(b).is_some();
    (
        (
            related(sk32(), 3, |_| true),
            related(div11(), 3, |_| true),
            proptest::collection::vec(val_u64(), 2),
            related(any::<[u8; 11]>().prop_map(By).boxed(), 3, |_| true),
        ),
        (related(base32(), 2, is_base), related(bytes32(), 2, |_| true)),
        (related(base32(), 3, is_base), related(scalar32(), 3, is_scalar)),
        proptest::collection::vec(enc::send_g(Just(vec![])), 3),
        proptest::collection::vec(q_g(), 2..14),
        seed32(),
    )
        .prop_map(|((sks, idx, values, ds), (rhos, rseeds), (nodes, scalars), sends, qs, shuffle)| Asked {
            sks,
            idx,
            values,
            rhos,
            rseeds,
            nodes,
            scalars,
            ds,
            sends,
            qs,
            shuffle,
        })
        .boxed()
}

fn sc(internal: bool) -> Sc {
    if internal {
        Sc::Int
    } else {
        Sc::Ext
    }
}

impl Asked {
    fn world(&self) -> World {
        let base: Vec<Keys> = self.sks.iter().map(enc::keys).collect();
        let mut keys = base.clone();
        // Keys that share ak and nk, ak and rivk, or nk and rivk with the first one.
        for part in 0..3 {
            let (a, b) = (base[0].fvk_bytes(), base[1].fvk_bytes());
            let mut m = a;
            m[part * 32..part * 32 + 32].copy_from_slice(&b[part * 32..part * 32 + 32]);
            let (x, y, z) = (m[..32].try_into().unwrap(), m[32..64].try_into().unwrap(), m[64..].try_into().unwrap());
            keys.push(Keys::from_view(x, y, z).unwrap_or_else(|| base[0].clone()));
        }
        let fvks = keys.iter().map(|k| FullViewingKey::from_bytes(&k.fvk_bytes()).expect("viewing key")).collect();
        let idx: Vec<[u8; 11]> = self.idx.iter().map(|i| i.0).collect();
        // Notes that agree in all parts but some.
        let notes: Vec<RNote> = (0..8usize)
            .map(|i| RNote {
                addr: {
                    let v = keys[if i >= 4 { i - 2 } else { 0 }].view(sc(i % 4 == 3));
                    match i % 3 {
                        0 => v.address_at(&idx[0]),
                        k => v.address_for(&self.ds[k].0),
                    }
                },
                value: self.values[i & 1],
                rho: self.rhos[(i >> 1) & 1].0,
                rseed: self.rseeds[(i >> 2) & 1].0,
            })
            .filter(|n| n.cmx().is_some())
            .collect();
        let sigs = (0..6)
            .map(|i| refm::redpallas_sign(false, &base[i % 3].ask, &refm::Scalar::from(77 + i as u64), &[i as u8 / 3; 32]))
            .collect();
        World {
            outs: self.sends.iter().map(|s| s.send(&base).out).collect(),
            nodes: self.nodes.iter().map(|b| refm::base_of(&b.0).unwrap()).collect(),
            scalars: self.scalars.iter().map(|b| refm::scalar_of(&b.0).unwrap()).collect(),
            keys,
            fvks,
            idx,
            ds: self.ds.iter().map(|d| d.0).collect(),
            notes,
            sigs,
        }
    }
}

/// The address `Q::Owns` asks about, if its edited encoding is one of an address.
fn edited(w: &World, key: u8, internal: bool, idx: u8, edit: &Option<Edit>) -> Option<[u8; 43]> {
    let mut a = w.keys[key as usize].view(sc(internal)).address_at(&w.idx[idx as usize]);
    if let Some(e) = edit {
        e.apply(&mut a);
    }
    bool::from(orchard::Address::from_raw_address_bytes(&a).is_some()).then_some(a)
}

fn dec(r: Option<refm::RDec>) -> Vec<u8> {
    match r {
        None => vec![0],
        Some(d) => [
            &[1][..],
            &d.note.addr,
            &d.note.value.to_le_bytes(),
            &d.note.rho,
            &d.note.rseed,
            &d.memo.unwrap_or_default(),
        ]
        .concat(),
    }
}

fn some11(r: Option<[u8; 11]>) -> Vec<u8> {
    r.map_or(vec![0], |d| [&[1][..], &d].concat())
}

/// The crate's answer.
fn ask(w: &World, q: &Q) -> Result<Vec<u8>, String> {
    let addr = |k: &u8, i: &bool, x: &u8| w.fvks[*k as usize].address_at(w.idx[*x as usize], orc::scope(sc(*i)));
    let node = |i: &u8| MerkleHashOrchard::from_bytes(&w.nodes[*i as usize].to_repr()).unwrap();
    let note = |i: &u8| orc::note(&w.notes[*i as usize % w.notes.len()]).ok_or("note refused");
    Ok(match q {
        Q::Address { key, internal, idx } => addr(key, internal, idx).to_raw_address_bytes().to_vec(),
        Q::IndexOf { key, internal, of, of_internal, idx } => {
            let k = w.fvks[*key as usize].to_ivk(orc::scope(sc(*internal)));
            some11(k.diversifier_index(&addr(of, of_internal, idx)).map(|d| *d.as_bytes()))
        }
        Q::ScopeOf { key, of, of_internal, idx } => {
            let s = w.fvks[*key as usize].scope_for_address(&addr(of, of_internal, idx));
            vec![s.map_or(0, |s| match orc::sc(s) {
                Sc::Ext => 1,
                Sc::Int => 2,
            })]
        }
        Q::Diversified { key, internal, d } => w.fvks[*key as usize]
            .address(Diversifier::from_bytes(w.ds[*d as usize]), orc::scope(sc(*internal)))
            .to_raw_address_bytes()
            .to_vec(),
        Q::Owns { key, internal, idx, edit } => match edited(w, *key, *internal, *idx, edit) {
            None => vec![],
            Some(a) => {
                let k = w.fvks[*key as usize].to_ivk(orc::scope(sc(*internal)));
                let a = orchard::Address::from_raw_address_bytes(&a).unwrap();
                let _ = addr(key, internal, idx);
                some11(k.diversifier_index(&a).map(|d| *d.as_bytes()))
            }
        },
        Q::Keys { key } => {
            let f = &w.fvks[*key as usize];
            let mut v = f.to_bytes().to_vec();
            for s in [Sc::Ext, Sc::Int] {
                v.extend(f.to_ivk(orc::scope(s)).to_bytes());
                v.extend(f.to_ovk(orc::scope(s)).as_ref());
            }
            v
        }
        Q::Commitment { note: n } => orc::cmx_bytes(&note(n)?).to_vec(),
        Q::Nullifier { note: n, key } => note(n)?.nullifier(&w.fvks[*key as usize]).to_bytes().to_vec(),
        Q::Node { level, left, right } => {
            MerkleHashOrchard::combine(Level::from(*level), &node(left), &node(right)).to_bytes().to_vec()
        }
        Q::EmptyRoot { level } => MerkleHashOrchard::empty_root(Level::from(*level)).to_bytes().to_vec(),
        Q::Root { pos, path, leaf } => {
            let p: Vec<Base> = (0..32).map(|l| w.nodes[(*path as usize + l) % 3]).collect();
            let cmx = ExtractedNoteCommitment::from_bytes(&w.nodes[*leaf as usize].to_repr()).unwrap();
            orc::path(*pos, &p).root(cmx).to_bytes().to_vec()
        }
        Q::Account { seed, coin, account } => {
            let account = zip32::AccountId::try_from(*account as u32).unwrap();
            match orchard::keys::SpendingKey::from_zip32_seed(&w.keys[*seed as usize].ak_bytes, *coin as u32, account) {
                Ok(s) => s.to_bytes().to_vec(),
                Err(_) => vec![0],
            }
        }
        Q::ValueCommit { a, b, rcv } => ValueCommitment::derive(
            NoteValue::from_raw(*a) - NoteValue::from_raw(*b),
            orc::rcv(&w.scalars[*rcv as usize].to_repr()).ok_or("rcv refused")?,
        )
        .to_bytes()
        .to_vec(),
        Q::Randomize { key, alpha } => {
            let ak: SpendValidatingKey = w.fvks[*key as usize].clone().into();
            let rk = ak.randomize(&w.scalars[*alpha as usize]);
            <[u8; 32]>::from(&rk).to_vec()
        }
        Q::Decrypt { out, key, internal } => {
            let k = PreparedIncomingViewingKey::new(&w.fvks[*key as usize].to_ivk(orc::scope(sc(*internal))));
            dec(enc::crate_ivk(&enc::action(&w.outs[*out as usize]).ok_or("action refused")?, &k)?)
        }
        Q::Compact { out, key, internal } => {
            let k = PreparedIncomingViewingKey::new(&w.fvks[*key as usize].to_ivk(orc::scope(sc(*internal))));
            dec(enc::crate_compact(&enc::action(&w.outs[*out as usize]).ok_or("action refused")?, &k)?)
        }
        Q::Recover { out, key, internal } => {
            let k = w.fvks[*key as usize].to_ovk(orc::scope(sc(*internal)));
            dec(enc::crate_ovk(&enc::action(&w.outs[*out as usize]).ok_or("action refused")?, &k)?)
        }
        Q::Verify { key, msg, sig } => {
            let vk = orchard::primitives::redpallas::VerificationKey::<SpendAuth>::try_from(w.keys[*key as usize].ak_bytes)
                .map_err(|_| "key refused")?;
            vec![vk.verify(&[*msg; 32], &Signature::<SpendAuth>::from(w.sigs[*sig as usize])).is_ok() as u8]
        }
        Q::Encrypt { note: n, ovk, memo, rng } => {
            let note = note(n)?;
            let ovk = ovk.map(|(k, i)| w.fvks[k as usize].to_ovk(orc::scope(sc(i))));
            let e = OrchardNoteEncryption::new(ovk, note, [*memo; 512]);
            let cv = ValueCommitment::from_bytes(&refm::G_SPEND.to_bytes()).unwrap();
            let cmx = ExtractedNoteCommitment::from(note.commitment());
            let mut rng = orc::rng(&[*rng; 32]);
            let mut v = OrchardDomain::epk_bytes(e.epk()).0.to_vec();
            v.extend(e.encrypt_note_plaintext());
            v.extend(e.encrypt_outgoing_plaintext(&cv, &cmx, &mut rng));
            v.extend(rng.next_u64().to_le_bytes());
            v
        }
    })
}

/// The model's answer, where it is independent of everything the crate computes.
fn model(w: &World, q: &Q) -> Option<Vec<u8>> {
    let view = |k: &u8, i: &bool| w.keys[*k as usize].view(sc(*i));
    let note = |i: &u8| &w.notes[*i as usize % w.notes.len()];
    Some(match q {
        Q::Address { key, internal, idx } => view(key, internal).address_at(&w.idx[*idx as usize]).to_vec(),
        Q::IndexOf { key, internal, of, of_internal, idx } => {
            some11(view(key, internal).owns(&view(of, of_internal).address_at(&w.idx[*idx as usize])))
        }
        Q::ScopeOf { key, of, of_internal, idx } => {
            let a = view(of, of_internal).address_at(&w.idx[*idx as usize]);
            vec![w.keys[*key as usize].scope_of(&a).map_or(0, |s| match s {
                Sc::Ext => 1,
                Sc::Int => 2,
            })]
        }
        Q::Diversified { key, internal, d } => view(key, internal).address_for(&w.ds[*d as usize]).to_vec(),
        Q::Owns { key, internal, idx, edit } => match edited(w, *key, *internal, *idx, edit) {
            None => vec![],
            Some(a) => some11(view(key, internal).owns(&a)),
        },
        Q::Keys { key } => {
            let k = &w.keys[*key as usize];
            let mut v = k.fvk_bytes().to_vec();
            for s in [Sc::Ext, Sc::Int] {
                v.extend(k.view(s).ivk_bytes());
                v.extend(k.view(s).ovk);
            }
            v
        }
        Q::Commitment { note: n } => note(n).cmx()?.to_repr().to_vec(),
        Q::Nullifier { note: n, key } => note(n).nf(&w.keys[*key as usize].nk)?.to_repr().to_vec(),
        Q::Node { level, left, right } => {
            refm::merkle_combine(*level, &w.nodes[*left as usize], &w.nodes[*right as usize]).to_repr().to_vec()
        }
        Q::EmptyRoot { level } => refm::EMPTY[*level as usize].to_repr().to_vec(),
        Q::Root { pos, path, leaf } => {
            let p: Vec<Base> = (0..32).map(|l| w.nodes[(*path as usize + l) % 3]).collect();
            refm::path_root(*pos, &p, &w.nodes[*leaf as usize]).to_repr().to_vec()
        }
        Q::Account { seed, coin, account } => {
            let h = 1 << 31;
            refm::zip32_path(&w.keys[*seed as usize].ak_bytes, &[32 | h, *coin as u32 | h, *account as u32 | h])
                .map_or(vec![0], |k| k.to_vec())
        }
        Q::ValueCommit { a, b, rcv } => {
            refm::value_commit(*a as i128 - *b as i128, &w.scalars[*rcv as usize]).to_bytes().to_vec()
        }
        Q::Randomize { key, alpha } => {
            (w.keys[*key as usize].ak + *refm::G_SPEND * w.scalars[*alpha as usize]).to_bytes().to_vec()
        }
        Q::Decrypt { out, key, internal } => dec(refm::decrypt_ivk(&w.outs[*out as usize], &view(key, internal).ivk)),
        Q::Compact { out, key, internal } => dec(refm::decrypt_compact(&w.outs[*out as usize], &view(key, internal).ivk)),
        Q::Recover { out, key, internal } => dec(refm::recover_ovk(&w.outs[*out as usize], &view(key, internal).ovk)),
        Q::Verify { key, msg, sig } => {
            vec![refm::redpallas_verify(false, &w.keys[*key as usize].ak_bytes, &[*msg; 32], &w.sigs[*sig as usize]) as u8]
        }
        Q::Encrypt { .. } => return None,
    })
}

fn asked_case(c: &Asked, obs: &mut Obs) -> R {
    let w = c.world();
    let first: Vec<Vec<u8>> = c.qs.iter().map(|q| ask(&w, q)).collect::<Result<_, _>>()?;
    for (q, got) in c.qs.iter().zip(&first) {
        if let Some(want) = model(&w, q) {
            ensure_eq!(hex::encode(got), hex::encode(want), "answer to {:?}", q);
        }
    }
    let n = c.qs.len();
    let mut rng = orc::rng(&c.shuffle.0);
    let mut order: Vec<usize> = (0..n).collect();
    order.shuffle(&mut rng);
    for i in &order {
        ensure_eq!(hex::encode(ask(&w, &c.qs[*i])?), hex::encode(&first[*i]), "answer to {:?} the second time", c.qs[*i]);
    }
    // At the same time, in different orders, on threads without a past.
    let wrong: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3usize)
            .map(|t| {
                let (w, first, order, qs) = (&w, &first, &order, &c.qs);
                s.spawn(move || {
                    for k in 0..n {
                        let i = order[if t == 1 { n - 1 - k } else { (k + t * 3) % n }];
                        match crate::engine::no_panic(|| ask(w, &qs[i])) {
                            Ok(Ok(a)) if a == first[i] => {}
                            Ok(Ok(a)) => {
                                return Some(format!(
                                    "answer to {:?} on a concurrent thread: got {}, want {}",
                                    qs[i],
                                    hex::encode(a),
                                    hex::encode(&first[i])
                                ))
                            }
                            Ok(Err(e)) | Err(e) => return Some(format!("{:?} on a concurrent thread: {}", qs[i], e)),
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
    });
    if let Some(e) = wrong.into_iter().next() {
        return Err(e);
    }
    obs.nontrivial();
    obs.class_if(
        (0..n).any(|i| (0..i).any(|j| c.qs[i] != c.qs[j] && std::mem::discriminant(&c.qs[i]) == std::mem::discriminant(&c.qs[j]))),
        "same-function-different-arguments",
    );
    obs.class_if((0..n).any(|i| (0..i).any(|j| c.qs[i] == c.qs[j])), "repeated-query");
    Ok(())
}

// ---- building ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twice {
    plan: Plan,
    noise: Plan,
    sighash: B32,
    apart: bool,
}

#[derive(PartialEq, Debug)]
struct BuiltRaw {
    acts: Vec<refm::RAction>,
    balance: i64,
    meta: BundleMetadata,
    sigs: Vec<[u8; 64]>,
    after: u64,
}

/// Builds, and signs where the hook allows it; everything observable, and where the randomness stands.
fn build_once(m: &Mat, seed: &[u8; 32], sighash: &[u8; 32]) -> Result<Option<BuiltRaw>, String> {
    let mut rng = orc::rng(seed);
    let (b, meta) = match m.builder().build::<i64>(&mut rng) {
        Ok(Some(x)) => x,
        Ok(None) => return Ok(None),
        Err(e) => return Err(format!("{:?}", e)),
    };
    #[allow(unused_mut)]
    let mut sigs: Vec<[u8; 64]> = vec![];
    let (acts, balance) = (raw_actions(&b), *b.value_balance());
    #[cfg(feature = "hooks")]
    {
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let b = b.verif_with_proof(orchard::Proof::new(vec![]));
        let f = b.apply_signatures(&mut rng, *sighash, &asks).map_err(|e| format!("signing: {:?}", e))?;
        sigs.extend(f.actions().iter().map(|a| <[u8; 64]>::from(a.authorization())));
        sigs.push(f.authorization().binding_signature().into());
    }
    let _ = sighash;
    Ok(Some(BuiltRaw { acts, balance, meta, sigs, after: rng.next_u64() }))
}

fn twice_case(c: &Twice, obs: &mut Obs) -> R {
    let m = c.plan.mat();
    let first = build_once(&m, &m.rng, &c.sighash.0);
    let noise = c.noise.mat();
    let other = [m.rng[0] ^ 1; 32];
    let again = if c.apart {
        obs.class("other-thread");
        std::thread::scope(|s| {
            let h = s.spawn(|| crate::engine::no_panic(|| build_once(&m, &m.rng, &c.sighash.0)));
            let _ = build_once(&noise, &noise.rng, &c.sighash.0);
            let _ = build_once(&m, &other, &c.sighash.0);
            h.join().unwrap()
        })?
    } else {
        let _ = build_once(&noise, &noise.rng, &c.sighash.0);
        let _ = build_once(&m, &other, &c.sighash.0);
        build_once(&m, &m.rng, &c.sighash.0)
    };
    match (&first, &again) {
        (Ok(Some(a)), Ok(Some(b))) => {
            obs.nontrivial();
            ensure_eq!(b.acts.len(), a.acts.len(), "number of actions the second time");
            for i in 0..a.acts.len() {
                let (x, y) = (&a.acts[i], &b.acts[i]);
                ensure!(x.out.nf == y.out.nf, "nullifier {} differs between two builds from the same randomness", i);
                ensure!(x.rk == y.rk, "rk {} differs between two builds from the same randomness", i);
                ensure!(x.out.cmx == y.out.cmx, "cmx {} differs between two builds from the same randomness", i);
                ensure!(x.out.cv == y.out.cv, "cv {} differs between two builds from the same randomness", i);
                ensure!(
                    x.out.epk == y.out.epk && x.out.enc == y.out.enc && x.out.out == y.out.out,
                    "ciphertext {} differs between two builds from the same randomness",
                    i
                );
            }
            ensure_eq!(b, a, "two builds from the same randomness");
            obs.class_if(!a.sigs.is_empty(), "signed");
        }
        (a, b) => ensure_eq!(b, a, "two builds from the same randomness"),
    }
    Ok(())
}

// ---- proofs ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proved {
    plan: Plan,
    threads: u8,
}

fn proved_case(c: &Proved, obs: &mut Obs) -> R {
    let m = c.plan.mat();
    let (b, _) = match m.builder().build::<i64>(orc::rng(&m.rng)).map_err(|e| format!("{:?}", e))? {
        Some(x) => x,
        None => return Ok(()),
    };
    obs.nontrivial();
    let prove = |b: &Unauth<i64>| {
        let mut rng = orc::rng(&m.rng);
        let p = b.clone().create_proof(&prove::PK, &mut rng).map_err(|e| format!("proof: {:?}", e))?;
        let after = rng.next_u64();
        let mut rng = orc::rng(&m.rng);
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let f = p.apply_signatures(&mut rng, [1; 32], &asks).map_err(|e| format!("signing: {:?}", e))?;
        Ok::<_, String>((pool::RawBundle::of(&f), after))
    };
    let first = prove(&b)?;
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + c.threads as usize % 4).build().map_err(|e| e.to_string())?;
    let again = pool.install(|| prove(&b))?;
    ensure!(first.0.proof == again.0.proof, "two proofs from the same randomness differ");
    ensure!(first == again, "two bundles proven and signed with the same randomness differ");
    Ok(())
}

// ---- verdicts ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Verdicts {
    ask: Vec<(u8, Option<Edit>)>,
    rng: B32,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least one result was obtained repeatedly, with other computations in between or at the same time");
    r.assume("the caller's randomness is a seeded ChaCha20 generator; no interleaving is enumerated, threads run freely");

    r.family("queries", 700, 30_000, 120, asked, asked_case);

    let twice = || {
        (plan_g(true, 5), plan_g(true, 3), bytes32(), any::<bool>())
            .prop_map(|(plan, noise, sighash, apart)| Twice { plan, noise, sighash, apart })
            .boxed()
    };
    r.family("builds", 500, 15_000, 100, twice, twice_case);

    if r.wants("proofs") || r.wants("verdicts") {
        prove::warm();
    }
    let proved = || {
        (plan_g(true, 2), 0u8..4)
            .prop_map(|(mut plan, threads)| {
                for q in &mut plan.reqs {
                    match q {
                        Req::Spend(s) => s.value >>= 5,
                        Req::Output(o) => o.value >>= 5,
                    }
                }
                Proved { plan, threads }
            })
            .boxed()
    };
    r.family("proofs", 8, 120, 3, proved, proved_case);

    if r.wants("verdicts") {
        let pool = pool::pool(r.seed, 3);
        let gen = || {
            (proptest::collection::vec((any::<u8>(), proptest::option::of(edit())), 2..5), seed32())
                .prop_map(|(ask, rng)| Verdicts { ask, rng })
                .boxed()
        };
        r.family("verdicts", 60, 2_000, 20, gen, |c: &Verdicts, obs| {
            // One bundle after another, each whole or with its proof edited, alone and in batches.
            let mut bundles = vec![];
            for (i, e) in &c.ask {
                let p = &pool[*i as usize % pool.len()];
                let mut raw = p.raw.clone();
                if let Some(e) = e {
                    e.apply(&mut raw.proof);
                }
                let ok = raw.proof == p.raw.proof;
                bundles.push((raw.bundle().ok_or("bundle refused")?, p.sighash, ok));
            }
            obs.nontrivial();
            obs.class_if(bundles.iter().any(|b| !b.2) && bundles.iter().any(|b| b.2), "mixed");
            for round in 0..2 {
                for (k, (b, _, ok)) in bundles.iter().enumerate() {
                    ensure_eq!(b.verify_proof(&prove::VK).is_ok(), *ok, "verdict on bundle {} in round {}", k, round);
                }
            }
            let wrong: Vec<String> = std::thread::scope(|s| {
                let hs: Vec<_> = bundles
                    .iter()
                    .enumerate()
                    .map(|(k, (b, h, ok))| {
                        s.spawn(move || {
                            let alone = b.verify_proof(&prove::VK).is_ok();
                            let mut v = BatchValidator::new();
                            v.add_bundle(b, *h);
                            let batch = v.validate(&prove::VK, orc::rng(&c.rng.0));
                            (alone != *ok || batch != *ok)
                                .then(|| format!("concurrent verdicts on bundle {}: alone {}, batch {}, want {}", k, alone, batch, ok))
                        })
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
            });
            wrong.into_iter().next().map_or(Ok(()), Err)
        });
    }
}
