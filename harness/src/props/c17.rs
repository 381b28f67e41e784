//! C17: bulk scanning gives the same results as scanning one action at a time.

use crate::enc::{self, *};
use crate::engine::Runner;
use crate::gens::*;
use crate::pool::{act_g, sig64, ActG, RawBundle};
use crate::refm::{self, Base, Keys, RAction, RDec, ROut};
use ff::PrimeField;
use group::GroupEncoding;
use orchard::{
    keys::{IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey},
    note_encryption::{CompactAction, OrchardDomain},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zcash_note_encryption::batch;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ItemG {
    Sent(SendG),
    Junk(ActG),
    /// The same output as an earlier item.
    Again(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scan {
    keys: Vec<B32>,
    items: Vec<ItemG>,
    /// Indices into the recipients' and key holders' keys; others are unrelated.
    ivks: Vec<u8>,
    ovks: Vec<u8>,
    sig: By<64>,
    /// Numbers of unrelated outputs, incoming and outgoing keys that come before the others.
    #[serde(default)]
    pads: (u16, u16, u16),
}

fn scan() -> BoxedStrategy<Scan> {
    let one = prop_oneof![
        6 => send_g(Just(vec![])).prop_map(ItemG::Sent),
        3 => send_g(fault().prop_map(|f| vec![f])).prop_map(ItemG::Sent),
        2 => act_g().prop_map(ItemG::Junk),
        1 => any::<u8>().prop_map(ItemG::Again),
    ];
    let n = prop_oneof![1 => Just(0usize), 2 => Just(1), 3 => 2usize..4, 2 => 4usize..9];
    let k = || prop_oneof![1 => Just(0usize), 3 => Just(1), 4 => 2usize..5, 1 => 5usize..9];
    (
        proptest::collection::vec(sk32(), 1..3),
        n.prop_flat_map(move |n| proptest::collection::vec(one.clone(), n)),
        k().prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n)),
        k().prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n)),
        sig64(),
        prop_oneof![
            50 => Just((0u16, 0u16, 0u16)),
            1 => (0u16..12, 0u16..12, 0u16..12),
            1 => (10u16..280).prop_map(|n| (n, 0, 0)),
            1 => (10u16..280).prop_map(|n| (0, n, n)),
        ],
    )
        .prop_map(|(keys, items, ivks, ovks, sig, pads)| Scan { keys, items, ivks, ovks, sig, pads })
        .boxed()
}

struct Made {
    outs: Vec<ROut>,
    ivks: Vec<Base>,
    ovks: Vec<[u8; 32]>,
}

fn make(c: &Scan) -> Made {
    let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
    let mut outs: Vec<ROut> = (0..c.pads.0)
        .map(|i| ROut {
            nf: Base::from(u64::from(i)).to_repr(),
            cmx: Base::from(u64::from(i) + 1).to_repr(),
            cv: refm::G_SPEND.to_bytes(),
            epk: refm::diversify_hash(&[i as u8; 11]).to_bytes(),
            enc: crate::pool::stream(u64::from(i), 580),
            out: crate::pool::stream(u64::from(i), 80),
        })
        .collect();
    // Alternate keys: those of the recipients come first so that most selections hit.
    let mut known_i: Vec<Base> = vec![];
    let mut known_o: Vec<[u8; 32]> = vec![];
    for it in &c.items {
        match it {
            ItemG::Sent(s) => {
                let s = s.send(&mk);
                known_i.push(s.ivk);
                known_o.extend(s.ovk);
                outs.push(s.out);
            }
            ItemG::Junk(a) => outs.push(a.raw().out),
            ItemG::Again(i) => {
                if !outs.is_empty() {
                    outs.push(outs[*i as usize % outs.len()].clone());
                }
            }
        }
    }
    for k in &mk {
        for v in &k.views {
            known_i.push(v.ivk);
            known_o.push(v.ovk);
        }
    }
    known_i.push(Base::one());
    known_o.push([0; 32]);
    Made {
        ivks: (0..c.pads.1)
            .map(|i| Base::from(u64::from(i) + 2))
            .chain(c.ivks.iter().map(|i| known_i[*i as usize % known_i.len()]))
            .collect(),
        ovks: (0..c.pads.2)
            .map(|i| {
                let mut k = [7; 32];
                k[..2].copy_from_slice(&i.to_le_bytes());
                k
            })
            .chain(c.ovks.iter().map(|i| known_o[*i as usize % known_o.len()]))
            .collect(),
        outs,
    }
}

fn first<K, D>(keys: &[K], mut f: impl FnMut(&K) -> Result<Option<D>, String>) -> Result<Option<(D, usize)>, String> {
    for (i, k) in keys.iter().enumerate() {
        if let Some(d) = f(k)? {
            return Ok(Some((d, i)));
        }
    }
    Ok(None)
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when there are at least two outputs or two keys and something decrypts");
    r.assume("single decryption is right (C15, C16)");

    r.family("batch", 6_000, 200_000, 400, scan, |c: &Scan, obs| {
        let m = make(c);
        let acts: Vec<_> = m
            .outs
            .iter()
            .map(|o| action(o).ok_or("an output does not decode"))
            .collect::<Result<_, _>>()?;
        let keys: Vec<PreparedIncomingViewingKey> = m.ivks.iter().map(pivk).collect();
        let full: Vec<_> = acts.iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
        let got = batch::try_note_decryption(&keys, &full);
        let comp: Vec<_> = acts
            .iter()
            .map(|a| {
                let c = CompactAction::from(a);
                (OrchardDomain::for_compact_action(&c), c)
            })
            .collect();
        let gotc = batch::try_compact_note_decryption(&keys, &comp);
        ensure_eq!(got.len(), acts.len(), "number of results");
        ensure_eq!(gotc.len(), acts.len(), "number of compact results");
        let (mut hits, mut bad_epk) = (0, false);
        for (i, a) in acts.iter().enumerate() {
            let want = first(&keys, |k| crate_ivk(a, k))?;
            let wantc = first(&keys, |k| crate_compact(a, k))?;
            let model = first(&m.ivks, |k| Ok(refm::decrypt_ivk(&m.outs[i], k)))?;
            ensure_eq!(want, model, "output {} alone, against the model", i);
            let g = match got[i].clone() {
                None => None,
                Some((x, k)) => rdec(Some(x))?.map(|d| (d, k)),
            };
            ensure_eq!(g, want, "output {} in a batch", i);
            let g = match gotc[i].clone() {
                None => None,
                Some((x, k)) => rdec_compact(Some(x))?.map(|d| (d, k)),
            };
            ensure_eq!(g, wantc, "output {} in a compact batch", i);
            hits += usize::from(want.is_some());
            bad_epk |= refm::nonid_point_of(&m.outs[i].epk).is_none();
        }
        obs.class_if(bad_epk, "undecodable-ephemeral-key");
        obs.class_if(keys.is_empty(), "no-keys");
        obs.class_if(hits > 0 && c.pads.0 > 9, "many-outputs");
        obs.class_if(hits > 0 && c.pads.1 > 9, "many-keys");
        obs.class_if(hits > 1, "several-hits");
        obs.class_if(hits < acts.len(), "some-misses");
        if hits > 0 && (acts.len() > 1 || keys.len() > 1) {
            obs.nontrivial();
        }
        Ok(())
    });

    r.family("bundle", 6_000, 200_000, 400, scan, |c: &Scan, obs| {
        let m = make(c);
        if m.outs.is_empty() {
            return Ok(());
        }
        let rk = refm::G_SPEND.to_bytes();
        let raw = RawBundle {
            acts: m.outs.iter().map(|o| RAction { out: o.clone(), rk }).collect(),
            sigs: vec![c.sig.0; m.outs.len()],
            flags: 3,
            balance: 0,
            anchor: [0; 32],
            proof: vec![],
            binding: c.sig.0,
        };
        let b = raw.bundle().ok_or("the bundle does not assemble")?;
        // Keys with distinct diversifier keys so that the reported key is told apart.
        let keys: Vec<IncomingViewingKey> = m
            .ivks
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let mut b = [i as u8; 64];
                b[1] = (i >> 8) as u8;
                b[32..].copy_from_slice(&k.to_repr());
                IncomingViewingKey::from_bytes(&b).unwrap()
            })
            .collect();
        let ovks: Vec<OutgoingViewingKey> = m.ovks.iter().map(|k| OutgoingViewingKey::from(*k)).collect();

        let mut want: Vec<(usize, [u8; 64], RDec)> = vec![];
        let mut wanto: Vec<(usize, [u8; 32], RDec)> = vec![];
        for (i, o) in m.outs.iter().enumerate() {
            if let Some((d, k)) = first(&m.ivks, |k| Ok(refm::decrypt_ivk(o, k)))? {
                want.push((i, keys[k].to_bytes(), d));
            }
            if let Some((d, k)) = first(&m.ovks, |k| Ok(refm::recover_ovk(o, k)))? {
                wanto.push((i, m.ovks[k], d));
            }
        }
        let got = b
            .decrypt_outputs_with_keys(&keys)
            .into_iter()
            .map(|(i, k, n, a, me)| Ok((i, k.to_bytes(), rdec(Some((n, a, me)))?.unwrap())))
            .collect::<Result<Vec<_>, String>>()?;
        ensure_eq!(got, want, "decrypt_outputs_with_keys");
        let goto = b
            .recover_outputs_with_ovks(&ovks)
            .into_iter()
            .map(|(i, k, n, a, me)| Ok((i, *k.as_ref(), rdec(Some((n, a, me)))?.unwrap())))
            .collect::<Result<Vec<_>, String>>()?;
        ensure_eq!(goto, wanto, "recover_outputs_with_ovks");
        let n = m.outs.len();
        for i in (0..n).chain([n, n + 1, usize::MAX, usize::MAX / 2 + 1]) {
            for (k, mi) in keys.iter().zip(&m.ivks) {
                let w = m.outs.get(i).and_then(|o| refm::decrypt_ivk(o, mi));
                ensure_eq!(rdec(b.decrypt_output_with_key(i, k))?, w, "decrypt_output_with_key at {}", i);
            }
            for (k, mo) in ovks.iter().zip(&m.ovks) {
                let w = m.outs.get(i).and_then(|o| refm::recover_ovk(o, mo));
                ensure_eq!(rdec(b.recover_output_with_ovk(i, k))?, w, "recover_output_with_ovk at {}", i);
            }
        }
        obs.class_if(!want.is_empty(), "some-decrypt");
        obs.class_if(!wanto.is_empty(), "some-recovered");
        if (n > 1 || keys.len() > 1) && (!want.is_empty() || !wanto.is_empty()) {
            obs.nontrivial();
        }
        Ok(())
    });
}

