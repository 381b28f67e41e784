//! C15: recipient and sender recover exactly what was sent; nobody else does.

use crate::enc::{self, *};
use crate::engine::Runner;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::refm::{self, Keys, RDec, ROut, Sc};
use ff::PrimeField;
use orchard::{
    keys::{FullViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey},
    note::ExtractedNoteCommitment,
    note_encryption::{OrchardDomain, OrchardNoteEncryption},
    value::ValueCommitment,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zcash_note_encryption::Domain;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    keys: Vec<B32>,
    s: SendG,
    rng: B32,
}

/// Every reader's result for an output, which must be exactly `want` for the recipient's key and
/// the sender's outgoing key, and nothing for all others.
fn readers(out: &ROut, s: &SendG, mk: &[Keys], who: &str) -> Result<(), String> {
    let (note, ivk) = s.note(mk);
    let memo = s.memo.bytes().to_vec();
    let full = RDec { note: note.clone(), memo: Some(memo) };
    let compact = RDec { note, memo: None };
    let a = action(out).ok_or("the output does not decode")?;
    let ovk = ovk_of(&s.ovk, mk);
    // The recipient, by its raw key.
    let k = pivk(&ivk);
    ensure_eq!(crate_ivk(&a, &k)?, Some(full.clone()), "{}: recipient", who);
    ensure_eq!(crate_compact(&a, &k)?, Some(compact.clone()), "{}: recipient, compact", who);
    ensure_eq!(refm::decrypt_ivk(out, &ivk), Some(full.clone()), "{}: recipient, independent implementation", who);
    ensure_eq!(refm::decrypt_compact(out, &ivk), Some(compact.clone()), "{}: recipient, compact, independent", who);
    // Everybody's keys, through their full viewing keys.
    for (i, m) in mk.iter().enumerate() {
        let fvk = FullViewingKey::from_bytes(&m.fvk_bytes()).ok_or("viewing key refused")?;
        for sc in [Sc::Ext, Sc::Int] {
            let v = m.view(sc);
            let mine = v.ivk == ivk;
            let k = PreparedIncomingViewingKey::new(&fvk.to_ivk(orc::scope(sc)));
            ensure_eq!(
                crate_ivk(&a, &k)?,
                Some(full.clone()).filter(|_| mine),
                "{}: key {} scope {:?}",
                who,
                i,
                sc
            );
            ensure_eq!(
                crate_compact(&a, &k)?,
                Some(compact.clone()).filter(|_| mine),
                "{}: key {} scope {:?}, compact",
                who,
                i,
                sc
            );
            let sender = ovk == Some(v.ovk);
            ensure_eq!(
                crate_ovk(&a, &fvk.to_ovk(orc::scope(sc)))?,
                Some(full.clone()).filter(|_| sender),
                "{}: outgoing key {} scope {:?}",
                who,
                i,
                sc
            );
        }
    }
    for o in [Some([0u8; 32]), Some([0xff; 32]), ovk].into_iter().flatten() {
        let want = Some(full.clone()).filter(|_| ovk == Some(o));
        ensure_eq!(crate_ovk(&a, &OutgoingViewingKey::from(o))?, want, "{}: raw outgoing key", who);
        ensure_eq!(refm::recover_ovk(out, &o), want, "{}: raw outgoing key, independent", who);
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the note was encrypted and at least one reader other than its recipient was tried");
    r.assume("the AEAD, hash and curve libraries shared by model and crate; no accidental decryption by unrelated keys");

    let round = || {
        (
            proptest::collection::vec(sk32(), 1..4),
            send_g(Just(vec![])),
            seed32(),
        )
            .prop_map(|(keys, s, rng)| Round { keys, s, rng })
            .boxed()
    };
    let classes = |s: &SendG, obs: &mut crate::engine::Obs| {
        obs.nontrivial();
        obs.class(match &s.ovk {
            OvkG::None => "no-outgoing-key",
            OvkG::Own { internal: true, .. } => "internal-outgoing-key",
            OvkG::Own { .. } => "external-outgoing-key",
            OvkG::Raw(_) => "raw-outgoing-key",
        });
        obs.class(match &s.to {
            ToG::Own { internal: true, .. } => "to-internal",
            ToG::Own { .. } => "to-external",
            _ => "to-foreign",
        });
        obs.class_if(s.value == 0, "zero-value");
        obs.class_if(s.value >= 1 << 63, "top-bit-value");
    };

    r.family("crate-encrypts", 4_000, 300_000, 300, round, |c: &Round, obs| {
        classes(&c.s, obs);
        let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
        let (n, _) = c.s.note(&mk);
        let note = orc::note(&n).ok_or("note refused")?;
        let ovk = ovk_of(&c.s.ovk, &mk);
        let memo = c.s.memo.bytes();
        let e = OrchardNoteEncryption::new(ovk.map(OutgoingViewingKey::from), note, memo);
        let cv = ValueCommitment::from_bytes(&c.s.cv.0).unwrap();
        let cmx: ExtractedNoteCommitment = note.commitment().into();
        let out = ROut {
            nf: n.rho,
            cmx: cmx.to_bytes(),
            cv: c.s.cv.0,
            epk: OrchardDomain::epk_bytes(e.epk()).0,
            enc: e.encrypt_note_plaintext().to_vec(),
            out: e.encrypt_outgoing_plaintext(&cv, &cmx, &mut orc::rng(&c.rng.0)).to_vec(),
        };
        let want = c.s.send(&mk).out;
        ensure_eq!(hex::encode(out.epk), hex::encode(want.epk), "ephemeral key");
        ensure_eq!(hex::encode(&out.enc), hex::encode(&want.enc), "note ciphertext");
        ensure_eq!(hex::encode(out.cmx), hex::encode(want.cmx), "commitment");
        if ovk.is_some() {
            ensure_eq!(hex::encode(&out.out), hex::encode(&want.out), "outgoing ciphertext");
        }
        readers(&out, &c.s, &mk, "crate-encrypted")
    });

    r.family("model-encrypts", 4_000, 300_000, 300, round, |c: &Round, obs| {
        classes(&c.s, obs);
        let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
        let s = c.s.send(&mk);
        readers(&s.out, &c.s, &mk, "model-encrypted")
    });

    // Whole bundles: every requested output is read by exactly its recipient and sender.
    r.family("built", 900, 50_000, 200, || plan_g(true, 6), |p: &Plan, obs| {
        let m = p.mat();
        let (b, meta) = match m.builder().build::<i64>(orc::rng(&m.rng)) {
            Ok(Some(x)) => x,
            _ => return Ok(()),
        };
        let outs = raw_outs(&b);
        let mut by_action = vec![None; outs.len()];
        for (i, o) in m.outputs().into_iter().enumerate() {
            by_action[meta.output_action_index(i).ok_or("no index")?] = Some(o);
            obs.nontrivial();
        }
        let mut ivks = m.all_ivks();
        ivks.dedup();
        for (ki, i) in ivks.iter().enumerate() {
            let key = enc::ivk(i);
            let got = b.decrypt_outputs_with_keys(&[key.clone()]);
            let mut got = got.into_iter().peekable();
            for (a, o) in by_action.iter().enumerate() {
                let want = o.filter(|o| o.ivk == *i);
                let single = rdec(b.decrypt_output_with_key(a, &key))?;
                ensure_eq!(single.is_some(), want.is_some(), "action {} readable by key {}", a, ki);
                if let Some(o) = want {
                    let d = single.unwrap();
                    ensure_eq!(d.note.addr, o.addr, "address");
                    ensure_eq!(d.note.value, o.value, "value");
                    ensure_eq!(d.note.rho, outs[a].nf, "uniqueness value");
                    ensure_eq!(d.note.cmx().map(|c| c.to_repr()), Some(outs[a].cmx), "commitment");
                    ensure_eq!(d.memo, Some(o.want_memo().to_vec()), "memo");
                    let (ix, k, n, ad, me) = got.next().ok_or("bundle scan misses an action")?;
                    ensure_eq!(ix, a, "index");
                    ensure_eq!(k.to_bytes(), key.to_bytes(), "matching key");
                    ensure_eq!(rdec(Some((n, ad, me)))?, Some(d), "bundle scan contents");
                }
            }
            ensure!(got.next().is_none(), "bundle scan reports an extra action");
        }
        let mut ovks: Vec<[u8; 32]> = m.keys.iter().flat_map(|k| k.views.iter().map(|v| v.ovk)).collect();
        ovks.extend(m.outputs().iter().filter_map(|o| o.ovk));
        ovks.push([0; 32]);
        for k in &ovks {
            let key = OutgoingViewingKey::from(*k);
            for (a, o) in by_action.iter().enumerate() {
                let want = o.filter(|o| o.ovk == Some(*k));
                let single = rdec(b.recover_output_with_ovk(a, &key))?;
                ensure_eq!(single.is_some(), want.is_some(), "action {} recoverable", a);
                if let Some(o) = want {
                    let d = single.unwrap();
                    ensure_eq!(d.note.addr, o.addr, "recovered address");
                    ensure_eq!(d.note.value, o.value, "recovered value");
                    ensure_eq!(d.memo, Some(o.want_memo().to_vec()), "recovered memo");
                    obs.class("recovered");
                }
            }
        }
        Ok(())
    });
}
