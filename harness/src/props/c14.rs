//! C14: note commitments and nullifiers.

use crate::ctx::address_of;
use crate::engine::Runner;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::refm::{self, Keys, RNote};
use ff::PrimeField;
use group::GroupEncoding;
use orchard::{
    keys::FullViewingKey,
    note::{ExtractedNoteCommitment, RandomSeed, Rho},
    value::NoteValue,
    Note,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct NoteG {
    to: ToG,
    value: u64,
    rho: B32,
    rseed: B32,
    nk_of: B32,
}

fn note_g() -> BoxedStrategy<NoteG> {
    (to_g(), val_u64(), base32(), bytes32(), sk32())
        .prop_map(|(to, value, rho, rseed, nk_of)| NoteG { to, value, rho, rseed, nk_of })
        .boxed()
}

fn keys(sk: &B32) -> Keys {
    Keys::from_sk(&sk.0).unwrap_or_else(|| Keys::from_sk(&[7; 32]).unwrap())
}
fn raw(g: &NoteG) -> RNote {
    RNote {
        addr: address_of(&g.to, &keys(&g.nk_of)).0,
        value: g.value,
        rho: g.rho.0,
        rseed: g.rseed.0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Diversifier(B11),
    Recipient(B32),
    Value(u64),
    ValueBit(u8),
    Rho(B32),
    RhoBit(u8),
    Rseed(Edit),
    Nk(B32),
    RivkOnly(B32),
    AkOnly(B32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Changed {
    g: NoteG,
    change: Change,
}

fn crate_note(n: &RNote) -> Result<Note, String> {
    orc::note(n).ok_or_else(|| "Note::from_parts refused a valid note".to_string())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the note has a non-zero value or the compared notes differ");
    r.assume("Sinsemilla, Poseidon and curve libraries shared by model and crate");

    r.family("model", 6_000, 200_000, 500, note_g, |g: &NoteG, obs| {
        let n = raw(g);
        if n.value > 0 {
            obs.nontrivial();
        }
        obs.class_if(n.value >= 1 << 63, "top-bit-value");
        let k = keys(&g.nk_of);
        let fvk = FullViewingKey::from_bytes(&k.fvk_bytes()).ok_or("viewing key refused")?;
        let note = crate_note(&n)?;
        let cmx = n.cmx().unwrap().to_repr();
        ensure_eq!(orc::cmx_bytes(&note), cmx, "note commitment");
        let nf = n.nf(&k.nk).unwrap().to_repr();
        ensure_eq!(note.nullifier(&fvk).to_bytes(), nf, "nullifier");
        // Exposed parts rebuild the note.
        ensure_eq!(orc::rnote(&note), n, "exposed parts");
        let again: Option<Note> = Note::from_parts(note.recipient(), note.value(), note.rho(), *note.rseed()).into();
        let again = again.ok_or("the note's own parts are refused")?;
        ensure!(again == note, "rebuilt note differs");
        ensure_eq!(orc::cmx_bytes(&again), cmx, "commitment of the rebuilt note");
        ensure_eq!(again.nullifier(&fvk).to_bytes(), nf, "nullifier of the rebuilt note");
        // The chained uniqueness value.
        ensure_eq!(Rho::from_bytes(&nf).unwrap().to_bytes(), nf, "rho of a nullifier");
        let e: ExtractedNoteCommitment = note.commitment().into();
        let d: Option<ExtractedNoteCommitment> = ExtractedNoteCommitment::from_bytes(&cmx).into();
        ensure!(d == Some(e), "extracted commitment equality");
        // Seeds: a seed is valid iff its ephemeral secret is non-zero (always, in practice).
        let rs: Option<RandomSeed> = RandomSeed::from_bytes(n.rseed, &orc::rho(&n.rho).unwrap()).into();
        ensure_eq!(rs.map(|r| *r.as_bytes()), Some(n.rseed), "seed");
        Ok(())
    });

    let changed = || {
        let change = prop_oneof![
            div11().prop_map(Change::Diversifier),
            scalar32().prop_map(Change::Recipient),
            val_u64().prop_map(Change::Value),
            (0u8..64).prop_map(Change::ValueBit),
            base32().prop_map(Change::Rho),
            (0u8..254).prop_map(Change::RhoBit),
            edit().prop_map(Change::Rseed),
            base32().prop_map(Change::Nk),
            scalar32().prop_map(Change::RivkOnly),
            seed32().prop_map(Change::AkOnly),
        ];
        (note_g(), change).prop_map(|(g, change)| Changed { g, change }).boxed()
    };
    r.family("change", 6_000, 200_000, 500, changed, |c: &Changed, obs| {
        let a = raw(&c.g);
        let mut b = a.clone();
        let ka = keys(&c.g.nk_of);
        let mut fb = ka.fvk_bytes();
        let (mut note_changes, mut nk_changes) = (false, false);
        match &c.change {
            Change::Diversifier(d) => {
                // The same transmission key under another diversifier.
                b.addr[..11].copy_from_slice(&d.0);
                obs.class("diversifier");
                note_changes = b != a;
            }
            Change::Recipient(s) => {
                let p = refm::point_of(&a.pk_d()).unwrap() + *refm::G_SPEND * refm::scalar_of(&s.0).unwrap();
                if refm::nonid_point_of(&p.to_bytes()).is_none() {
                    return Ok(());
                }
                b.addr[11..].copy_from_slice(&p.to_bytes());
                obs.class("recipient-key");
                note_changes = b != a;
            }
            Change::Value(v) => {
                b.value = *v;
                obs.class("value");
                note_changes = b != a;
            }
            Change::ValueBit(i) => {
                b.value ^= 1 << i;
                obs.class("value-bit");
                note_changes = true;
            }
            Change::Rho(x) => {
                b.rho = x.0;
                obs.class("rho");
                note_changes = b != a;
            }
            Change::RhoBit(i) => {
                b.rho[(*i / 8) as usize] ^= 1 << (i % 8);
                if refm::base_of(&b.rho).is_none() {
                    return Ok(());
                }
                obs.class("rho");
                note_changes = true;
            }
            Change::Rseed(e) => {
                note_changes = e.apply(&mut b.rseed);
                obs.class("rseed");
            }
            Change::Nk(x) => {
                nk_changes = fb[32..64] != x.0;
                fb[32..64].copy_from_slice(&x.0);
                obs.class("nk");
            }
            Change::RivkOnly(x) => {
                fb[64..].copy_from_slice(&x.0);
                obs.class("same-nk");
            }
            Change::AkOnly(s) => {
                fb[..32].copy_from_slice(&keys(s).ak_bytes);
                obs.class("same-nk");
            }
        }
        let fa = FullViewingKey::from_bytes(&ka.fvk_bytes()).ok_or("viewing key refused")?;
        let fb = match FullViewingKey::from_bytes(&fb) {
            Some(f) => f,
            None => return Ok(()),
        };
        if note_changes || nk_changes {
            obs.nontrivial();
        }
        let (na, nb) = (crate_note(&a)?, crate_note(&b)?);
        ensure_eq!(na == nb, !note_changes, "note equality");
        ensure_eq!(orc::cmx_bytes(&na) == orc::cmx_bytes(&nb), !note_changes, "commitments equal");
        ensure_eq!(
            na.nullifier(&fa).to_bytes() == nb.nullifier(&fb).to_bytes(),
            !note_changes && !nk_changes,
            "nullifiers equal"
        );
        Ok(())
    });

    r.family("built", 1_200, 40_000, 200, || plan_g(true, 6), |p: &Plan, obs| {
        let m = p.mat();
        let (b, meta) = match m.builder().build::<i64>(orc::rng(&m.rng)) {
            Ok(Some(x)) => x,
            _ => return Ok(()),
        };
        let outs = raw_outs(&b);
        for (i, a) in b.actions().iter().enumerate() {
            ensure_eq!(a.rho().to_bytes(), outs[i].nf, "action {}: uniqueness value of the output", i);
        }
        for (i, s) in m.spends().iter().enumerate() {
            let idx = meta.spend_action_index(i).ok_or("no index")?;
            ensure_eq!(outs[idx].nf, s.nf(), "nullifier of spend {}", i);
            obs.nontrivial();
        }
        for (i, o) in m.outputs().iter().enumerate() {
            let idx = meta.output_action_index(i).ok_or("no index")?;
            let d = refm::decrypt_ivk(&outs[idx], &o.ivk).ok_or_else(|| format!("output {} is not readable", i))?;
            ensure_eq!(d.note.rho, outs[idx].nf, "uniqueness value of output {}", i);
            // The crate rebuilds the same note and commitment.
            let note = orc::note(&RNote { addr: o.addr, value: o.value, rho: outs[idx].nf, rseed: d.note.rseed })
                .ok_or("note refused")?;
            ensure_eq!(orc::cmx_bytes(&note), outs[idx].cmx, "commitment of output {}", i);
            ensure_eq!(note.value(), NoteValue::from_raw(o.value), "value of output {}", i);
            obs.nontrivial();
        }
        Ok(())
    });
}
