//! C16: altered or maliciously encrypted outputs are never accepted as notes.

use crate::enc::{self, *};
use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::plan::OvkG;
use crate::refm::{self, Keys, RDec, ROut};
use ff::PrimeField;
use group::GroupEncoding;
use orchard::keys::OutgoingViewingKey;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mal {
    keys: Vec<B32>,
    s: SendG,
    /// Re-encrypt after the edits is never done: these are applied by position to all bytes.
    raw: Option<(u8, Edit)>,
}

/// The internal consistency of anything accepted, from first principles.
fn consistent(o: &ROut, d: &RDec) -> R {
    ensure_eq!(d.note.rho, o.nf, "uniqueness value of an accepted note");
    ensure_eq!(d.note.cmx().map(|c| c.to_repr()), Some(o.cmx), "commitment of an accepted note");
    ensure_eq!(d.note.epk().to_bytes(), o.epk, "ephemeral key of an accepted note");
    Ok(())
}

fn judge(out: &ROut, s: &Sent, obs: &mut Obs) -> R {
    let a = action(out).ok_or("the output does not decode")?;
    let k = pivk(&s.ivk);
    let full = crate_ivk(&a, &k)?;
    let compact = crate_compact(&a, &k)?;
    if let Some(d) = &full {
        consistent(out, d)?;
    }
    if let Some(d) = &compact {
        consistent(out, d)?;
    }
    ensure_eq!(full, refm::decrypt_ivk(out, &s.ivk), "decryption");
    ensure_eq!(compact, refm::decrypt_compact(out, &s.ivk), "compact decryption");
    let mut rec = None;
    if let Some(o) = s.ovk {
        rec = crate_ovk(&a, &OutgoingViewingKey::from(o))?;
        if let Some(d) = &rec {
            consistent(out, d)?;
        }
        ensure_eq!(rec, refm::recover_ovk(out, &o), "recovery");
    }
    obs.class(match (full.is_some(), compact.is_some()) {
        (true, true) => "recipient: accepted",
        (false, false) => "recipient: refused",
        (false, true) => "recipient: compact only",
        (true, false) => "recipient: full only",
    });
    if s.ovk.is_some() {
        obs.class(if rec.is_some() { "sender: accepted" } else { "sender: refused" });
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the output differs from what an honest sender would have produced");
    r.assume("the AEAD, hash and curve libraries shared by model and crate");
    let mal = || {
        let n = prop_oneof![1 => Just(0usize), 12 => Just(1), 6 => Just(2), 2 => 3usize..5];
        let faults = n.prop_flat_map(|n| proptest::collection::vec(fault(), n));
        // Recovery matters here: always give an outgoing key.
        let s = send_g(faults).prop_map(|mut s| {
            if s.ovk == OvkG::None {
                s.ovk = OvkG::Own { key: 0, internal: false };
            }
            s
        });
        (proptest::collection::vec(sk32(), 1..3), s)
            .prop_map(|(keys, s)| Mal { keys, s, raw: None })
            .boxed()
    };
    r.family("malicious", 15_000, 1_500_000, 500, mal, |c: &Mal, obs| {
        let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
        let s = c.s.send(&mk);
        let honest = SendG { faults: vec![], ..c.s.clone() }.send(&mk);
        if s.out != honest.out {
            obs.nontrivial();
        } else {
            obs.class("honest");
            let a = action(&s.out).ok_or("the output does not decode")?;
            ensure!(crate_ivk(&a, &pivk(&s.ivk))?.is_some(), "an honest output is refused");
        }
        judge(&s.out, &s, obs)
    });

    // Every byte position of every field of an honest output, in order, over the case counter.
    let raw = || {
        (
            proptest::collection::vec(sk32(), 1..2),
            send_g(Just(vec![])),
            (0u8..6, edit()),
        )
            .prop_map(|(keys, mut s, e)| {
                if s.ovk == OvkG::None {
                    s.ovk = OvkG::Own { key: 0, internal: true };
                }
                Mal { keys, s, raw: Some(e) }
            })
            .boxed()
    };
    r.family("edited", 10_000, 800_000, 500, raw, |c: &Mal, obs| {
        let mk: Vec<Keys> = c.keys.iter().map(enc::keys).collect();
        let s = c.s.send(&mk);
        let mut o = s.out.clone();
        let (f, e) = c.raw.clone().ok_or("no edit")?;
        let (field, ok) = match f % 6 {
            0 => ("enc", e.apply(&mut o.enc)),
            1 => ("out", e.apply(&mut o.out)),
            2 => ("epk", e.apply(&mut o.epk)),
            3 => ("cmx", e.apply(&mut o.cmx)),
            4 => ("nf", e.apply(&mut o.nf)),
            _ => ("cv", e.apply(&mut o.cv)),
        };
        if !ok || action(&o).is_none() {
            return Ok(());
        }
        obs.nontrivial();
        obs.class(field);
        judge(&o, &s, obs)?;
        // What each reading covers.
        let a = action(&o).unwrap();
        let full = crate_ivk(&a, &pivk(&s.ivk))?.is_some();
        let compact = crate_compact(&a, &pivk(&s.ivk))?.is_some();
        let rec = crate_ovk(&a, &OutgoingViewingKey::from(s.ovk.unwrap()))?.is_some();
        let small = o.enc[..52] != s.out.enc[..52];
        let (wf, wc, wr) = match field {
            "enc" => (false, !small, false),
            "out" | "cv" => (true, true, false),
            _ => (false, false, false),
        };
        ensure_eq!((full, compact, rec), (wf, wc, wr), "(full, compact, outgoing) readings after changing {}", field);
        Ok(())
    });
}
