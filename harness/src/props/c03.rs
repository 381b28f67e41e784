//! C03: the builder refuses exactly what its rules forbid.

use crate::engine::{Runner, R};
use crate::orc;
use crate::plan::*;
use orchard::builder::{self, BuildError, Builder, InputView, OutputView, SpendError};

/// Whether `e` is one of the causes that apply to the spend.
fn own_cause(m: &Mat, s: &MSpend, e: &SpendError) -> bool {
    match e {
        SpendError::SpendsDisabled => !m.bt.spends(),
        SpendError::FvkMismatch => !s.owned,
        SpendError::AnchorMismatch => !s.anchored,
    }
}

/// A refusal says which cause it has: its message is not that of another one.
pub fn message(e: &BuildError) -> R {
    let others = [
        BuildError::SpendsDisabled,
        BuildError::OutputsDisabled,
        BuildError::AnchorMismatch,
        BuildError::MissingSignatures,
        BuildError::ValueSum(orchard::value::OverflowError),
        BuildError::InvalidExternalSignature,
        BuildError::DuplicateSignature,
        BuildError::BundleTypeNotSatisfiable,
    ];
    for o in &others {
        if std::mem::discriminant(e) != std::mem::discriminant(o) {
            ensure!(e.to_string() != o.to_string(), "{:?} and {:?} are both reported as \"{}\"", e, o, e);
        }
    }
    Ok(())
}

fn spend_message(e: &SpendError) -> R {
    for o in [SpendError::SpendsDisabled, SpendError::AnchorMismatch, SpendError::FvkMismatch] {
        ensure_eq!(*e == o, e.to_string() == o.to_string(), "messages of {:?} and {:?} coincide", e, o);
    }
    Ok(())
}

fn same_builder(b: &Builder, spends: &[u64], outputs: &[u64]) -> R {
    let s: Vec<u64> = b.spends().iter().map(|x| InputView::value::<u64>(x)).collect();
    let o: Vec<u64> = b.outputs().iter().map(|x| OutputView::value::<u64>(x)).collect();
    ensure_eq!(&s[..], spends, "spends held by the builder");
    ensure_eq!(&o[..], outputs, "outputs held by the builder");
    let net: i128 = spends.iter().map(|v| *v as i128).sum::<i128>() - outputs.iter().map(|v| *v as i128).sum::<i128>();
    let fit = spends.iter().map(|v| *v as u128).sum::<u128>() <= u64::MAX as u128
        && outputs.iter().map(|v| *v as u128).sum::<u128>() <= u64::MAX as u128;
    match (b.value_balance::<i64>(), i64::try_from(net)) {
        (Ok(g), Ok(w)) => ensure_eq!(g, w, "reported balance"),
        (Err(_), Ok(_)) => ensure!(!fit, "balance {} refused", net),
        (Ok(g), Err(_)) => return Err(format!("balance {} reported for {}", g, net)),
        _ => {}
    }
    Ok(())
}

fn fingerprint(b: Result<Option<(Unauth<i64>, builder::BundleMetadata)>, BuildError>) -> Result<Option<String>, String> {
    match b {
        Ok(None) => Ok(None),
        Ok(Some((b, meta))) => Ok(Some(format!(
            "{:?} {:?} {:?} {:?} {:?}",
            raw_actions(&b),
            b.flags().to_byte(),
            b.value_balance(),
            b.anchor().to_bytes(),
            meta
        ))),
        Err(e) => Err(format!("{:?}", e)),
    }
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least one request must be refused and at least one accepted, or a lower-level construction must be refused");

    r.family("requests", 4_500, 60_000, 400, || plan_g(false, 8), |p: &Plan, obs| {
        let m = p.mat();
        let mut b = Builder::new(m.bt.ty(), m.anchor());
        let (mut sv, mut ov) = (vec![], vec![]);
        let (mut yes, mut no) = (0, 0);
        for (i, q) in m.reqs.iter().enumerate() {
            let got = m.feed(&mut b, q);
            match q {
                MReq::Spend(s) => {
                    let want = m.spend_ok(s);
                    match &got {
                        Ok(()) => {
                            ensure!(
                                want,
                                "request {}: accepted a spend that must be refused (owned: {}, anchored: {}, spends enabled: {})",
                                i, s.owned, s.anchored, m.bt.spends()
                            );
                            sv.push(s.note.value);
                        }
                        Err(Fed::Spend(e)) => {
                            ensure!(!want, "request {}: refused a valid spend: {:?}", i, e);
                            ensure!(
                                own_cause(&m, s, e),
                                "request {}: refused with {:?}, which does not apply (owned: {}, anchored: {}, spends enabled: {})",
                                i, e, s.owned, s.anchored, m.bt.spends()
                            );
                            spend_message(e)?;
                            obs.class(match e {
                                SpendError::SpendsDisabled => "spends-disabled",
                                SpendError::FvkMismatch => "not-owned",
                                SpendError::AnchorMismatch => "wrong-anchor",
                            });
                        }
                        Err(Fed::Output) => unreachable!(),
                    }
                    obs.class_if(want && s.note.value == 0, "zero-valued-spend");
                    obs.class_if(want && s.scope == crate::refm::Sc::Int, "internal-spend");
                    if want { yes += 1 } else { no += 1 }
                }
                MReq::Output(o) => {
                    ensure_eq!(got.is_ok(), m.bt.outputs(), "request {}: output accepted", i);
                    if m.bt.outputs() {
                        ov.push(o.value);
                        yes += 1;
                    } else {
                        no += 1;
                        obs.class("outputs-disabled");
                    }
                }
            }
            same_builder(&b, &sv, &ov).map_err(|e| format!("after request {}: {}", i, e))?;
        }
        if yes > 0 && no > 0 {
            obs.nontrivial();
        }
        // Refused requests leave no trace in the bundle.
        if no > 0 {
            let mut clean = Builder::new(m.bt.ty(), m.anchor());
            for q in &m.reqs {
                let ok = match q {
                    MReq::Spend(s) => m.spend_ok(s),
                    MReq::Output(_) => m.bt.outputs(),
                };
                if ok {
                    m.feed(&mut clean, q).map_err(|e| format!("an accepted request is refused when alone: {:?}", e))?;
                }
            }
            ensure_eq!(
                fingerprint(b.build(orc::rng(&m.rng))),
                fingerprint(clean.build(orc::rng(&m.rng))),
                "bundle after refused requests"
            );
        }
        Ok(())
    });

    // The lower-level entry points.
    r.family("direct", 3_000, 40_000, 400, || plan_g(false, 5), |p: &Plan, obs| {
        let m = p.mat();
        let mut infos = vec![];
        let mut used = vec![];
        for s in m.spends() {
            match s.info() {
                Some(i) => {
                    ensure!(s.owned, "SpendInfo::new accepted a key that does not own the note");
                    ensure_eq!(InputView::value::<u64>(&i), s.note.value, "value of the spend");
                    infos.push(i);
                    used.push(s);
                }
                None => {
                    obs.class("not-owned");
                    obs.nontrivial();
                    ensure!(!s.owned, "SpendInfo::new refused the owner's key");
                }
            }
        }
        let outs: Vec<_> = m.outputs().iter().map(|o| o.info()).collect();
        let no_spend = !m.bt.spends() && !infos.is_empty();
        let no_output = !m.bt.outputs() && !outs.is_empty();
        let no_anchor = used.iter().any(|s| !s.anchored);
        let refuse = no_spend || no_output || no_anchor;
        if refuse {
            obs.nontrivial();
        }
        let net: i128 = used.iter().map(|s| s.note.value as i128).sum::<i128>() - m.outputs().iter().map(|o| o.value as i128).sum::<i128>();
        let fit = used.iter().map(|s| s.note.value as u128).sum::<u128>() <= u64::MAX as u128
            && m.outputs().iter().map(|o| o.value as u128).sum::<u128>() <= u64::MAX as u128;
        let built = builder::bundle::<i64>(orc::rng(&m.rng), m.anchor(), m.bt.ty(), infos, outs);
        if let Err(e) = &built {
            message(e)?;
        }
        match built {
            Ok(_) => ensure!(
                !refuse,
                "bundle() accepted a forbidden request (spends disabled: {}, outputs disabled: {}, wrong anchor: {})",
                no_spend, no_output, no_anchor
            ),
            Err(BuildError::SpendsDisabled) => ensure!(no_spend, "SpendsDisabled reported without cause"),
            Err(BuildError::OutputsDisabled) => ensure!(no_output, "OutputsDisabled reported without cause"),
            Err(BuildError::AnchorMismatch) => {
                obs.class("wrong-anchor");
                ensure!(no_anchor, "AnchorMismatch reported without cause")
            }
            Err(BuildError::BundleTypeNotSatisfiable) => {
                ensure!(no_spend || no_output, "BundleTypeNotSatisfiable reported without cause")
            }
            Err(BuildError::ValueSum(_)) => {
                ensure!(!fit || i64::try_from(net).is_err(), "overflow reported without cause");
                ensure!(!refuse, "overflow reported for a forbidden request");
            }
            Err(e) => return Err(format!("unexpected error {:?}", e)),
        }
        Ok(())
    });
}
