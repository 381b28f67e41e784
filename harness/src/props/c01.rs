//! C01: value conservation and overflow.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::prove;
use group::GroupEncoding;
use orchard::builder::{self, BuildError, InputView, OutputView};
use orchard::value::OverflowError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The caller's balance must be the exact net value, or an overflow error where the model allows one.
fn judge<V: Copy + std::fmt::Debug + PartialEq + TryFrom<i64>>(
    what: &str,
    got: Result<V, ()>,
    net: i128,
    fit: bool,
) -> R {
    let want = i64::try_from(net).ok().and_then(|x| V::try_from(x).ok());
    match (got, want) {
        (Ok(g), Some(w)) => ensure_eq!(g, w, "{}", what),
        (Ok(g), None) => return Err(format!("{}: {:?} reported for a net value of {}", what, g, net)),
        (Err(()), Some(_)) => ensure!(!fit, "{}: overflow reported although the net value {} fits", what, net),
        (Err(()), None) => {}
    }
    Ok(())
}

pub fn check_bundle(m: &Mat, b: Unauth<i64>, obs: &mut Obs) -> R {
    ensure_eq!(*b.value_balance() as i128, m.net(), "value balance of the bundle");
    let acts = raw_actions(&b);
    let bvk: [u8; 32] = (&b.binding_validating_key()).into();
    ensure_eq!(bvk, model_bvk(&acts, *b.value_balance()).to_bytes(), "binding validating key");
    #[cfg(feature = "hooks")]
    {
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let sighash = [0x5a; 32];
        let f = b
            .verif_with_proof(orchard::Proof::new(vec![]))
            .apply_signatures(orc::rng(&[3; 32]), sighash, &asks)
            .map_err(|e| format!("signing failed: {:?}", e))?;
        ensure_eq!(*f.value_balance() as i128, m.net(), "value balance of the signed bundle");
        check_signatures(&f, &sighash)?;
        obs.checks += 1;
    }
    #[cfg(not(feature = "hooks"))]
    {
        obs.checks += 1;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    plan: Plan,
    direct: bool,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least one accepted request has a non-zero value");
    r.assume("curve and hash libraries shared by model and crate; ChaCha20 as the source of randomness");

    // Reported balances only: many requests, all value shapes.
    let report = || prop_oneof![60 => plan_g(true, 24), 1 => many_plan_g(24, 300)].boxed();
    r.family("reported", 3_000, 60_000, 400, report, |p: &Plan, obs| {
        let m = p.mat();
        let net = m.net();
        if m.spend_total() + m.output_total() > 0 {
            obs.nontrivial();
        }
        obs.class_if(i64::try_from(net).is_err(), "net-beyond-i64");
        obs.class_if(!m.totals_fit(), "totals-beyond-64-bits");
        obs.class_if(net == i64::MIN as i128 || net == i64::MAX as i128, "i64-extreme");
        let b = m.builder();
        let e = |_: OverflowError| ();
        // What the builder says it holds adds up to what it reports.
        let held = b.spends().iter().map(|s| InputView::value::<u64>(s) as i128).sum::<i128>()
            - b.outputs().iter().map(|o| OutputView::value::<u64>(o) as i128).sum::<i128>();
        ensure_eq!(held, net, "net value of the requests the builder holds");
        judge::<i64>("value_balance::<i64>", b.value_balance::<i64>().map_err(e), net, m.totals_fit())?;
        judge::<i32>("value_balance::<i32>", b.value_balance::<i32>().map_err(e), net, m.totals_fit())?;
        judge::<u64>("value_balance::<u64>", b.value_balance::<u64>().map_err(e), net, m.totals_fit())?;
        judge::<i8>("value_balance::<i8>", b.value_balance::<i8>().map_err(e), net, m.totals_fit())?;
        judge::<i128>("value_balance::<i128>", b.value_balance::<i128>().map_err(e), net, m.totals_fit())
    });

    let built = || {
        (prop_oneof![80 => plan_g(true, 10), 1 => many_plan_g(10, 80)], any::<bool>())
            .prop_map(|(plan, direct)| Built { plan, direct })
            .boxed()
    };
    r.family("built", 3_500, 60_000, 300, built, |c: &Built, obs| {
        let m = c.plan.mat();
        let net = m.net();
        if m.spend_total() + m.output_total() > 0 {
            obs.nontrivial();
        }
        obs.class_if(i64::try_from(net).is_err(), "net-beyond-i64");
        obs.class_if(!m.totals_fit(), "totals-beyond-64-bits");
        obs.class_if(net < 0, "negative-net");
        obs.class_if(net == i64::MIN as i128 || net == i64::MAX as i128, "i64-extreme");
        let rng = orc::rng(&m.rng);
        let res = if c.direct {
            let spends = m.spends().iter().map(|s| s.info().ok_or("SpendInfo refused")).collect::<Result<Vec<_>, _>>()?;
            let outs = m.outputs().iter().map(|o| o.info()).collect();
            builder::bundle::<i64>(rng, m.anchor(), m.bt.ty(), spends, outs)
        } else {
            m.builder().build::<i64>(rng)
        };
        match res {
            Ok(None) => {
                obs.class("no-bundle");
                ensure_eq!(m.bt.num_actions(m.spends().len(), m.outputs().len()), Some(0), "no bundle only without requests");
                Ok(())
            }
            Ok(Some((b, _))) => {
                judge::<i64>("bundle balance", Ok(*b.value_balance()), net, m.totals_fit())?;
                obs.class("bundle");
                check_bundle(&m, b, obs)
            }
            Err(BuildError::ValueSum(_)) => {
                obs.class("overflow");
                judge::<i64>("build", Err(()), net, m.totals_fit())
            }
            Err(e) => Err(format!("unexpected error {:?}", e)),
        }
    });

    // Narrow balance types.
    r.family("narrow", 1_000, 10_000, 300, built, |c: &Built, obs| {
        let m = c.plan.mat();
        let net = m.net();
        if m.spend_total() + m.output_total() > 0 {
            obs.nontrivial();
        }
        let got = match m.builder().build::<i32>(orc::rng(&m.rng)) {
            Ok(None) => return Ok(()),
            Ok(Some((b, _))) => Ok(*b.value_balance()),
            Err(BuildError::ValueSum(_)) => Err(()),
            Err(e) => return Err(format!("unexpected error {:?}", e)),
        };
        obs.class(if got.is_ok() { "fits-i32" } else { "overflows-i32" });
        judge::<i32>("build::<i32>", got, net, m.totals_fit())
    });

    // The whole flow with real proofs.
    if r.wants("proven") {
        prove::warm();
    }
    let small = || plan_g(true, 2);
    r.family("proven", 6, 60, 6, small, |p: &Plan, obs| {
        let m = p.mat();
        let b = match m.builder().build::<i64>(orc::rng(&m.rng)) {
            Ok(Some((b, _))) => b,
            _ => return Ok(()),
        };
        if m.spend_total() + m.output_total() > 0 {
            obs.nontrivial();
        }
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let f = b
            .create_proof(&prove::PK, orc::rng(&[1; 32]))
            .and_then(|b| b.apply_signatures(orc::rng(&[2; 32]), [0xa5; 32], &asks))
            .map_err(|e| format!("authorizing failed: {:?}", e))?;
        ensure_eq!(*f.value_balance() as i128, m.net(), "value balance");
        check_signatures(&f, &[0xa5; 32])
    });
}
