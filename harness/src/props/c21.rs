//! C21: value arithmetic is exact, value commitments add up.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::refm;
use ff::PrimeField;
use group::GroupEncoding;
use orchard::value::{NoteValue, OverflowError, ValueCommitTrapdoor, ValueCommitment, ValueSum};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const LIM: i128 = u64::MAX as i128;

fn nv(v: u64) -> NoteValue {
    NoteValue::from_raw(v)
}
fn rcv(b: &B32) -> ValueCommitTrapdoor {
    ValueCommitTrapdoor::from_bytes(b.0).unwrap()
}
fn zero_rcv() -> ValueCommitTrapdoor {
    ValueCommitTrapdoor::from_bytes([0; 32]).unwrap()
}
fn commit_bytes(v: i128, r: &refm::Scalar) -> [u8; 32] {
    refm::value_commit(v, r).to_bytes()
}
/// Observes the integer inside a `ValueSum` through its commitment and its i64 conversion.
fn check_sum(what: &str, got: ValueSum, want: i128) -> R {
    let g = ValueCommitment::derive(got, zero_rcv()).to_bytes();
    ensure_eq!(g, commit_bytes(want, &refm::Scalar::zero()), "{}: commitment to the value {}", what, want);
    let c: Result<i64, OverflowError> = i64::try_from(got);
    ensure_eq!(c.ok(), i64::try_from(want).ok(), "{}: i64 conversion of {}", what, want);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sums {
    terms: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Commits {
    terms: Vec<(u64, u64, B32)>,
    extra: B32,
}

fn pair() -> BoxedStrategy<(u64, u64)> {
    prop_oneof![
        4 => (val_u64(), val_u64()),
        1 => val_u64().prop_map(|v| (v, 0)),
        1 => val_u64().prop_map(|v| (0, v)),
        1 => (val_u64(), 0u64..3).prop_map(|(v, d)| (v, v.wrapping_sub(d))),
        // differences around the i64 limits and around the range limits
        1 => (val_u64(), -2i64..=2).prop_map(|(v, d)| (v, v.wrapping_sub((1u64 << 63).wrapping_add(d as u64)))),
        1 => (val_u64(), -2i64..=2).prop_map(|(v, d)| (v, v.wrapping_add((1u64 << 63).wrapping_add(d as u64)))),
    ]
    .boxed()
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when a sum has at least two non-zero terms, or a commitment has a non-zero blinding factor and a non-zero value");
    r.assume("curve, field and hash-to-curve operations of pasta_curves are correct");

    r.family("difference", 60_000, 300_000, 2000, || pair(), |&(a, b), obs| {
        let want = a as i128 - b as i128;
        obs.class_if(want < 0, "negative");
        obs.class_if(i64::try_from(want).is_err(), "beyond-i64");
        obs.class_if(want == i64::MIN as i128 || want == i64::MAX as i128, "i64-extreme");
        obs.class_if(want.abs() == LIM, "range-extreme");
        if a != 0 && b != 0 {
            obs.nontrivial();
        }
        ensure_eq!(nv(a).inner(), a, "inner");
        ensure_eq!(nv(a) == nv(b), a == b, "equality of note values");
        let d = nv(a) - nv(b);
        ensure_eq!(d == (nv(a.max(1) - 1) - nv(b)), a == 0, "equality of value sums");
        check_sum("difference", d, want)
    });

    let sums = || {
        prop_oneof![
            3 => proptest::collection::vec(pair(), 0..8),
            // running totals that hover at the edge of the permitted range
            2 => (any::<bool>(), proptest::collection::vec((0u64..4, 0u64..4), 1..6)).prop_map(|(neg, v)| {
                let mut t = vec![if neg { (0, u64::MAX) } else { (u64::MAX, 0) }];
                t.extend(v);
                t
            }),
            1 => (val_u64(), -1i64..=1, any::<bool>(), 0u64..3, 0u64..3).prop_map(|(a, o, neg, x, y)| {
                let b = (u64::MAX - a).wrapping_add(o as u64);
                let f = |v: u64| if neg { (0, v) } else { (v, 0) };
                vec![f(a), f(b), (x, y)]
            }),
            1 => proptest::collection::vec((val_u64(), val_u64()), 8..40),
            1 => proptest::collection::vec((0u64..1 << 40, 0u64..1 << 40), 40..400),
        ]
        .prop_map(|terms| Sums { terms })
        .boxed()
    };
    r.family("sums", 18_000, 200_000, 2000, sums, |c: &Sums, obs| {
        let vs: Vec<ValueSum> = c.terms.iter().map(|(a, b)| nv(*a) - nv(*b)).collect();
        let ints: Vec<i128> = c.terms.iter().map(|(a, b)| *a as i128 - *b as i128).collect();
        if ints.iter().filter(|v| **v != 0).count() >= 2 {
            obs.nontrivial();
        }
        // Stepwise.
        let mut acc: Option<ValueSum> = Some(nv(0) - nv(0));
        let mut model: Option<i128> = Some(0);
        for (v, i) in vs.iter().zip(&ints) {
            acc = acc.and_then(|a| a + *v);
            model = model.map(|m| m + i).filter(|m| m.abs() <= LIM);
            match (&acc, model) {
                (Some(a), Some(m)) => check_sum("running total", *a, m)?,
                (None, None) => {}
                (a, m) => return Err(format!("running total {:?}, model {:?}", a, m)),
            }
        }
        obs.class_if(model.is_none(), "overflow");
        obs.class_if(model.map_or(false, |m| m.abs() == LIM), "range-extreme");
        obs.class_if(model.map_or(false, |m| i64::try_from(m).is_err()), "beyond-i64");
        let by_ref: Result<ValueSum, OverflowError> = vs.iter().sum();
        let by_val: Result<ValueSum, OverflowError> = vs.iter().copied().sum();
        for (n, s) in [("sum of references", by_ref), ("sum of values", by_val)] {
            match (s, model) {
                (Ok(s), Some(m)) => check_sum(n, s, m)?,
                (Err(_), None) => {}
                (s, m) => return Err(format!("{}: got {:?}, model {:?}", n, s.ok(), m)),
            }
        }
        Ok(())
    });

    let commits = || {
        (
            prop_oneof![
                100 => proptest::collection::vec((pair(), scalar32()), 1..3),
                100 => proptest::collection::vec((pair(), scalar32()), 3..7),
                // many terms, of which most are the same
                1 => (proptest::collection::vec((pair(), scalar32()), 1..4), 60usize..150)
                    .prop_map(|(v, n)| (0..n).map(|i| v[i % v.len()].clone()).collect()),
            ],
            scalar32(),
        )
            .prop_map(|(t, extra)| Commits { terms: t.into_iter().map(|((a, b), r)| (a, b, r)).collect(), extra })
            .boxed()
    };
    r.family("commitments", 7_000, 60_000, 1000, commits, |c: &Commits, obs| {
        let mut cvs = vec![];
        let mut total = 0i128;
        let mut rsum = refm::Scalar::zero();
        for (a, b, rb) in &c.terms {
            let v = *a as i128 - *b as i128;
            let rs = refm::scalar_of(&rb.0).unwrap();
            if v != 0 && rs != refm::Scalar::zero() {
                obs.nontrivial();
            }
            obs.class_if(v < 0, "negative");
            obs.class_if(v.abs() == LIM, "range-extreme");
            let cv = ValueCommitment::derive(nv(*a) - nv(*b), rcv(rb));
            ensure_eq!(cv.to_bytes(), commit_bytes(v, &rs), "commitment to {}", v);
            let back = Option::<ValueCommitment>::from(ValueCommitment::from_bytes(&cv.to_bytes()));
            ensure_eq!(back.map(|x| x.to_bytes()), Some(cv.to_bytes()), "commitment encoding");
            // Different blinding, same value.
            let other = refm::scalar_of(&c.extra.0).unwrap();
            if other != rs {
                let cv2 = ValueCommitment::derive(nv(*a) - nv(*b), rcv(&c.extra));
                ensure!(cv2.to_bytes() != cv.to_bytes(), "same commitment under two blinding factors");
            }
            // Different value, same blinding.
            let cv3 = ValueCommitment::derive(nv(*b) - nv(*a), rcv(rb));
            ensure_eq!(cv3.to_bytes() == cv.to_bytes(), v == 0, "commitments to v and -v for v = {}", v);
            total += v;
            rsum += rs;
            cvs.push(cv);
        }
        let want = if total.abs() <= LIM {
            // Within range: the sum is itself a commitment the library can derive.
            let vs: Option<ValueSum> = c.terms.iter().fold(Some(nv(0) - nv(0)), |acc, (a, b, _)| acc.and_then(|x| x + (nv(*a) - nv(*b))));
            let rs: ValueCommitTrapdoor = c.terms.iter().map(|(_, _, rb)| rcv(rb)).collect::<Vec<_>>().iter().sum();
            if let Some(vs) = vs {
                obs.class("derivable-sum");
                let d = ValueCommitment::derive(vs, rs).to_bytes();
                ensure_eq!(d, commit_bytes(total, &rsum), "commitment to the sum {}", total);
            }
            commit_bytes(total, &rsum)
        } else {
            obs.class("sum-out-of-range");
            let hi = LIM * total.signum();
            let mut rest = total - hi;
            let mut p = refm::value_commit(hi, &rsum);
            while rest != 0 {
                let step = rest.clamp(-LIM, LIM);
                p += refm::value_commit(step, &refm::Scalar::zero());
                rest -= step;
            }
            p.to_bytes()
        };
        let s1: ValueCommitment = cvs.iter().sum();
        let s2: ValueCommitment = cvs.iter().cloned().sum();
        ensure_eq!(s1.to_bytes(), want, "sum of references to commitments");
        ensure_eq!(s2.to_bytes(), want, "sum of commitments");
        let s3 = cvs[1..].iter().fold(cvs[0].clone(), |a, b| a + b);
        ensure_eq!(s3.to_bytes(), want, "repeated addition of commitments");
        // Subtraction.
        let (a0, b0, r0) = &c.terms[0];
        let (a1, b1, r1) = &c.terms[c.terms.len() - 1];
        let dv = (*a0 as i128 - *b0 as i128) - (*a1 as i128 - *b1 as i128);
        let dr = refm::scalar_of(&r0.0).unwrap() - refm::scalar_of(&r1.0).unwrap();
        let diff = cvs[0].clone() - cvs[cvs.len() - 1].clone();
        let h = dv.clamp(-LIM, LIM);
        let want = (refm::value_commit(h, &dr) + refm::value_commit(dv - h, &refm::Scalar::zero())).to_bytes();
        ensure_eq!(diff.to_bytes(), want, "difference of commitments");
        // Trapdoor addition.
        let t = rcv(r0) + &rcv(r1);
        let ts = refm::scalar_of(&r0.0).unwrap() + refm::scalar_of(&r1.0).unwrap();
        ensure_eq!(
            ValueCommitment::derive(nv(*a0) - nv(*b0), t).to_bytes(),
            commit_bytes(*a0 as i128 - *b0 as i128, &ts),
            "sum of two blinding factors"
        );
        let _ = ts.to_repr();
        Ok(())
    });
    let _ = Obs::default();
}
