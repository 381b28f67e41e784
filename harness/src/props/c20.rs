//! C20: bundle and action transformations change only what they are asked to.

use crate::engine::{Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::raw_actions;
use crate::pool::*;
use crate::props::c19::{many_g, wild_g, WildG};
use crate::refm::RAction;
use nonempty::NonEmpty;
use orchard::{
    bundle::{Authorization, Flags},
    note_encryption::CompactAction,
    Action, Anchor, Bundle,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zcash_note_encryption::ShieldedOutput;

#[derive(Clone, Debug, PartialEq, Eq)]
struct AuthA(u64);
#[derive(Clone, Debug, PartialEq, Eq)]
struct AuthB(String);
impl Authorization for AuthA {
    type SpendAuth = u64;
}
impl Authorization for AuthB {
    type SpendAuth = (u64, String);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Map the authorization.
    Map,
    /// Fallible map, failing at the given visits (the number of actions stands for the final step).
    TryMap(Vec<u8>),
    /// Map the balance, possibly failing.
    Balance(i64, bool),
    /// Clone and drop the original.
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    w: WildG,
    ops: Vec<Op>,
    tag: u64,
}

/// What every accessor must return.
#[derive(Clone, Debug, PartialEq)]
struct Model {
    acts: Vec<RAction>,
    auths: Vec<u64>,
    flags: u8,
    balance: i64,
    anchor: [u8; 32],
    tag: u64,
}

fn check_a(b: &Bundle<AuthA, i64>, m: &Model, when: &str) -> R {
    ensure_eq!(raw_actions(b), m.acts, "actions {}", when);
    ensure_eq!(b.actions().iter().map(|a| *a.authorization()).collect::<Vec<_>>(), m.auths, "spend authorizations {}", when);
    ensure_eq!(b.flags().to_byte(), m.flags, "flags {}", when);
    ensure_eq!(b.flags().spends_enabled(), m.flags & 1 == 1, "spends flag {}", when);
    ensure_eq!(b.flags().outputs_enabled(), m.flags & 2 == 2, "outputs flag {}", when);
    ensure_eq!(*b.value_balance(), m.balance, "balance {}", when);
    ensure_eq!(b.anchor().to_bytes(), m.anchor, "anchor {}", when);
    ensure_eq!(b.authorization().0, m.tag, "authorization {}", when);
    Ok(())
}

/// A log the transformation closures write to, also used as their context.
#[derive(Default)]
struct Log {
    visits: Vec<(u64, u64)>,
    steps: Vec<u64>,
    next: u64,
}

fn map_there(b: Bundle<AuthA, i64>, log: &mut Log) -> Bundle<AuthB, i64> {
    b.map_authorization(
        log,
        |l, t, a| {
            l.visits.push((t.0, a));
            l.next += 1;
            (l.next, format!("{}-{}", t.0, a))
        },
        |l, t| {
            l.steps.push(t.0);
            AuthB(format!("{}!", t.0))
        },
    )
}

fn run_hist(c: &Hist, obs: &mut crate::engine::Obs) -> R {
    let raw = c.w.raw();
    let n = raw.acts.len();
    let mut m = Model {
        acts: raw.acts.clone(),
        auths: (0..n as u64).map(|i| c.tag.wrapping_add(i * i + 1)).collect(),
        flags: raw.flags,
        balance: raw.balance,
        anchor: raw.anchor,
        tag: c.tag,
    };
    let acts: Option<Vec<Action<u64>>> = m.acts.iter().zip(&m.auths).map(|(a, t)| orc::action(a, *t)).collect();
    let mut b: Bundle<AuthA, i64> = Bundle::from_parts(
        NonEmpty::from_vec(acts.ok_or("an action does not decode")?).unwrap(),
        Flags::from_byte(m.flags).ok_or("flags refused")?,
        m.balance,
        Option::<Anchor>::from(Anchor::from_bytes(m.anchor)).ok_or("anchor refused")?,
        AuthA(m.tag),
    );
    check_a(&b, &m, "after assembly")?;
    for op in &c.ops {
        match op {
            Op::Map => {
                obs.class("map");
                let mut log = Log { next: 100, ..Log::default() };
                let want: Vec<(u64, u64)> = m.auths.iter().map(|a| (m.tag, *a)).collect();
                let x = map_there(b, &mut log);
                ensure_eq!(log.visits, want, "visits of a mapping");
                ensure_eq!(log.steps, vec![m.tag], "final steps of a mapping");
                ensure_eq!(raw_actions(&x), m.acts, "actions after a mapping");
                let got: Vec<(u64, String)> = x.actions().iter().map(|a| a.authorization().clone()).collect();
                let want: Vec<(u64, String)> =
                    m.auths.iter().enumerate().map(|(i, a)| (101 + i as u64, format!("{}-{}", m.tag, a))).collect();
                ensure_eq!(got, want, "spend authorizations after a mapping");
                ensure_eq!(x.authorization().0, format!("{}!", m.tag), "authorization after a mapping");
                ensure_eq!(
                    (x.flags().to_byte(), *x.value_balance(), x.anchor().to_bytes()),
                    (m.flags, m.balance, m.anchor),
                    "flags, balance and anchor after a mapping"
                );
                // And back, to a new tag.
                let tag = m.tag.rotate_left(7) ^ 0x55;
                b = x.map_authorization(&mut (), |_, _, (i, _)| i.wrapping_mul(3), |_, _| AuthA(tag));
                m.tag = tag;
                m.auths = (0..n as u64).map(|i| (101 + i).wrapping_mul(3)).collect();
            }
            Op::TryMap(fail) => {
                let fails: Vec<usize> = fail.iter().map(|f| *f as usize % (n + 1)).collect();
                let mut log = Log::default();
                let before = b.clone();
                let f2 = fails.clone();
                let f3 = fails.clone();
                let tag = m.tag.rotate_left(9) ^ 0x77;
                let res = b.try_map_authorization::<_, AuthA, usize>(
                    &mut log,
                    move |l, t, a| {
                        let i = l.visits.len();
                        l.visits.push((t.0, a));
                        if f2.contains(&i) {
                            Err(i)
                        } else {
                            Ok(a ^ 1)
                        }
                    },
                    move |l, t| {
                        l.steps.push(t.0);
                        if f3.contains(&n) {
                            Err(n)
                        } else {
                            Ok(AuthA(tag))
                        }
                    },
                );
                let want: Vec<(u64, u64)> = m.auths.iter().map(|a| (m.tag, *a)).collect();
                match res {
                    Ok(x) => {
                        obs.class("fallible-map-succeeds");
                        ensure!(fails.is_empty(), "a failing mapping succeeded");
                        ensure_eq!(log.visits, want, "visits of a fallible mapping");
                        ensure_eq!(log.steps, vec![m.tag], "final steps of a fallible mapping");
                        m.tag = tag;
                        m.auths.iter_mut().for_each(|a| *a ^= 1);
                        b = x;
                    }
                    Err(e) => {
                        obs.class("fallible-map-fails");
                        let first = *fails.iter().min().ok_or("a mapping that never fails failed")?;
                        ensure_eq!(e, first, "failure of a mapping that fails at {:?}", fails);
                        ensure_eq!(log.visits[..], want[..(first + 1).min(n)], "visits of a failing mapping");
                        ensure_eq!(log.steps.len(), (first == n) as usize, "final steps of a failing mapping");
                        obs.class_if(fails.iter().any(|f| *f != first), "several-failures");
                        b = before;
                    }
                }
            }
            Op::Balance(v, ok) => {
                let before = b.clone();
                let mut seen = vec![];
                let res = b.try_map_value_balance(|x| {
                    seen.push(x);
                    if *ok {
                        Ok((*v, x))
                    } else {
                        Err(*v)
                    }
                });
                ensure_eq!(seen, vec![m.balance], "balance handed to the caller");
                match res {
                    Ok(x) => {
                        obs.class("balance-map-succeeds");
                        ensure!(*ok, "a failing balance mapping succeeded");
                        ensure_eq!(*x.value_balance(), (*v, m.balance), "mapped balance");
                        b = x.try_map_value_balance(|(v, _)| Ok::<i64, ()>(v)).map_err(|_| "balance mapping failed")?;
                        m.balance = *v;
                    }
                    Err(e) => {
                        obs.class("balance-map-fails");
                        ensure!(!*ok && e == *v, "wrong error from a balance mapping");
                        b = before;
                    }
                }
            }
            Op::Clone => {
                let x = b.clone();
                drop(b);
                b = x;
            }
        }
        check_a(&b, &m, &format!("after {:?}", op))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ActCase {
    a: ActG,
    tag: u64,
    fail: bool,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when at least one transformation was applied to a bundle or action");
    r.assume("none beyond the standard library");

    let hist = || {
        let op = prop_oneof![
            3 => Just(Op::Map),
            2 => Just(Op::TryMap(vec![])),
            2 => proptest::collection::vec(any::<u8>(), 1..3).prop_map(Op::TryMap),
            2 => (any::<i64>(), any::<bool>()).prop_map(|(v, b)| Op::Balance(v, b)),
            1 => Just(Op::Clone),
        ];
        (
            prop_oneof![50 => wild_g(5), 10 => wild_g(14), 1 => many_g(300)],
            proptest::collection::vec(op, 0..7),
            any::<u64>(),
        )
            .prop_map(|(w, ops, tag)| Hist { w, ops, tag })
            .boxed()
    };
    r.family("histories", 24_000, 600_000, 500, hist, |c: &Hist, obs| {
        if !c.ops.is_empty() {
            obs.nontrivial();
        }
        run_hist(c, obs)
    });

    let acts = || (act_g(), any::<u64>(), any::<bool>()).prop_map(|(a, tag, fail)| ActCase { a, tag, fail }).boxed();
    r.family("actions", 40_000, 600_000, 500, acts, |c: &ActCase, obs| {
        obs.nontrivial();
        let want = c.a.raw();
        let a = orc::action(&want, c.tag).ok_or("an action does not decode")?;
        ensure_eq!(orc::raction(&a), want, "fields of an assembled action");
        ensure_eq!(*a.authorization(), c.tag, "authorization of an assembled action");
        ensure_eq!(a.rho().to_bytes(), want.out.nf, "uniqueness value");
        let mut calls = vec![];
        let m = a.clone().map(|x| {
            calls.push(x);
            (x, "mapped")
        });
        ensure_eq!(calls, vec![c.tag], "calls of map");
        ensure_eq!(orc::raction(&m), want, "fields after map");
        ensure_eq!(*m.authorization(), (c.tag, "mapped"), "authorization after map");
        let mut calls = vec![];
        let t = a.clone().try_map(|x| {
            calls.push(x);
            if c.fail {
                Err(x ^ 9)
            } else {
                Ok(x.to_string())
            }
        });
        ensure_eq!(calls, vec![c.tag], "calls of try_map");
        match t {
            Ok(t) => {
                ensure!(!c.fail, "a failing try_map succeeded");
                ensure_eq!(orc::raction(&t), want, "fields after try_map");
                ensure_eq!(*t.authorization(), c.tag.to_string(), "authorization after try_map");
            }
            Err(e) => ensure!(c.fail && e == c.tag ^ 9, "wrong error from try_map"),
        }
        // Compact form, converted and assembled.
        let conv = CompactAction::from(&a);
        let asm = CompactAction::from_parts(
            *a.nullifier(),
            *a.cmx(),
            zcash_note_encryption::EphemeralKeyBytes(want.out.epk),
            want.out.enc[..52].try_into().unwrap(),
        );
        for (k, ca) in [("converted", &conv), ("assembled", &asm), ("cloned", &conv.clone())] {
            ensure_eq!(ca.nullifier().to_bytes(), want.out.nf, "nullifier of a {} compact action", k);
            ensure_eq!(ca.cmx().to_bytes(), want.out.cmx, "commitment of a {} compact action", k);
            ensure_eq!(ca.rho().to_bytes(), want.out.nf, "uniqueness value of a {} compact action", k);
            ensure_eq!(ca.ephemeral_key().0, want.out.epk, "ephemeral key of a {} compact action", k);
            ensure_eq!(ca.cmstar_bytes(), want.out.cmx, "commitment bytes of a {} compact action", k);
            ensure_eq!(ca.enc_ciphertext().to_vec(), want.out.enc[..52].to_vec(), "ciphertext of a {} compact action", k);
        }
        ensure_eq!(a.ephemeral_key().0, want.out.epk, "ephemeral key of an action");
        ensure_eq!(a.cmstar_bytes(), want.out.cmx, "commitment bytes of an action");
        ensure_eq!(a.enc_ciphertext().to_vec(), want.out.enc, "ciphertext of an action");
        Ok(())
    });

    let auth = || prop_oneof![50 => wild_g(6), 1 => many_g(300)].boxed();
    r.family("authorized", 20_000, 400_000, 500, auth, |c: &WildG, obs| {
        obs.nontrivial();
        let raw = c.raw();
        let b = raw.bundle().ok_or("the bundle does not assemble")?;
        ensure_eq!(RawBundle::of(&b), raw, "an assembled authorized bundle");
        ensure_eq!(RawBundle::of(&b.clone()), raw, "a cloned authorized bundle");
        Ok(())
    });
}
