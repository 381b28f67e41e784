//! C23: built bundles are freshly randomized and shuffled.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::refm;
use group::GroupEncoding;
use orchard::builder::BundleMetadata;
use proptest::prelude::*;
use rand::RngCore;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    plan: Plan,
    rng2: B32,
}

/// Identical or nearly identical requests, for which only the randomness can make a difference.
fn monotone_plan() -> BoxedStrategy<Plan> {
    (
        seed32(),
        spend_g(true),
        out_g(),
        (0usize..5, 0usize..5),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        any::<u64>(),
        seed32(),
    )
        .prop_map(|(key, mut s, mut o, (ns, no), spends, fill, rng)| {
            s.value >>= 5;
            o.value >>= 5;
            s.again = None;
            let mut reqs = vec![];
            for i in 0..if spends { ns } else { 0 } {
                let mut s = s.clone();
                if i > 0 {
                    s.again = Some(0);
                }
                reqs.push(Req::Spend(s));
            }
            for _ in 0..no {
                reqs.push(Req::Output(o.clone()));
            }
            Plan {
                keys: vec![key],
                bt: Bt::Tx { spends, outputs: true, required: true },
                reqs,
                fill,
                anchor: AnchorG::Tree,
                rng,
            }
        })
        .boxed()
}

fn unblinded(m: &Mat, outs: &[refm::RAction], meta: &BundleMetadata) -> R {
    let n = outs.len();
    let mut v = vec![0i128; n];
    let mut ak: Vec<Option<[u8; 32]>> = vec![None; n];
    for (i, s) in m.spends().iter().enumerate() {
        let k = meta.spend_action_index(i).ok_or("no index")?;
        v[k] += s.note.value as i128;
        ak[k] = Some(s.fvk_keys.ak_bytes);
    }
    for (i, o) in m.outputs().iter().enumerate() {
        v[meta.output_action_index(i).ok_or("no index")?] -= o.value as i128;
    }
    for (i, a) in outs.iter().enumerate() {
        let open = refm::value_commit(v[i], &refm::Scalar::zero()).to_bytes();
        ensure!(a.out.cv != open, "action {}: value commitment is not blinded", i);
        let flipped = refm::value_commit(-v[i], &refm::Scalar::zero()).to_bytes();
        ensure!(a.out.cv != flipped, "action {}: value commitment is not blinded", i);
        if let Some(ak) = ak[i] {
            ensure!(a.rk != ak, "action {}: rk is the unrandomized key", i);
        }
        ensure!(a.rk != [0; 32] && a.rk != refm::G_SPEND.to_bytes(), "action {}: degenerate rk", i);
    }
    Ok(())
}

/// Wilson-Hilferty normal deviate of a chi-square statistic.
fn deviate(chi: f64, dof: f64) -> f64 {
    ((chi / dof).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * dof))) / (2.0 / (9.0 * dof)).sqrt()
}
fn uniform(what: &str, counts: &BTreeMap<Vec<usize>, u64>, cells: usize, total: u64) -> R {
    if cells < 2 {
        return Ok(());
    }
    let e = total as f64 / cells as f64;
    let seen: f64 = counts.values().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let chi = seen + (cells - counts.len().min(cells)) as f64 * e;
    ensure!(counts.len() <= cells, "{}: {} outcomes where {} are possible", what, counts.len(), cells);
    let z = deviate(chi, (cells - 1) as f64);
    ensure!(
        z < 7.5,
        "{}: not uniform over {} outcomes in {} builds (chi-square {:.1}, deviate {:.1}): {:?}",
        what, cells, total, chi, z, counts
    );
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shuffle {
    spends: usize,
    outputs: usize,
    seed: B32,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the bundle has at least two actions with at least one request, or positions were tallied over many builds");
    r.assume("the random source is a ChaCha20 generator with a generated seed; uniformity is judged at a deviate of 7.5 (false alarm below 1e-12 per test)");

    let fresh = || {
        (prop_oneof![3 => monotone_plan(), 1 => plan_g(true, 5)], seed32())
            .prop_map(|(plan, rng2)| Fresh { plan, rng2 })
            .boxed()
    };
    r.family("fresh", 2_400, 60_000, 200, fresh, |c: &Fresh, obs: &mut Obs| {
        let m = c.plan.mat();
        if c.plan.rng == c.rng2 {
            return Ok(());
        }
        let build = |s: &[u8; 32]| m.builder().build::<i64>(orc::rng(s));
        let (a, b) = match (build(&m.rng), build(&c.rng2.0)) {
            (Ok(Some(a)), Ok(Some(b))) => (a, b),
            _ => return Ok(()),
        };
        let acts: Vec<refm::RAction> = raw_actions(&a.0).into_iter().chain(raw_actions(&b.0)).collect();
        if !c.plan.reqs.is_empty() {
            obs.nontrivial();
        }
        obs.class_if(m.spends().len() > 1, "repeated-spend");
        obs.class_if(m.outputs().len() > 1, "repeated-output");
        unblinded(&m, &raw_actions(&a.0), &a.1)?;
        unblinded(&m, &raw_actions(&b.0), &b.1)?;
        let distinct = |what: &str, v: Vec<&[u8]>| -> R {
            let s: BTreeSet<_> = v.iter().collect();
            ensure_eq!(s.len(), v.len(), "number of distinct {}", what);
            Ok(())
        };
        distinct("randomized keys", acts.iter().map(|a| &a.rk[..]).collect())?;
        distinct("value commitments", acts.iter().map(|a| &a.out.cv[..]).collect())?;
        distinct("ephemeral keys", acts.iter().map(|a| &a.out.epk[..]).collect())?;
        distinct("output commitments", acts.iter().map(|a| &a.out.cmx[..]).collect())?;
        distinct("note ciphertexts", acts.iter().map(|a| &a.out.enc[..]).collect())?;
        distinct("outgoing ciphertexts", acts.iter().map(|a| &a.out.out[..]).collect())?;
        // Padding nullifiers never repeat; requested ones repeat exactly as requested.
        let known: BTreeSet<[u8; 32]> = m.spends().iter().map(|s| s.nf()).collect();
        distinct(
            "padding nullifiers",
            acts.iter().filter(|a| !known.contains(&a.out.nf)).map(|a| &a.out.nf[..]).collect(),
        )?;
        // Seeds of the requested outputs are fresh, too.
        let mut seeds = BTreeSet::new();
        let mut count = 0;
        for (bun, meta) in [(&a.0, &a.1), (&b.0, &b.1)] {
            let outs = raw_outs(bun);
            for (i, o) in m.outputs().iter().enumerate() {
                let idx = meta.output_action_index(i).ok_or("no index")?;
                if let Some(d) = refm::decrypt_ivk(&outs[idx], &o.ivk) {
                    count += 1;
                    seeds.insert(d.note.rseed);
                }
            }
        }
        ensure_eq!(seeds.len(), count, "number of distinct note seeds");
        Ok(())
    });

    // Positions over many builds of the same requests.
    let builds: u64 = if r.thorough() { 1_200 } else { 400 };
    let shuffle = || {
        prop_oneof![
            3 => (0usize..=3, 0usize..=3),
            1 => (0usize..=5, 0usize..=5),
            1 => Just((1, 1)),
            1 => Just((2, 2)),
        ]
        .prop_flat_map(|(s, o)| (Just(s), Just(o), seed32()))
        .prop_map(|(spends, outputs, seed)| Shuffle { spends, outputs, seed })
        .boxed()
    };
    r.family("positions", 24, 400, 8, shuffle, |c: &Shuffle, obs| {
        let (ns, no) = (c.spends, c.outputs);
        let n = ns.max(no).max(2);
        if ns + no == 0 {
            return Ok(());
        }
        obs.nontrivial();
        let mut g = orc::rng(&c.seed.0);
        let key = B32::from(c.seed);
        let plan = Plan {
            keys: vec![key],
            bt: Bt::Tx { spends: true, outputs: true, required: false },
            reqs: (0..ns)
                .map(|i| {
                    Req::Spend(SpendG {
                        key: 0,
                        internal: i % 2 == 1,
                        div: By([i as u8; 11]),
                        // Zero-valued notes need no anchor, which keeps the builds cheap.
                        value: 0,
                        rho: By(fill_base_bytes(i as u64)),
                        rseed: By([i as u8; 32]),
                        pos: i as u32,
                        fvk: FvkG::Own,
                        path: PathG::Good,
                        again: None,
                        stray: None,
                    })
                })
                .chain((0..no).map(|i| {
                    Req::Output(OutG {
                        to: ToG::Own { key: 0, internal: false, div: By([i as u8; 11]) },
                        ovk: OvkG::None,
                        value: i as u64,
                        memo: None,
                    })
                }))
                .collect(),
            fill: 1,
            anchor: AnchorG::Tree,
            rng: key,
        };
        let m = plan.mat();
        let mut each: Vec<BTreeMap<Vec<usize>, u64>> = vec![BTreeMap::new(); ns + no];
        let mut orders: [BTreeMap<Vec<usize>, u64>; 2] = [BTreeMap::new(), BTreeMap::new()];
        let mut joint: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
        let mut rel: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
        for _ in 0..builds {
            let mut s = [0; 32];
            g.fill_bytes(&mut s);
            let (_, meta) = m
                .builder()
                .build::<i64>(orc::rng(&s))
                .map_err(|e| format!("build: {:?}", e))?
                .ok_or("no bundle")?;
            let sp: Vec<usize> = (0..ns).map(|i| meta.spend_action_index(i).ok_or("no index")).collect::<Result<_, _>>()?;
            let op: Vec<usize> = (0..no).map(|i| meta.output_action_index(i).ok_or("no index")).collect::<Result<_, _>>()?;
            for (i, p) in sp.iter().chain(&op).enumerate() {
                *each[i].entry(vec![*p]).or_default() += 1;
            }
            for (k, v) in [&sp, &op].into_iter().enumerate() {
                // Relative order of the first (up to) three requests.
                let head = &v[..v.len().min(3)];
                let mut o: Vec<usize> = (0..head.len()).collect();
                o.sort_by_key(|i| head[*i]);
                *orders[k].entry(o).or_default() += 1;
            }
            if ns > 0 && no > 0 {
                *joint.entry(vec![sp[0], op[0]]).or_default() += 1;
                *rel.entry(vec![(op[no - 1] + n - sp[ns - 1]) % n]).or_default() += 1;
            }
        }
        for (i, e) in each.iter().enumerate() {
            uniform(&format!("position of {} {}", if i < ns { "spend" } else { "output" }, if i < ns { i } else { i - ns }), e, n, builds)?;
        }
        let fact = |k: usize| (1..=k.min(3)).product::<usize>();
        uniform("order of the spends", &orders[0], fact(ns), builds)?;
        uniform("order of the outputs", &orders[1], fact(no), builds)?;
        if ns > 0 && no > 0 {
            uniform("joint position of a spend and an output", &joint, n * n, builds)?;
            uniform("distance between a spend and an output", &rel, n, builds)?;
        }
        Ok(())
    });
}

fn fill_base_bytes(i: u64) -> [u8; 32] {
    use ff::PrimeField;
    fill_base(99, 0, i).to_repr()
}
