//! C05: every honest action can be proven and verifies.

use crate::ctx::*;
use crate::engine::Runner;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::prove;
use crate::refm;
use orchard::{circuit::Instance, Proof};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    ctxs: Vec<CtxG>,
    rng: B32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    plan: Plan,
    rng: B32,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when an action spends or creates a non-zero value");
    r.assume("MockProver (halo2_proofs) decides satisfaction of the circuit's constraints");

    r.family("witness", 128, 3_000, 60, || ctx_g(), |c: &CtxG, obs| {
        let x = c.mat();
        if c.v_old != 0 || c.v_new != 0 {
            obs.nontrivial();
        }
        obs.class_if(c.internal, "internal-scope");
        obs.class_if(c.v_old == 0, "zero-spend");
        obs.class_if(c.v_new == 0, "zero-output");
        obs.class_if(c.free_anchor.is_some(), "unrelated-anchor");
        obs.class_if(c.alpha == AlphaG::MinusAsk, "identity-rk");
        obs.class_if(c.v_old >= 1 << 63 || c.v_new >= 1 << 63, "top-bit-value");
        obs.class_if(c.pos == u32::MAX, "last-position");
        let circuit = x.circuit()?;
        mock_ok(&circuit, &x.public.vec())
    });

    if r.wants("proofs") || r.wants("built") {
        prove::warm();
    }

    let many = || {
        (
            prop_oneof![3 => proptest::collection::vec(ctx_g(), 1..=2), 1 => proptest::collection::vec(ctx_g(), 3..=4)],
            seed32(),
        )
            .prop_map(|(ctxs, rng)| Many { ctxs, rng })
            .boxed()
    };
    r.family("proofs", 16, 240, 12, many, |c: &Many, obs| {
        if c.ctxs.iter().any(|c| c.v_old != 0 || c.v_new != 0) {
            obs.nontrivial();
        }
        let xs: Vec<Ctx> = c.ctxs.iter().map(|c| c.mat()).collect();
        let circuits = xs.iter().map(|x| x.circuit()).collect::<Result<Vec<_>, _>>()?;
        let instances: Vec<Instance> = xs.iter().map(|x| x.public.instance()).collect();
        let proof = Proof::create(&prove::PK, &circuits, &instances, orc::rng(&c.rng.0))
            .map_err(|e| format!("proving failed: {:?}", e))?;
        proof.verify(&prove::VK, &instances).map_err(|e| format!("verification failed: {:?}", e))?;
        let raw: Vec<_> = xs.iter().map(|x| x.public.vec()).collect();
        ensure!(prove::raw_verify(proof.as_ref(), &raw), "proof refused for the independently encoded inputs");
        Ok(())
    });

    let built = || {
        (plan_g(true, 6), seed32())
            .prop_map(|(mut plan, rng)| {
                // Keep the totals representable.
                for q in &mut plan.reqs {
                    match q {
                        Req::Spend(s) => s.value >>= 4,
                        Req::Output(o) => o.value >>= 4,
                    }
                }
                Built { plan, rng }
            })
            .boxed()
    };
    r.family("built", 16, 240, 12, built, |c: &Built, obs| {
        let m = c.plan.mat();
        let b = match m.builder().build::<i64>(orc::rng(&m.rng)).map_err(|e| format!("build failed: {:?}", e))? {
            None => return Ok(()),
            Some((b, _)) => b,
        };
        let n = b.actions().len();
        if m.spend_total() > 0 || m.output_total() > 0 {
            obs.nontrivial();
        }
        obs.class(match n {
            0 | 1 => "1-action",
            2 => "2-actions",
            3 => "3-actions",
            _ => "4-or-more-actions",
        });
        let p = b.create_proof(&prove::PK, orc::rng(&c.rng.0)).map_err(|e| format!("proving failed: {:?}", e))?;
        // The proof is only exposed once the bundle is signed.
        let asks: Vec<_> = m.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
        let f = p
            .apply_signatures(orc::rng(&c.rng.0), [7; 32], &asks)
            .map_err(|e| format!("signing failed: {:?}", e))?;
        f.verify_proof(&prove::VK).map_err(|e| format!("verification failed: {:?}", e))?;
        let anchor = m.anchor().to_bytes();
        let raw: Vec<Vec<_>> = raw_actions(&f)
            .iter()
            .map(|a| refm::instance(a, m.bt.flags_byte(), &anchor).unwrap().to_vec())
            .collect();
        ensure!(
            prove::raw_verify(f.authorization().proof().as_ref(), &raw),
            "proof refused for the independently encoded inputs"
        );
        Ok(())
    });
}
