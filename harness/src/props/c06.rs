//! C06: nothing that breaks the spending rules satisfies the action statement.

use crate::ctx::*;
use crate::engine::{Runner, R};
use crate::gens::*;
use crate::orc;
use crate::prove;
use crate::refm::{self, Base};
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{circuit::Circuit, Proof};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One change to the public inputs.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Twist {
    None,
    Anchor(B32),
    Cv(u64),
    CvNeg,
    Nf(B32),
    RkPlus(B32),
    RkNeg,
    Cmx(B32),
    Flags(bool, bool),
}

fn twist() -> BoxedStrategy<Twist> {
    prop_oneof![
        1 => base32().prop_map(Twist::Anchor),
        1 => prop_oneof![1u64..4, any::<u64>()].prop_map(Twist::Cv),
        1 => Just(Twist::CvNeg),
        1 => base32().prop_map(Twist::Nf),
        1 => scalar32().prop_map(Twist::RkPlus),
        1 => Just(Twist::RkNeg),
        1 => base32().prop_map(Twist::Cmx),
        3 => any::<(bool, bool)>().prop_map(|(a, b)| Twist::Flags(a, b)),
    ]
    .boxed()
}

fn apply(t: &Twist, p: &mut Pub) {
    match t {
        Twist::None => {}
        Twist::Anchor(b) => p.anchor = refm::base_of(&b.0).unwrap(),
        Twist::Cv(d) => p.cv += refm::value_commit(*d as i128, &refm::Scalar::zero()),
        Twist::CvNeg => p.cv = -p.cv,
        Twist::Nf(b) => p.nf = refm::base_of(&b.0).unwrap(),
        Twist::RkPlus(s) => p.rk += *refm::G_SPEND * refm::scalar_of(&s.0).unwrap(),
        Twist::RkNeg => p.rk = -p.rk,
        Twist::Cmx(b) => p.cmx = refm::base_of(&b.0).unwrap(),
        Twist::Flags(a, b) => {
            p.es = *a;
            p.eo = *b;
        }
    }
}

/// How the second context differs from the first; everything else is shared.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mix {
    a: CtxG,
    b: CtxG,
    /// Which parts of `b` are replaced by those of `a` before mixing.
    share: u16,
    mask: u32,
    twist: Twist,
    /// Recompute the public inputs from the mixed witness (otherwise those of `a`).
    refit: bool,
}

impl Mix {
    fn second(&self) -> CtxG {
        let (a, mut b) = (&self.a, self.b.clone());
        let s = |n: u16| self.share & (1 << n) != 0;
        if s(0) {
            b.sk = a.sk;
        }
        if s(1) {
            b.internal = a.internal;
        }
        if s(2) {
            b.div = a.div;
        }
        if s(3) {
            b.v_old = a.v_old;
        }
        if s(4) {
            b.rho = a.rho;
        }
        if s(5) {
            b.rseed_old = a.rseed_old;
        }
        if s(6) {
            b.pos = a.pos;
        }
        if s(7) {
            b.path = a.path.clone();
        }
        if s(8) {
            b.to = a.to.clone();
        }
        if s(9) {
            b.v_new = a.v_new;
        }
        if s(10) {
            b.rseed_new = a.rseed_new;
        }
        b.free_anchor = None;
        b
    }
}

/// The private witness in raw form.
#[derive(Clone)]
struct W {
    path: Vec<Base>,
    pos: u32,
    g_d_old: refm::Point,
    pk_d_old: refm::Point,
    v_old: u64,
    rho_old: Base,
    psi_old: Base,
    rcm_old: refm::Scalar,
    cm_old: refm::Point,
    alpha: refm::Scalar,
    ak: refm::Point,
    nk: Base,
    rivk: refm::Scalar,
    g_d_new: refm::Point,
    pk_d_new: refm::Point,
    v_new: u64,
    psi_new: Base,
    rcm_new: refm::Scalar,
    rcv: refm::Scalar,
}

fn w_of(x: &Ctx) -> W {
    W {
        path: x.path.clone(),
        pos: x.pos,
        g_d_old: x.old.g_d(),
        pk_d_old: refm::point_of(&x.old.pk_d()).unwrap(),
        v_old: x.old.value,
        rho_old: refm::base_of(&x.old.rho).unwrap(),
        psi_old: x.old.psi(),
        rcm_old: x.old.rcm(),
        cm_old: x.old.cm().unwrap(),
        alpha: x.alpha,
        ak: x.keys.ak,
        nk: x.keys.nk,
        rivk: x.keys.view(x.scope).rivk,
        g_d_new: x.new.g_d(),
        pk_d_new: refm::point_of(&x.new.pk_d()).unwrap(),
        v_new: x.new.value,
        psi_new: x.new.psi(),
        rcm_new: x.new.rcm(),
        rcv: x.rcv,
    }
}

fn mix(a: &W, b: &W, mask: u32) -> W {
    let f = |n: u32| if mask & (1 << n) != 0 { b } else { a };
    W {
        path: f(0).path.clone(),
        pos: f(1).pos,
        g_d_old: f(2).g_d_old,
        pk_d_old: f(3).pk_d_old,
        v_old: f(4).v_old,
        rho_old: f(5).rho_old,
        psi_old: f(6).psi_old,
        rcm_old: f(7).rcm_old,
        cm_old: f(8).cm_old,
        alpha: f(9).alpha,
        ak: f(10).ak,
        nk: f(11).nk,
        rivk: f(12).rivk,
        g_d_new: f(13).g_d_new,
        pk_d_new: f(14).pk_d_new,
        v_new: f(15).v_new,
        psi_new: f(16).psi_new,
        rcm_new: f(17).rcm_new,
        rcv: f(18).rcv,
    }
}

impl W {
    fn root(&self) -> Base {
        refm::path_root(self.pos, &self.path, &refm::extract_p(&self.cm_old))
    }
    fn nf(&self) -> Base {
        refm::nullifier(&self.nk, &self.rho_old, &self.psi_old, &self.cm_old)
    }
    fn cm_new(&self, nf: &Base) -> Option<refm::Point> {
        refm::note_commit(
            &self.g_d_new.to_bytes(),
            &self.pk_d_new.to_bytes(),
            self.v_new,
            nf,
            &self.psi_new,
            &self.rcm_new,
        )
    }
    fn cv(&self) -> refm::Point {
        refm::value_commit(self.v_old as i128 - self.v_new as i128, &self.rcv)
    }
    fn rk(&self) -> refm::Point {
        self.ak + *refm::G_SPEND * self.alpha
    }
    /// Public inputs that fit this witness as well as possible.
    fn fit(&self, es: bool, eo: bool) -> Option<Pub> {
        let nf = self.nf();
        Some(Pub {
            anchor: self.root(),
            cv: self.cv(),
            nf,
            rk: self.rk(),
            cmx: refm::extract_p(&self.cm_new(&nf)?),
            es,
            eo,
        })
    }
    /// The rules of the action statement (protocol specification section 4.17.4), by name of the
    /// first one that is broken.
    fn broken(&self, p: &Pub) -> Option<&'static str> {
        let derived = refm::note_commit(
            &self.g_d_old.to_bytes(),
            &self.pk_d_old.to_bytes(),
            self.v_old,
            &self.rho_old,
            &self.psi_old,
            &self.rcm_old,
        );
        if derived != Some(self.cm_old) {
            return Some("old-commitment");
        }
        if self.v_old != 0 && self.root() != p.anchor {
            return Some("merkle-path");
        }
        if self.cv() != p.cv {
            return Some("value-commitment");
        }
        if self.nf() != p.nf {
            return Some("nullifier");
        }
        if self.rk() != p.rk {
            return Some("randomized-key");
        }
        let ivk = refm::ivk_of(&self.ak, &self.nk, &self.rivk);
        match ivk {
            Some(ivk) if self.g_d_old * refm::base_to_scalar(ivk) == self.pk_d_old => {}
            _ => return Some("address-integrity"),
        }
        if self.cm_new(&p.nf).map(|c| refm::extract_p(&c)) != Some(p.cmx) {
            return Some("new-commitment");
        }
        if self.v_old != 0 && !p.es {
            return Some("spends-disabled");
        }
        if self.v_new != 0 && !p.eo {
            return Some("outputs-disabled");
        }
        None
    }
}

fn masks() -> BoxedStrategy<u32> {
    let group = |bits: &'static [u32]| bits.iter().fold(0u32, |a, b| a | (1 << b));
    let old = group(&[2, 3, 4, 5, 6, 7, 8]);
    let keys = group(&[10, 11, 12]);
    let new = group(&[13, 14, 15, 16, 17]);
    let path = group(&[0, 1]);
    prop_oneof![
        6 => (0u32..19).prop_map(|b| 1 << b),
        1 => Just(old),
        1 => Just(keys),
        1 => Just(new),
        1 => Just(path),
        1 => Just(old | path),
        1 => Just(old | keys),
        1 => Just(old | keys | path),
        1 => Just(0),
        // an output for someone else's address, a recipient swap, a value swap on both sides
        1 => Just(group(&[13, 14])),
        1 => Just(group(&[2, 3])),
        1 => Just(group(&[2, 3, 8])),
        1 => Just(group(&[4, 8])),
        1 => Just(group(&[4, 15])),
        1 => Just(group(&[5, 6, 7])),
        1 => Just(group(&[4, 5, 6, 7])),
        2 => any::<u32>().prop_map(|m| m & 0x7ffff),
    ]
    .boxed()
}

fn mix_g() -> BoxedStrategy<Mix> {
    // A share mask with few differences makes most rules hold.
    let share = prop_oneof![
        4 => (0u16..11).prop_map(|b| 0x7ff & !(1 << b)),
        2 => (0u16..11, 0u16..11).prop_map(|(a, b)| 0x7ff & !(1 << b) & !(1 << a)),
        1 => any::<u16>().prop_map(|s| s & 0x7ff),
    ];
    (ctx_g(), ctx_g(), share, masks(), prop_oneof![5 => Just(Twist::None), 1 => twist()], prop::bool::weighted(0.7))
        .prop_map(|(a, b, share, mask, twist, refit)| {
            // Make the contexts differ in something that feeds the lowest mixed field.
            let unshare: u16 = match mask.trailing_zeros() {
                0 => 1 << 7,
                1 => 1 << 6,
                2 | 3 => [1, 2, 4][(share % 3) as usize],
                4 => 1 << 3,
                5 => 1 << 4,
                6 | 7 => 1 << 5,
                8 => [4, 8, 16, 32][(share % 4) as usize],
                10 | 11 => 1,
                12 => 1 << (share % 2),
                13 | 14 => 1 << 8,
                15 => 1 << 9,
                16 | 17 => 1 << 10,
                _ => 0,
            };
            Mix { a, b, share: share & !unshare, mask, twist, refit }
        })
        .boxed()
}

fn expect(circuit: &Circuit, broken: Option<&'static str>, p: &Pub) -> R {
    let got = mock(circuit, &p.vec());
    match (broken, got) {
        (None, Ok(true)) => Ok(()),
        (None, x) => Err(format!("a witness that respects every rule does not satisfy the circuit: {:?}", x)),
        (Some(_), Ok(false)) | (Some(_), Err(_)) => Ok(()),
        (Some(b), Ok(true)) => Err(format!("a witness that breaks the rule '{}' satisfies the circuit", b)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twisted {
    c: CtxG,
    twist: Twist,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    c: CtxG,
    rho: ChainRho,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ChainRho {
    Right,
    Raw(B32),
    Edit(Edit),
    OldRho,
    OldCmx,
    /// The nullifier of the same note under another key.
    OtherKey(B32),
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when it breaks at least one rule of the action statement, as decided by the reference relation");
    r.assume("MockProver (halo2_proofs) decides satisfaction of the circuit's constraints");

    // Outputs that are not chained to the spent note are refused at assembly.
    let chain = || {
        (
            ctx_g(),
            prop_oneof![
                2 => Just(ChainRho::Right),
                2 => base32().prop_map(ChainRho::Raw),
                4 => edit().prop_map(ChainRho::Edit),
                1 => Just(ChainRho::OldRho),
                1 => Just(ChainRho::OldCmx),
                1 => seed32().prop_map(ChainRho::OtherKey),
            ],
        )
            .prop_map(|(c, rho)| Chain { c, rho })
            .boxed()
    };
    r.family("chaining", 1_200, 40_000, 200, chain, |c: &Chain, obs| {
        let mut x = c.c.mat();
        let right = x.new.rho;
        let rho = match &c.rho {
            ChainRho::Right => right,
            ChainRho::Raw(b) => b.0,
            ChainRho::Edit(e) => {
                let mut b = right;
                e.apply(&mut b);
                b
            }
            ChainRho::OldRho => x.old.rho,
            ChainRho::OldCmx => x.old.cmx().unwrap().to_repr(),
            ChainRho::OtherKey(k) => {
                let k = refm::Keys::from_sk(&k.0).unwrap();
                x.old.nf(&k.nk).unwrap().to_repr()
            }
        };
        if refm::base_of(&rho).is_none() {
            obs.class("not-a-field-element");
            return Ok(());
        }
        x.new.rho = rho;
        let got = x.circuit().is_ok();
        if rho != right {
            obs.nontrivial();
            obs.class("unchained");
        }
        ensure_eq!(got, rho == right, "from_action_context accepts iff the output is chained to the spend");
        Ok(())
    });

    // Honest witness, one public input changed.
    let twisted = || {
        (ctx_g(), twist())
            .prop_map(|(c, twist)| Twisted { c, twist })
            .boxed()
    };
    r.family("public", 40, 1_500, 40, twisted, |c: &Twisted, obs| {
        let x = c.c.mat();
        let mut p = x.public.clone();
        apply(&c.twist, &mut p);
        let broken = w_of(&x).broken(&p);
        if let Some(b) = broken {
            obs.nontrivial();
            obs.class(b);
        }
        expect(&x.circuit()?, broken, &p)
    });

    // Witnesses mixed from two contexts.
    #[cfg(feature = "hooks")]
    r.family("mixed", 88, 4_000, 40, mix_g, |c: &Mix, obs| {
        let a = c.a.mat();
        let b = c.second().mat();
        let w = mix(&w_of(&a), &w_of(&b), c.mask);
        let mut p = a.public.clone();
        if c.refit {
            if let Some(q) = w.fit(p.es || w.v_old != 0, p.eo || w.v_new != 0) {
                p = q;
            }
        }
        apply(&c.twist, &mut p);
        let broken = w.broken(&p);
        match broken {
            Some(x) => {
                obs.nontrivial();
                obs.class(x);
            }
            None => obs.class("valid-mixture"),
        }
        expect(&a.circuit()?.verif_mix(&b.circuit()?, c.mask), broken, &p)
    });
    #[cfg(not(feature = "hooks"))]
    {
        let _ = (mix_g, mix);
    }

    // Real proofs for false statements, through the crate's own public-input encoding.
    if r.wants("forged") {
        prove::warm();
    }
    r.family("forged", 16, 300, 10, twisted, |c: &Twisted, obs| {
        let x = c.c.mat();
        let mut p = x.public.clone();
        apply(&c.twist, &mut p);
        let broken = w_of(&x).broken(&p);
        let inst = [p.instance()];
        let proof = match Proof::create(&prove::PK, &[x.circuit()?], &inst, orc::rng(&[9; 32])) {
            Ok(p) => p,
            Err(e) => {
                ensure!(broken.is_some(), "proving a true statement failed: {:?}", e);
                return Ok(());
            }
        };
        let ok = proof.verify(&prove::VK, &inst).is_ok();
        match broken {
            Some(b) => {
                obs.nontrivial();
                obs.class(b);
                ensure!(!ok, "a proof for a statement that breaks the rule '{}' verifies", b);
            }
            None => ensure!(ok, "a proof of a true statement does not verify"),
        }
        Ok(())
    });
    let _ = (Base::ZERO, refm::Point::identity());
}
