//! Raw contexts of single actions: everything the action statement quantifies over.

use crate::engine::R;
use crate::gens::*;
use crate::orc;
use crate::plan::{bare_address, to_g, ToG};
use crate::refm::{self, Base, Keys, RNote, Sc};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use halo2_proofs::dev::MockProver;
use orchard::{
    builder::SpendInfo,
    circuit::{Circuit, Instance},
    keys::FullViewingKey,
    note::{ExtractedNoteCommitment, Nullifier},
    primitives::redpallas::{SpendAuth, VerificationKey},
    tree::Anchor,
    value::ValueCommitment,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const K: u32 = 11;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PathFill {
    Random(u64),
    /// The same sibling at every level.
    Const(B32),
    /// The roots of empty subtrees.
    Empty,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AlphaG {
    Scalar(B32),
    /// Minus the spend authorizing key: the randomized key is the identity.
    MinusAsk,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CtxG {
    pub sk: B32,
    pub internal: bool,
    pub div: B11,
    pub v_old: u64,
    pub rho: B32,
    pub rseed_old: B32,
    pub pos: u32,
    pub path: PathFill,
    pub alpha: AlphaG,
    pub rcv: B32,
    pub to: ToG,
    pub v_new: u64,
    pub rseed_new: B32,
    pub flags: (bool, bool),
    /// Anchor to state when the spent note is zero-valued.
    pub free_anchor: Option<B32>,
}

pub fn ctx_g() -> BoxedStrategy<CtxG> {
    let vals = prop_oneof![
        6 => (val_u64(), val_u64()),
        1 => val_u64().prop_map(|v| (v, v)),
        1 => val_u64().prop_map(|v| (v, 0)),
        1 => val_u64().prop_map(|v| (0, v)),
        1 => Just((0, 0)),
    ];
    (
        (sk32(), any::<bool>(), div11(), vals),
        (base32(), bytes32(), pos_u32()),
        prop_oneof![
            3 => any::<u64>().prop_map(PathFill::Random),
            1 => base32().prop_map(PathFill::Const),
            1 => Just(PathFill::Empty)
        ],
        prop_oneof![12 => scalar32().prop_map(AlphaG::Scalar), 1 => Just(AlphaG::MinusAsk)],
        (scalar32(), to_g(), bytes32()),
        (any::<(bool, bool)>(), proptest::option::of(base32())),
    )
        .prop_map(
            |((sk, internal, div, (v_old, v_new)), (rho, rseed_old, pos), path, alpha, (rcv, to, rseed_new), (f, free_anchor))| CtxG {
                sk,
                internal,
                div,
                v_old,
                rho,
                rseed_old,
                pos,
                path,
                alpha,
                rcv,
                to,
                v_new,
                rseed_new,
                flags: (f.0 || v_old != 0, f.1 || v_new != 0),
                free_anchor: if v_old == 0 { free_anchor } else { None },
            },
        )
        .boxed()
}

/// Raw public inputs.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pub {
    pub anchor: Base,
    pub cv: refm::Point,
    pub nf: Base,
    pub rk: refm::Point,
    pub cmx: Base,
    pub es: bool,
    pub eo: bool,
}

impl Pub {
    /// The nine public inputs, encoded independently of the crate.
    pub fn vec(&self) -> Vec<Base> {
        let (cx, cy) = refm::coords(&self.cv);
        let (rx, ry) = refm::coords(&self.rk);
        vec![
            self.anchor,
            cx,
            cy,
            self.nf,
            rx,
            ry,
            self.cmx,
            Base::from(self.es as u64),
            Base::from(self.eo as u64),
        ]
    }
    pub fn instance(&self) -> Instance {
        Instance::from_parts(
            Anchor::from_bytes(self.anchor.to_repr()).unwrap(),
            ValueCommitment::from_bytes(&self.cv.to_bytes()).unwrap(),
            Nullifier::from_bytes(&self.nf.to_repr()).unwrap(),
            VerificationKey::<SpendAuth>::try_from(self.rk.to_bytes()).unwrap(),
            ExtractedNoteCommitment::from_bytes(&self.cmx.to_repr()).unwrap(),
            self.es,
            self.eo,
        )
    }
}

pub struct Ctx {
    pub keys: Keys,
    pub fvk: FullViewingKey,
    pub scope: Sc,
    pub old: RNote,
    pub new: RNote,
    pub pos: u32,
    pub path: Vec<Base>,
    pub alpha: refm::Scalar,
    pub rcv: refm::Scalar,
    pub public: Pub,
}

pub fn address_of(to: &ToG, me: &Keys) -> ([u8; 43], Base) {
    match to {
        ToG::Own { internal, div, .. } => {
            let v = me.view(if *internal { Sc::Int } else { Sc::Ext });
            (v.address_at(&div.0), v.ivk)
        }
        ToG::Foreign { sk, div } => {
            let k = Keys::from_sk(&sk.0).unwrap_or_else(|| Keys::from_sk(&[7; 32]).unwrap());
            let v = k.view(Sc::Ext);
            (v.address_at(&div.0), v.ivk)
        }
        ToG::Bare { d, ivk } => {
            let ivk = refm::base_of(&ivk.0).unwrap();
            (bare_address(&d.0, &ivk), ivk)
        }
    }
}

impl CtxG {
    pub fn mat(&self) -> Ctx {
        let keys = Keys::from_sk(&self.sk.0).unwrap_or_else(|| Keys::from_sk(&[7; 32]).unwrap());
        let scope = if self.internal { Sc::Int } else { Sc::Ext };
        let old = RNote {
            addr: keys.view(scope).address_at(&self.div.0),
            value: self.v_old,
            rho: self.rho.0,
            rseed: self.rseed_old.0,
        };
        let nf = old.nf(&keys.nk).expect("commitment exists");
        let new = RNote {
            addr: address_of(&self.to, &keys).0,
            value: self.v_new,
            rho: nf.to_repr(),
            rseed: self.rseed_new.0,
        };
        let path: Vec<Base> = match &self.path {
            PathFill::Random(s) => (0..32).map(|l| fill_base(*s, l, 0)).collect(),
            PathFill::Const(b) => vec![refm::base_of(&b.0).unwrap(); 32],
            PathFill::Empty => refm::EMPTY[..32].to_vec(),
        };
        let alpha = match &self.alpha {
            AlphaG::Scalar(b) => refm::scalar_of(&b.0).unwrap(),
            AlphaG::MinusAsk => -keys.ask,
        };
        let rcv = refm::scalar_of(&self.rcv.0).unwrap();
        let root = refm::path_root(self.pos, &path, &old.cmx().unwrap());
        let public = Pub {
            anchor: self
                .free_anchor
                .filter(|_| self.v_old == 0)
                .map(|b| refm::base_of(&b.0).unwrap())
                .unwrap_or(root),
            cv: refm::value_commit(self.v_old as i128 - self.v_new as i128, &rcv),
            nf,
            rk: keys.ak + *refm::G_SPEND * alpha,
            cmx: new.cmx().unwrap(),
            es: self.flags.0,
            eo: self.flags.1,
        };
        let fvk = FullViewingKey::from_bytes(&keys.fvk_bytes()).expect("viewing key");
        Ctx { keys, fvk, scope, old, new, pos: self.pos, path, alpha, rcv, public }
    }
}

impl Ctx {
    pub fn spend_info(&self) -> Result<SpendInfo, String> {
        SpendInfo::new(self.fvk.clone(), orc::note(&self.old).ok_or("old note refused")?, orc::path(self.pos, &self.path))
            .ok_or_else(|| "SpendInfo::new refused an owned note".to_string())
    }
    pub fn circuit(&self) -> Result<Circuit, String> {
        Circuit::from_action_context(
            self.spend_info()?,
            orc::note(&self.new).ok_or("new note refused")?,
            self.alpha,
            orc::rcv(&self.rcv.to_repr()).ok_or("rcv refused")?,
        )
        .ok_or_else(|| "from_action_context refused a chained context".to_string())
    }
}

/// Whether a witness satisfies every constraint for the public inputs; the text names the failures.
pub fn mock(c: &Circuit, public: &[Base]) -> Result<bool, String> {
    let p = MockProver::run(K, c, vec![public.to_vec()]).map_err(|e| format!("synthesis error: {:?}", e))?;
    Ok(p.verify().is_ok())
}

/// Like `mock`, but an unsatisfied witness is an error that names the failed constraints.
pub fn mock_ok(c: &Circuit, public: &[Base]) -> R {
    let p = MockProver::run(K, c, vec![public.to_vec()]).map_err(|e| format!("synthesis error: {:?}", e))?;
    p.verify().map_err(|e| {
        let v: Vec<String> = e.iter().take(3).map(|x| x.to_string()).collect();
        format!("unsatisfied: {}", v.join("; "))
    })
}

#[allow(unused)]
pub fn zero() -> Base {
    Base::ZERO
}
