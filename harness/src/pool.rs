//! Authorized bundles in raw form: a pool of honestly built, proven and signed ones, and
//! generated alterations of them.

use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::prove;
use crate::refm::{self, Base, RAction, ROut};
use group::GroupEncoding;
use nonempty::NonEmpty;
use orchard::{
    bundle::{Authorized, Flags},
    primitives::redpallas::{Binding, Signature, SpendAuth},
    Anchor, Bundle, Proof,
};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};

/// All fields of an authorized bundle.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawBundle {
    pub acts: Vec<RAction>,
    pub sigs: Vec<[u8; 64]>,
    pub flags: u8,
    pub balance: i64,
    pub anchor: [u8; 32],
    pub proof: Vec<u8>,
    pub binding: [u8; 64],
}

impl RawBundle {
    pub fn of(b: &Bundle<Authorized, i64>) -> RawBundle {
        RawBundle {
            acts: raw_actions(b),
            sigs: b.actions().iter().map(|a| a.authorization().into()).collect(),
            flags: b.flags().to_byte(),
            balance: *b.value_balance(),
            anchor: b.anchor().to_bytes(),
            proof: b.authorization().proof().as_ref().to_vec(),
            binding: b.authorization().binding_signature().into(),
        }
    }
    /// Assembles the bundle; `None` if a field does not decode.
    pub fn bundle(&self) -> Option<Bundle<Authorized, i64>> {
        let acts: Option<Vec<_>> = self
            .acts
            .iter()
            .zip(&self.sigs)
            .map(|(a, s)| orc::action(a, Signature::<SpendAuth>::from(*s)))
            .collect();
        Some(Bundle::from_parts(
            NonEmpty::from_vec(acts?)?,
            Flags::from_byte(self.flags)?,
            self.balance,
            Option::<Anchor>::from(Anchor::from_bytes(self.anchor))?,
            Authorized::from_parts(Proof::new(self.proof.clone()), Signature::<Binding>::from(self.binding)),
        ))
    }
    /// Independently encoded public inputs.
    pub fn instances(&self) -> Option<Vec<Vec<Base>>> {
        self.acts
            .iter()
            .map(|a| refm::instance(a, self.flags, &self.anchor).map(|i| i.to_vec()))
            .collect()
    }
    pub fn proof_ok(&self) -> bool {
        prove::raw_verify(&self.proof, &self.instances().expect("fields decode"))
    }
    pub fn sigs_ok(&self, sighash: &[u8; 32]) -> bool {
        self.acts
            .iter()
            .zip(&self.sigs)
            .all(|(a, s)| refm::redpallas_verify(false, &a.rk, sighash, s))
            && refm::redpallas_verify(true, &model_bvk(&self.acts, self.balance).to_bytes(), sighash, &self.binding)
    }
}

pub struct Pooled {
    pub mat: Mat,
    pub raw: RawBundle,
    pub sighash: [u8; 32],
}

fn base_plan(rn: &mut TestRunner, bt: Bt, spends: usize, outputs: usize) -> Plan {
    let mut one = |s: BoxedStrategy<SpendG>| s.new_tree(rn).unwrap().current();
    let mut reqs: Vec<Req> = (0..spends)
        .map(|i| {
            let mut s = one(spend_g(true));
            s.value = 1_000 + (s.value >> 8);
            s.key = i as u8;
            s.internal = i % 2 == 1;
            s.again = None;
            Req::Spend(s)
        })
        .collect();
    for i in 0..outputs {
        let mut o = out_g().new_tree(rn).unwrap().current();
        o.value = 500 + (o.value >> 8);
        if i < 2 {
            // Readable by the plan's keys, with and without a memo.
            o.to = ToG::Own { key: i as u8, internal: i == 1, div: By([i as u8; 11]) };
            o.ovk = OvkG::Own { key: i as u8, internal: i == 1 };
        }
        reqs.push(Req::Output(o));
    }
    let keys = (0..2).map(|_| seed32().new_tree(rn).unwrap().current()).collect();
    Plan { keys, bt, reqs, fill: 7, anchor: AnchorG::Tree, rng: seed32().new_tree(rn).unwrap().current() }
}

/// The first `n` bundles of the pool for a seed. The shapes differ in flags, padding and size.
pub fn pool(seed: u64, n: usize) -> Vec<Pooled> {
    let h: [u8; 32] = refm::blake2b(32, b"harness-pool----", &[&seed.to_le_bytes()]).try_into().unwrap();
    let mut rn = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &h));
    let tx = |spends, outputs, required| Bt::Tx { spends, outputs, required };
    (0..n)
        .map(|i| {
            let mut plan = match i {
                0 => base_plan(&mut rn, tx(true, true, false), 2, 1),
                1 => base_plan(&mut rn, Bt::Coinbase, 0, 1),
                2 => base_plan(&mut rn, tx(true, false, false), 1, 0),
                3 => base_plan(&mut rn, tx(true, true, false), 3, 3),
                4 => base_plan(&mut rn, tx(false, false, true), 0, 0),
                5 => base_plan(&mut rn, tx(true, true, false), 0, 2),
                6 => base_plan(&mut rn, tx(true, true, false), 1, 2),
                7 => base_plan(&mut rn, tx(false, true, false), 0, 3),
                8 => base_plan(&mut rn, tx(true, true, true), 0, 0),
                _ => base_plan(&mut rn, tx(true, true, false), i % 4, (i / 2) % 4 + 1),
            };
            if matches!(i, 1 | 5) {
                plan.anchor = AnchorG::Empty;
            }
            let mat = plan.mat();
            let sighash: [u8; 32] = seed32().new_tree(&mut rn).unwrap().current().0;
            let (b, _) = mat
                .builder()
                .build::<i64>(orc::rng(&mat.rng))
                .expect("honest bundle builds")
                .expect("a bundle is required");
            let asks: Vec<_> = mat.sks.iter().map(|k| orc::ask(k).unwrap()).collect();
            let f = b
                .create_proof(&prove::PK, orc::rng(&mat.rng))
                .and_then(|b| b.apply_signatures(orc::rng(&mat.rng), sighash, &asks))
                .expect("honest bundle can be authorized");
            Pooled { raw: RawBundle::of(&f), mat, sighash }
        })
        .collect()
}

// ---- generated points, fields and alterations ----

/// Encodings of curve points, including the identity.
pub fn point32() -> BoxedStrategy<B32> {
    prop_oneof![
        2 => Just(By([0u8; 32])),
        2 => (1u64..5, any::<bool>()).prop_map(|(k, spend)| {
            let g = if spend { *refm::G_SPEND } else { *refm::R_CV };
            By((g * refm::Scalar::from(k)).to_bytes())
        }),
        4 => scalar32().prop_map(|s| By((*refm::G_SPEND * refm::scalar_of(&s.0).unwrap()).to_bytes())),
        2 => bytes32().prop_filter_map("on the curve", |b| {
            // The next decodable encoding.
            let mut b = b.0;
            for i in 0..64u8 {
                b[0] = b[0].wrapping_add(i);
                if refm::point_of(&b).is_some() {
                    return Some(By(b));
                }
            }
            None
        }),
    ]
    .boxed()
}

pub fn sig64() -> BoxedStrategy<By<64>> {
    (prop_oneof![point32(), bytes32()], prop_oneof![scalar32(), bytes32()])
        .prop_map(|(a, b)| {
            let mut s = [0; 64];
            s[..32].copy_from_slice(&a.0);
            s[32..].copy_from_slice(&b.0);
            By(s)
        })
        .boxed()
}

/// An action made of arbitrary decodable fields.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ActG {
    pub nf: B32,
    pub rk: B32,
    pub cmx: B32,
    pub cv: B32,
    pub epk: B32,
    pub enc: u64,
    pub out: u64,
    pub sig: By<64>,
}
pub fn act_g() -> BoxedStrategy<ActG> {
    (base32(), point32(), base32(), point32(), prop_oneof![point32(), bytes32()], any::<u64>(), any::<u64>(), sig64())
        .prop_map(|(nf, rk, cmx, cv, epk, enc, out, sig)| ActG { nf, rk, cmx, cv, epk, enc, out, sig })
        .boxed()
}
pub fn stream(seed: u64, n: usize) -> Vec<u8> {
    match seed % 16 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => (0..((n + 63) / 64))
            .flat_map(|i| refm::blake2b(64, b"harness-stream--", &[&seed.to_le_bytes(), &(i as u64).to_le_bytes()]))
            .take(n)
            .collect(),
    }
}
impl ActG {
    pub fn raw(&self) -> RAction {
        RAction {
            out: ROut {
                nf: self.nf.0,
                cmx: self.cmx.0,
                cv: self.cv.0,
                epk: self.epk.0,
                enc: stream(self.enc, 580),
                out: stream(self.out, 80),
            },
            rk: self.rk.0,
        }
    }
}

/// One alteration of an authorized bundle.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Alter {
    Nf(u8, B32),
    NfEdit(u8, Edit),
    Rk(u8, B32),
    RkPlusG(u8),
    RkNeg(u8),
    Cmx(u8, B32),
    CmxEdit(u8, Edit),
    Cv(u8, B32),
    CvNeg(u8),
    /// Move value between two actions' commitments, keeping their sum.
    CvShift(u8, u8, u64),
    Epk(u8, B32),
    EpkEdit(u8, Edit),
    EncEdit(u8, Edit),
    OutEdit(u8, Edit),
    Anchor(B32),
    AnchorEdit(Edit),
    Flags(u8),
    Balance(i64),
    BalanceAdd(i64),
    ProofEdit(Edit),
    ProofCut(u16),
    ProofSwap(u8),
    ProofRandom(u64, u16),
    /// Bytes after the end of the proof (generated by C07 only).
    ProofExtend(u64, u16),
    Sig(u8, By<64>),
    SigEdit(u8, Edit),
    SigSwap(u8, u8),
    Binding(By<64>),
    BindingEdit(Edit),
    /// Add to the response of one signature and subtract it from that of another.
    SigCancel(u8, u8, B32),
    SwapActions(u8, u8),
    /// Swap one field between two actions: 0 nf, 1 rk, 2 cmx, 3 cv.
    SwapField(u8, u8, u8),
    DropAction(u8),
    DupAction(u8),
}

pub fn alter() -> BoxedStrategy<Alter> {
    use Alter::*;
    let i = || 0u8..6;
    prop_oneof![
        prop_oneof![
            (i(), base32()).prop_map(|(i, b)| Nf(i, b)),
            (i(), edit()).prop_map(|(i, e)| NfEdit(i, e)),
            (i(), point32()).prop_map(|(i, b)| Rk(i, b)),
            i().prop_map(RkPlusG),
            i().prop_map(RkNeg),
            (i(), base32()).prop_map(|(i, b)| Cmx(i, b)),
            (i(), edit()).prop_map(|(i, e)| CmxEdit(i, e)),
            (i(), point32()).prop_map(|(i, b)| Cv(i, b)),
            i().prop_map(CvNeg),
        ],
        prop_oneof![
            (i(), i(), 1u64..1000).prop_map(|(a, b, v)| CvShift(a, b, v)),
            (i(), prop_oneof![point32(), bytes32()]).prop_map(|(i, b)| Epk(i, b)),
            (i(), edit()).prop_map(|(i, e)| EpkEdit(i, e)),
            (i(), edit()).prop_map(|(i, e)| EncEdit(i, e)),
            (i(), edit()).prop_map(|(i, e)| OutEdit(i, e)),
            base32().prop_map(Anchor),
            edit().prop_map(AnchorEdit),
            (0u8..4).prop_map(Flags),
        ],
        prop_oneof![
            prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(0), any::<i64>()].prop_map(Balance),
            prop_oneof![Just(1i64), Just(-1), any::<i64>()].prop_map(BalanceAdd),
            edit().prop_map(ProofEdit),
            edit().prop_map(ProofEdit),
            prop_oneof![1u16..64, any::<u16>()].prop_map(ProofCut),
            any::<u8>().prop_map(ProofSwap),
            (any::<u64>(), any::<u16>()).prop_map(|(s, n)| ProofRandom(s, n)),
        ],
        prop_oneof![
            (i(), sig64()).prop_map(|(i, s)| Sig(i, s)),
            (i(), edit()).prop_map(|(i, e)| SigEdit(i, e)),
            (i(), i()).prop_map(|(i, j)| SigSwap(i, j)),
            sig64().prop_map(Binding),
            edit().prop_map(BindingEdit),
            (i(), i(), scalar32()).prop_map(|(i, j, s)| SigCancel(i, j, s)),
        ],
        prop_oneof![
            (i(), i()).prop_map(|(i, j)| SwapActions(i, j)),
            (i(), i(), 0u8..4).prop_map(|(i, j, f)| SwapField(i, j, f)),
            i().prop_map(DropAction),
            i().prop_map(DupAction),
        ],
    ]
    .boxed()
}

fn add_s(sig: &mut [u8; 64], d: &refm::Scalar, neg: bool) {
    use ff::PrimeField;
    if let Some(s) = refm::scalar_of(sig[32..].try_into().unwrap()) {
        let s = if neg { s - d } else { s + d };
        sig[32..].copy_from_slice(&s.to_repr());
    }
}

impl Alter {
    /// Applies the alteration; fields that would no longer decode are left as they were.
    pub fn apply(&self, b: &mut RawBundle, pool: &[Pooled]) {
        let proofs: Vec<Vec<u8>> = match self {
            Alter::ProofSwap(_) => pool.iter().map(|p| p.raw.proof.clone()).collect(),
            _ => vec![],
        };
        self.apply_with(b, &proofs)
    }
    /// `proofs` supplies the proof for `ProofSwap`.
    pub fn apply_with(&self, b: &mut RawBundle, proofs: &[Vec<u8>]) {
        use Alter::*;
        let n = b.acts.len() as u8;
        let ix = |i: &u8| (i % n) as usize;
        let base_or = |old: [u8; 32], e: &Edit| {
            let mut x = old;
            e.apply(&mut x);
            if refm::base_of(&x).is_some() {
                x
            } else {
                old
            }
        };
        match self {
            Nf(i, v) => b.acts[ix(i)].out.nf = v.0,
            NfEdit(i, e) => b.acts[ix(i)].out.nf = base_or(b.acts[ix(i)].out.nf, e),
            Rk(i, v) => b.acts[ix(i)].rk = v.0,
            RkPlusG(i) => {
                let p = refm::point_of(&b.acts[ix(i)].rk).unwrap() + *refm::G_SPEND;
                b.acts[ix(i)].rk = p.to_bytes();
            }
            RkNeg(i) => b.acts[ix(i)].rk = (-refm::point_of(&b.acts[ix(i)].rk).unwrap()).to_bytes(),
            Cmx(i, v) => b.acts[ix(i)].out.cmx = v.0,
            CmxEdit(i, e) => b.acts[ix(i)].out.cmx = base_or(b.acts[ix(i)].out.cmx, e),
            Cv(i, v) => b.acts[ix(i)].out.cv = v.0,
            CvNeg(i) => b.acts[ix(i)].out.cv = (-refm::point_of(&b.acts[ix(i)].out.cv).unwrap()).to_bytes(),
            CvShift(i, j, v) => {
                let d = *refm::V_CV * refm::Scalar::from(*v);
                let p = refm::point_of(&b.acts[ix(i)].out.cv).unwrap() + d;
                b.acts[ix(i)].out.cv = p.to_bytes();
                let p = refm::point_of(&b.acts[ix(j)].out.cv).unwrap() - d;
                b.acts[ix(j)].out.cv = p.to_bytes();
            }
            Epk(i, v) => b.acts[ix(i)].out.epk = v.0,
            EpkEdit(i, e) => {
                e.apply(&mut b.acts[ix(i)].out.epk);
            }
            EncEdit(i, e) => {
                e.apply(&mut b.acts[ix(i)].out.enc);
            }
            OutEdit(i, e) => {
                e.apply(&mut b.acts[ix(i)].out.out);
            }
            Anchor(v) => b.anchor = v.0,
            AnchorEdit(e) => b.anchor = base_or(b.anchor, e),
            Flags(f) => b.flags = *f,
            Balance(v) => b.balance = *v,
            BalanceAdd(v) => b.balance = b.balance.wrapping_add(*v),
            ProofEdit(e) => {
                e.apply(&mut b.proof);
            }
            ProofCut(k) => {
                let k = (*k as usize).min(b.proof.len());
                b.proof.truncate(b.proof.len() - k);
            }
            ProofSwap(k) => b.proof = proofs[*k as usize % proofs.len()].clone(),
            ProofExtend(s, k) => b.proof.extend(stream(*s, *k as usize)),
            ProofRandom(s, k) => b.proof = stream(*s, *k as usize % 8192),
            Sig(i, s) => b.sigs[ix(i)] = s.0,
            SigEdit(i, e) => {
                e.apply(&mut b.sigs[ix(i)]);
            }
            SigSwap(i, j) => b.sigs.swap(ix(i), ix(j)),
            Binding(s) => b.binding = s.0,
            BindingEdit(e) => {
                e.apply(&mut b.binding);
            }
            SigCancel(i, j, d) => {
                let d = refm::scalar_of(&d.0).unwrap();
                let (i, j) = (ix(i), ix(j));
                add_s(&mut b.sigs[i], &d, false);
                if i != j {
                    add_s(&mut b.sigs[j], &d, true);
                }
            }
            SwapActions(i, j) => {
                b.acts.swap(ix(i), ix(j));
                b.sigs.swap(ix(i), ix(j));
            }
            SwapField(i, j, f) => {
                let (x, y) = (b.acts[ix(i)].clone(), b.acts[ix(j)].clone());
                match f % 4 {
                    0 => {
                        b.acts[ix(i)].out.nf = y.out.nf;
                        b.acts[ix(j)].out.nf = x.out.nf;
                    }
                    1 => {
                        b.acts[ix(i)].rk = y.rk;
                        b.acts[ix(j)].rk = x.rk;
                    }
                    2 => {
                        b.acts[ix(i)].out.cmx = y.out.cmx;
                        b.acts[ix(j)].out.cmx = x.out.cmx;
                    }
                    _ => {
                        b.acts[ix(i)].out.cv = y.out.cv;
                        b.acts[ix(j)].out.cv = x.out.cv;
                    }
                }
            }
            DropAction(i) => {
                if n > 1 {
                    b.acts.remove(ix(i));
                    b.sigs.remove(ix(i));
                }
            }
            DupAction(i) => {
                let k = ix(i);
                b.acts.insert(k, b.acts[k].clone());
                b.sigs.insert(k, b.sigs[k]);
            }
        }
    }
}
