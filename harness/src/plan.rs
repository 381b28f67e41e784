//! Bundle construction plans: generated requests, their model, and drivers for the crate's builder.

use crate::gens::*;
use crate::orc;
use crate::refm::{self, Base, Keys, RNote, ROut, Sc, SparseTree};
use ff::PrimeField;
use orchard::{
    builder::{Builder, BundleType, InProgress, OutputInfo, SpendError, SpendInfo, Unauthorized, Unproven},
    bundle::{Authorization, Authorized, Flags},
    keys::{FullViewingKey, OutgoingViewingKey},
    tree::MerklePath,
    value::NoteValue,
    Address, Anchor, Bundle, Note,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bt {
    Tx { spends: bool, outputs: bool, required: bool },
    Coinbase,
}
impl Bt {
    pub fn spends(&self) -> bool {
        matches!(self, Bt::Tx { spends: true, .. })
    }
    pub fn outputs(&self) -> bool {
        matches!(self, Bt::Tx { outputs: true, .. } | Bt::Coinbase)
    }
    pub fn flags_byte(&self) -> u8 {
        u8::from(self.spends()) | (u8::from(self.outputs()) << 1)
    }
    pub fn ty(&self) -> BundleType {
        match self {
            Bt::Tx { spends, outputs, required } => BundleType::Transactional {
                flags: Flags::from_byte(u8::from(*spends) | (u8::from(*outputs) << 1)).expect("valid flags"),
                bundle_required: *required,
            },
            Bt::Coinbase => BundleType::Coinbase,
        }
    }
    /// The documented padding rule.
    pub fn num_actions(&self, s: usize, o: usize) -> Option<usize> {
        if (s > 0 && !self.spends()) || (o > 0 && !self.outputs()) {
            return None;
        }
        let n = s.max(o);
        Some(match self {
            Bt::Tx { required, .. } => {
                if *required || n > 0 {
                    n.max(2)
                } else {
                    0
                }
            }
            Bt::Coinbase => o,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AnchorG {
    Tree,
    Empty,
    Other(B32),
    /// The tree's root with an edit.
    Near(Edit),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FvkG {
    Own,
    /// Another key of the plan (may be the same one).
    Other(u8),
    /// The owner's key with one of the three parts taken from another spending key.
    Part(u8, B32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PathG {
    Good,
    Sibling(u8, B32),
    Bit(u8),
    Foreign(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SpendG {
    pub key: u8,
    pub internal: bool,
    pub div: B11,
    pub value: u64,
    pub rho: B32,
    pub rseed: B32,
    pub pos: u32,
    pub fvk: FvkG,
    pub path: PathG,
    /// Spend the same note as an earlier spend of the plan.
    pub again: Option<u8>,
    /// The note's address is its owner's but for an edit (when that is an address at all).
    pub stray: Option<Edit>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ToG {
    Own { key: u8, internal: bool, div: B11 },
    Foreign { sk: B32, div: B11 },
    /// An address for a bare incoming viewing key (a non-zero base field element).
    Bare { d: B11, ivk: B32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum OvkG {
    None,
    Own { key: u8, internal: bool },
    Raw(B32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct OutG {
    pub to: ToG,
    pub ovk: OvkG,
    pub value: u64,
    pub memo: Option<MemoG>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Req {
    Spend(SpendG),
    Output(OutG),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub keys: Vec<B32>,
    pub bt: Bt,
    pub reqs: Vec<Req>,
    pub fill: u64,
    pub anchor: AnchorG,
    pub rng: B32,
}

// ---- generators ----

/// Values for which totals usually (not always) fit.
pub fn plan_value() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(0u64),
        3 => 0u64..1_000_000,
        4 => val_u64().prop_map(|v| v >> 4),
        3 => val_u64(),
    ]
    .boxed()
}

pub fn spend_g(good: bool) -> BoxedStrategy<SpendG> {
    let fvk = if good {
        Just(FvkG::Own).boxed()
    } else {
        prop_oneof![
            8 => Just(FvkG::Own),
            1 => (0u8..4).prop_map(FvkG::Other),
            1 => (0u8..3, seed32()).prop_map(|(p, s)| FvkG::Part(p, s)),
        ]
        .boxed()
    };
    let path = if good {
        Just(PathG::Good).boxed()
    } else {
        prop_oneof![
            7 => Just(PathG::Good),
            1 => (0u8..32, base32()).prop_map(|(l, b)| PathG::Sibling(l, b)),
            1 => (0u8..32).prop_map(PathG::Bit),
            1 => any::<u64>().prop_map(PathG::Foreign),
        ]
        .boxed()
    };
    let again = prop_oneof![12 => Just(None), 1 => (0u8..4).prop_map(Some)];
    let stray = if good { Just(None).boxed() } else { prop_oneof![10 => Just(None), 1 => edit().prop_map(Some)].boxed() };
    (
        (0u8..4, any::<bool>(), div11(), plan_value()),
        (base32(), seed32(), pos_u32()),
        fvk,
        path,
        again,
        stray,
    )
        .prop_map(|((key, internal, div, value), (rho, rseed, pos), fvk, path, again, stray)| SpendG {
            key,
            internal,
            div,
            value,
            rho,
            rseed,
            pos,
            fvk,
            path,
            again,
            stray,
        })
        .boxed()
}

pub fn to_g() -> BoxedStrategy<ToG> {
    prop_oneof![
        4 => (0u8..4, any::<bool>(), div11()).prop_map(|(key, internal, div)| ToG::Own { key, internal, div }),
        2 => (seed32(), div11()).prop_map(|(sk, div)| ToG::Foreign { sk, div }),
        1 => (div11(), base32().prop_filter("zero ivk", |b| b.0 != [0; 32])).prop_map(|(d, ivk)| ToG::Bare { d, ivk }),
    ]
    .boxed()
}

pub fn ovk_g() -> BoxedStrategy<OvkG> {
    prop_oneof![
        2 => Just(OvkG::None),
        4 => (0u8..4, any::<bool>()).prop_map(|(key, internal)| OvkG::Own { key, internal }),
        1 => bytes32().prop_map(OvkG::Raw),
    ]
    .boxed()
}

pub fn out_g() -> BoxedStrategy<OutG> {
    (to_g(), ovk_g(), plan_value(), proptest::option::weighted(0.7, memo()))
        .prop_map(|(to, ovk, value, memo)| OutG { to, ovk, value, memo })
        .boxed()
}

pub fn bt_g(mostly_enabled: bool) -> BoxedStrategy<Bt> {
    let w = if mostly_enabled { 8 } else { 2 };
    prop_oneof![
        w => any::<bool>().prop_map(|required| Bt::Tx { spends: true, outputs: true, required }),
        2 => (any::<bool>(), any::<bool>(), any::<bool>())
            .prop_map(|(spends, outputs, required)| Bt::Tx { spends, outputs, required }),
        1 => Just(Bt::Coinbase),
    ]
    .boxed()
}

/// `good`: every request is acceptable (requests the bundle type forbids are dropped).
/// Some value vectors are steered so that the net total sits at the edge of the balance type.
pub fn plan_g(good: bool, max_reqs: usize) -> BoxedStrategy<Plan> {
    let req = prop_oneof![
        spend_g(good).prop_map(Req::Spend),
        out_g().prop_map(Req::Output),
    ];
    let n = prop_oneof![
        1 => Just(0usize), 2 => Just(1), 3 => Just(2), 3 => 2..=4usize.min(max_reqs.max(2)), 1 => 0..=max_reqs
    ];
    let (tree, empty, other) = if good { (2, 1, 1) } else { (12, 1, 1) };
    let anchor = prop_oneof![
        tree => Just(AnchorG::Tree),
        empty => Just(AnchorG::Empty),
        other => base32().prop_map(AnchorG::Other),
        other => edit().prop_map(AnchorG::Near),
    ];
    let steer = prop_oneof![
        6 => Just(None),
        3 => (prop_oneof![Just(i64::MAX), Just(i64::MIN)], -2i64..=2).prop_map(Some),
        1 => (prop_oneof![3 => Just(0), 1 => Just(i32::MAX as i64), 1 => Just(u32::MAX as i64)], -1i64..=1).prop_map(Some),
    ];
    // Requests that repeat an earlier one, wholly or but for the value.
    let twin = (any::<u8>(), prop_oneof![2 => Just(None), 1 => plan_value().prop_map(Some)]);
    let twins = prop_oneof![5 => Just(vec![]), 1 => proptest::collection::vec(twin, 1..=3)];
    (
        proptest::collection::vec(sk32(), 1..4),
        bt_g(true),
        n.prop_flat_map(move |n| proptest::collection::vec(req.clone(), n)),
        any::<u64>(),
        anchor,
        seed32(),
        steer,
        twins,
    )
        .prop_map(move |(keys, bt, mut reqs, fill, anchor, rng, steer, twins)| {
            for (of, value) in twins {
                if reqs.is_empty() || reqs.len() >= max_reqs {
                    break;
                }
                let mut twin = reqs[of as usize % reqs.len()].clone();
                match (&mut twin, value) {
                    (Req::Spend(s), Some(v)) => s.value = v,
                    (Req::Output(o), Some(v)) => o.value = v,
                    _ => {}
                }
                reqs.push(twin);
            }
            if good {
                reqs.retain(|r| match r {
                    Req::Spend(_) => bt.spends(),
                    Req::Output(_) => bt.outputs(),
                });
            }
            if let Some((to, off)) = steer {
                steer_total(&mut reqs, to, off);
            }
            // Any anchor will do as long as nothing of value is spent.
            let anchor = if good && reqs.iter().any(|r| matches!(r, Req::Spend(s) if s.value != 0)) {
                AnchorG::Tree
            } else {
                anchor
            };
            Plan { keys, bt, reqs, fill, anchor, rng }
        })
        .boxed()
}

/// Plans with many requests, some of them repeated, whose totals fit.
pub fn many_plan_g(min: usize, max: usize) -> BoxedStrategy<Plan> {
    (min..=max, 1usize..=6, plan_g(true, 4), any::<bool>())
        .prop_flat_map(|(n, kinds, base, one_sided)| {
            let req = prop_oneof![
                if one_sided { 1 } else { 4 } => spend_g(true).prop_map(Req::Spend),
                4 => out_g().prop_map(Req::Output),
            ];
            let pick = proptest::collection::vec(0usize..kinds * 12, n);
            (proptest::collection::vec(req, kinds * 12), pick).prop_map(move |(pool, pick)| {
                let mut plan = base.clone();
                plan.reqs = pick.iter().map(|i| pool[*i].clone()).collect();
                plan.reqs.retain(|q| match q {
                    Req::Spend(_) => plan.bt.spends(),
                    Req::Output(_) => plan.bt.outputs(),
                });
                for q in &mut plan.reqs {
                    match q {
                        Req::Spend(s) => s.value >>= 10,
                        Req::Output(o) => o.value >>= 10,
                    }
                }
                if plan.reqs.iter().any(|q| matches!(q, Req::Spend(s) if s.value != 0)) {
                    plan.anchor = AnchorG::Tree;
                }
                plan
            })
        })
        .boxed()
}

/// Adjusts the last request's value so that the net total is to + off, when that is possible.
fn steer_total(reqs: &mut [Req], to: i64, off: i64) {
    let target = to as i128 + off as i128;
    let n = reqs.len();
    if n == 0 {
        return;
    }
    let rest: i128 = reqs[..n - 1]
        .iter()
        .map(|r| match r {
            Req::Spend(s) => s.value as i128,
            Req::Output(o) => -(o.value as i128),
        })
        .sum();
    match &mut reqs[n - 1] {
        Req::Spend(s) => {
            if let Ok(v) = u64::try_from(target - rest) {
                s.value = v;
            }
        }
        Req::Output(o) => {
            if let Ok(v) = u64::try_from(rest - target) {
                o.value = v;
            }
        }
    }
}

// ---- materialised plans ----

pub struct MSpend {
    pub fvk: FullViewingKey,
    pub fvk_keys: Keys,
    /// Which of the plan's keys the note belongs to.
    pub key: usize,
    pub scope: Sc,
    pub note: RNote,
    pub pos: u32,
    pub path: Vec<Base>,
    pub owned: bool,
    pub anchored: bool,
}
pub struct MOut {
    pub ovk: Option<[u8; 32]>,
    pub addr: [u8; 43],
    /// Incoming viewing key that decrypts it.
    pub ivk: Base,
    pub value: u64,
    pub memo: Option<[u8; 512]>,
}
pub enum MReq {
    Spend(MSpend),
    Output(MOut),
}

pub struct Mat {
    pub bt: Bt,
    pub sks: Vec<[u8; 32]>,
    pub keys: Vec<Keys>,
    pub reqs: Vec<MReq>,
    pub anchor: Base,
    pub rng: [u8; 32],
}

pub fn default_memo() -> [u8; 512] {
    let mut m = [0; 512];
    m[0] = 0xf6;
    m
}

impl MSpend {
    pub fn note(&self) -> Note {
        orc::note(&self.note).expect("generated note is valid")
    }
    pub fn merkle_path(&self) -> MerklePath {
        orc::path(self.pos, &self.path)
    }
    pub fn nf(&self) -> [u8; 32] {
        self.note.nf(&self.fvk_keys.nk).expect("commitment exists").to_repr()
    }
    pub fn info(&self) -> Option<SpendInfo> {
        SpendInfo::new(self.fvk.clone(), self.note(), self.merkle_path())
    }
}
impl MOut {
    pub fn ovk(&self) -> Option<OutgoingViewingKey> {
        self.ovk.map(OutgoingViewingKey::from)
    }
    pub fn address(&self) -> Address {
        orc::addr(&self.addr).expect("generated address is valid")
    }
    pub fn info(&self) -> OutputInfo {
        OutputInfo::new(self.ovk(), self.address(), NoteValue::from_raw(self.value), self.memo)
    }
    pub fn want_memo(&self) -> [u8; 512] {
        self.memo.unwrap_or_else(default_memo)
    }
}

fn keys_of(sk: &[u8; 32]) -> ([u8; 32], Keys) {
    // Invalid spending keys occur with negligible probability; replace them if they do.
    match Keys::from_sk(sk) {
        Some(k) => (*sk, k),
        None => ([7; 32], Keys::from_sk(&[7; 32]).unwrap()),
    }
}

impl Plan {
    pub fn mat(&self) -> Mat {
        let (sks, keys): (Vec<_>, Vec<_>) = self.keys.iter().map(|k| keys_of(&k.0)).unzip();
        let kn = keys.len();
        // First pass: notes and positions.
        let mut notes: Vec<(usize, Sc, RNote, u32)> = vec![];
        let mut leaves: BTreeMap<u32, Base> = BTreeMap::new();
        for r in &self.reqs {
            if let Req::Spend(s) = r {
                if let Some(a) = s.again {
                    if !notes.is_empty() {
                        let x = notes[a as usize % notes.len()].clone();
                        notes.push(x);
                        continue;
                    }
                }
                let k = s.key as usize % kn;
                let sc = if s.internal { Sc::Int } else { Sc::Ext };
                let mut addr = keys[k].view(sc).address_at(&s.div.0);
                if let Some(e) = &s.stray {
                    let mut a = addr;
                    e.apply(&mut a);
                    if orc::addr(&a).is_some() {
                        addr = a;
                    }
                }
                let note = RNote {
                    addr,
                    value: s.value,
                    rho: s.rho.0,
                    rseed: s.rseed.0,
                };
                let mut pos = s.pos;
                while leaves.contains_key(&pos) {
                    pos = pos.wrapping_add(1);
                }
                leaves.insert(pos, note.cmx().expect("commitment exists"));
                notes.push((k, sc, note, pos));
            }
        }
        let fill = self.fill;
        let tree = SparseTree::new(&leaves, Box::new(move |l, i| fill_base(fill, l, i)));
        let anchor = match &self.anchor {
            AnchorG::Tree => tree.root(),
            AnchorG::Empty => refm::EMPTY[32],
            AnchorG::Other(b) => refm::base_of(&b.0).unwrap(),
            AnchorG::Near(e) => {
                let mut b = tree.root().to_repr();
                e.apply(&mut b);
                refm::base_of(&b).unwrap_or_else(|| tree.root() + Base::one())
            }
        };
        let mut it = notes.into_iter();
        let reqs = self
            .reqs
            .iter()
            .map(|r| match r {
                Req::Spend(s) => {
                    let (k, sc, note, pos0) = it.next().unwrap();
                    let mut pos = pos0;
                    let mut path = tree.path(pos);
                    match &s.path {
                        PathG::Good => {}
                        PathG::Sibling(l, b) => path[*l as usize % 32] = refm::base_of(&b.0).unwrap(),
                        PathG::Bit(b) => pos ^= 1 << (b % 32),
                        PathG::Foreign(f) => {
                            path = (0..32).map(|l| fill_base(*f, l, 77)).collect();
                        }
                    }
                    let fvk_keys = match &s.fvk {
                        FvkG::Own => keys[k].clone(),
                        FvkG::Other(o) => keys[*o as usize % kn].clone(),
                        FvkG::Part(p, o) => {
                            let (_, o) = keys_of(&o.0);
                            let mut b = keys[k].fvk_bytes();
                            let p = (*p as usize % 3) * 32;
                            b[p..p + 32].copy_from_slice(&o.fvk_bytes()[p..p + 32]);
                            Keys::from_view(
                                b[..32].try_into().unwrap(),
                                b[32..64].try_into().unwrap(),
                                b[64..].try_into().unwrap(),
                            )
                            .unwrap_or_else(|| o.clone())
                        }
                    };
                    let owned = fvk_keys.scope_of(&note.addr).is_some();
                    let anchored =
                        note.value == 0 || refm::path_root(pos, &path, &note.cmx().unwrap()) == anchor;
                    MReq::Spend(MSpend {
                        fvk: FullViewingKey::from_bytes(&fvk_keys.fvk_bytes()).expect("valid viewing key"),
                        fvk_keys,
                        key: k,
                        scope: sc,
                        note,
                        pos,
                        path,
                        owned,
                        anchored,
                    })
                }
                Req::Output(o) => {
                    let (addr, ivk) = match &o.to {
                        ToG::Own { key, internal, div } => {
                            let v = keys[*key as usize % kn].view(if *internal { Sc::Int } else { Sc::Ext });
                            (v.address_at(&div.0), v.ivk)
                        }
                        ToG::Foreign { sk, div } => {
                            let (_, k) = keys_of(&sk.0);
                            let v = k.view(Sc::Ext);
                            (v.address_at(&div.0), v.ivk)
                        }
                        ToG::Bare { d, ivk } => {
                            let ivk = refm::base_of(&ivk.0).unwrap();
                            (bare_address(&d.0, &ivk), ivk)
                        }
                    };
                    MReq::Output(MOut {
                        ovk: match &o.ovk {
                            OvkG::None => None,
                            OvkG::Own { key, internal } => Some(
                                keys[*key as usize % kn].view(if *internal { Sc::Int } else { Sc::Ext }).ovk,
                            ),
                            OvkG::Raw(b) => Some(b.0),
                        },
                        addr,
                        ivk,
                        value: o.value,
                        memo: o.memo.as_ref().map(|m| m.bytes()),
                    })
                }
            })
            .collect();
        Mat { bt: self.bt.clone(), sks, keys, reqs, anchor, rng: self.rng.0 }
    }
}

pub fn bare_address(d: &[u8; 11], ivk: &Base) -> [u8; 43] {
    use group::GroupEncoding;
    let pk_d = refm::diversify_hash(d) * refm::base_to_scalar(*ivk);
    let mut a = [0; 43];
    a[..11].copy_from_slice(d);
    a[11..].copy_from_slice(&pk_d.to_bytes());
    a
}

pub type Unauth<V> = Bundle<InProgress<Unproven, Unauthorized>, V>;
pub type Proven<V> = Bundle<InProgress<orchard::Proof, Unauthorized>, V>;

impl Mat {
    pub fn anchor(&self) -> Anchor {
        orc::anchor(&self.anchor)
    }
    pub fn spends(&self) -> Vec<&MSpend> {
        self.reqs
            .iter()
            .filter_map(|r| match r {
                MReq::Spend(s) => Some(s),
                _ => None,
            })
            .collect()
    }
    pub fn outputs(&self) -> Vec<&MOut> {
        self.reqs
            .iter()
            .filter_map(|r| match r {
                MReq::Output(o) => Some(o),
                _ => None,
            })
            .collect()
    }
    pub fn spend_ok(&self, s: &MSpend) -> bool {
        self.bt.spends() && s.owned && s.anchored
    }
    pub fn accepted_spends(&self) -> Vec<&MSpend> {
        self.spends().into_iter().filter(|s| self.spend_ok(s)).collect()
    }
    pub fn accepted_outputs(&self) -> Vec<&MOut> {
        if self.bt.outputs() {
            self.outputs()
        } else {
            vec![]
        }
    }
    pub fn spend_total(&self) -> u128 {
        self.accepted_spends().iter().map(|s| s.note.value as u128).sum()
    }
    pub fn output_total(&self) -> u128 {
        self.accepted_outputs().iter().map(|s| s.value as u128).sum()
    }
    /// The exact net value of the accepted requests.
    pub fn net(&self) -> i128 {
        self.spend_total() as i128 - self.output_total() as i128
    }
    /// Whether both totals fit in 64 bits, so that a net value that fits must be accepted.
    pub fn totals_fit(&self) -> bool {
        self.spend_total() <= u64::MAX as u128 && self.output_total() <= u64::MAX as u128
    }
    /// Feeds one request to a builder; true if it was accepted.
    pub fn feed(&self, b: &mut Builder, r: &MReq) -> Result<(), Fed> {
        match r {
            MReq::Spend(s) => b.add_spend(s.fvk.clone(), s.note(), s.merkle_path()).map_err(Fed::Spend),
            MReq::Output(o) => b
                .add_output(o.ovk(), o.address(), NoteValue::from_raw(o.value), o.memo)
                .map_err(|_| Fed::Output),
        }
    }
    /// A builder holding every acceptable request.
    pub fn builder(&self) -> Builder {
        let mut b = Builder::new(self.bt.ty(), self.anchor());
        for r in &self.reqs {
            let _ = self.feed(&mut b, r);
        }
        b
    }
    /// All incoming viewing keys of the plan's keys and of the requested recipients.
    pub fn all_ivks(&self) -> Vec<Base> {
        let mut v: Vec<Base> = self.keys.iter().flat_map(|k| k.views.iter().map(|x| x.ivk)).collect();
        v.extend(self.outputs().iter().map(|o| o.ivk));
        v
    }
}

#[derive(Debug, PartialEq, Eq)]
pub enum Fed {
    Spend(SpendError),
    Output,
}

/// Raw fields of all actions of a bundle.
pub fn raw_actions<T: Authorization, V>(b: &Bundle<T, V>) -> Vec<refm::RAction> {
    b.actions().iter().map(orc::raction).collect()
}
pub fn raw_outs<T: Authorization, V>(b: &Bundle<T, V>) -> Vec<ROut> {
    b.actions().iter().map(orc::rout).collect()
}

/// The binding validating key the protocol defines: sum of cv minus V * balance.
pub fn model_bvk(actions: &[refm::RAction], balance: i64) -> refm::Point {
    use group::Group;
    actions
        .iter()
        .fold(refm::Point::identity(), |acc, a| acc + refm::point_of(&a.out.cv).unwrap())
        - refm::value_commit(balance as i128, &refm::Scalar::zero())
}

/// Everything a finalized bundle must satisfy for its message.
pub fn check_signatures<V: Copy + Into<i64>>(b: &Bundle<Authorized, V>, sighash: &[u8; 32]) -> Result<(), String> {
    use group::GroupEncoding;
    let acts = raw_actions(b);
    for (i, a) in b.actions().iter().enumerate() {
        let sig: [u8; 64] = a.authorization().into();
        ensure!(
            refm::redpallas_verify(false, &acts[i].rk, sighash, &sig),
            "spend signature {} does not verify under its rk by the model",
            i
        );
        ensure!(a.rk().verify(sighash, a.authorization()).is_ok(), "spend signature {} does not verify", i);
    }
    let bvk = model_bvk(&acts, (*b.value_balance()).into()).to_bytes();
    let got: [u8; 32] = (&b.binding_validating_key()).into();
    ensure_eq!(got, bvk, "binding validating key");
    let bsig: [u8; 64] = b.authorization().binding_signature().into();
    ensure!(
        refm::redpallas_verify(true, &bvk, sighash, &bsig),
        "binding signature does not verify under the balance's key by the model"
    );
    ensure!(
        b.binding_validating_key().verify(sighash, b.authorization().binding_signature()).is_ok(),
        "binding signature does not verify"
    );
    Ok(())
}
