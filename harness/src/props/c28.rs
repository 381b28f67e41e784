//! C28: across any history of transactions, wallets and the ledger agree.

use crate::engine::{Obs, Runner, R};
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool::RawBundle;
use crate::prove;
use crate::refm::{self, Base, Keys, RNote, Sc, SparseTree};
use bridgetree::{BridgeTree, NonEmptyFrontier};
use ff::PrimeField;
use incrementalmerkletree::Position;
use orchard::{
    builder::{Builder, BundleType, SpendError},
    bundle::{Authorized, BatchValidator, Flags},
    keys::{FullViewingKey, IncomingViewingKey, OutgoingViewingKey, Scope, SpendAuthorizingKey},
    note::ExtractedNoteCommitment,
    tree::{MerkleHashOrchard, MerklePath},
    value::NoteValue,
    Anchor, Bundle, Note,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pay {
    to: u8,
    internal: bool,
    div: B11,
    value: u64,
    memo: Option<MemoG>,
    /// Whose outgoing viewing key (and which), if any.
    ovk: Option<(u8, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Issue { coinbase: bool, pays: Vec<Pay> },
    Transfer {
        /// Which of the notes at hand to spend.
        ins: Vec<u16>,
        pays: Vec<Pay>,
        /// Return what is left to the first spender's internal addresses.
        change: bool,
        /// How many blocks behind the tip the anchor is.
        back: u8,
        /// Spent notes, and the same note twice, are picked too.
        careless: bool,
    },
    /// Other people's commitments enter the tree.
    Others(Vec<B32>),
    /// The last blocks are undone.
    Undo(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    wallets: Vec<B32>,
    /// Where in the tree the history starts.
    pos: u32,
    fill: u64,
    ops: Vec<Op>,
    rng: B32,
}

fn pay() -> BoxedStrategy<Pay> {
    let value = prop_oneof![1 => Just(0u64), 1 => Just(1), 3 => 0u64..1_000_000, 2 => any::<u64>().prop_map(|v| v >> 12)];
    (0u8..4, any::<bool>(), div11(), value, proptest::option::of(memo()), proptest::option::of((0u8..4, any::<bool>())))
        .prop_map(|(to, internal, div, value, memo, ovk)| Pay { to, internal, div, value, memo, ovk })
        .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let pays = |n: std::ops::Range<usize>| proptest::collection::vec(pay(), n);
    prop_oneof![
        2 => (any::<bool>(), pays(1..4)).prop_map(|(coinbase, pays)| Op::Issue { coinbase, pays }),
        7 => (
            prop_oneof![6 => proptest::collection::vec(any::<u16>(), 1..4), 1 => proptest::collection::vec(any::<u16>(), 4..14)],
            prop_oneof![6 => pays(0..3), 1 => pays(3..14)],
            prop::bool::weighted(0.7),
            prop_oneof![2 => Just(0u8), 1 => 0u8..4],
            prop::bool::weighted(0.2),
        )
            .prop_map(|(ins, pays, change, back, careless)| Op::Transfer { ins, pays, change, back, careless }),
        1 => proptest::collection::vec(base32(), 1..6).prop_map(Op::Others),
        1 => (1u8..4).prop_map(Op::Undo),
    ]
    .boxed()
}

fn hist(max: usize) -> BoxedStrategy<Hist> {
    (
        proptest::collection::vec(sk32(), 1..4),
        (pos_u32(), any::<u64>()),
        pays_first(),
        proptest::collection::vec(op(), 2..=max),
        seed32(),
    )
        .prop_map(|(wallets, (pos, fill), first, mut ops, rng)| {
            ops.insert(0, Op::Issue { coinbase: false, pays: first });
            Hist { wallets, pos: pos.min(u32::MAX - 4096), fill, ops, rng }
        })
        .boxed()
}
fn pays_first() -> BoxedStrategy<Vec<Pay>> {
    proptest::collection::vec(pay(), 1..5).boxed()
}

fn mh(b: &Base) -> MerkleHashOrchard {
    MerkleHashOrchard::from_bytes(&b.to_repr()).unwrap()
}

struct Wallet {
    keys: Keys,
    fvk: FullViewingKey,
    ask: SpendAuthorizingKey,
    ivks: Vec<IncomingViewingKey>,
}

/// A note some wallet found.
struct Held {
    wallet: usize,
    scope: Sc,
    note: Note,
    pos: u32,
    nf: [u8; 32],
    block: usize,
    spent: Option<usize>,
    /// How many transfers led to it.
    depth: usize,
}

struct Block {
    /// Leaves in the tree before it.
    before: usize,
    bundle: Option<RawBundle>,
    balance: i64,
}

struct Chain {
    wallets: Vec<Wallet>,
    pos: u32,
    fill: u64,
    leaves: Vec<Base>,
    blocks: Vec<Block>,
    held: Vec<Held>,
    /// Revealed nullifiers, with the block that did.
    nfs: BTreeMap<[u8; 32], usize>,
    tree: BridgeTree<MerkleHashOrchard, u32, 32>,
    ticks: u32,
}

struct Want {
    addr: [u8; 43],
    value: u64,
    memo: [u8; 512],
    wallet: usize,
    scope: Sc,
    ovk: Option<[u8; 32]>,
}

impl Chain {
    fn new(h: &Hist) -> Result<Chain, String> {
        let mut sks: Vec<[u8; 32]> = vec![];
        for w in &h.wallets {
            let sk = if Keys::from_sk(&w.0).is_some() { w.0 } else { [7; 32] };
            if !sks.contains(&sk) {
                sks.push(sk);
            }
        }
        let wallets = sks
            .iter()
            .map(|sk| {
                let keys = Keys::from_sk(sk).unwrap();
                // The spender holds the key; the scanner works from exported viewing keys.
                let fvk = orc::fvk(sk).ok_or("spending key refused")?;
                let fvk = FullViewingKey::from_bytes(&fvk.to_bytes()).ok_or("viewing key refused")?;
                let ivks = [Scope::External, Scope::Internal]
                    .iter()
                    .map(|s| {
                        Option::from(IncomingViewingKey::from_bytes(&fvk.to_ivk(*s).to_bytes()))
                            .ok_or("incoming viewing key refused")
                    })
                    .collect::<Result<Vec<_>, _>>()?;
                Ok(Wallet { keys, fvk, ask: orc::ask(sk).ok_or("spending key refused")?, ivks })
            })
            .collect::<Result<Vec<_>, &str>>()?;
        let first = fill_base(h.fill, 0, h.pos as u64);
        let ommers: Vec<MerkleHashOrchard> = (0..32usize)
            .filter(|l| (h.pos >> l) & 1 == 1)
            .map(|l| mh(&fill_base(h.fill, l, ((h.pos as u64) >> l) - 1)))
            .collect();
        let f = NonEmptyFrontier::from_parts(Position::from(h.pos as u64), mh(&first), ommers)
            .map_err(|e| format!("frontier refused: {:?}", e))?;
        Ok(Chain {
            wallets,
            pos: h.pos,
            fill: h.fill,
            leaves: vec![first],
            blocks: vec![],
            held: vec![],
            nfs: BTreeMap::new(),
            tree: BridgeTree::from_frontier(100, f),
            ticks: 0,
        })
    }

    /// The tree with its first `n` leaves, by the model.
    fn model_tree(&self, n: usize) -> SparseTree {
        let leaves: BTreeMap<u32, Base> =
            self.leaves[..n].iter().enumerate().map(|(i, x)| (self.pos + i as u32, *x)).collect();
        let (pos, fill) = (self.pos as u64, self.fill);
        SparseTree::new(
            &leaves,
            Box::new(move |l, i| if i < (pos >> l) { fill_base(fill, l, i) } else { refm::EMPTY[l] }),
        )
    }

    fn begin(&mut self) -> Result<usize, String> {
        self.ticks += 1;
        ensure!(self.tree.checkpoint(self.ticks), "checkpoint refused");
        Ok(self.leaves.len())
    }

    fn append(&mut self, cmx: &[u8; 32], mark: bool) -> R {
        let c = Option::from(ExtractedNoteCommitment::from_bytes(cmx)).ok_or("commitment refused")?;
        ensure!(self.tree.append(MerkleHashOrchard::from_cmx(&c)), "append refused");
        self.leaves.push(refm::base_of(cmx).ok_or("non-canonical commitment")?);
        if mark {
            self.tree.mark();
        }
        Ok(())
    }

    /// What every wallet finds in a bundle, by action.
    fn scan(&self, b: &Bundle<Authorized, i64>) -> Result<BTreeMap<usize, (usize, Sc, Note, [u8; 512])>, String> {
        let mut found = BTreeMap::new();
        for (w, wallet) in self.wallets.iter().enumerate() {
            for (i, ivk, note, addr, memo) in b.decrypt_outputs_with_keys(&wallet.ivks) {
                let scope = if ivk == wallet.ivks[0] { Sc::Ext } else { Sc::Int };
                ensure_eq!(
                    wallet.fvk.scope_for_address(&addr).map(orc::sc),
                    Some(scope),
                    "scope of a found note's address"
                );
                ensure!(note.recipient() == addr, "address of a found note");
                ensure!(found.insert(i, (w, scope, note, memo)).is_none(), "two wallets find the note of action {}", i);
            }
        }
        Ok(found)
    }

    fn pay(&self, p: &Pay) -> Want {
        let wallet = p.to as usize % self.wallets.len();
        let scope = if p.internal { Sc::Int } else { Sc::Ext };
        Want {
            addr: self.wallets[wallet].keys.view(scope).address_at(&p.div.0),
            value: p.value,
            memo: p.memo.as_ref().map_or_else(default_memo, |m| m.bytes()),
            wallet,
            scope,
            ovk: p.ovk.map(|(k, int)| self.wallets[k as usize % self.wallets.len()].keys.views[usize::from(int)].ovk),
        }
    }

    /// Builds, authorizes and (unless the ledger must refuse it) applies one transaction.
    #[allow(clippy::too_many_arguments)]
    fn transact(
        &mut self,
        bt: BundleType,
        ins: &[usize],
        wants: &[Want],
        height: usize,
        rng: &mut rand_chacha::ChaCha20Rng,
        proven: bool,
        obs: &mut Obs,
    ) -> R {
        let n = if height == self.blocks.len() { self.leaves.len() } else { self.blocks[height].before };
        let t = self.model_tree(n);
        let anchor = orc::anchor(&t.root());
        let mut b = Builder::new(bt, anchor);
        for &i in ins {
            let h = &self.held[i];
            let path = orc::path(h.pos, &t.path(h.pos));
            ensure_eq!(
                path.root(h.note.commitment().into()).to_bytes(),
                anchor.to_bytes(),
                "root of a held note's path at height {}",
                height
            );
            b.add_spend(self.wallets[h.wallet].fvk.clone(), h.note, path)
                .map_err(|e| format!("a held note cannot be spent at height {}: {:?}", height, e))?;
        }
        for w in wants {
            b.add_output(
                w.ovk.map(OutgoingViewingKey::from),
                orc::addr(&w.addr).ok_or("address refused")?,
                NoteValue::from_raw(w.value),
                Some(w.memo),
            )
            .map_err(|_| "output refused")?;
        }
        let spent: u64 = ins.iter().map(|i| self.held[*i].note.value().inner()).sum();
        let sent: u64 = wants.iter().map(|w| w.value).sum();
        let balance = spent as i64 - sent as i64;
        let built = b.build::<i64>(&mut *rng).map_err(|e| format!("build: {:?}", e))?;
        let (bundle, meta) = match built {
            Some(x) => x,
            None => {
                ensure!(ins.is_empty() && wants.is_empty(), "no bundle for a transaction");
                return Ok(());
            }
        };
        ensure_eq!(*bundle.value_balance(), balance, "value balance");
        // The message signed is the bundle's own identifier digest.
        let sighash: [u8; 32] = bundle.commitment().into();
        let asks: Vec<SpendAuthorizingKey> = self.wallets.iter().map(|w| w.ask.clone()).collect();
        let ready = if proven {
            bundle.create_proof(&prove::PK, &mut *rng).map_err(|e| format!("proving: {:?}", e))?
        } else {
            stand_in(bundle)
        };
        let b = ready
            .apply_signatures(&mut *rng, sighash, &asks)
            .map_err(|e| format!("signing: {:?}", e))?;
        // What travels is bytes.
        let raw = RawBundle::of(&b);
        let b = raw.bundle().ok_or("the bundle does not decode")?;
        ensure!(RawBundle::of(&b) == raw, "the decoded bundle differs");
        ensure_eq!(<[u8; 32]>::from(b.commitment()), sighash, "identifier digest of the authorized bundle");
        check_signatures(&b, &sighash)?;
        if proven {
            b.verify_proof(&prove::VK).map_err(|e| format!("the proof is refused: {:?}", e))?;
        }

        // The ledger's rules.
        let mut fresh = BTreeSet::new();
        let mut repeats: Vec<[u8; 32]> = vec![];
        for a in &raw.acts {
            if self.nfs.contains_key(&a.out.nf) || !fresh.insert(a.out.nf) {
                repeats.push(a.out.nf);
            }
        }
        repeats.sort();
        let mut want: Vec<[u8; 32]> = vec![];
        let mut seen = BTreeSet::new();
        for &i in ins {
            if self.held[i].spent.is_some() || !seen.insert(i) {
                want.push(self.held[i].nf);
            }
        }
        want.sort();
        ensure_eq!(repeats, want, "nullifiers revealed before");
        if !want.is_empty() {
            obs.class("double-spend-refused");
            return Ok(());
        }
        for &i in ins {
            ensure!(fresh.contains(&self.held[i].nf), "a spend does not reveal its note's nullifier");
        }

        // Wallets scan it.
        let found = self.scan(&b)?;
        let mut expect = BTreeMap::new();
        for (k, w) in wants.iter().enumerate() {
            let i = meta.output_action_index(k).ok_or("no index for an output")?;
            ensure!(expect.insert(i, w).is_none(), "two outputs at action {}", i);
        }
        ensure_eq!(
            found.keys().collect::<Vec<_>>(),
            expect.keys().collect::<Vec<_>>(),
            "actions in which wallets find notes"
        );
        let ovks: Vec<[u8; 32]> =
            self.wallets.iter().flat_map(|w| w.keys.views.iter().map(|v| v.ovk)).collect();
        let sent: BTreeMap<usize, Note> = b
            .recover_outputs_with_ovks(&ovks.iter().map(|k| OutgoingViewingKey::from(*k)).collect::<Vec<_>>())
            .into_iter()
            .map(|(i, _, n, _, _)| (i, n))
            .collect();
        let height = self.blocks.len();
        let depth = 1 + ins.iter().map(|i| self.held[*i].depth).max().unwrap_or(0);
        let before = self.begin()?;
        for (i, a) in raw.acts.iter().enumerate() {
            self.nfs.insert(a.out.nf, height);
            self.append(&a.out.cmx, found.contains_key(&i))?;
            let w = match expect.get(&i) {
                Some(w) => w,
                None => {
                    ensure!(!sent.contains_key(&i), "padding action {} is recovered", i);
                    continue;
                }
            };
            let (wallet, scope, note, memo) = &found[&i];
            let r = orc::rnote(note);
            let want = RNote { addr: w.addr, value: w.value, rho: a.out.nf, rseed: r.rseed };
            ensure_eq!(r, want, "note found in action {}", i);
            ensure_eq!((*wallet, *scope), (w.wallet, w.scope), "finder of the note in action {}", i);
            ensure!(*memo == w.memo, "memo found in action {}", i);
            ensure_eq!(sent.get(&i).map(orc::rnote), w.ovk.map(|_| r.clone()), "note recovered in action {}", i);
            let nf = r.nf(&self.wallets[w.wallet].keys.nk).ok_or("no nullifier")?.to_repr();
            ensure_eq!(note.nullifier(&self.wallets[w.wallet].fvk).to_bytes(), nf, "nullifier of a found note");
            self.held.push(Held {
                wallet: w.wallet,
                scope: w.scope,
                note: *note,
                pos: self.pos + before as u32 + i as u32,
                nf,
                block: height,
                spent: None,
                depth,
            });
        }
        for &i in ins {
            self.held[i].spent = Some(height);
        }
        self.blocks.push(Block { before, bundle: Some(raw), balance });
        if !ins.is_empty() {
            obs.class("transfer");
            obs.class_if(ins.iter().any(|i| self.held[*i].depth > 1), "spend-of-a-transferred-note");
            obs.class_if(ins.iter().any(|i| self.held[*i].scope == Sc::Int), "spend-of-change");
            let w: BTreeSet<usize> = ins.iter().map(|i| self.held[*i].wallet).collect();
            obs.class_if(w.len() > 1, "several-spenders");
            if depth > 2 {
                obs.nontrivial();
            }
        }
        Ok(())
    }

    /// Undoes the blocks from `height` on; returns the notes that go with them.
    fn undo(&mut self, height: usize) -> Result<Vec<Held>, String> {
        for _ in height..self.blocks.len() {
            ensure!(self.tree.rewind(), "rewind refused");
        }
        self.leaves.truncate(self.blocks[height].before);
        self.blocks.truncate(height);
        self.nfs.retain(|_, h| *h < height);
        let (stay, gone): (Vec<Held>, Vec<Held>) = std::mem::take(&mut self.held).into_iter().partition(|h| h.block < height);
        self.held = stay;
        for h in &mut self.held {
            h.spent = h.spent.filter(|s| *s < height);
        }
        Ok(gone)
    }

    /// Invariants of the whole state.
    fn check(&self) -> R {
        let t = self.model_tree(self.leaves.len());
        let root = t.root();
        let got = self.tree.root(0).ok_or("no root")?;
        ensure_eq!(Anchor::from(got).to_bytes(), root.to_repr(), "root of the wallet's tree");
        let (mut unspent, mut out) = (0i128, 0i128);
        for h in &self.held {
            ensure_eq!(h.spent.is_some(), self.nfs.contains_key(&h.nf), "whether a note's nullifier is revealed");
            if h.spent.is_none() {
                unspent += h.note.value().inner() as i128;
            }
        }
        for b in &self.blocks {
            out += b.balance as i128;
        }
        ensure_eq!(unspent, -out, "total of unspent notes");
        // The oldest and the latest unspent notes can still be spent.
        let live: Vec<&Held> = self.held.iter().filter(|h| h.spent.is_none()).collect();
        for h in live.iter().take(1).chain(live.iter().skip(1).rev().take(2)) {
            let w = self
                .tree
                .witness(Position::from(h.pos as u64), 0)
                .map_err(|e| format!("no witness for the note at {}: {:?}", h.pos, e))?;
            let p = incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(w, Position::from(h.pos as u64))
                .map_err(|_| "witness is no path")?;
            let p = MerklePath::from(p);
            ensure_eq!(p.root(h.note.commitment().into()).to_bytes(), root.to_repr(), "root of the note at {}", h.pos);
            let mut b = Builder::new(BundleType::DEFAULT, got.into());
            b.add_spend(self.wallets[h.wallet].fvk.clone(), h.note, p)
                .map_err(|e| format!("an unspent note cannot be spent with the wallet's witness: {:?}", e))?;
            let other = &self.wallets[(h.wallet + 1) % self.wallets.len()];
            if self.wallets.len() > 1 {
                ensure!(
                    b.add_spend(other.fvk.clone(), h.note, orc::path(h.pos, &t.path(h.pos))) == Err(SpendError::FvkMismatch),
                    "another wallet may spend the note at {}",
                    h.pos
                );
            }
        }
        Ok(())
    }

    /// A wallet restored from its key finds the same notes in the whole chain.
    fn restore(&self) -> R {
        let mut at = vec![];
        for (k, block) in self.blocks.iter().enumerate() {
            if let Some(raw) = &block.bundle {
                let b = raw.bundle().ok_or("a block does not decode")?;
                for (i, (w, scope, note, _)) in self.scan(&b)? {
                    at.push((k, i, w, scope, orc::rnote(&note)));
                }
            }
        }
        let want: Vec<_> = self
            .held
            .iter()
            .map(|h| {
                let i = (h.pos - self.pos) as usize - self.blocks[h.block].before;
                (h.block, i, h.wallet, h.scope, orc::rnote(&h.note))
            })
            .collect();
        ensure_eq!(at, want, "notes found by rescanning");
        Ok(())
    }
}

#[cfg(feature = "hooks")]
fn stand_in(b: Unauth<i64>) -> Proven<i64> {
    b.verif_with_proof(orchard::Proof::new(vec![1]))
}
#[cfg(not(feature = "hooks"))]
fn stand_in(b: Unauth<i64>) -> Proven<i64> {
    b.create_proof(&prove::PK, orc::rng(&[1; 32])).expect("honest bundle can be proven")
}

fn drive(h: &Hist, proven: bool, obs: &mut Obs) -> R {
    let mut c = Chain::new(h)?;
    let mut rng = orc::rng(&h.rng.0);
    for (k, op) in h.ops.iter().enumerate() {
        let step = |e: String| format!("step {}: {}", k, e);
        let tip = c.blocks.len();
        match op {
            Op::Issue { coinbase, pays } => {
                let wants: Vec<Want> = pays.iter().map(|p| c.pay(p)).collect();
                let bt = if *coinbase {
                    BundleType::Coinbase
                } else {
                    BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: false }
                };
                c.transact(bt, &[], &wants, tip, &mut rng, proven, obs).map_err(step)?;
            }
            Op::Transfer { ins, pays, change, back, careless } => {
                let height = tip.saturating_sub(*back as usize);
                let n = if height == tip { c.leaves.len() } else { c.blocks[height].before };
                let near: Vec<usize> = (0..c.held.len())
                    .filter(|i| (c.held[*i].pos - c.pos) < n as u32 && (*careless || c.held[*i].spent.is_none()))
                    .collect();
                let mut picked: Vec<usize> = vec![];
                for i in ins {
                    if !near.is_empty() {
                        let i = near[*i as usize % near.len()];
                        if *careless || !picked.contains(&i) {
                            picked.push(i);
                        }
                    }
                }
                obs.class_if(height < tip && !picked.is_empty(), "older-anchor");
                let mut wants: Vec<Want> = pays.iter().map(|p| c.pay(p)).collect();
                let total: u64 = picked.iter().map(|i| c.held[*i].note.value().inner()).sum();
                let sent: u64 = wants.iter().map(|w| w.value).sum();
                if let (true, Some(first), true) = (*change, picked.first(), total > sent) {
                    let wallet = c.held[*first].wallet;
                    let v = c.wallets[wallet].keys.view(Sc::Int);
                    wants.push(Want {
                        addr: v.address_at(&[k as u8; 11]),
                        value: total - sent,
                        memo: [0; 512],
                        wallet,
                        scope: Sc::Int,
                        ovk: Some(v.ovk),
                    });
                }
                c.transact(BundleType::DEFAULT, &picked, &wants, height, &mut rng, proven, obs).map_err(step)?;
            }
            Op::Others(leaves) => {
                let before = c.begin()?;
                for x in leaves {
                    c.append(&x.0, false).map_err(step)?;
                }
                c.blocks.push(Block { before, bundle: None, balance: 0 });
            }
            Op::Undo(n) => {
                let height = tip.saturating_sub(*n as usize);
                if height < tip {
                    let before = c.model_tree(c.leaves.len());
                    let gone = c.undo(height).map_err(step)?;
                    obs.class("undone");
                    // Notes that went with the blocks cannot be spent any more.
                    let root = c.model_tree(c.leaves.len()).root();
                    for h in gone.iter().filter(|h| h.note.value().inner() > 0).take(2) {
                        let mut b = Builder::new(BundleType::DEFAULT, orc::anchor(&root));
                        let r = b.add_spend(
                            c.wallets[h.wallet].fvk.clone(),
                            h.note,
                            orc::path(h.pos, &before.path(h.pos)),
                        );
                        ensure!(r == Err(SpendError::AnchorMismatch), "step {}: spending an undone note: {:?}", k, r);
                    }
                }
            }
        }
        c.check().map_err(|e| format!("after step {}: {}", k, e))?;
    }
    c.restore()?;
    if proven {
        let mut v = BatchValidator::new();
        for b in c.blocks.iter().filter_map(|b| b.bundle.as_ref()) {
            let b = b.bundle().ok_or("a block does not decode")?;
            v.add_bundle(&b, b.commitment().into());
        }
        ensure!(v.validate(&prove::VK, &mut rng), "the chain's bundles are refused together");
    }
    Ok(())
}

/// Short histories in which a transfer's notes are spent again.
fn chain() -> BoxedStrategy<Hist> {
    let transfer = (
        proptest::collection::vec(any::<u16>(), 2..4),
        proptest::collection::vec(pay(), 1..3),
        prop_oneof![3 => Just(0u8), 1 => 0u8..2],
    )
        .prop_map(|(ins, pays, back)| Op::Transfer { ins, pays, change: true, back, careless: false });
    (hist(2), proptest::collection::vec(transfer, 2..4))
        .prop_map(|(mut h, ts)| {
            h.ops.truncate(1);
            h.ops.extend(ts);
            h
        })
        .boxed()
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when a note received through a transfer is spent again");
    r.assume("the ledger, its tree and its nullifier set are modelled; bridgetree keeps the wallets' witnesses");

    #[cfg(feature = "hooks")]
    r.family("histories", 300, 12_000, 300, || hist(10), |h: &Hist, obs| drive(h, false, obs));
    if r.wants("proven") {
        prove::warm();
    }
    r.family("proven", 4, 120, 4, chain, |h: &Hist, obs| drive(h, true, obs));
}
