//! C18: Merkle roots, paths and empty subtrees match the protocol's tree.

use crate::engine::Runner;
use crate::gens::*;
use crate::orc;
use crate::refm::{self, Base, SparseTree};
use bridgetree::{BridgeTree, Frontier};
use ff::PrimeField;
use incrementalmerkletree::{Hashable, Level, Position};
use orchard::{
    note::ExtractedNoteCommitment,
    tree::{MerkleHashOrchard, MerklePath},
    Anchor,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use subtle::ConditionallySelectable;

fn mh(b: &Base) -> MerkleHashOrchard {
    MerkleHashOrchard::from_bytes(&b.to_repr()).unwrap()
}
fn cmx(b: &Base) -> ExtractedNoteCommitment {
    ExtractedNoteCommitment::from_bytes(&b.to_repr()).unwrap()
}
fn b(x: &B32) -> Base {
    refm::base_of(&x.0).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PathCase {
    pos: u32,
    leaf: B32,
    seed: u64,
    /// Chosen siblings at some levels.
    sibs: Vec<(u8, B32)>,
    change: ChangeG,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ChangeG {
    Leaf(B32),
    LeafEdit(Edit),
    PosBit(u8),
    Pos(u32),
    Sib(u8, B32),
    SibEdit(u8, Edit),
    SwapSibs(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TreeCase {
    leaves: Vec<(u32, B32)>,
    /// `None`: all other leaves are empty.
    fill: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Append(B32),
    Mark,
    Checkpoint,
    Rewind,
    Unmark(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FrontCase {
    pos: u32,
    leaf: B32,
    seed: u64,
    more: Vec<B32>,
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when it compares a root of a non-empty tree or a changed path");
    r.assume("the Sinsemilla library shared by model and crate; bridgetree and incrementalmerkletree as tree containers");

    let comb = || (0u8..32, base32(), base32()).prop_map(|(l, a, b)| (l, a, b)).boxed();
    r.family("combine", 12_000, 500_000, 300, comb, |(l, x, y): &(u8, B32, B32), obs| {
        obs.nontrivial();
        let (x, y) = (b(x), b(y));
        let want = refm::merkle_combine(*l, &x, &y).to_repr();
        ensure_eq!(MerkleHashOrchard::combine(Level::from(*l), &mh(&x), &mh(&y)).to_bytes(), want, "node hash");
        Ok(())
    });

    r.family("empty", 300, 2_000, 100, || (0u8..=32).boxed(), |l: &u8, obs| {
        obs.nontrivial();
        let got = MerkleHashOrchard::empty_root(Level::from(*l));
        ensure_eq!(got.to_bytes(), refm::EMPTY[*l as usize].to_repr(), "empty root of level {}", l);
        ensure_eq!(MerkleHashOrchard::empty_leaf().to_bytes(), Base::from(2).to_repr(), "empty leaf");
        ensure_eq!(Anchor::empty_tree().to_bytes(), refm::EMPTY[32].to_repr(), "anchor of the empty tree");
        let t = Frontier::<MerkleHashOrchard, 32>::empty();
        ensure_eq!(t.root().to_bytes(), refm::EMPTY[32].to_repr(), "root of an empty frontier");
        Ok(())
    });

    let paths = || {
        let change = prop_oneof![
            base32().prop_map(ChangeG::Leaf),
            edit().prop_map(ChangeG::LeafEdit),
            (0u8..32).prop_map(ChangeG::PosBit),
            (0u8..32).prop_map(ChangeG::PosBit),
            pos_u32().prop_map(ChangeG::Pos),
            (0u8..32, base32()).prop_map(|(l, b)| ChangeG::Sib(l, b)),
            (0u8..32, edit()).prop_map(|(l, b)| ChangeG::SibEdit(l, b)),
            (0u8..32, 0u8..32).prop_map(|(a, b)| ChangeG::SwapSibs(a, b)),
        ];
        let sibs = proptest::collection::vec((0u8..32, base32()), 0..6);
        (pos_u32(), base32(), any::<u64>(), sibs, change)
            .prop_map(|(pos, leaf, seed, sibs, change)| PathCase { pos, leaf, seed, sibs, change })
            .boxed()
    };
    r.family("path", 2_500, 100_000, 300, paths, |c: &PathCase, obs| {
        obs.nontrivial();
        let leaf = b(&c.leaf);
        let mut path: Vec<Base> = (0..32).map(|l| fill_base(c.seed, l, 0)).collect();
        for (l, s) in &c.sibs {
            path[*l as usize] = b(s);
        }
        let want = refm::path_root(c.pos, &path, &leaf);
        let elems: Vec<MerkleHashOrchard> = path.iter().map(mh).collect();
        let p = orc::path(c.pos, &path);
        ensure_eq!(p.root(cmx(&leaf)).to_bytes(), want.to_repr(), "root of a path");
        let q = MerklePath::from((Position::from(c.pos as u64), elems.clone()));
        ensure_eq!(q.root(cmx(&leaf)).to_bytes(), want.to_repr(), "root of a converted path");
        let imt = incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(elems, Position::from(c.pos as u64))
            .map_err(|_| "path of the right length refused")?;
        ensure_eq!(imt.root(mh(&leaf)).to_bytes(), want.to_repr(), "root computed by the generic path");
        ensure_eq!(MerklePath::from(imt).root(cmx(&leaf)).to_bytes(), want.to_repr(), "root of a generic path");
        // Changes.
        let (mut pos2, mut leaf2, mut path2) = (c.pos, leaf, path.clone());
        let edited = |x: &Base, e: &Edit| {
            let mut r = x.to_repr();
            e.apply(&mut r);
            refm::base_of(&r).unwrap_or(*x)
        };
        match &c.change {
            ChangeG::Leaf(x) => leaf2 = b(x),
            ChangeG::LeafEdit(e) => leaf2 = edited(&leaf2, e),
            ChangeG::PosBit(k) => pos2 ^= 1 << k,
            ChangeG::Pos(p) => pos2 = *p,
            ChangeG::Sib(l, x) => path2[*l as usize] = b(x),
            ChangeG::SibEdit(l, e) => path2[*l as usize] = edited(&path2[*l as usize], e),
            ChangeG::SwapSibs(x, y) => path2.swap(*x as usize, *y as usize),
        }
        let got2 = orc::path(pos2, &path2).root(cmx(&leaf2)).to_bytes();
        ensure_eq!(got2, refm::path_root(pos2, &path2, &leaf2).to_repr(), "root after {:?}", c.change);
        if (pos2, leaf2, &path2) != (c.pos, leaf, &path) {
            ensure!(got2 != want.to_repr(), "the root does not depend on {:?}", c.change);
            obs.class("changed");
        }
        Ok(())
    });

    let trees = || {
        let near = (any::<u32>(), proptest::collection::vec((0u32..8, base32()), 1..5))
            .prop_map(|(o, v)| v.into_iter().map(|(p, x)| (o.wrapping_add(p), x)).collect::<Vec<_>>());
        let leaves = prop_oneof![proptest::collection::vec((pos_u32(), base32()), 1..5), near];
        (leaves, proptest::option::of(any::<u64>())).prop_map(|(leaves, fill)| TreeCase { leaves, fill }).boxed()
    };
    r.family("tree", 1_200, 40_000, 300, trees, |c: &TreeCase, obs| {
        obs.nontrivial();
        let leaves: BTreeMap<u32, Base> = c.leaves.iter().map(|(p, x)| (*p, b(x))).collect();
        let t = match c.fill {
            None => SparseTree::new(&leaves, Box::new(|l, _| refm::EMPTY[l])),
            Some(f) => SparseTree::new(&leaves, Box::new(move |l, i| fill_base(f, l, i))),
        };
        let want = t.root().to_repr();
        obs.class(if c.fill.is_none() { "rest-empty" } else { "rest-random" });
        for (p, x) in &leaves {
            let got = orc::path(*p, &t.path(*p)).root(cmx(x)).to_bytes();
            ensure_eq!(got, want, "root from the leaf at {}", p);
            obs.class_if(*p >= 1 << 31, "high-position");
        }
        Ok(())
    });

    let ops = || {
        let op = prop_oneof![
            6 => base32().prop_map(Op::Append),
            3 => Just(Op::Mark),
            2 => Just(Op::Checkpoint),
            1 => Just(Op::Rewind),
            1 => any::<u8>().prop_map(Op::Unmark),
        ];
        prop_oneof![4 => 1usize..12, 1 => 12usize..40]
            .prop_flat_map(move |n| proptest::collection::vec(op.clone(), n))
            .boxed()
    };
    r.family("history", 700, 20_000, 200, ops, |ops: &Vec<Op>, obs| {
        let mut t = BridgeTree::<MerkleHashOrchard, u32, 32>::new(100);
        let mut f = Frontier::<MerkleHashOrchard, 32>::empty();
        let mut leaves: Vec<Base> = vec![];
        let mut marks: Vec<u64> = vec![];
        let mut cps: Vec<(usize, Vec<u64>)> = vec![];
        let mut rewound = false;
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Append(x) => {
                    leaves.push(b(x));
                    ensure!(t.append(mh(&b(x))), "append refused");
                    if !rewound {
                        f.append(MerkleHashOrchard::from_cmx(&cmx(&b(x))));
                    }
                }
                Op::Mark => {
                    if let Some(p) = t.mark() {
                        ensure_eq!(u64::from(p), leaves.len() as u64 - 1, "marked position");
                        if !marks.contains(&u64::from(p)) {
                            marks.push(u64::from(p));
                        }
                    }
                }
                Op::Checkpoint => {
                    if t.checkpoint(i as u32) {
                        cps.push((leaves.len(), marks.clone()));
                    }
                }
                Op::Rewind => {
                    if t.rewind() {
                        let (n, m) = cps.pop().ok_or("rewind without a checkpoint")?;
                        leaves.truncate(n);
                        marks = m;
                        rewound = true;
                        obs.class("rewound");
                    }
                }
                Op::Unmark(k) => {
                    // Marks removed after a checkpoint come back on rewind; keep to the simple case.
                    if cps.is_empty() && !marks.is_empty() {
                        let p = marks.remove(*k as usize % marks.len());
                        t.remove_mark(Position::from(p));
                    }
                }
            }
        }
        let map: BTreeMap<u32, Base> = leaves.iter().enumerate().map(|(i, x)| (i as u32, *x)).collect();
        let model = SparseTree::new(&map, Box::new(|l, _| refm::EMPTY[l]));
        let want = model.root().to_repr();
        ensure_eq!(t.root(0).map(|x| x.to_bytes()), Some(want), "root of {} leaves", leaves.len());
        if !rewound {
            ensure_eq!(f.root().to_bytes(), want, "root of the frontier of {} leaves", leaves.len());
        }
        ensure_eq!(Anchor::from(t.root(0).unwrap()).to_bytes(), want, "anchor");
        for m in &marks {
            let w = t.witness(Position::from(*m), 0).map_err(|e| format!("no witness for {}: {:?}", m, e))?;
            let want_path: Vec<[u8; 32]> = model.path(*m as u32).iter().map(|x| x.to_repr()).collect();
            ensure_eq!(w.iter().map(|x| x.to_bytes()).collect::<Vec<_>>(), want_path, "witness of {}", m);
            let p = MerklePath::from((Position::from(*m), w));
            ensure_eq!(p.root(cmx(&leaves[*m as usize])).to_bytes(), want, "root from the witness of {}", m);
            obs.nontrivial();
        }
        Ok(())
    });

    // Trees of any size, given by their frontier.
    let fronts = || {
        (pos_u32(), base32(), any::<u64>(), proptest::collection::vec(base32(), 0..4))
            .prop_map(|(pos, leaf, seed, more)| FrontCase { pos, leaf, seed, more })
            .boxed()
    };
    r.family("frontier", 1_200, 40_000, 200, fronts, |c: &FrontCase, obs| {
        obs.nontrivial();
        // Left siblings on the path of the last leaf are arbitrary; right ones are empty.
        let full_path = |pos: u32, left: &BTreeMap<usize, Base>| -> Vec<Base> {
            (0..32).map(|l| if (pos >> l) & 1 == 1 { left[&l] } else { refm::EMPTY[l] }).collect()
        };
        let mut pos = c.pos;
        let mut leaf = b(&c.leaf);
        let mut left: BTreeMap<usize, Base> =
            (0..32).filter(|l| (pos >> l) & 1 == 1).map(|l| (l, fill_base(c.seed, l, 1))).collect();
        let ommers: Vec<MerkleHashOrchard> = left.values().map(mh).collect();
        let mut f = Frontier::<MerkleHashOrchard, 32>::from_parts(Position::from(pos as u64), mh(&leaf), ommers)
            .map_err(|e| format!("frontier refused: {:?}", e))?;
        let mut more = c.more.iter();
        loop {
            let path = full_path(pos, &left);
            let want = refm::path_root(pos, &path, &leaf).to_repr();
            ensure_eq!(f.root().to_bytes(), want, "root with last leaf at {}", pos);
            let w = f
                .witness(|a| Some(MerkleHashOrchard::empty_root(a.level())))
                .map_err(|e| format!("no witness: {:?}", e))?
                .ok_or("no witness")?;
            ensure_eq!(MerklePath::from(w).root(cmx(&leaf)).to_bytes(), want, "root from the last leaf's witness at {}", pos);
            let x = match more.next() {
                Some(x) if pos < u32::MAX => b(x),
                _ => break,
            };
            // Append in the model: carry the completed subtrees.
            let mut node = leaf;
            for l in 0..32usize {
                if (pos >> l) & 1 == 0 {
                    left.insert(l, node);
                    break;
                }
                node = refm::merkle_combine(l as u8, &left[&l], &node);
                left.remove(&l);
            }
            pos += 1;
            leaf = x;
            ensure!(f.append(mh(&x)), "append refused");
        }
        Ok(())
    });

    let enc = || (bytes32(), base32(), base32(), any::<bool>()).boxed();
    r.family("encodings", 10_000, 300_000, 300, enc, |(raw, x, y, pick): &(B32, B32, B32, bool), obs| {
        obs.nontrivial();
        for v in [raw, x] {
            let ok = refm::base_of(&v.0).is_some();
            obs.class(if ok { "canonical" } else { "non-canonical" });
            let m: Option<MerkleHashOrchard> = MerkleHashOrchard::from_bytes(&v.0).into();
            ensure_eq!(m.map(|m| m.to_bytes()), Some(v.0).filter(|_| ok), "node encoding");
            let a: Option<Anchor> = Anchor::from_bytes(v.0).into();
            ensure_eq!(a.map(|m| m.to_bytes()), Some(v.0).filter(|_| ok), "anchor encoding");
            let js = serde_json::to_string(&v.0).unwrap();
            let d: Option<MerkleHashOrchard> = serde_json::from_str(&js).ok();
            ensure_eq!(d.map(|m| m.to_bytes()), Some(v.0).filter(|_| ok), "serialized node");
            if let Some(m) = m {
                ensure_eq!(serde_json::to_string(&m).unwrap(), js, "node serialization");
                ensure_eq!(Anchor::from(m).to_bytes(), v.0, "anchor of a node");
                ensure_eq!(Anchor::from(refm::base_of(&v.0).unwrap()).to_bytes(), v.0, "anchor of a field element");
                ensure_eq!(MerkleHashOrchard::from_cmx(&cmx(&refm::base_of(&v.0).unwrap())).to_bytes(), v.0, "leaf");
            }
        }
        let (p, q) = (mh(&b(x)), mh(&b(y)));
        ensure_eq!(p == q, x == y, "node equality");
        let s = MerkleHashOrchard::conditional_select(&p, &q, u8::from(*pick).into());
        ensure_eq!(s.to_bytes(), if *pick { y.0 } else { x.0 }, "conditional selection");
        Ok(())
    });
}
