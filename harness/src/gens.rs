//! Generators. Everything is raw bytes/integers so that cases serialise, shrink and replay.

use ff::{FromUniformBytes, PrimeField};
use lazy_static::lazy_static;
use pasta_curves::pallas;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeSet;
use std::fmt;

/// Fixed-size byte string, hex in JSON.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct By<const N: usize>(pub [u8; N]);
pub type B32 = By<32>;
pub type B11 = By<11>;

impl<const N: usize> fmt::Debug for By<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", hex::encode(self.0))
    }
}
impl<const N: usize> Serialize for By<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(self.0))
    }
}
impl<'de, const N: usize> Deserialize<'de> for By<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = hex::decode(s).map_err(serde::de::Error::custom)?;
        Ok(By(v
            .try_into()
            .map_err(|_| serde::de::Error::custom("length"))?))
    }
}

/// Variable-size byte string, hex in JSON.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bs(pub Vec<u8>);
impl fmt::Debug for Bs {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", hex::encode(&self.0))
    }
}
impl Serialize for Bs {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Bs(hex::decode(s).map_err(serde::de::Error::custom)?))
    }
}

// ---- dictionary: integer literals found in the code under test ----

lazy_static! {
    /// Integer literals of the crate's sources (like a fuzzer's auto-dictionary): they only steer
    /// generation towards values the code compares against, they never decide a verdict.
    pub static ref DICT: Vec<u64> = load_dict();
}

fn repo() -> String {
    std::env::var("HARNESS_REPO").unwrap_or_else(|_| "/repo".into())
}

fn load_dict() -> Vec<u64> {
    let mut out = BTreeSet::new();
    let mut files = vec![];
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let name = e.file_name().to_string_lossy().to_string();
                if p.is_dir() {
                    if name != "test_vectors" && name != "fixed_bases" {
                        walk(&p, out);
                    }
                } else if name.ends_with(".rs") {
                    out.push(p);
                }
            }
        }
    }
    walk(std::path::Path::new(&format!("{}/src", repo())), &mut files);
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        if text.len() > 200_000 {
            continue;
        }
        let text: String = text
            .lines()
            .map(|l| l.split("//").next().unwrap_or(""))
            .collect::<Vec<_>>()
            .join("\n");
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let tok: String = text[st..i].chars().filter(|c| *c != '_').collect();
                let strip = |s: &str| {
                    for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
                        if let Some(x) = s.strip_suffix(suf) {
                            return x.to_string();
                        }
                    }
                    s.to_string()
                };
                let v = if let Some(h) = tok.strip_prefix("0x") {
                    u64::from_str_radix(&strip(h), 16).or_else(|_| u64::from_str_radix(h, 16)).ok()
                } else if let Some(h) = tok.strip_prefix("0b") {
                    u64::from_str_radix(&strip(h), 2).ok()
                } else {
                    strip(&tok).parse::<u64>().ok()
                };
                if let Some(v) = v {
                    out.insert(v);
                    if v < 64 {
                        // `1 << v`
                        if text[..st].trim_end().ends_with("<<") {
                            out.insert(1u64 << v);
                        }
                    }
                }
            } else {
                i += 1;
            }
        }
    }
    if out.is_empty() {
        out.insert(0);
    }
    out.into_iter().collect()
}

fn dict_u64() -> BoxedStrategy<u64> {
    let d: Vec<u64> = DICT.clone();
    (0..d.len(), -1i64..=1)
        .prop_map(move |(i, o)| d[i].wrapping_add(o as u64))
        .boxed()
}

/// 64-bit values: edges, powers of two, dictionary, every bit length.
pub fn val_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => prop_oneof![Just(0u64), Just(1), Just(2), Just(u64::MAX), Just(u64::MAX - 1),
            Just(i64::MAX as u64), Just(i64::MAX as u64 + 1), Just(i64::MAX as u64 + 2),
            Just(u32::MAX as u64), Just(u32::MAX as u64 + 1), Just(2_100_000_000_000_000u64)],
        2 => (0u32..64, -1i64..=1).prop_map(|(b, o)| (1u64 << b).wrapping_add(o as u64)),
        2 => dict_u64(),
        3 => (0u32..64, any::<u64>()).prop_map(|(b, v)| v >> b),
        2 => 0u64..100_000,
        1 => any::<u64>(),
    ]
    .boxed()
}

/// 32-bit positions.
pub fn pos_u32() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(u32::MAX - 1), Just(1 << 31),
            Just((1 << 31) - 1), Just(0xAAAA_AAAA), Just(0x5555_5555)],
        1 => (0u32..32).prop_map(|b| 1u32 << b),
        1 => (0u32..32).prop_map(|b| !(1u32 << b)),
        1 => dict_u64().prop_map(|v| v as u32),
        2 => (0u32..32, any::<u32>()).prop_map(|(b, v)| v >> b),
        2 => any::<u32>(),
    ]
    .boxed()
}

pub fn bytes32() -> BoxedStrategy<B32> {
    prop_oneof![
        1 => any::<u8>().prop_map(|b| By([b; 32])),
        1 => (0usize..32, any::<u8>()).prop_map(|(i, b)| { let mut x = [0; 32]; x[i] = b; By(x) }),
        1 => (0usize..32, any::<u8>()).prop_map(|(i, b)| { let mut x = [0xff; 32]; x[i] = b; By(x) }),
        1 => dict_u64().prop_map(|v| { let mut x = [0; 32]; x[..8].copy_from_slice(&v.to_le_bytes()); By(x) }),
        1 => dict_u64().prop_map(|v| By([v as u8; 32])),
        1 => Just(By([0; 32])),
        1 => (0usize..32, any::<[u8; 32]>()).prop_map(|(i, mut x)| { x[i] = 0; By(x) }),
        8 => any::<[u8; 32]>().prop_map(By),
    ]
    .boxed()
}

/// Uniformly random 32 bytes with the shrinker kept shallow (a seed).
pub fn seed32() -> BoxedStrategy<B32> {
    any::<u64>()
        .prop_map(|s| {
            By(blake2b_simd::Params::new()
                .hash_length(32)
                .hash(&s.to_le_bytes())
                .as_bytes()
                .try_into()
                .unwrap())
        })
        .boxed()
}

fn field_edges<F: PrimeField<Repr = [u8; 32]> + FromUniformBytes<64>>() -> BoxedStrategy<F> {
    prop_oneof![
        2 => (0u64..6).prop_map(F::from),
        2 => (1u64..6).prop_map(|v| -F::from(v)),
        1 => (0u64..3, any::<bool>()).prop_map(|(v, n)| {
            // around (p-1)/2
            let half = F::TWO_INV - F::ONE + F::ZERO;
            if n { half - F::from(v) } else { half + F::from(v) }
        }),
        2 => (0u32..255, -1i64..=1).prop_map(|(b, o)| {
            let mut x = F::ONE;
            for _ in 0..b { x = x.double(); }
            if o < 0 { x - F::ONE } else if o > 0 { x + F::ONE } else { x }
        }),
        1 => dict_u64().prop_map(F::from),
        1 => (0u32..252, any::<[u8; 32]>()).prop_map(|(sh, b)| {
            // random value of random bit length
            let keep = 252 - sh;
            let mut b = b;
            for i in 0..256u32 { if i >= keep { b[(i / 8) as usize] &= !(1 << (i % 8)); } }
            Option::<F>::from(F::from_repr(b)).unwrap_or(F::ZERO)
        }),
        // top of the range: p - 1 - small, and 2^254 + small (t_q neighbourhood)
        1 => (0u64..4, 0u32..130).prop_map(|(v, b)| {
            let mut x = F::ONE; for _ in 0..b { x = x.double(); }
            -(x + F::from(v))
        }),
        2 => (0u64..4, 0u32..131).prop_map(|(v, b)| {
            let mut hi = F::ONE; for _ in 0..254 { hi = hi.double(); }
            let mut x = F::ONE; for _ in 0..b { x = x.double(); }
            hi + x - F::ONE - F::from(v)
        }),
        4 => any::<[u8; 32]>().prop_map(|b| {
            let mut w = [0u8; 64]; w[..32].copy_from_slice(&b); w[32..].copy_from_slice(&b);
            F::from_uniform_bytes(&w)
        }),
    ]
    .boxed()
}

/// Canonical encodings of base field elements.
pub fn base32() -> BoxedStrategy<B32> {
    field_edges::<pallas::Base>().prop_map(|f| By(f.to_repr())).boxed()
}
/// Canonical encodings of scalars.
pub fn scalar32() -> BoxedStrategy<B32> {
    field_edges::<pallas::Scalar>().prop_map(|f| By(f.to_repr())).boxed()
}

/// Spending keys: mostly seeds.
pub fn sk32() -> BoxedStrategy<B32> {
    prop_oneof![3 => seed32(), 1 => bytes32(), 1 => any::<u8>().prop_map(|b| By([b; 32]))].boxed()
}

/// 88-bit diversifier indices.
pub fn div11() -> BoxedStrategy<B11> {
    fn from_u128(v: u128) -> B11 {
        By(v.to_le_bytes()[..11].try_into().unwrap())
    }
    prop_oneof![
        2 => Just(By([0; 11])),
        2 => (0u32..20).prop_map(|v| from_u128(v as u128)),
        1 => (0u32..88, -1i64..=1).prop_map(|(b, o)| from_u128((1u128 << b).wrapping_add(o as u128))),
        1 => dict_u64().prop_map(|v| from_u128(v as u128)),
        1 => Just(By([0xff; 11])),
        1 => any::<u32>().prop_map(|v| from_u128(v as u128)),
        1 => any::<u64>().prop_map(|v| from_u128(v as u128)),
        3 => any::<[u8; 11]>().prop_map(By),
    ]
    .boxed()
}

/// Memos, described by shape.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MemoG {
    pub prefix: Bs,
    pub fill: u8,
    pub poke: Option<(u16, u8)>,
}
impl MemoG {
    pub fn bytes(&self) -> [u8; 512] {
        let mut m = [self.fill; 512];
        let n = self.prefix.0.len().min(512);
        m[..n].copy_from_slice(&self.prefix.0[..n]);
        if let Some((i, b)) = self.poke {
            m[(i % 512) as usize] = b;
        }
        m
    }
}
pub fn memo() -> BoxedStrategy<MemoG> {
    let fill = prop_oneof![4 => Just(0u8), 1 => Just(0xff), 1 => any::<u8>()];
    let prefix = prop_oneof![
        2 => Just(vec![]),
        1 => prop_oneof![Just(0xf6u8), Just(0xf5), Just(0xff), Just(0xf4), any::<u8>()].prop_map(|b| vec![b]),
        2 => proptest::collection::vec(any::<u8>(), 0..16),
        1 => proptest::collection::vec(any::<u8>(), 500..=512),
    ]
    .prop_map(Bs);
    (prefix, fill, proptest::option::weighted(0.3, (0u16..512, any::<u8>())))
        .prop_map(|(prefix, fill, poke)| MemoG { prefix, fill, poke })
        .boxed()
}

/// Small counts, biased to dictionary-like boundaries.
pub fn small_count(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![3 => 0..=max.min(3), 1 => 0..=max].boxed()
}

/// A single-byte or bit alteration of a byte string, applied at (pos mod len).
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Edit {
    Flip(u32, u8),
    Set(u32, u8),
    Add(u32, u8),
}
impl Edit {
    /// Applies; returns false when nothing changed.
    pub fn apply(&self, b: &mut [u8]) -> bool {
        if b.is_empty() {
            return false;
        }
        let n = b.len() as u32;
        match self {
            Edit::Flip(i, bit) => {
                b[(i % n) as usize] ^= 1 << (bit % 8);
                true
            }
            Edit::Set(i, v) => {
                let p = (i % n) as usize;
                let old = b[p];
                b[p] = *v;
                old != *v
            }
            Edit::Add(i, v) => {
                let p = (i % n) as usize;
                let old = b[p];
                b[p] = b[p].wrapping_add(*v);
                old != b[p]
            }
        }
    }
}
pub fn edit() -> BoxedStrategy<Edit> {
    let pos = prop_oneof![1 => 0u32..4, 1 => (0u32..4).prop_map(|x| u32::MAX - x), 6 => any::<u32>()];
    prop_oneof![
        3 => (pos.clone(), 0u8..8).prop_map(|(p, b)| Edit::Flip(p, b)),
        1 => (pos.clone(), prop_oneof![Just(0u8), Just(0xff), Just(1), any::<u8>()]).prop_map(|(p, b)| Edit::Set(p, b)),
        1 => (pos, 1u8..=255).prop_map(|(p, b)| Edit::Add(p, b)),
    ]
    .boxed()
}

pub fn fill_base(seed: u64, level: usize, idx: u64) -> pallas::Base {
    let mut w = [0u8; 64];
    w[..64].copy_from_slice(
        blake2b_simd::Params::new()
            .hash_length(64)
            .hash(&[seed.to_le_bytes(), (level as u64).to_le_bytes(), idx.to_le_bytes()].concat())
            .as_bytes(),
    );
    pallas::Base::from_uniform_bytes(&w)
}
