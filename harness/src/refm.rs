//! Independent model of the parts of the Zcash protocol the crate implements, written from the
//! protocol specification on top of the primitive libraries only (curve, BLAKE2b, Sinsemilla,
//! Poseidon, AES-FF1, ChaCha20Poly1305). It never calls `orchard`.

use blake2b_simd::Params;
use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
use chacha20poly1305::{aead::AeadInPlace, ChaCha20Poly1305, KeyInit};
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives as poseidon;
use halo2_gadgets::sinsemilla::primitives as sinsemilla;
use lazy_static::lazy_static;
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;
use std::collections::BTreeMap;

pub type Base = pallas::Base;
pub type Scalar = pallas::Scalar;
pub type Point = pallas::Point;

lazy_static! {
    pub static ref G_SPEND: Point = Point::hash_to_curve("z.cash:Orchard")(b"G");
    pub static ref K_NF: Point = Point::hash_to_curve("z.cash:Orchard")(b"K");
    pub static ref V_CV: Point = Point::hash_to_curve("z.cash:Orchard-cv")(b"v");
    pub static ref R_CV: Point = Point::hash_to_curve("z.cash:Orchard-cv")(b"r");
    static ref NOTE_COMMIT: sinsemilla::CommitDomain =
        sinsemilla::CommitDomain::new("z.cash:Orchard-NoteCommit");
    static ref COMMIT_IVK: sinsemilla::CommitDomain =
        sinsemilla::CommitDomain::new("z.cash:Orchard-CommitIvk");
    static ref MERKLE: sinsemilla::HashDomain =
        sinsemilla::HashDomain::new("z.cash:Orchard-MerkleCRH");
}

pub fn blake2b(len: usize, personal: &[u8; 16], parts: &[&[u8]]) -> Vec<u8> {
    let mut st = Params::new().hash_length(len).personal(personal).to_state();
    for p in parts {
        st.update(p);
    }
    st.finalize().as_bytes().to_vec()
}

pub fn prf_expand(sk: &[u8], t: u8, rest: &[&[u8]]) -> [u8; 64] {
    let mut parts: Vec<&[u8]> = vec![sk];
    let tt = [t];
    parts.push(&tt);
    parts.extend_from_slice(rest);
    blake2b(64, b"Zcash_ExpandSeed", &parts).try_into().unwrap()
}

pub fn to_base(x: [u8; 64]) -> Base {
    Base::from_uniform_bytes(&x)
}
pub fn to_scalar(x: [u8; 64]) -> Scalar {
    Scalar::from_uniform_bytes(&x)
}
pub fn base_of(b: &[u8; 32]) -> Option<Base> {
    Option::from(Base::from_repr(*b))
}
pub fn scalar_of(b: &[u8; 32]) -> Option<Scalar> {
    Option::from(Scalar::from_repr(*b))
}
pub fn point_of(b: &[u8; 32]) -> Option<Point> {
    Option::from(Point::from_bytes(b))
}
pub fn nonid_point_of(b: &[u8; 32]) -> Option<Point> {
    point_of(b).filter(|p| !bool::from(p.is_identity()))
}
/// Base field element reinterpreted as a scalar (the base field is the smaller one).
pub fn base_to_scalar(b: Base) -> Scalar {
    scalar_of(&b.to_repr()).expect("base < scalar order")
}
/// Affine coordinates, with the identity written (0, 0).
pub fn coords(p: &Point) -> (Base, Base) {
    if bool::from(p.is_identity()) {
        (Base::zero(), Base::zero())
    } else {
        let a = p.to_affine();
        let c = a.coordinates().unwrap();
        (*c.x(), *c.y())
    }
}
pub fn extract_p(p: &Point) -> Base {
    coords(p).0
}

fn bits255(b: &Base) -> Vec<bool> {
    b.to_le_bits().iter().by_vals().take(255).collect()
}
fn bits_bytes(b: &[u8]) -> Vec<bool> {
    b.iter()
        .flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1))
        .collect()
}

pub fn diversify_hash(d: &[u8; 11]) -> Point {
    let p = Point::hash_to_curve("z.cash:Orchard-gd")(d);
    if bool::from(p.is_identity()) {
        Point::hash_to_curve("z.cash:Orchard-gd")(&[])
    } else {
        p
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sc {
    Ext,
    Int,
}

/// All key material derived from a spending key.
#[derive(Clone, Debug)]
pub struct Keys {
    pub ask: Scalar,
    pub ak: Point,
    pub ak_bytes: [u8; 32],
    pub nk: Base,
    pub rivk: Scalar,
    pub views: [View; 2],
}

/// Key material of one scope.
#[derive(Clone, Debug)]
pub struct View {
    pub rivk: Scalar,
    pub ivk: Base,
    pub dk: [u8; 32],
    pub ovk: [u8; 32],
}

impl View {
    fn derive(ak: &[u8; 32], ak_x: &Base, nk: &Base, rivk: &Scalar) -> Option<View> {
        let mut msg = bits255(ak_x);
        msg.extend(bits255(nk));
        let ivk: Option<Base> = Option::from(COMMIT_IVK.short_commit(msg.into_iter(), rivk));
        let ivk = ivk.filter(|i| !bool::from(i.is_zero()))?;
        let r = prf_expand(&rivk.to_repr(), 0x82, &[ak, &nk.to_repr()]);
        Some(View {
            rivk: *rivk,
            ivk,
            dk: r[..32].try_into().unwrap(),
            ovk: r[32..].try_into().unwrap(),
        })
    }
    pub fn ivk_bytes(&self) -> [u8; 64] {
        let mut o = [0; 64];
        o[..32].copy_from_slice(&self.dk);
        o[32..].copy_from_slice(&self.ivk.to_repr());
        o
    }
    pub fn diversifier(&self, idx: &[u8; 11]) -> [u8; 11] {
        FF1::<aes::Aes256>::new(&self.dk, 2)
            .unwrap()
            .encrypt(&[], &BinaryNumeralString::from_bytes_le(idx))
            .unwrap()
            .to_bytes_le()
            .try_into()
            .unwrap()
    }
    pub fn index_of(&self, d: &[u8; 11]) -> [u8; 11] {
        FF1::<aes::Aes256>::new(&self.dk, 2)
            .unwrap()
            .decrypt(&[], &BinaryNumeralString::from_bytes_le(d))
            .unwrap()
            .to_bytes_le()
            .try_into()
            .unwrap()
    }
    pub fn address_for(&self, d: &[u8; 11]) -> [u8; 43] {
        let pk_d = diversify_hash(d) * base_to_scalar(self.ivk);
        let mut o = [0; 43];
        o[..11].copy_from_slice(d);
        o[11..].copy_from_slice(&pk_d.to_bytes());
        o
    }
    pub fn address_at(&self, idx: &[u8; 11]) -> [u8; 43] {
        self.address_for(&self.diversifier(idx))
    }
    /// The index at which this view derives `addr`, if it does.
    pub fn owns(&self, addr: &[u8; 43]) -> Option<[u8; 11]> {
        let d: [u8; 11] = addr[..11].try_into().unwrap();
        if &self.address_for(&d) == addr {
            Some(self.index_of(&d))
        } else {
            None
        }
    }
}

/// CommitIvk of the three parts of a viewing key.
pub fn ivk_of(ak: &Point, nk: &Base, rivk: &Scalar) -> Option<Base> {
    let mut msg = bits255(&extract_p(ak));
    msg.extend(bits255(nk));
    let ivk: Option<Base> = Option::from(COMMIT_IVK.short_commit(msg.into_iter(), rivk));
    ivk.filter(|i| !bool::from(i.is_zero()))
}

impl Keys {
    pub fn from_sk(sk: &[u8; 32]) -> Option<Keys> {
        let ask = to_scalar(prf_expand(sk, 0x06, &[]));
        if bool::from(ask.is_zero()) {
            return None;
        }
        let mut ask = ask;
        let mut ak = *G_SPEND * ask;
        if ak.to_bytes()[31] & 0x80 != 0 {
            ask = -ask;
            ak = -ak;
        }
        let nk = to_base(prf_expand(sk, 0x07, &[]));
        let rivk = to_scalar(prf_expand(sk, 0x08, &[]));
        let mut k = Keys::from_view(&ak.to_bytes(), &nk.to_repr(), &rivk.to_repr())?;
        k.ask = ask;
        Some(k)
    }
    /// From the three parts of a full viewing key (ask is left zero).
    pub fn from_view(ak: &[u8; 32], nk: &[u8; 32], rivk: &[u8; 32]) -> Option<Keys> {
        if ak[31] & 0x80 != 0 {
            return None;
        }
        let akp = nonid_point_of(ak)?;
        let nk = base_of(nk)?;
        let rivk = scalar_of(rivk)?;
        let x = extract_p(&akp);
        let ext = View::derive(ak, &x, &nk, &rivk)?;
        let rivk_int = to_scalar(prf_expand(&rivk.to_repr(), 0x83, &[ak, &nk.to_repr()]));
        let int = View::derive(ak, &x, &nk, &rivk_int)?;
        Some(Keys {
            ask: Scalar::zero(),
            ak: akp,
            ak_bytes: *ak,
            nk,
            rivk,
            views: [ext, int],
        })
    }
    pub fn fvk_bytes(&self) -> [u8; 96] {
        let mut o = [0; 96];
        o[..32].copy_from_slice(&self.ak_bytes);
        o[32..64].copy_from_slice(&self.nk.to_repr());
        o[64..].copy_from_slice(&self.rivk.to_repr());
        o
    }
    pub fn view(&self, s: Sc) -> &View {
        &self.views[s as usize]
    }
    pub fn scope_of(&self, addr: &[u8; 43]) -> Option<Sc> {
        [Sc::Ext, Sc::Int]
            .into_iter()
            .find(|s| self.view(*s).owns(addr).is_some())
    }
}

/// ZIP 32 Orchard: (sk, chain code) along hardened path.
pub fn zip32_path(seed: &[u8], path: &[u32]) -> Option<[u8; 32]> {
    let i = blake2b(64, b"ZcashIP32Orchard", &[seed]);
    let mut sk: [u8; 32] = i[..32].try_into().unwrap();
    let mut c: [u8; 32] = i[32..].try_into().unwrap();
    Keys::from_sk(&sk)?;
    for p in path {
        let idx = p | 0x8000_0000;
        let i = prf_expand(&c, 0x81, &[&sk, &idx.to_le_bytes()]);
        sk = i[..32].try_into().unwrap();
        c = i[32..].try_into().unwrap();
        Keys::from_sk(&sk)?;
    }
    Some(sk)
}

/// A note in raw form.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNote {
    pub addr: [u8; 43],
    pub value: u64,
    pub rho: [u8; 32],
    pub rseed: [u8; 32],
}

impl RNote {
    pub fn d(&self) -> [u8; 11] {
        self.addr[..11].try_into().unwrap()
    }
    pub fn pk_d(&self) -> [u8; 32] {
        self.addr[11..].try_into().unwrap()
    }
    pub fn g_d(&self) -> Point {
        diversify_hash(&self.d())
    }
    pub fn esk(&self) -> Scalar {
        to_scalar(prf_expand(&self.rseed, 0x04, &[&self.rho]))
    }
    pub fn rcm(&self) -> Scalar {
        to_scalar(prf_expand(&self.rseed, 0x05, &[&self.rho]))
    }
    pub fn psi(&self) -> Base {
        to_base(prf_expand(&self.rseed, 0x09, &[&self.rho]))
    }
    pub fn cm(&self) -> Option<Point> {
        note_commit(
            &self.g_d().to_bytes(),
            &self.pk_d(),
            self.value,
            &base_of(&self.rho)?,
            &self.psi(),
            &self.rcm(),
        )
    }
    pub fn cmx(&self) -> Option<Base> {
        self.cm().map(|c| extract_p(&c))
    }
    pub fn nf(&self, nk: &Base) -> Option<Base> {
        Some(nullifier(nk, &base_of(&self.rho)?, &self.psi(), &self.cm()?))
    }
    pub fn epk(&self) -> Point {
        self.g_d() * self.esk()
    }
}

pub fn note_commit(
    g_d: &[u8; 32],
    pk_d: &[u8; 32],
    v: u64,
    rho: &Base,
    psi: &Base,
    rcm: &Scalar,
) -> Option<Point> {
    let mut m = bits_bytes(g_d);
    m.extend(bits_bytes(pk_d));
    m.extend(bits_bytes(&v.to_le_bytes()));
    m.extend(bits255(rho));
    m.extend(bits255(psi));
    Option::from(NOTE_COMMIT.commit(m.into_iter(), rcm))
}

pub fn nullifier(nk: &Base, rho: &Base, psi: &Base, cm: &Point) -> Base {
    let h = poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init()
        .hash([*nk, *rho]);
    extract_p(&(*K_NF * base_to_scalar(h + psi) + cm))
}

pub fn value_commit(v: i128, rcv: &Scalar) -> Point {
    let mag = Scalar::from(v.unsigned_abs() as u64);
    let s = if v < 0 { -mag } else { mag };
    *V_CV * s + *R_CV * rcv
}

pub fn kdf(shared: &Point, epk: &[u8; 32]) -> [u8; 32] {
    blake2b(32, b"Zcash_OrchardKDF", &[&shared.to_bytes(), epk])
        .try_into()
        .unwrap()
}
pub fn prf_ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    blake2b(32, b"Zcash_Orchardock", &[ovk, cv, cmx, epk])
        .try_into()
        .unwrap()
}
pub fn aead_seal(key: &[u8; 32], pt: &[u8]) -> Vec<u8> {
    let mut buf = pt.to_vec();
    let tag = ChaCha20Poly1305::new(key.into())
        .encrypt_in_place_detached(&[0u8; 12].into(), &[], &mut buf)
        .unwrap();
    buf.extend_from_slice(&tag);
    buf
}
pub fn aead_open(key: &[u8; 32], ct: &[u8]) -> Option<Vec<u8>> {
    let n = ct.len() - 16;
    let mut buf = ct[..n].to_vec();
    ChaCha20Poly1305::new(key.into())
        .decrypt_in_place_detached(&[0u8; 12].into(), &[], &mut buf, ct[n..].into())
        .ok()?;
    Some(buf)
}
/// The AEAD keystream without authentication (compact decryption).
pub fn stream_xor(key: &[u8; 32], data: &[u8]) -> Vec<u8> {
    let mut buf = data.to_vec();
    let mut c = chacha20::ChaCha20::new(key.into(), &[0u8; 12].into());
    c.seek(64);
    c.apply_keystream(&mut buf);
    buf
}

pub fn plaintext(lead: u8, note: &RNote, memo: &[u8; 512]) -> Vec<u8> {
    let mut p = vec![lead];
    p.extend_from_slice(&note.d());
    p.extend_from_slice(&note.value.to_le_bytes());
    p.extend_from_slice(&note.rseed);
    p.extend_from_slice(memo);
    p
}

/// On-chain fields of one output.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ROut {
    pub nf: [u8; 32],
    pub cmx: [u8; 32],
    pub cv: [u8; 32],
    pub epk: [u8; 32],
    pub enc: Vec<u8>,
    pub out: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDec {
    pub note: RNote,
    pub memo: Option<Vec<u8>>,
}

fn check_plain(pt: &[u8], pk_d: impl FnOnce(&[u8; 11]) -> Point, o: &ROut) -> Option<RNote> {
    if pt[0] != 2 {
        return None;
    }
    let d: [u8; 11] = pt[1..12].try_into().unwrap();
    let mut addr = [0; 43];
    addr[..11].copy_from_slice(&d);
    addr[11..].copy_from_slice(&pk_d(&d).to_bytes());
    let note = RNote {
        addr,
        value: u64::from_le_bytes(pt[12..20].try_into().unwrap()),
        rho: o.nf,
        rseed: pt[20..52].try_into().unwrap(),
    };
    if bool::from(note.esk().is_zero()) || note.epk().to_bytes() != o.epk {
        return None;
    }
    if note.cmx()?.to_repr() != o.cmx {
        return None;
    }
    Some(note)
}

pub fn decrypt_ivk(o: &ROut, ivk: &Base) -> Option<RDec> {
    let ivk = base_to_scalar(*ivk);
    let epk = nonid_point_of(&o.epk)?;
    let key = kdf(&(epk * ivk), &o.epk);
    let pt = aead_open(&key, &o.enc)?;
    let note = check_plain(&pt, |d| diversify_hash(d) * ivk, o)?;
    Some(RDec {
        note,
        memo: Some(pt[52..].to_vec()),
    })
}
pub fn decrypt_compact(o: &ROut, ivk: &Base) -> Option<RDec> {
    let ivk = base_to_scalar(*ivk);
    let epk = nonid_point_of(&o.epk)?;
    let key = kdf(&(epk * ivk), &o.epk);
    let pt = stream_xor(&key, &o.enc[..52]);
    let note = check_plain(&pt, |d| diversify_hash(d) * ivk, o)?;
    Some(RDec { note, memo: None })
}
pub fn recover_ovk(o: &ROut, ovk: &[u8; 32]) -> Option<RDec> {
    let ock = prf_ock(ovk, &o.cv, &o.cmx, &o.epk);
    let op = aead_open(&ock, &o.out)?;
    let pk_d = nonid_point_of(op[..32].try_into().unwrap())?;
    let esk = scalar_of(op[32..].try_into().unwrap()).filter(|e| !bool::from(e.is_zero()))?;
    // The shared ephemeral key must at least be a valid public key.
    nonid_point_of(&o.epk)?;
    let key = kdf(&(pk_d * esk), &o.epk);
    let pt = aead_open(&key, &o.enc)?;
    let note = check_plain(&pt, |_| pk_d, o)?;
    if note.esk() != esk {
        return None;
    }
    Some(RDec {
        note,
        memo: Some(pt[52..].to_vec()),
    })
}

// ---- Merkle tree ----

pub fn merkle_combine(level: u8, l: &Base, r: &Base) -> Base {
    let mut m: Vec<bool> = (0..10).map(|i| (level as u16 >> i) & 1 == 1).collect();
    m.extend(bits255(l));
    m.extend(bits255(r));
    let h: Option<Base> = Option::from(MERKLE.hash(m.into_iter()));
    h.unwrap_or_else(Base::zero)
}

lazy_static! {
    pub static ref EMPTY: Vec<Base> = {
        let mut v = vec![Base::from(2)];
        for l in 0..32u8 {
            let x = v[l as usize];
            v.push(merkle_combine(l, &x, &x));
        }
        v
    };
}

pub fn path_root(pos: u32, path: &[Base], leaf: &Base) -> Base {
    let mut n = *leaf;
    for (l, s) in path.iter().enumerate() {
        n = if (pos >> l) & 1 == 0 {
            merkle_combine(l as u8, &n, s)
        } else {
            merkle_combine(l as u8, s, &n)
        };
    }
    n
}

/// A depth-32 tree with leaves at chosen positions; all other subtrees come from `fill(level, index)`.
pub struct SparseTree {
    levels: Vec<BTreeMap<u64, Base>>,
    fill: Box<dyn Fn(usize, u64) -> Base + Send + Sync>,
}
impl SparseTree {
    pub fn new(
        leaves: &BTreeMap<u32, Base>,
        fill: Box<dyn Fn(usize, u64) -> Base + Send + Sync>,
    ) -> Self {
        let mut levels: Vec<BTreeMap<u64, Base>> =
            vec![leaves.iter().map(|(k, v)| (*k as u64, *v)).collect()];
        for l in 0..32usize {
            let cur = &levels[l];
            let mut next = BTreeMap::new();
            let get = |i: u64| cur.get(&i).copied().unwrap_or_else(|| fill(l, i));
            for i in cur.keys() {
                let p = i >> 1;
                next.entry(p)
                    .or_insert_with(|| merkle_combine(l as u8, &get(2 * p), &get(2 * p + 1)));
            }
            levels.push(next);
        }
        SparseTree { levels, fill }
    }
    pub fn root(&self) -> Base {
        self.levels[32]
            .get(&0)
            .copied()
            .unwrap_or_else(|| (self.fill)(32, 0))
    }
    pub fn path(&self, pos: u32) -> Vec<Base> {
        (0..32)
            .map(|l| {
                let sib = ((pos as u64) >> l) ^ 1;
                self.levels[l]
                    .get(&sib)
                    .copied()
                    .unwrap_or_else(|| (self.fill)(l, sib))
            })
            .collect()
    }
}

// ---- RedPallas ----

pub fn hstar(parts: &[&[u8]]) -> Scalar {
    to_scalar(blake2b(64, b"Zcash_RedPallasH", parts).try_into().unwrap())
}
pub fn redpallas_verify(binding: bool, vk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let r: [u8; 32] = sig[..32].try_into().unwrap();
    let s: [u8; 32] = sig[32..].try_into().unwrap();
    let (rp, s, vkp) = match (point_of(&r), scalar_of(&s), point_of(vk)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return false,
    };
    let c = hstar(&[&r, vk, msg]);
    let base = if binding { *R_CV } else { *G_SPEND };
    bool::from((base * s - vkp * c - rp).is_identity())
}
pub fn redpallas_sign(binding: bool, sk: &Scalar, nonce: &Scalar, msg: &[u8]) -> [u8; 64] {
    let base = if binding { *R_CV } else { *G_SPEND };
    let r = (base * nonce).to_bytes();
    let vk = (base * sk).to_bytes();
    let s = *nonce + hstar(&[&r, &vk, msg]) * sk;
    let mut o = [0; 64];
    o[..32].copy_from_slice(&r);
    o[32..].copy_from_slice(&s.to_repr());
    o
}

// ---- ZIP 244 ----

/// Raw fields of an action.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RAction {
    pub out: ROut,
    pub rk: [u8; 32],
}

pub fn txid_digest(actions: &[RAction], flags: u8, balance: i64, anchor: &[u8; 32]) -> Vec<u8> {
    let (mut c, mut m, mut n) = (vec![], vec![], vec![]);
    for a in actions {
        c.extend_from_slice(&a.out.nf);
        c.extend_from_slice(&a.out.cmx);
        c.extend_from_slice(&a.out.epk);
        c.extend_from_slice(&a.out.enc[..52]);
        m.extend_from_slice(&a.out.enc[52..564]);
        n.extend_from_slice(&a.out.cv);
        n.extend_from_slice(&a.rk);
        n.extend_from_slice(&a.out.enc[564..]);
        n.extend_from_slice(&a.out.out);
    }
    blake2b(
        32,
        b"ZTxIdOrchardHash",
        &[
            &blake2b(32, b"ZTxIdOrcActCHash", &[&c]),
            &blake2b(32, b"ZTxIdOrcActMHash", &[&m]),
            &blake2b(32, b"ZTxIdOrcActNHash", &[&n]),
            &[flags],
            &balance.to_le_bytes(),
            anchor,
        ],
    )
}
pub fn auth_digest(proof: &[u8], sigs: &[[u8; 64]], binding: &[u8; 64]) -> Vec<u8> {
    let mut v = proof.to_vec();
    for s in sigs {
        v.extend_from_slice(s);
    }
    v.extend_from_slice(binding);
    blake2b(32, b"ZTxAuthOrchaHash", &[&v])
}

/// Public inputs of one action, in circuit order.
pub fn instance(
    a: &RAction,
    flags: u8,
    anchor: &[u8; 32],
) -> Option<[Base; 9]> {
    let (cx, cy) = coords(&point_of(&a.out.cv)?);
    let (rx, ry) = coords(&point_of(&a.rk)?);
    Some([
        base_of(anchor)?,
        cx,
        cy,
        base_of(&a.out.nf)?,
        rx,
        ry,
        base_of(&a.out.cmx)?,
        Base::from((flags & 1) as u64),
        Base::from(((flags >> 1) & 1) as u64),
    ])
}
