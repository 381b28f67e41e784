//! C11: key and address codecs.

use crate::engine::{Obs, Runner};
use crate::gens::*;
use crate::orc;
use crate::props::c10::check_fvk;
use crate::refm::{self, Keys, Sc};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::keys::{Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey, SpendValidatingKey};
use orchard::Address;
use pasta_curves::pallas;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;

/// A 32-byte field of an encoding, valid or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Field32 {
    /// Point G*s, optionally with the sign flipped.
    Pt(B32, bool),
    /// Raw bytes.
    Raw(B32),
    /// value + k * modulus (base field), when it fits.
    BaseAlias(B32),
    ScalarAlias(B32),
}

fn add_mod(b: &[u8; 32], m_minus_1: &[u8; 32]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut carry = 1u16;
    for i in 0..32 {
        let t = b[i] as u16 + m_minus_1[i] as u16 + carry;
        out[i] = t as u8;
        carry = t >> 8;
    }
    out
}

impl Field32 {
    pub fn bytes(&self) -> [u8; 32] {
        match self {
            Field32::Pt(s, flip) => {
                let mut b = (*refm::G_SPEND * refm::scalar_of(&s.0).unwrap()).to_bytes();
                if *flip {
                    b[31] ^= 0x80;
                }
                b
            }
            Field32::Raw(b) => b.0,
            Field32::BaseAlias(b) => add_mod(&b.0, &(-pallas::Base::one()).to_repr()),
            Field32::ScalarAlias(b) => add_mod(&b.0, &(-pallas::Scalar::one()).to_repr()),
        }
    }
}

pub fn odd_field() -> BoxedStrategy<Field32> {
    prop_oneof![
        1 => base32().prop_map(Field32::BaseAlias),
        1 => scalar32().prop_map(Field32::ScalarAlias),
        1 => bytes32().prop_map(Field32::Raw),
        1 => Just(Field32::Raw(By([0; 32]))),
        1 => Just(Field32::Raw(By({ let mut b = [0; 32]; b[31] = 0x80; b }))),
        1 => base32().prop_map(Field32::Raw),
        1 => base32().prop_map(|mut b| { b.0[31] |= 0x80; Field32::Raw(b) }),
        1 => scalar32().prop_map(Field32::Raw),
    ]
    .boxed()
}
/// Even-signed points most of the time.
fn even_point() -> BoxedStrategy<Field32> {
    (scalar32(), 0u8..10)
        .prop_map(|(s, k)| {
            let odd = Field32::Pt(s, false).bytes()[31] >> 7 == 1;
            Field32::Pt(s, odd != (k == 0))
        })
        .boxed()
}
fn point_field() -> BoxedStrategy<Field32> {
    prop_oneof![3 => (scalar32(), any::<bool>()).prop_map(|(s, f)| Field32::Pt(s, f)), 2 => odd_field()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FvkCase {
    ak: Field32,
    nk: Field32,
    rivk: Field32,
    idx: B11,
    d: B11,
    /// Stream handling: chunk size of the reader, how many bytes are present.
    chunk: u8,
    len: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IvkCase {
    dk: B32,
    ivk: Field32,
    idx: B11,
    d: B11,
    other: Option<Edit>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AddrCase {
    d: B11,
    pk: Field32,
    edit: Option<Edit>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SmallCase {
    sk: B32,
    d: B11,
    ak: Field32,
    cut: u8,
    edit: Option<Edit>,
}

/// A reader that delivers at most `chunk` bytes at a time and is interrupted now and then.
struct Chunky<'a> {
    data: &'a [u8],
    chunk: usize,
    tick: usize,
}
impl<'a> Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.tick % 3 == 2 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let n = self.chunk.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// A writer that accepts at most `chunk` bytes at a time.
struct Sink {
    data: Vec<u8>,
    chunk: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.chunk.min(buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run(r: &mut Runner) {
    r.rule("a case is non-trivial when the encoding is valid and was compared after a round trip, or when exactly one of its parts is invalid and decoding refused it");
    r.assume("canonicality of field elements and points is decided by pasta_curves");

    let good_nk = || base32().prop_map(Field32::Raw);
    let good_rivk = || scalar32().prop_map(Field32::Raw);
    let fvk = move || {
        (
            prop_oneof![8 => even_point(), 1 => odd_field(), 1 => point_field()],
            prop_oneof![6 => good_nk(), 1 => odd_field()],
            prop_oneof![6 => good_rivk(), 1 => odd_field()],
            div11(),
            div11(),
            1u8..100,
            prop_oneof![3 => Just(96u8), 1 => 0u8..96, 1 => 97u8..200],
        )
            .prop_map(|(ak, nk, rivk, idx, d, chunk, len)| FvkCase { ak, nk, rivk, idx, d, chunk, len })
            .boxed()
    };
    r.family("full-viewing-key", 8_000, 50_000, 300, fvk, |c: &FvkCase, obs: &mut Obs| {
        let (ak, nk, rivk) = (c.ak.bytes(), c.nk.bytes(), c.rivk.bytes());
        let mut b = [0u8; 96];
        b[..32].copy_from_slice(&ak);
        b[32..64].copy_from_slice(&nk);
        b[64..].copy_from_slice(&rivk);
        let model = Keys::from_view(&ak, &nk, &rivk);
        let bad = [
            ak[31] >> 7 != 0 || refm::nonid_point_of(&ak).is_none(),
            refm::base_of(&nk).is_none(),
            refm::scalar_of(&rivk).is_none(),
        ];
        obs.class_if(model.is_some(), "valid");
        obs.class_if(bad[0], "bad-ak");
        obs.class_if(bad[1], "bad-nk");
        obs.class_if(bad[2], "bad-rivk");
        if bad.iter().filter(|x| **x).count() <= 1 {
            obs.nontrivial();
        }
        let got = FullViewingKey::from_bytes(&b);
        ensure_eq!(got.is_some(), model.is_some(), "full viewing key accepted");
        // The stream form agrees, with any chunking; truncated streams are refused.
        let mut stream = b.to_vec();
        stream.resize(c.len as usize, 0x5a);
        if (c.len as usize) < 96 {
            obs.class("truncated-stream");
        }
        let mut rd = Chunky { data: &stream, chunk: c.chunk as usize, tick: 0 };
        let read = FullViewingKey::read(&mut rd);
        if c.len < 96 {
            ensure!(read.is_err(), "truncated stream of {} bytes accepted", c.len);
        } else {
            ensure_eq!(rd.data.len(), c.len as usize - 96, "bytes left in the stream");
            ensure_eq!(read.as_ref().ok(), got.as_ref(), "key read from a stream");
        }
        if let (Some(f), Some(k)) = (got, model) {
            ensure_eq!(f.to_bytes(), b, "re-encoding");
            let mut w = Sink { data: vec![], chunk: c.chunk as usize };
            f.write(&mut w).map_err(|e| e.to_string())?;
            ensure_eq!(w.data, b.to_vec(), "written bytes");
            let again = FullViewingKey::from_bytes(&f.to_bytes());
            ensure_eq!(again.as_ref(), Some(&f), "equality after a round trip");
            check_fvk(&f, &k, &c.idx, &c.d)?;
            // Nearby encodings that also decode are different keys.
            for i in [0usize, 40, 95] {
                let mut e = b;
                e[i] ^= 1;
                if let Some(g) = FullViewingKey::from_bytes(&e) {
                    ensure!(g != f, "different encodings compare equal");
                }
            }
        }
        Ok(())
    });

    let ivk = || {
        (
            bytes32(),
            prop_oneof![4 => base32().prop_map(Field32::Raw), 2 => odd_field()],
            div11(),
            div11(),
            proptest::option::weighted(0.5, edit()),
        )
            .prop_map(|(dk, ivk, idx, d, other)| IvkCase { dk, ivk, idx, d, other })
            .boxed()
    };
    r.family("incoming-viewing-key", 16_000, 100_000, 1000, ivk, |c: &IvkCase, obs: &mut Obs| {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&c.dk.0);
        b[32..].copy_from_slice(&c.ivk.bytes());
        let model = refm::base_of(&c.ivk.bytes()).filter(|i| !bool::from(i.is_zero()));
        let got: Option<IncomingViewingKey> = IncomingViewingKey::from_bytes(&b).into();
        obs.nontrivial();
        obs.class(if model.is_some() { "valid" } else { "invalid" });
        ensure_eq!(got.is_some(), model.is_some(), "incoming viewing key accepted");
        if let (Some(k), Some(m)) = (got, model) {
            ensure_eq!(k.to_bytes(), b, "re-encoding");
            let v = refm::View { rivk: refm::Scalar::ZERO, ivk: m, dk: c.dk.0, ovk: [0; 32] };
            let a = k.address_at(c.idx.0);
            ensure_eq!(a.to_raw_address_bytes(), v.address_at(&c.idx.0), "address at an index");
            ensure_eq!(k.address(Diversifier::from_bytes(c.d.0)).to_raw_address_bytes(), v.address_for(&c.d.0), "address of a diversifier");
            ensure_eq!(k.diversifier_index(&a).map(|i| *i.as_bytes()), Some(c.idx.0), "index of its own address");
            if let Some(e) = &c.other {
                let mut x = b;
                if e.apply(&mut x) {
                    let o: Option<IncomingViewingKey> = IncomingViewingKey::from_bytes(&x).into();
                    if let Some(o) = o {
                        ensure!(o != k, "different encodings compare equal");
                        ensure_eq!(o.to_bytes(), x, "re-encoding of the altered key");
                    }
                }
            }
        }
        Ok(())
    });

    let ad = || {
        (div11(), prop_oneof![3 => (scalar32(), any::<bool>()).prop_map(|(s, f)| Field32::Pt(s, f)), 2 => odd_field()], proptest::option::weighted(0.5, edit()))
            .prop_map(|(d, pk, edit)| AddrCase { d, pk, edit })
            .boxed()
    };
    r.family("address", 60_000, 400_000, 1000, ad, |c: &AddrCase, obs: &mut Obs| {
        let mut b = [0u8; 43];
        b[..11].copy_from_slice(&c.d.0);
        b[11..].copy_from_slice(&c.pk.bytes());
        let mut all = vec![b];
        if let Some(e) = &c.edit {
            let mut x = b;
            if e.apply(&mut x) {
                all.push(x);
            }
        }
        let mut dec: Vec<Address> = vec![];
        for x in &all {
            let valid = refm::nonid_point_of(x[11..].try_into().unwrap()).is_some();
            obs.class(if valid { "valid" } else { "invalid" });
            obs.nontrivial();
            let got: Option<Address> = Address::from_raw_address_bytes(x).into();
            ensure_eq!(got.is_some(), valid, "address {} accepted", hex::encode(x));
            if let Some(a) = got {
                ensure_eq!(a.to_raw_address_bytes(), *x, "re-encoding");
                ensure_eq!(a.diversifier().as_array()[..], x[..11], "diversifier of a decoded address");
                dec.push(a);
            }
        }
        if dec.len() == 2 {
            ensure!(dec[0] != dec[1], "different addresses compare equal");
        }
        if let Some(a) = dec.first() {
            ensure!(a == a, "address differs from itself");
        }
        Ok(())
    });

    let small = || {
        (sk32(), div11(), prop_oneof![2 => even_point(), 2 => point_field()], any::<u8>(), proptest::option::weighted(0.5, edit()))
            .prop_map(|(sk, d, ak, cut, edit)| SmallCase { sk, d, ak, cut, edit })
            .boxed()
    };
    r.family("small-encodings", 12_000, 60_000, 1000, small, |c: &SmallCase, obs: &mut Obs| {
        obs.nontrivial();
        let d = Diversifier::from_bytes(c.d.0);
        ensure_eq!(*d.as_array(), c.d.0, "diversifier bytes");
        let mut e = c.d.0;
        if c.edit.as_ref().map_or(false, |x| x.apply(&mut e)) {
            ensure!(Diversifier::from_bytes(e) != d, "different diversifiers compare equal");
        }
        ensure_eq!(*OutgoingViewingKey::from(c.sk.0).as_ref(), c.sk.0, "outgoing viewing key bytes");
        if let Some(sk) = orc::sk(&c.sk.0) {
            ensure_eq!(*sk.to_bytes(), c.sk.0, "spending key bytes");
            let f = FullViewingKey::from(&sk);
            let back = FullViewingKey::from_bytes(&f.to_bytes());
            ensure_eq!(back.as_ref(), Some(&f), "derived full viewing key after a round trip");
            for s in [Sc::Ext, Sc::Int] {
                let i = f.to_ivk(orc::scope(s));
                let b: Option<IncomingViewingKey> = IncomingViewingKey::from_bytes(&i.to_bytes()).into();
                ensure_eq!(b.as_ref(), Some(&i), "derived incoming viewing key after a round trip");
                let a = f.address(d, orc::scope(s));
                let b: Option<Address> = Address::from_raw_address_bytes(&a.to_raw_address_bytes()).into();
                ensure_eq!(b, Some(a), "derived address after a round trip");
            }
        }
        // Spend validating key bytes.
        let ak = c.ak.bytes();
        let valid = ak[31] >> 7 == 0 && refm::nonid_point_of(&ak).is_some();
        obs.class(if valid { "valid-ak" } else { "invalid-ak" });
        let got = SpendValidatingKey::from_bytes(&ak);
        ensure_eq!(got.is_some(), valid, "spend validating key {} accepted", hex::encode(ak));
        if let Some(k) = got {
            ensure_eq!(k.to_bytes(), ak, "spend validating key re-encoding");
            ensure!(SpendValidatingKey::from_bytes(&k.to_bytes()) == Some(k.clone()), "spend validating key after a round trip");
        }
        let n = c.cut as usize % 64;
        if n != 32 {
            let mut v = ak.to_vec();
            v.resize(n, 0);
            ensure!(SpendValidatingKey::from_bytes(&v).is_none(), "spend validating key of {} bytes accepted", n);
        }
        Ok(())
    });
}
