//! Conversions between raw values and the crate's types, and small drivers around the crate.

use crate::refm::{RAction, RNote, ROut, Sc};
use ff::PrimeField;
use orchard::{
    builder::SpendInfo,
    keys::{FullViewingKey, Scope, SpendAuthorizingKey, SpendingKey},
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho, TransmittedNoteCiphertext},
    primitives::redpallas::{self, SpendAuth},
    tree::{MerkleHashOrchard, MerklePath},
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment},
    Action, Address, Anchor, Note,
};
use pasta_curves::pallas;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;

pub fn rng(seed: &[u8; 32]) -> ChaCha20Rng {
    ChaCha20Rng::from_seed(*seed)
}

/// A source of randomness that gives the same answer to every request.
pub struct Stuck([u8; 32]);
impl Stuck {
    /// The first seed from `seed` on for which drawing a curve point ends.
    pub fn new(seed: [u8; 32]) -> Self {
        use ff::Field;
        let mut s = Stuck(seed);
        loop {
            let x = pallas::Base::random(&mut s);
            if bool::from((x.square() * x + pallas::Base::from(5)).sqrt().is_some()) {
                return s;
            }
            s.0[1] = s.0[1].wrapping_add(1);
            s.0[2] = s.0[2].wrapping_add(u8::from(s.0[1] == 0));
        }
    }
}
impl rand::RngCore for Stuck {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        u64::from_le_bytes(self.0[..8].try_into().unwrap()) | 1
    }
    fn fill_bytes(&mut self, out: &mut [u8]) {
        for (i, b) in out.iter_mut().enumerate() {
            *b = self.0[i % 32];
        }
    }
    fn try_fill_bytes(&mut self, out: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(out);
        Ok(())
    }
}
impl rand::CryptoRng for Stuck {}

pub fn scope(s: Sc) -> Scope {
    match s {
        Sc::Ext => Scope::External,
        Sc::Int => Scope::Internal,
    }
}
pub fn sc(s: Scope) -> Sc {
    match s {
        Scope::External => Sc::Ext,
        Scope::Internal => Sc::Int,
    }
}
pub fn sk(b: &[u8; 32]) -> Option<SpendingKey> {
    SpendingKey::from_bytes(*b).into()
}
pub fn fvk(b: &[u8; 32]) -> Option<FullViewingKey> {
    sk(b).map(|s| FullViewingKey::from(&s))
}
pub fn ask(b: &[u8; 32]) -> Option<SpendAuthorizingKey> {
    sk(b).map(|s| SpendAuthorizingKey::from(&s))
}
pub fn addr(b: &[u8; 43]) -> Option<Address> {
    Address::from_raw_address_bytes(b).into()
}
pub fn rho(b: &[u8; 32]) -> Option<Rho> {
    Rho::from_bytes(b).into()
}
pub fn note(n: &RNote) -> Option<Note> {
    let rho = rho(&n.rho)?;
    let rseed: RandomSeed = Option::from(RandomSeed::from_bytes(n.rseed, &rho))?;
    Note::from_parts(addr(&n.addr)?, NoteValue::from_raw(n.value), rho, rseed).into()
}
pub fn rnote(n: &Note) -> RNote {
    RNote {
        addr: n.recipient().to_raw_address_bytes(),
        value: n.value().inner(),
        rho: n.rho().to_bytes(),
        rseed: *n.rseed().as_bytes(),
    }
}
pub fn cmx_bytes(n: &Note) -> [u8; 32] {
    ExtractedNoteCommitment::from(n.commitment()).to_bytes()
}
pub fn anchor(b: &pallas::Base) -> Anchor {
    Anchor::from_bytes(b.to_repr()).unwrap()
}
pub fn path(pos: u32, p: &[pallas::Base]) -> MerklePath {
    let v: Vec<MerkleHashOrchard> = p
        .iter()
        .map(|x| MerkleHashOrchard::from_bytes(&x.to_repr()).unwrap())
        .collect();
    MerklePath::from_parts(pos, v.try_into().unwrap())
}
pub fn spend_info(f: &FullViewingKey, n: Note, p: MerklePath) -> Option<SpendInfo> {
    SpendInfo::new(f.clone(), n, p)
}
pub fn rcv(b: &[u8; 32]) -> Option<ValueCommitTrapdoor> {
    ValueCommitTrapdoor::from_bytes(*b).into()
}

pub fn rout<T>(a: &Action<T>) -> ROut {
    ROut {
        nf: a.nullifier().to_bytes(),
        cmx: a.cmx().to_bytes(),
        cv: a.cv_net().to_bytes(),
        epk: a.encrypted_note().epk_bytes,
        enc: a.encrypted_note().enc_ciphertext.to_vec(),
        out: a.encrypted_note().out_ciphertext.to_vec(),
    }
}
pub fn raction<T>(a: &Action<T>) -> RAction {
    RAction {
        out: rout(a),
        rk: a.rk().into(),
    }
}
/// Assembles an action from raw fields; `None` if a field does not decode.
pub fn action<A>(r: &RAction, auth: A) -> Option<Action<A>> {
    Some(Action::from_parts(
        Option::from(Nullifier::from_bytes(&r.out.nf))?,
        redpallas::VerificationKey::<SpendAuth>::try_from(r.rk).ok()?,
        Option::from(ExtractedNoteCommitment::from_bytes(&r.out.cmx))?,
        TransmittedNoteCiphertext {
            epk_bytes: r.out.epk,
            enc_ciphertext: r.out.enc.clone().try_into().ok()?,
            out_ciphertext: r.out.out.clone().try_into().ok()?,
        },
        Option::from(ValueCommitment::from_bytes(&r.out.cv))?,
        auth,
    ))
}
