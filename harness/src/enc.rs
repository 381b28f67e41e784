//! Encrypted outputs made by the model (honestly or not), and the crate's readers.

use crate::ctx::address_of;
use crate::gens::*;
use crate::orc;
use crate::plan::*;
use crate::pool::point32;
use crate::refm::{self, Base, Keys, RAction, RDec, RNote, ROut, Scalar};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::{
    keys::{IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey},
    note_encryption::{CompactAction, OrchardDomain},
    Action,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zcash_note_encryption as zne;

pub fn keys(sk: &B32) -> Keys {
    Keys::from_sk(&sk.0).unwrap_or_else(|| Keys::from_sk(&[7; 32]).unwrap())
}

/// The crate's incoming viewing key for a model one (the diversifier part is irrelevant here).
pub fn ivk(i: &Base) -> IncomingViewingKey {
    let mut b = [0; 64];
    b[32..].copy_from_slice(&i.to_repr());
    IncomingViewingKey::from_bytes(&b).expect("non-zero key decodes")
}
pub fn pivk(i: &Base) -> PreparedIncomingViewingKey {
    PreparedIncomingViewingKey::new(&ivk(i))
}
pub fn action(o: &ROut) -> Option<Action<()>> {
    orc::action(&RAction { out: o.clone(), rk: refm::G_SPEND.to_bytes() }, ())
}

// ---- the crate's readers, in the model's terms ----

pub fn rdec(r: Option<(orchard::Note, orchard::Address, [u8; 512])>) -> Result<Option<RDec>, String> {
    match r {
        None => Ok(None),
        Some((n, a, m)) => {
            ensure!(n.recipient() == a, "the returned address is not the note's recipient");
            Ok(Some(RDec { note: orc::rnote(&n), memo: Some(m.to_vec()) }))
        }
    }
}
pub fn rdec_compact(r: Option<(orchard::Note, orchard::Address)>) -> Result<Option<RDec>, String> {
    match r {
        None => Ok(None),
        Some((n, a)) => {
            ensure!(n.recipient() == a, "the returned address is not the note's recipient");
            Ok(Some(RDec { note: orc::rnote(&n), memo: None }))
        }
    }
}
pub fn crate_ivk(a: &Action<()>, k: &PreparedIncomingViewingKey) -> Result<Option<RDec>, String> {
    rdec(zne::try_note_decryption(&OrchardDomain::for_action(a), k, a))
}
/// The compact reader, through both ways of making a compact action.
pub fn crate_compact(a: &Action<()>, k: &PreparedIncomingViewingKey) -> Result<Option<RDec>, String> {
    let c = CompactAction::from(a);
    let r = rdec_compact(zne::try_compact_note_decryption(&OrchardDomain::for_compact_action(&c), k, &c))?;
    let e = a.encrypted_note();
    let c2 = CompactAction::from_parts(
        *a.nullifier(),
        *a.cmx(),
        zne::EphemeralKeyBytes(e.epk_bytes),
        e.enc_ciphertext[..52].try_into().unwrap(),
    );
    let r2 = rdec_compact(zne::try_compact_note_decryption(&OrchardDomain::for_compact_action(&c2), k, &c2))?;
    ensure_eq!(r2, r, "compact decryption of an assembled compact action");
    Ok(r)
}
pub fn crate_ovk(a: &Action<()>, k: &OutgoingViewingKey) -> Result<Option<RDec>, String> {
    rdec(zne::try_output_recovery_with_ovk(
        &OrchardDomain::for_action(a),
        k,
        a,
        a.cv_net(),
        &a.encrypted_note().out_ciphertext,
    ))
}

// ---- senders ----

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EpkG {
    /// Derived from the note's diversifier.
    Proper,
    /// From another diversifier's base.
    OtherBase(B11),
    Neg,
    Plus,
    Raw(B32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PartG {
    Value(u64),
    ValueBit(u8),
    Rseed(Edit),
    Rseed32(B32),
    Div(B11),
    DivEdit(Edit),
    /// Another transmission key (only matters where the key is explicit).
    PkNeg,
    PkPlus,
    PkRaw(B32),
    Rho(B32),
    RhoEdit(Edit),
}
pub fn part_g() -> BoxedStrategy<PartG> {
    prop_oneof![
        val_u64().prop_map(PartG::Value),
        (0u8..64).prop_map(PartG::ValueBit),
        edit().prop_map(PartG::Rseed),
        bytes32().prop_map(PartG::Rseed32),
        div11().prop_map(PartG::Div),
        edit().prop_map(PartG::DivEdit),
        Just(PartG::PkNeg),
        Just(PartG::PkPlus),
        point32().prop_map(PartG::PkRaw),
        base32().prop_map(PartG::Rho),
        edit().prop_map(PartG::RhoEdit),
    ]
    .boxed()
}
impl PartG {
    /// Applies to a note; undecodable or identity results leave it unchanged.
    fn apply(&self, n: &mut RNote) {
        let mut set_pk = |p: refm::Point, n: &mut RNote| {
            let b = p.to_bytes();
            if refm::nonid_point_of(&b).is_some() {
                n.addr[11..].copy_from_slice(&b);
            }
        };
        let pk = refm::point_of(&n.pk_d()).unwrap();
        match self {
            PartG::Value(v) => n.value = *v,
            PartG::ValueBit(b) => n.value ^= 1 << (b % 64),
            PartG::Rseed(e) => {
                e.apply(&mut n.rseed);
            }
            PartG::Rseed32(b) => n.rseed = b.0,
            PartG::Div(d) => n.addr[..11].copy_from_slice(&d.0),
            PartG::DivEdit(e) => {
                e.apply(&mut n.addr[..11]);
            }
            PartG::PkNeg => set_pk(-pk, n),
            PartG::PkPlus => set_pk(pk + *refm::G_SPEND, n),
            PartG::PkRaw(b) => set_pk(refm::point_of(&b.0).unwrap(), n),
            PartG::Rho(b) => n.rho = b.0,
            PartG::RhoEdit(e) => {
                let mut x = n.rho;
                e.apply(&mut x);
                if refm::base_of(&x).is_some() {
                    n.rho = x;
                }
            }
        }
    }
}

/// One way a sender or an attacker departs from the protocol.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// Leading plaintext byte.
    Lead(u8),
    /// The plaintext carries a different note than was committed to.
    Plain(PartG),
    /// The commitment is that of a different note.
    Commit(PartG),
    /// The ephemeral secret is not the one the seed implies (`true`: the outgoing part repeats it).
    Esk(B32, bool),
    Epk(EpkG),
    /// The outgoing plaintext names another key or secret.
    OutPk(B32),
    OutPkNeg,
    OutEsk(B32),
    OutEskNeg,
    /// Encrypt the plaintext so that the outgoing reader's key opens it instead of the recipient's.
    KeyFromOut,
    /// Make the outgoing cipher key from other action fields.
    OckCv(B32),
    OckCmx(B32),
    OckEpk(B32),
    /// Edits of the finished fields.
    Enc(Edit),
    EncTag(Edit),
    Out(Edit),
    OutTag(Edit),
    EpkBytes(Edit),
    CmxBytes(Edit),
    NfBytes(Edit),
    Cv(B32),
    Nf(B32),
    Cmx(B32),
}

pub fn fault() -> BoxedStrategy<Fault> {
    use Fault::*;
    prop_oneof![
        prop_oneof![
            prop_oneof![Just(0u8), Just(1), Just(3), Just(0x82), any::<u8>()].prop_map(Lead),
            part_g().prop_map(Plain),
            part_g().prop_map(Plain),
            part_g().prop_map(Commit),
            (scalar32(), any::<bool>()).prop_map(|(s, b)| Esk(s, b)),
            prop_oneof![
                div11().prop_map(EpkG::OtherBase),
                Just(EpkG::Neg),
                Just(EpkG::Plus),
                point32().prop_map(EpkG::Raw),
                bytes32().prop_map(EpkG::Raw)
            ]
            .prop_map(Epk),
        ],
        prop_oneof![
            prop_oneof![point32(), bytes32()].prop_map(OutPk),
            Just(OutPkNeg),
            prop_oneof![scalar32(), bytes32()].prop_map(OutEsk),
            Just(OutEskNeg),
            Just(KeyFromOut),
            point32().prop_map(OckCv),
            base32().prop_map(OckCmx),
            bytes32().prop_map(OckEpk),
        ],
        prop_oneof![
            edit().prop_map(Enc),
            edit().prop_map(EncTag),
            edit().prop_map(Out),
            edit().prop_map(OutTag),
            edit().prop_map(EpkBytes),
            edit().prop_map(CmxBytes),
            edit().prop_map(NfBytes),
            point32().prop_map(Cv),
            base32().prop_map(Nf),
            base32().prop_map(Cmx),
        ],
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SendG {
    pub to: ToG,
    pub ovk: OvkG,
    pub value: u64,
    pub nf: B32,
    pub rseed: B32,
    pub memo: MemoG,
    pub cv: B32,
    pub faults: Vec<Fault>,
}
pub fn send_g(faults: impl Strategy<Value = Vec<Fault>> + 'static) -> BoxedStrategy<SendG> {
    (to_g(), ovk_g(), val_u64(), base32(), bytes32(), memo(), point32(), faults)
        .prop_map(|(to, ovk, value, nf, rseed, memo, cv, faults)| SendG { to, ovk, value, nf, rseed, memo, cv, faults })
        .boxed()
}

pub struct Sent {
    pub out: ROut,
    /// The note and keys an honest sender would have used.
    pub note: RNote,
    pub ivk: Base,
    pub ovk: Option<[u8; 32]>,
}

pub fn ovk_of(g: &OvkG, keys: &[Keys]) -> Option<[u8; 32]> {
    match g {
        OvkG::None => None,
        OvkG::Own { key, internal } => {
            let k = &keys[*key as usize % keys.len()];
            Some(k.views[usize::from(*internal)].ovk)
        }
        OvkG::Raw(b) => Some(b.0),
    }
}

/// Address and incoming viewing key of a recipient.
pub fn recipient(to: &ToG, keys: &[Keys]) -> ([u8; 43], Base) {
    match to {
        ToG::Own { key, .. } => address_of(to, &keys[*key as usize % keys.len()]),
        _ => address_of(to, &keys[0]),
    }
}

impl SendG {
    pub fn note(&self, keys: &[Keys]) -> (RNote, Base) {
        let (addr, ivk) = recipient(&self.to, keys);
        (RNote { addr, value: self.value, rho: self.nf.0, rseed: self.rseed.0 }, ivk)
    }

    /// Performs the encryption by the model's rules, except where a fault says otherwise.
    pub fn send(&self, keys: &[Keys]) -> Sent {
        let (note, ivk) = self.note(keys);
        let ivk_s = refm::base_to_scalar(ivk);
        let ovk = ovk_of(&self.ovk, keys);
        let (mut plain, mut commit) = (note.clone(), note.clone());
        let mut lead = 2;
        let mut esk = note.esk();
        let mut out_esk = esk.to_repr();
        let mut out_pk = note.pk_d();
        let mut key_from_out = false;
        for f in &self.faults {
            match f {
                Fault::Lead(b) => lead = *b,
                Fault::Plain(p) => p.apply(&mut plain),
                Fault::Commit(p) => p.apply(&mut commit),
                Fault::Esk(s, both) => {
                    let s = refm::scalar_of(&s.0).unwrap();
                    esk = if bool::from(s.is_zero()) { Scalar::one() } else { s };
                    if *both {
                        out_esk = esk.to_repr();
                    }
                }
                Fault::OutPk(b) => out_pk = b.0,
                Fault::OutPkNeg => out_pk = (-refm::point_of(&note.pk_d()).unwrap()).to_bytes(),
                Fault::OutEsk(b) => out_esk = b.0,
                Fault::OutEskNeg => out_esk = (-esk).to_repr(),
                Fault::KeyFromOut => key_from_out = true,
                _ => {}
            }
        }
        let mut epk_point = note.g_d() * esk;
        let mut epk = epk_point.to_bytes();
        for f in &self.faults {
            if let Fault::Epk(e) = f {
                match e {
                    EpkG::Proper => {}
                    EpkG::OtherBase(d) => epk_point = refm::diversify_hash(&d.0) * esk,
                    EpkG::Neg => epk_point = -epk_point,
                    EpkG::Plus => epk_point = epk_point + *refm::G_SPEND,
                    EpkG::Raw(b) => {
                        if let Some(p) = refm::point_of(&b.0) {
                            epk_point = p;
                        }
                    }
                }
                epk = match e {
                    EpkG::Raw(b) => b.0,
                    _ => epk_point.to_bytes(),
                };
            }
        }
        let memo = self.memo.bytes();
        let shared = if key_from_out {
            match (refm::point_of(&out_pk), refm::scalar_of(&out_esk)) {
                (Some(p), Some(s)) => p * s,
                _ => epk_point * ivk_s,
            }
        } else {
            epk_point * ivk_s
        };
        let mut enc = refm::aead_seal(&refm::kdf(&shared, &epk), &refm::plaintext(lead, &plain, &memo));
        let mut cmx = commit.cmx().expect("commitment exists").to_repr();
        let mut nf = self.nf.0;
        let mut cv = self.cv.0;
        let (mut ock_cv, mut ock_cmx, mut ock_epk) = (cv, cmx, epk);
        for f in &self.faults {
            match f {
                Fault::OckCv(b) => ock_cv = b.0,
                Fault::OckCmx(b) => ock_cmx = b.0,
                Fault::OckEpk(b) => ock_epk = b.0,
                _ => {}
            }
        }
        let mut op = [0; 64];
        op[..32].copy_from_slice(&out_pk);
        op[32..].copy_from_slice(&out_esk);
        let mut out = match &ovk {
            Some(k) => refm::aead_seal(&refm::prf_ock(k, &ock_cv, &ock_cmx, &ock_epk), &op),
            None => {
                // A random key nobody holds.
                let k = refm::blake2b(32, b"harness-no-ovk--", &[&self.rseed.0, &self.nf.0]);
                refm::aead_seal(&k.try_into().unwrap(), &op)
            }
        };
        let base_or = |x: &mut [u8; 32], e: &Edit| {
            let mut y = *x;
            e.apply(&mut y);
            if refm::base_of(&y).is_some() {
                *x = y;
            }
        };
        for f in &self.faults {
            match f {
                Fault::Enc(e) => {
                    e.apply(&mut enc);
                }
                Fault::EncTag(e) => {
                    e.apply(&mut enc[564..]);
                }
                Fault::Out(e) => {
                    e.apply(&mut out);
                }
                Fault::OutTag(e) => {
                    e.apply(&mut out[64..]);
                }
                Fault::EpkBytes(e) => {
                    e.apply(&mut epk);
                }
                Fault::CmxBytes(e) => base_or(&mut cmx, e),
                Fault::NfBytes(e) => base_or(&mut nf, e),
                Fault::Cv(b) => cv = b.0,
                Fault::Nf(b) => nf = b.0,
                Fault::Cmx(b) => cmx = b.0,
                _ => {}
            }
        }
        Sent { out: ROut { nf, cmx, cv, epk, enc, out }, note, ivk, ovk }
    }
}
