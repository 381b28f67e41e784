//! Keys of the proof system and real proofs.

use crate::refm::Base;
use halo2_proofs::{
    plonk::{self, SingleVerifier},
    poly::commitment::Params,
    transcript::Blake2bRead,
};
use lazy_static::lazy_static;
use orchard::circuit::{Circuit, ProvingKey, VerifyingKey};
use pasta_curves::vesta;

lazy_static! {
    pub static ref PK: ProvingKey = ProvingKey::build();
    pub static ref VK: VerifyingKey = VerifyingKey::build();
    static ref RAW: (Params<vesta::Affine>, plonk::VerifyingKey<vesta::Affine>) = {
        let params = Params::new(crate::ctx::K);
        let vk = plonk::keygen_vk(&params, &Circuit::default()).unwrap();
        (params, vk)
    };
}

/// Builds the keys before timing-sensitive or threaded work.
pub fn warm() {
    rayon::join(|| lazy_static::initialize(&PK), || rayon::join(|| lazy_static::initialize(&VK), || lazy_static::initialize(&RAW)));
}

/// The proof system's own verdict on `proof` for independently encoded public inputs.
pub fn raw_verify(proof: &[u8], instances: &[Vec<Base>]) -> bool {
    let inst: Vec<Vec<&[Base]>> = instances.iter().map(|i| vec![&i[..]]).collect();
    let inst: Vec<&[&[Base]]> = inst.iter().map(|i| &i[..]).collect();
    let mut t = Blake2bRead::init(proof);
    plonk::verify_proof(&RAW.0, &RAW.1, SingleVerifier::new(&RAW.0), &inst, &mut t).is_ok()
}
