//! Common runtime-monitoring machinery: case driver, verdict monitor, evidence writer,
//! circuit generators, recording constraint system and proof mutators.
pub mod circ;
pub mod ctx;
pub mod gadgets;
pub mod layered;
pub mod mutate;
pub mod plonk;
pub mod rcs;
pub mod asvc;
pub mod r1cs_checks;
pub mod schemes;

pub use ctx::*;
pub type Fr = ark_bls12_381::Fr;
pub type E = ark_bls12_381::Bls12_381;
pub mod args;
pub mod bp;
pub mod owns;
