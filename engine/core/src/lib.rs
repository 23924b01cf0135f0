//! The verifier: symbolic scalar, normal forms, obligations, exploration, replay.
pub mod contract;
pub mod eng;
pub mod explore;
pub mod fun;
pub mod gram;
pub mod guard;
pub mod ieee;
pub mod nf;
pub mod out;
pub mod pit;
pub mod poly;
pub mod prove;
pub mod rat;
pub mod smt;
pub mod sym;
pub mod lp;
