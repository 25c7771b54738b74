//! Binds the specification's types and values to the real serde_xdr.
pub mod alloc;
pub mod conv;
pub mod dynamic;
pub mod judge;
pub mod manyvar;
pub mod native;
pub mod probe;
pub mod rng;
pub mod run;
pub mod zoo;
pub mod words;
