//! Bounded-exhaustive model checking of `dendron` through its public API.
//!
//! See /verif/DESIGN.md.  `sup` is the explorer (deterministic enumeration, sharding over worker
//! processes, crash and hang attribution, confirmation by isolated replay, evidence); the other
//! modules are the reference model and the observation functions.
pub mod chores;
pub mod data;
pub mod history;
pub mod together;
pub mod kinds;
pub mod large;
pub mod many;
pub mod model;
pub mod obs;
pub mod ops;
pub mod pump;
pub mod shape;
pub mod sup;
pub mod world;
