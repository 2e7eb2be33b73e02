//! The simulator proper: scheduler, memory, seams, reference transforms.
#![allow(static_mut_refs, clippy::all)]
#[macro_use]
pub mod ser;
pub mod alloc;
pub mod engine;
pub mod kinds;
pub mod num;
pub mod raw;
pub mod refr;
pub mod report;
pub mod rng;
pub mod umem;
