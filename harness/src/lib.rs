//! Symbolic-execution entry points over the real code of /repo. Compiled to LLVM bitcode and executed by
//! /verif/engine; compiled natively by src/replay.rs to re-run counterexamples against the real build.
#![allow(static_mut_refs)]
pub mod auth;
pub mod deep;
pub mod entries;
pub mod entry;
pub mod flow;
pub mod idl;
pub mod iso;
pub mod ops;
pub mod solvent;
pub mod story;
pub mod stubs;
pub mod vp;
pub mod wire;
pub mod world;
