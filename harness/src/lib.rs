//! Harnesses: each `h_*` function takes an arbitrary byte slice, drives pcics' public API on it and states with
//! `ck!`/`eq!` what must hold. The IR of this crate and of pcics is executed symbolically; the same functions compiled
//! natively replay counterexamples.
#![allow(clippy::all)]
#![allow(dead_code)]

#[macro_use]
pub mod util;
pub mod header;
pub mod caps_basic;
pub mod caps_x;
pub mod pcie;
pub mod ext_err;
pub mod ext_vc;
pub mod ext_mfvc;
pub mod ext_rc;
pub mod ext_io;
pub mod ext_power;
pub mod ext_link;
pub mod ext_cxl;
pub mod walk;
pub mod names;
pub mod misc;
pub mod errs;
pub mod equal;
pub mod laws;
pub mod ways;
pub mod why;

#[cfg(feature = "replay")]
pub fn say(s: String) {
    println!("CHECK-FAILED {}", s);
}
