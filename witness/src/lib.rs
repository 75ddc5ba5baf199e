//! Uses of the repository's macros, so that their expansions are analysed for many shapes of input.
//! Never run: every module is type-checked, its constants are evaluated by the compiler, and the
//! expanded functions are dumped for the rules.
#![no_std]
#![allow(dead_code, missing_docs)]
pub mod gadgets;
pub mod kinds;
pub mod literals;
#[cfg(feature = "violating")]
pub mod violating;
