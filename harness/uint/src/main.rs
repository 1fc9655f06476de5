//! Big unsigned integers (common::uint) against schoolbook oracles written here.
#![allow(clippy::needless_range_loop)]
mod arith;
include!("list.rs");
