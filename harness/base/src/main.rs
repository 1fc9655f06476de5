#![allow(clippy::all)]
mod bech;
mod graph;
mod keys;

include!("list.rs");
