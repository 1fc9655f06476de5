#![allow(clippy::all)]
mod kv;

include!("list.rs");
