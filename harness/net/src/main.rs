#![allow(clippy::all)]
mod addr;
mod cast;
mod text;

include!("list.rs");
