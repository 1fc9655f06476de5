#![allow(clippy::all)]
mod equal;
mod hashing;
mod password;
mod sealed;
mod transcript;

include!("list.rs");
