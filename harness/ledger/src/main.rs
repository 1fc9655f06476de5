mod utxos;
mod orders;
mod tokens;

include!("list.rs");
