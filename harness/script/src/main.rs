mod machine;
mod numbers;
mod parse;

include!("list.rs");
