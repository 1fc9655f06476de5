mod amounts;
mod data;

include!("list.rs");
