mod amount;
mod decimal;
mod misc;

include!("list.rs");
