mod emission;
mod target;
mod work;

include!("list.rs");
