mod connect;
mod locks;
mod reward;
mod checks;
include!("list.rs");
