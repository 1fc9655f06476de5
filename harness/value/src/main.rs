mod balance;

include!("list.rs");
