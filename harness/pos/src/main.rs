mod pools;

include!("list.rs");
