extern crate alloc;
#[path = "vf.rs"]
mod vf;
#[path = "st/mod.rs"]
pub mod st;
