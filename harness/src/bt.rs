#![feature(allocator_api)]
extern crate alloc;
#[path = "vf.rs"]
mod vf;
#[path = "bt/mod.rs"]
pub mod bt;
