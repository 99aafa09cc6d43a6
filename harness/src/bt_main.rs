#![feature(allocator_api)]
extern crate alloc;
#[path = "vf.rs"]
mod vf;
#[path = "native.rs"]
mod native;
#[path = "bt/mod.rs"]
mod bt;
fn main() {
    native::main(bt::TABLES)
}
