extern crate alloc;
#[path = "vf.rs"]
mod vf;
#[path = "native.rs"]
mod native;
#[path = "st/mod.rs"]
mod st;
fn main() {
    native::main(st::TABLES)
}
