#![no_std]
#![no_main]
extern crate alloc;
#[path = "../rt.rs"]
mod rt;
#[unsafe(no_mangle)]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let mut m = alloc::collections::BTreeMap::new();
    m.insert(1, alloc::string::String::from("control"));
    rt::put(&alloc::format!("{}\n", m[&1]));
    0
}
