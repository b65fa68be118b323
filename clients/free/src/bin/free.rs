#![no_std]
#![no_main]
extern crate alloc;
#[path = "../rt.rs"]
mod rt;
#[path = "../work.rs"]
mod work;
#[unsafe(no_mangle)]
pub extern "C" fn main(n: i32, v: *const *const u8) -> i32 {
    let (seed, scale) = rt::args(n, v);
    let before = rt::LIVE.load(core::sync::atomic::Ordering::Relaxed);
    work::run(seed, scale, &mut |s| rt::put(s));
    let after = rt::LIVE.load(core::sync::atomic::Ordering::Relaxed);
    rt::put(if before == after { "balanced\n" } else { "memory is lost\n" });
    0
}
