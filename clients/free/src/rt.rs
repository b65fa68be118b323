// A minimal runtime: allocator, output and panics on top of libc, counting what is allocated.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering};
unsafe extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn aligned_alloc(a: usize, n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn _exit(code: i32) -> !;
}
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = l.align().max(8);
        LIVE.fetch_add(l.size(), Ordering::Relaxed);
        unsafe { aligned_alloc(a, (l.size() + a - 1) & !(a - 1)) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { free(p) }
    }
}
#[global_allocator]
static G: A = A;
pub fn put(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { write(1, b.as_ptr(), b.len()) };
        if n <= 0 {
            unsafe { _exit(3) }
        }
        b = &b[n as usize..];
    }
}
struct W;
impl core::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        put(s);
        Ok(())
    }
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    let _ = core::fmt::write(&mut W, format_args!("panic: {i}\n"));
    unsafe { _exit(101) }
}
/// The decimal arguments of the program.
#[allow(dead_code)]
pub fn args(n: i32, v: *const *const u8) -> (u64, u64) {
    let get = |i: i32| {
        if i >= n {
            return 1;
        }
        let (mut p, mut x) = (unsafe { *v.add(i as usize) }, 0u64);
        while unsafe { *p } != 0 {
            x = x.wrapping_mul(10).wrapping_add(u64::from(unsafe { *p }.wrapping_sub(b'0')));
            p = unsafe { p.add(1) };
        }
        x
    };
    (get(1), get(2))
}
