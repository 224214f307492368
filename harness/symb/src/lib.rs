//! Links the harnesses into one module for symbolic execution. Allocation and
//! panics are left to the engine.
#![no_std]

extern crate props;
#[cfg(feature = "std")]
extern crate std;

extern "C" {
    fn sx_alloc(size: usize, align: usize) -> *mut u8;
    fn sx_alloc_zeroed(size: usize, align: usize) -> *mut u8;
    fn sx_dealloc(ptr: *mut u8, size: usize, align: usize);
    fn sx_realloc(ptr: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    #[cfg(not(feature = "std"))]
    fn sx_panic() -> !;
}

struct Alloc;

unsafe impl core::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        sx_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: core::alloc::Layout) -> *mut u8 {
        sx_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) {
        sx_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: core::alloc::Layout, n: usize) -> *mut u8 {
        sx_realloc(p, l.size(), l.align(), n)
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

#[cfg(not(feature = "std"))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { sx_panic() }
}
