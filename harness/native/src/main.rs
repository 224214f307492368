//! Runs one harness on concrete values: `native HARNESS VALUES [PARAM...]`.
//!
//! VALUES is a text file with one hexadecimal number per line, consumed in
//! the order in which the harness asks for values. Exit status: 0 held, 1 a
//! check failed, 101 panic, 3 an assumption does not hold for these values,
//! 4 not enough values, 5 unknown harness.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

static VALUES: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static PARAMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static EXPECT: AtomicBool = AtomicBool::new(false);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static TRACE: AtomicBool = AtomicBool::new(false);

fn next() -> u64 {
    let i = POS.fetch_add(1, Relaxed);
    let v = VALUES.lock().unwrap().get(i).copied();
    match v {
        Some(v) => v,
        None => {
            println!("SX-SHORT");
            std::process::exit(4)
        }
    }
}

#[no_mangle]
extern "C" fn sx_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sx_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sx_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sx_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sx_assume(c: u32) {
    if c == 0 {
        println!("SX-ASSUME");
        std::process::exit(3);
    }
}
#[no_mangle]
extern "C" fn sx_check(c: u32, id: u32) {
    if TRACE.load(Relaxed) {
        println!("check {} {}", id, c);
    } else if c == 0 {
        println!("SX-CHECK {}", id);
        std::process::exit(1);
    }
}
#[no_mangle]
extern "C" fn sx_cover(id: u32) {
    if TRACE.load(Relaxed) {
        println!("cover {}", id);
    }
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sx_param(i: u32) -> u64 {
    PARAMS.lock().unwrap()[i as usize]
}
#[no_mangle]
extern "C" fn sx_expect_panic(on: u32) {
    EXPECT.store(on != 0, Relaxed);
}
#[no_mangle]
extern "C" fn sx_alloc_limit(v: u64) {
    LIMIT.store(v as usize, Relaxed);
}
#[no_mangle]
extern "C" fn sx_defined(_: *const u8, _: u64) -> u32 {
    1
}
#[no_mangle]
unsafe extern "C" fn sx_initialised(p: *const u8, n: u64) {
    for i in 0..n as usize {
        std::hint::black_box(*p.add(i));
    }
}
#[no_mangle]
extern "C" fn sx_forget(v: u64) {
    if TRACE.load(Relaxed) {
        println!("value {:x}", v);
    }
}

struct Limited;

fn limit(n: usize) {
    if n > LIMIT.load(Relaxed) {
        LIMIT.store(usize::MAX, Relaxed);
        println!("SX-ALLOC {}", n);
        std::process::exit(1);
    }
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        limit(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Limited = Limited;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|v| v == "--trace").unwrap_or(false) {
        TRACE.store(true, Relaxed);
        args.remove(1);
    }
    let Some(f) = props::lookup(&args[1]) else {
        std::process::exit(5);
    };
    let text = std::fs::read_to_string(&args[2]).expect("values");
    *VALUES.lock().unwrap() = text
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| u64::from_str_radix(l.trim(), 16).expect("hex"))
        .collect();
    *PARAMS.lock().unwrap() = args[3..].iter().map(|v| v.parse().expect("param")).collect();
    let r = std::panic::catch_unwind(f);
    LIMIT.store(usize::MAX, Relaxed);
    if r.is_err() {
        if EXPECT.load(Relaxed) {
            println!("panic");
            return;
        }
        println!("SX-PANIC");
        std::process::exit(101);
    }
}
