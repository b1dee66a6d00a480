//! Concrete counterpart of the symbolic executor's builtins, used to replay inputs against the real
//! build. Exit codes: 0 harness finished, 77 assumption false, 78 input exhausted, 101 check failed,
//! 102 allocation limit exceeded, 103 panic.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

static INPUT: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static PARAM: AtomicUsize = AtomicUsize::new(0);

fn end(code: i32, msg: &str) -> ! {
    LIMIT.store(usize::MAX, Relaxed);
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "END {} {}", code, msg);
    let _ = o.flush();
    std::process::exit(code)
}

pub struct Counting;
fn guard(n: usize) {
    if n > LIMIT.load(Relaxed) {
        end(102, "allocation beyond the limit");
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn take(n: usize) -> Vec<u8> {
    let mut g = INPUT.lock().unwrap();
    let at = g.1;
    if at + n > g.0.len() {
        drop(g);
        end(78, "input exhausted");
    }
    g.1 += n;
    g.0[at..at + n].to_vec()
}
unsafe fn text(m: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned()
}
#[no_mangle]
unsafe extern "C" fn sym_uint(bits: u32) -> u64 {
    let b = take(((bits + 7) / 8) as usize);
    let mut r = 0u64;
    for x in b.iter().rev() {
        r = (r << 8) | *x as u64;
    }
    if bits < 64 {
        r &= (1 << bits) - 1;
    }
    r
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    let b = take(n);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
}
#[no_mangle]
unsafe extern "C" fn sym_assume(c: bool) {
    if !c {
        end(77, "assumption false");
    }
}
#[no_mangle]
unsafe extern "C" fn sym_check(c: bool, m: *const u8, n: usize) {
    if !c {
        end(101, &text(m, n));
    }
}
#[no_mangle]
unsafe extern "C" fn sym_reach(m: *const u8, n: usize) {
    println!("REACH {}", text(m, n));
}
#[no_mangle]
unsafe extern "C" fn sym_observe(m: *const u8, n: usize, p: *const u8, k: usize) {
    let h: String = std::slice::from_raw_parts(p, k).iter().map(|b| format!("{:02x}", b)).collect();
    println!("OBS {} {}", text(m, n), h);
}
#[no_mangle]
extern "C" fn sym_fork(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_alloc_limit(n: usize) {
    LIMIT.store(n, Relaxed);
}
#[no_mangle]
extern "C" fn sym_is_symbolic() -> bool {
    false
}
#[no_mangle]
unsafe extern "C" fn sym_memeq(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}
#[no_mangle]
extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn sym_param() -> u64 {
    PARAM.load(Relaxed) as u64
}
#[no_mangle]
extern "C" fn sym_live_alloc() -> u64 {
    0
}

pub fn replay(f: extern "C" fn(), input: Vec<u8>, param: usize) -> ! {
    *INPUT.lock().unwrap() = (input, 0);
    PARAM.store(param, Relaxed);
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        end(103, &m)
    }));
    f();
    end(0, "finished")
}
