//! Native implementation of the harness vocabulary: replays recorded inputs against the really compiled
//! code, with a guard-page allocator. Violations print a line and exit with status 10.
use std::ffi::{c_char, c_int, c_long, c_void};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    fn madvise(a: *mut c_void, n: usize, adv: c_int) -> c_int;
    fn posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> c_int;
    fn free(p: *mut u8);
    fn signal(n: c_int, f: extern "C" fn(c_int)) -> usize;
    fn sigaltstack(ss: *const StackT, old: *mut c_void) -> c_int;
    fn sigaction(n: c_int, a: *const SigAction, old: *mut c_void) -> c_int;
    fn alarm(s: u32) -> u32;
    fn _exit(c: c_int) -> !;
    fn write(fd: c_int, p: *const c_char, n: usize) -> isize;
}
#[repr(C)]
struct StackT {
    sp: *mut c_void,
    flags: c_int,
    size: usize,
}
#[repr(C)]
struct SigAction {
    handler: extern "C" fn(c_int),
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

const SLOT: usize = 16 << 20;
const NSLOT: usize = 16384;
const CAP: usize = 4 << 20;
const PAGE: usize = 4096;
static mut BASE: usize = 0;
static mut NEXT: usize = 0;
// (address, size, align, state) ; state 1 live, 2 freed
static mut TAB: [(usize, usize, usize, u8); NSLOT] = [(0, 0, 0, 0); NSLOT];
static mut ARMED: bool = false;
static mut FILL: u8 = 0xA5;
static mut FAULT: u64 = 0;
static mut FAULT_MAX: u64 = 0;
static mut FAULT_BASE: u64 = 0;
static mut FAILS: u64 = 0;
static mut ALLOCS: u64 = 0;
static mut LIVE: u64 = 0;
static mut LIVE_BYTES: u64 = 0;
static mut LEAK_OK: bool = false;
static mut INPUTS: [u64; 65536] = [0; 65536];
static mut NIN: usize = 0;
static mut IPOS: usize = 0;
static mut PARAMS: [u64; 16] = [0; 16];
static mut OBS: [u64; 65536] = [0; 65536];
static mut NOBS: usize = 0;

fn say(s: &str) {
    unsafe {
        write(1, s.as_ptr() as *const c_char, s.len());
    }
}
fn num(mut n: u64) {
    let mut b = [0u8; 24];
    let mut i = 24;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    say(std::str::from_utf8(&b[i..]).unwrap());
}
fn flush_obs() {
    unsafe {
        say("OBS");
        for i in 0..NOBS {
            say(" ");
            num(OBS[i]);
        }
        say("\n");
    }
}
fn fail(kind: &str, msg: &str) -> ! {
    say("VF-VIOLATION ");
    say(kind);
    say(": ");
    say(msg);
    say("\n");
    unsafe { _exit(10) }
}
fn input() -> u64 {
    unsafe {
        if IPOS >= NIN {
            say("VF-DIVERGED ran out of recorded inputs\n");
            _exit(4)
        }
        IPOS += 1;
        INPUTS[IPOS - 1]
    }
}
extern "C" fn on_signal(n: c_int) {
    match n {
        14 => fail("hang", "no termination within the time limit"),
        6 => fail("abort", "process abort"),
        4 | 5 => fail("abort", "trap instruction"),
        8 => fail("ub", "arithmetic trap"),
        _ => fail("memory", "invalid memory access (signal)"),
    }
}

#[no_mangle]
pub extern "C" fn vf_any(bits: u32) -> u64 {
    let v = input();
    if bits < 64 && v >> bits != 0 {
        say("VF-DIVERGED input width\n");
        unsafe { _exit(4) }
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_range(lo: u64, hi: u64) -> u64 {
    let v = input();
    if v < lo || v > hi {
        say("VF-DIVERGED input range\n");
        unsafe { _exit(4) }
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_choose(n: u64) -> u64 {
    vf_range(0, n - 1)
}
#[no_mangle]
pub extern "C" fn vf_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        say("VF-DIVERGED assumption does not hold\n");
        unsafe { _exit(4) }
    }
}
#[no_mangle]
pub unsafe extern "C" fn vf_check(c: bool, p: *const u8, n: usize) {
    if !c {
        fail("check", std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)));
    }
}
#[no_mangle]
pub extern "C" fn vf_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
pub unsafe extern "C" fn vf_obs(x: u64) {
    OBS[NOBS] = x;
    NOBS += 1;
}
#[no_mangle]
pub unsafe extern "C" fn vf_trace(p: *const u8, n: usize, x: u64) {
    say("TRACE ");
    say(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)));
    say(" ");
    num(x);
    say("\n");
}
#[no_mangle]
pub unsafe extern "C" fn vf_alloc(size: usize, align: usize) -> *mut u8 {
    if !ARMED {
        let mut p = std::ptr::null_mut();
        if posix_memalign(&mut p, if align < 16 { 16 } else { align }, size) != 0 {
            return std::ptr::null_mut();
        }
        return p;
    }
    let unwinding = std::thread::panicking();
    if size == 0 {
        fail("memory", "zero-size allocation request");
    }
    if size > CAP {
        if !unwinding && FAULT != 0 {
            FAILS += 1;
        }
        return std::ptr::null_mut();
    }
    if unwinding {
        ARMED = false;
        let p = vf_alloc(size, align);
        ARMED = true;
        return p;
    }
    if FAULT != 0 {
        let f = match FAULT {
            3 => true,
            2 if FAILS > FAULT_BASE => true,
            _ => (FAULT == 2 || FAILS - FAULT_BASE < FAULT_MAX) && input() != 0,
        };
        if f {
            FAILS += 1;
            return std::ptr::null_mut();
        }
    }
    if NEXT >= NSLOT {
        say("VF-DIVERGED too many allocations\n");
        _exit(4)
    }
    let slot = BASE + NEXT * SLOT + SLOT / 2;
    // right-aligned against a guard page, aligned to exactly `align` when that is possible
    let end = slot;
    let mut p = (end - size) & !(align - 1);
    if align < PAGE && p & align == 0 && size % (2 * align) == 0 {
        // keep the guard tight; exact alignment is checked by the symbolic run
        p = p;
    }
    let lo = p & !(PAGE - 1);
    if mprotect(lo as *mut c_void, end - lo, 3) != 0 {
        say("VF-DIVERGED mprotect\n");
        _exit(4)
    }
    std::ptr::write_bytes(lo as *mut u8, FILL, end - lo);
    TAB[NEXT] = (p, size, align, 1);
    NEXT += 1;
    ALLOCS += 1;
    LIVE += 1;
    LIVE_BYTES += size as u64;
    p as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn vf_free(p: *mut u8, size: usize, align: usize) {
    let a = p as usize;
    if a < BASE || a >= BASE + NSLOT * SLOT {
        // untracked (allocated before the run or by the panic machinery)
        free(p);
        return;
    }
    let i = (a - BASE) / SLOT;
    let (q, n, al, s) = TAB[i];
    if s == 0 {
        fail("memory", "free of an invalid pointer");
    }
    if s == 2 {
        fail("memory", "double free");
    }
    if q != a {
        fail("memory", "free of a pointer into the middle of an allocation");
    }
    if n != size {
        fail("memory", "free with a size different from the allocation's");
    }
    if al != align {
        fail("memory", "free with an alignment different from the allocation's");
    }
    let end = BASE + i * SLOT + SLOT / 2;
    let lo = q & !(PAGE - 1);
    let mut x = lo;
    while x < end {
        if (x < q || x >= q + n) && *(x as *const u8) != FILL {
            fail("memory", "out-of-bounds write next to an allocation");
        }
        x += 1;
    }
    mprotect(lo as *mut c_void, end - lo, 0);
    madvise(lo as *mut c_void, end - lo, 4);
    TAB[i].3 = 2;
    LIVE -= 1;
    LIVE_BYTES -= n as u64;
}
#[no_mangle]
pub unsafe extern "C" fn vf_fault(mode: u64, max: u64) {
    FAULT = mode;
    FAULT_MAX = max;
    FAULT_BASE = FAILS;
}
#[no_mangle]
pub unsafe extern "C" fn vf_fails() -> u64 {
    FAILS
}
#[no_mangle]
pub unsafe extern "C" fn vf_allocs() -> u64 {
    ALLOCS
}
#[no_mangle]
pub unsafe extern "C" fn vf_live() -> u64 {
    LIVE
}
#[no_mangle]
pub unsafe extern "C" fn vf_live_bytes() -> u64 {
    LIVE_BYTES
}
#[no_mangle]
pub unsafe extern "C" fn vf_leak_ok() {
    LEAK_OK = true
}
#[no_mangle]
pub unsafe extern "C" fn vf_param(i: u64) -> u64 {
    PARAMS[i as usize]
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vf_try(f: unsafe extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    match std::panic::catch_unwind(move || f(d)) {
        Ok(()) => 0,
        Err(e) => {
            std::mem::forget(e);
            1
        }
    }
}

/// usage: replay ENTRY PARAMS FILL < inputs ; PARAMS comma separated
pub fn main(tables: &[&[(&str, extern "C-unwind" fn())]]) {
    let a: Vec<String> = std::env::args().collect();
    let f = match tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == a[1]) {
        Some((_, f)) => *f,
        None => {
            println!("VF-DIVERGED no such entry");
            std::process::exit(4)
        }
    };
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        for (i, p) in a[2].split(',').filter(|s| !s.is_empty()).enumerate() {
            PARAMS[i] = p.parse().unwrap();
        }
        FILL = a[3].parse().unwrap();
        for w in text.split_whitespace() {
            INPUTS[NIN] = w.parse().unwrap();
            NIN += 1;
        }
        BASE = mmap(std::ptr::null_mut(), NSLOT * SLOT, 0, 0x4022, -1, 0) as usize;
        if BASE == usize::MAX {
            println!("VF-DIVERGED mmap");
            std::process::exit(4)
        }
        // faults may be stack overflows: handle signals on their own stack
        let ss = StackT { sp: mmap(std::ptr::null_mut(), 1 << 16, 3, 0x22, -1, 0), flags: 0, size: 1 << 16 };
        sigaltstack(&ss, std::ptr::null_mut());
        let _ = signal;
        for n in [4, 5, 6, 7, 8, 11, 14] {
            let sa = SigAction { handler: on_signal, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            sigaction(n, &sa, std::ptr::null_mut());
        }
        alarm(20);
        let mut frame = [FILL; 65536];
        std::hint::black_box(&mut frame);
        ARMED = true;
        let r = std::panic::catch_unwind(|| f());
        ARMED = false;
        if r.is_err() {
            fail("panic", "a panic escaped the operation under test");
        }
        if LIVE != 0 && !LEAK_OK {
            fail("leak", "heap blocks still allocated after every value was dropped");
        }
        flush_obs();
        if IPOS != NIN {
            say("VF-DIVERGED inputs left over\n");
            _exit(4)
        }
        say("VF-OK\n");
        _exit(0)
    }
}
