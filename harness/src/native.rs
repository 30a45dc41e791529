//! Native side of the harness interface: values come from a replay file.
//! usage: replay ENTRY ARGS(comma separated) VALUES(comma separated)
//! exit 0 finished, 42 a check failed, 101 panic, 3 an assumption failed, 4 inputs exhausted
use std::sync::Mutex;
static VALS: Mutex<(Vec<u64>, usize)> = Mutex::new((vec![], 0));
static CLOCK: Mutex<(u64, u64)> = Mutex::new((1000, 0));
static WALL: Mutex<(u64, u64)> = Mutex::new((1000, 0));
static PANIC_OK: Mutex<bool> = Mutex::new(false);
fn quit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
fn next(bits: u32) -> u64 {
    let mut v = VALS.lock().unwrap();
    let k = v.1;
    if k >= v.0.len() { println!("EXHAUSTED"); quit(4); }
    v.1 += 1;
    let x = v.0[k];
    if bits < 64 { x & ((1u64 << bits) - 1) } else { x }
}
#[no_mangle] pub extern "C" fn msx_sym(bits: u32) -> u64 { next(bits) }
#[no_mangle] pub extern "C" fn msx_rand(bits: u32) -> u64 { next(bits) }
#[no_mangle] pub extern "C" fn msx_rand_in(bits: u32, _: i64, _: i64) -> u64 { next(bits) }
#[no_mangle] pub extern "C" fn msx_assume(c: bool) { if !c { println!("ASSUME-FAILED"); quit(3); } }
#[no_mangle] pub extern "C" fn msx_check(c: bool, m: *const u8, n: usize) {
    if !c { println!("CHECK {}", unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(m, n)) }); quit(42); }
}
#[no_mangle] pub extern "C" fn msx_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn msx_observe(v: u64) { println!("OBS {}", v); }
#[no_mangle] pub extern "C" fn msx_reach(_: u64) {}
#[no_mangle] pub extern "C" fn msx_panic_ok(on: bool) { *PANIC_OK.lock().unwrap() = on; }
#[no_mangle] pub extern "C" fn msx_merge(_: u32) {}
#[no_mangle] pub extern "C" fn msx_set_clock(s: u64, n: u64) { *CLOCK.lock().unwrap() = (s, n); *WALL.lock().unwrap() = (s, n); }
#[no_mangle] pub extern "C" fn msx_set_wall(s: u64, n: u64) { *WALL.lock().unwrap() = (s, n); }
#[no_mangle] pub extern "C" fn msx_file(p: *const u8, n: usize, d: *const u8, dn: usize) {
    unsafe {
        let p = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
        assert!(!p.contains('/') && !p.contains(".."));
        std::fs::write(p, std::slice::from_raw_parts(d, dn)).unwrap();
    }
}
// Threads take turns exactly as the engine lets them: one runs, and hands over where the schedule
// (part of the replayed values) says so, or where it has to wait.
mod turns {
    use super::*;
    use std::cell::Cell;
    use std::ffi::c_void;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    #[derive(Clone, Copy)] enum Wait { No, Join(usize), Futex(*const u32, u32) }
    const MAX: usize = 256;
    static CUR: AtomicUsize = AtomicUsize::new(0);
    static mut N: usize = 1;
    static mut DELAYS: u32 = 0;
    static mut DONE: [bool; MAX] = [false; MAX];
    static mut WAIT: [Wait; MAX] = [Wait::No; MAX];
    static mut ID: [usize; MAX] = [0; MAX];
    thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }
    extern "C" {
        fn dlsym(h: *const c_void, n: *const u8) -> *const c_void;
        fn usleep(n: u32) -> i32;
        fn __errno_location() -> *mut i32;
    }
    unsafe fn ready(t: usize) -> bool {
        if DONE[t] { return false; }
        match WAIT[t] { Wait::No => true, Wait::Join(o) => DONE[o], Wait::Futex(p, v) => p.read_volatile() != v }
    }
    unsafe fn after(t: usize) -> Option<usize> { let n = N; (1..=n).map(|k| (t + k) % n).find(|&k| ready(k)) }
    unsafe fn choose(mut t: usize) -> usize {
        while DELAYS > 0 {
            match after(t) { Some(a) if a != t => { if next(1) == 0 { break; } DELAYS -= 1; t = a; } _ => break }
        }
        t
    }
    unsafe fn hand(t: usize) {
        let me = ME.with(|m| m.get());
        CUR.store(t, SeqCst);
        while CUR.load(SeqCst) != me { usleep(20); }
        WAIT[me] = Wait::No;
    }
    unsafe fn give_way() -> usize { match after(ME.with(|m| m.get())) { Some(t) => choose(t), None => { println!("PANIC deadlock"); quit(101) } } }
    #[no_mangle] pub extern "C" fn msx_sched() { unsafe { if N > 1 && DELAYS > 0 { let t = choose(ME.with(|m| m.get())); hand(t); } } }
    #[no_mangle] pub extern "C" fn msx_delays(n: u32) { unsafe { DELAYS = n; } }
    #[no_mangle] pub extern "C" fn sched_yield() -> i32 { unsafe { if N > 1 { let t = give_way(); hand(t); } } 0 }
    type Start = extern "C" fn(*mut c_void) -> *mut c_void;
    extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
        unsafe {
            let b = Box::from_raw(p as *mut (Start, *mut c_void, usize));
            ME.with(|m| m.set(b.2));
            while CUR.load(SeqCst) != b.2 { usleep(20); }
            let r = (b.0)(b.1);
            DONE[b.2] = true;
            let t = give_way();
            CUR.store(t, SeqCst);
            r
        }
    }
    #[no_mangle] pub unsafe extern "C" fn pthread_create(out: *mut usize, attr: *const c_void, f: Start, arg: *mut c_void) -> i32 {
        let real: extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> i32 = std::mem::transmute(dlsym(-1isize as *const c_void, b"pthread_create\0".as_ptr()));
        let id = N;
        N += 1;
        let r = real(out, attr, tramp, Box::into_raw(Box::new((f, arg, id))) as *mut c_void);
        ID[id] = *out;
        r
    }
    #[no_mangle] pub unsafe extern "C" fn pthread_join(t: usize, ret: *mut *mut c_void) -> i32 {
        let real: extern "C" fn(usize, *mut *mut c_void) -> i32 = std::mem::transmute(dlsym(-1isize as *const c_void, b"pthread_join\0".as_ptr()));
        for k in 1..N {
            if ID[k] == t { while !DONE[k] { WAIT[ME.with(|m| m.get())] = Wait::Join(k); let t = give_way(); hand(t); } break; }
        }
        real(t, ret)
    }
    #[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == 202 && N > 1 {
            if matches!(b & 127, 1 | 10) { return 0; }
            let p = a as *const u32;
            if p.read_volatile() == c as u32 { WAIT[ME.with(|m| m.get())] = Wait::Futex(p, c as u32); let t = give_way(); hand(t); }
            *__errno_location() = 11;
            return -1;
        }
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if r < 0 && r > -4096 { *__errno_location() = -r as i32; return -1; }
        r
    }
}
#[no_mangle] pub extern "C" fn msx_is_symbolic(_: u64) -> bool { next(1) != 0 }
#[repr(C)] pub struct Timespec { s: i64, n: i64 }
#[no_mangle] pub extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let c = if id == 0 { *WALL.lock().unwrap() } else { *CLOCK.lock().unwrap() };
    unsafe { (*t).s = c.0 as i64; (*t).n = c.1 as i64; }
    0
}
pub fn main(table: &[(&str, fn(&[usize]))]) {
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let args: Vec<usize> = list(&a[2]).iter().map(|&x| x as usize).collect();
    VALS.lock().unwrap().0 = list(&std::fs::read_to_string(&a[3]).unwrap().trim());
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let ok = PANIC_OK.try_lock().map(|g| *g).unwrap_or(false);
        println!("PANIC {} {}", l, if ok { "(allowed)" } else { "" });
        eprintln!("{}", i);
        quit(if ok { 0 } else { 101 });
    }));
    let f = table.iter().find(|t| t.0 == a[1]).expect("no such harness").1;
    f(&args);
    println!("END");
    quit(0);
}
