//! Native execution of recorded input tapes against the real code.
//!
//! stdin: one job per line, `entry \t a,b,c \t w:hex w:hex ...`
//! stdout: one line per job, `status \t events` (events joined by \x01)
//! Every job runs in a forked child under an allocator that puts each allocation next to an
//! inaccessible page, fills it with a poison pattern and checks the layout on deallocation.
use std::alloc::{GlobalAlloc, Layout};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

const PAGE: usize = 4096;
const LIMIT: usize = 1 << 28;
const HUGE_LIMIT: usize = 1 << 36;
static HUGE: AtomicBool = AtomicBool::new(false);
const SMALL_GUARD: usize = 1 << 20;

struct Guard;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static MODE: AtomicUsize = AtomicUsize::new(0);
static POISON: AtomicUsize = AtomicUsize::new(0xA5);
const TAB: usize = 1 << 16;
struct Ent {
    ptr: AtomicUsize,
    size: AtomicUsize,
    align: AtomicUsize,
    map: AtomicUsize,
    len: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const E0: Ent = Ent { ptr: AtomicUsize::new(0), size: AtomicUsize::new(0), align: AtomicUsize::new(0), map: AtomicUsize::new(0), len: AtomicUsize::new(0) };
static TABLE: [Ent; TAB] = [E0; TAB];
static USED: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

unsafe fn sys_alloc(l: Layout) -> *mut u8 {
    std::alloc::System.alloc(l)
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE.load(Relaxed) {
            return sys_alloc(l);
        }
        let size = l.size();
        if size > if HUGE.load(Relaxed) { HUGE_LIMIT } else { LIMIT } {
            return std::ptr::null_mut();
        }
        let i = if LIVE.load(Relaxed) > 4000 { TAB } else { USED.fetch_add(1, Relaxed) };
        if i >= TAB {
            // too many for one mapping each
            return sys_alloc(l);
        }
        let body = (size + l.align() + 2 * PAGE - 1) / PAGE * PAGE;
        let len = body + 2 * PAGE;
        let m = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if m == libc::MAP_FAILED {
            return std::ptr::null_mut();
        }
        let m = m as usize;
        libc::mprotect((m + PAGE) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE);
        let p = match MODE.load(Relaxed) {
            0 => (m + PAGE + body - size) & !(l.align() - 1),
            1 => m + PAGE,
            _ => {
                // one element of alignment away from the end: never over-aligned by luck
                let p = (m + PAGE + body - size) & !(l.align() - 1);
                if p & l.align() == 0 {
                    p - l.align()
                } else {
                    p
                }
            }
        };
        if size <= SMALL_GUARD {
            std::ptr::write_bytes(p as *mut u8, POISON.load(Relaxed) as u8, size);
        }
        LIVE.fetch_add(1, Relaxed);
        let e = &TABLE[i];
        e.ptr.store(p, Relaxed);
        e.size.store(size, Relaxed);
        e.align.store(l.align(), Relaxed);
        e.map.store(m, Relaxed);
        e.len.store(len, Relaxed);
        p as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        // larger ones are fresh pages
        if !p.is_null() && l.size() <= LIMIT {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = USED.load(Relaxed).min(TAB);
        let mut i = n;
        while i > 0 {
            i -= 1;
            let e = &TABLE[i];
            if e.ptr.load(Relaxed) == p as usize {
                if e.size.load(Relaxed) != l.size() || e.align.load(Relaxed) != l.align() {
                    die("L deallocation with a different layout");
                }
                e.ptr.store(0, Relaxed);
                LIVE.fetch_sub(1, Relaxed);
                // keep the address range reserved: later use faults
                libc::mmap(
                    e.map.load(Relaxed) as *mut _,
                    e.len.load(Relaxed),
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
                    -1,
                    0,
                );
                return;
            }
        }
        std::alloc::System.dealloc(p, l)
    }
}

#[global_allocator]
static G: Guard = Guard;

// ------------------------------------------------------------------ events (shared memory)
const EVCAP: usize = 1 << 26;
static EVBASE: AtomicUsize = AtomicUsize::new(0);

fn ev_bytes(b: &[u8]) {
    let base = EVBASE.load(Relaxed);
    unsafe {
        let lenp = base as *mut usize;
        let n = *lenp;
        if n + b.len() + 8 > EVCAP {
            return;
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), (base + 8 + n) as *mut u8, b.len());
        *lenp = n + b.len();
    }
}
fn ev(tag: u8, b: &[u8]) {
    ev_bytes(&[tag]);
    ev_bytes(b);
    ev_bytes(&[1]);
}
fn die(msg: &str) -> ! {
    ev(b'!', msg.as_bytes());
    unsafe { libc::_exit(77) }
}

// ------------------------------------------------------------------ tape
const MAXT: usize = 1 << 22;
static TP: AtomicUsize = AtomicUsize::new(0);
static TN: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static ALLOW: AtomicBool = AtomicBool::new(false);
static PANICS: AtomicU64 = AtomicU64::new(0);

fn next(w: u32) -> u64 {
    let i = POS.fetch_add(1, Relaxed);
    if i >= TN.load(Relaxed) {
        die("T tape exhausted");
    }
    unsafe {
        let p = (TP.load(Relaxed) as *const (u32, u64)).add(i);
        if (*p).0 != w {
            die("T tape width mismatch");
        }
        (*p).1
    }
}

#[no_mangle]
pub extern "C" fn nd_int(bits: u32) -> u64 {
    next(bits)
}
#[no_mangle]
pub unsafe extern "C" fn nd_fill(p: *mut u8, len: usize) {
    for i in 0..len {
        *p.add(i) = next(8) as u8;
    }
}
#[no_mangle]
pub extern "C" fn nd_assume_(c: bool) {
    if !c {
        ev(b'a', b"");
        unsafe { libc::_exit(76) }
    }
}
#[no_mangle]
pub unsafe extern "C" fn nd_check_(c: bool, p: *const u8, len: usize) {
    ev(if c { b'c' } else { b'f' }, std::slice::from_raw_parts(p, len));
}
#[no_mangle]
pub extern "C" fn nd_emit_(x: u64) {
    let mut b = [0u8; 16];
    let mut n = 16;
    let mut x = x;
    loop {
        n -= 1;
        b[n] = b"0123456789abcdef"[(x & 15) as usize];
        x >>= 4;
        if x == 0 {
            break;
        }
    }
    ev(b'e', &b[n..]);
}
#[no_mangle]
pub unsafe extern "C" fn nd_cover_(p: *const u8, len: usize) {
    ev(b'v', std::slice::from_raw_parts(p, len));
}
#[no_mangle]
pub extern "C" fn nd_allow_panic_(on: bool) {
    ALLOW.store(on, Relaxed);
}
#[no_mangle]
pub extern "C" fn nd_choose_(_n: u64) -> u64 {
    next(16)
}
/// Keys of hash maps: as in the engine, one of two.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, len: usize, _flags: u32) -> isize {
    let k = if ACTIVE.load(Relaxed) { next(16) } else { 0 };
    for i in 0..len {
        *p.add(i) = (i as u64 * 37 + 11 + k * 91) as u8;
    }
    len as isize
}
#[no_mangle]
pub extern "C" fn nd_concrete_(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn nd_is_symbolic_() -> u32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn nd_huge_(size: usize, align: usize, more: bool) -> *mut u8 {
    HUGE.store(true, Relaxed);
    let p = G.alloc_zeroed(Layout::from_size_align(size, align).unwrap());
    HUGE.store(more, Relaxed);
    p
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|x| x == k).and_then(|i| args.get(i + 1)).cloned();
    MODE.store(get("--mode").and_then(|x| x.parse().ok()).unwrap_or(0), Relaxed);
    POISON.store(get("--poison").and_then(|x| x.parse().ok()).unwrap_or(0xA5), Relaxed);
    let verbose = args.iter().any(|x| x == "-v");
    if args.iter().any(|x| x == "--list") {
        for t in harness::tables() {
            for (n, _) in t {
                println!("{}", n);
            }
        }
        return;
    }
    let base = unsafe {
        libc::mmap(std::ptr::null_mut(), EVCAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    };
    assert!(base != libc::MAP_FAILED);
    EVBASE.store(base as usize, Relaxed);
    let mut tape: Vec<(u32, u64)> = Vec::with_capacity(1024);
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() < 3 {
            continue;
        }
        let f = harness::tables().into_iter().flatten().find(|(n, _)| *n == p[0]);
        let f = match f {
            Some(x) => x.1,
            None => {
                println!("noentry\t");
                continue;
            }
        };
        let mut a = [0u64; 4];
        for (i, x) in p[1].split(',').filter(|x| !x.is_empty()).enumerate() {
            a[i] = x.parse().unwrap();
        }
        tape.clear();
        for t in p[2].split(' ').filter(|x| !x.is_empty()) {
            let (w, x) = t.split_once(':').unwrap();
            tape.push((w.parse().unwrap(), u64::from_str_radix(x, 16).unwrap()));
        }
        assert!(tape.len() < MAXT);
        unsafe { *(base as *mut usize) = 0 };
        out.lock().flush().unwrap();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                libc::alarm(60);
                let gib: u64 = if p[0].starts_with("h_huge_") { 64 } else { 3 };
                let rl = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &rl);
            }
            std::panic::set_hook(Box::new(move |info| {
                ACTIVE.store(false, Relaxed);
                PANICS.fetch_add(1, Relaxed);
                let s = format!("{}", info).replace('\n', " ");
                if verbose {
                    eprintln!("{}", s);
                }
                ev(if ALLOW.load(Relaxed) { b'p' } else { b'P' }, s.as_bytes());
                unsafe { libc::_exit(78) }
            }));
            TP.store(tape.as_ptr() as usize, Relaxed);
            TN.store(tape.len(), Relaxed);
            POS.store(0, Relaxed);
            ACTIVE.store(true, Relaxed);
            f(a[0], a[1], a[2], a[3]);
            ACTIVE.store(false, Relaxed);
            if POS.load(Relaxed) != tape.len() {
                ev(b'!', b"T tape not used up");
            }
            unsafe { libc::_exit(0) }
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let n = unsafe { *(base as *const usize) };
        let evs = unsafe { std::slice::from_raw_parts((base as usize + 8) as *const u8, n) };
        let status = if libc::WIFSIGNALED(st) {
            format!("signal:{}", libc::WTERMSIG(st))
        } else {
            match libc::WEXITSTATUS(st) {
                0 => "ok".to_string(),
                76 => "assume".to_string(),
                77 => "died".to_string(),
                78 => "panic".to_string(),
                x => format!("exit:{}", x),
            }
        };
        let mut o = out.lock();
        o.write_all(status.as_bytes()).unwrap();
        o.write_all(b"\t").unwrap();
        let e = if n > 0 { &evs[..n - 1] } else { evs };
        o.write_all(e).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
