//! Runs harnesses natively on the inputs in a script:
//!     case <harness> / choices a b c / input <hex> ...
//! One line of output per case.
use std::cell::RefCell;
use std::io::Write;

/// The system's allocator, counting.
struct Counting;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Default)]
struct S {
    choices: Vec<u64>,
    ci: usize,
    inputs: Vec<Vec<u8>>,
    ii: usize,
    outs: String,
    fail: Option<String>,
    tier: u64,
    stop: bool,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));

fn tag(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
struct Assumption;

#[no_mangle]
extern "C-unwind" fn verif_any(p: *mut u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.ii;
        s.ii += 1;
        for k in 0..n {
            let v = s.inputs.get(i).and_then(|b| b.get(k)).copied().unwrap_or(0);
            unsafe { *p.add(k) = v };
        }
    })
}
#[no_mangle]
extern "C-unwind" fn verif_any_u64() -> u64 {
    let mut b = [0u8; 8];
    verif_any(b.as_mut_ptr(), 8);
    u64::from_le_bytes(b)
}
#[no_mangle]
extern "C-unwind" fn verif_choose(lo: u64, hi: u64) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.ci;
        s.ci += 1;
        let v = s.choices.get(i).copied().unwrap_or(lo);
        if v < lo || v > hi {
            lo + v % (hi - lo + 1)
        } else {
            v
        }
    })
}
#[no_mangle]
extern "C-unwind" fn verif_tier() -> u64 {
    ST.with(|s| s.borrow().tier)
}
#[no_mangle]
extern "C-unwind" fn verif_assume(c: u8) {
    if c == 0 {
        ST.with(|s| s.borrow_mut().stop = true);
        std::panic::panic_any(Assumption);
    }
}
#[no_mangle]
extern "C-unwind" fn verif_cover(_t: *const u8, _n: usize) {}
#[no_mangle]
extern "C-unwind" fn verif_eq(t: *const u8, n: usize, a: *const u8, b: *const u8, len: usize) {
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, len), std::slice::from_raw_parts(b, len)) };
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for x in a.iter().chain(b.iter()) {
            s.outs.push_str(&format!("{:02x}", x));
        }
        if a != b && s.fail.is_none() {
            s.fail = Some(format!("mismatch {}", tag(t, n)));
        }
    })
}
#[no_mangle]
extern "C-unwind" fn verif_check(t: *const u8, n: usize, c: u8) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if c == 0 && s.fail.is_none() {
            s.fail = Some(format!("false {}", tag(t, n)));
        }
    })
}
#[no_mangle]
extern "C-unwind" fn verif_deep(_t: *const u8, _n: usize, _c: u8) {
    // natively the work is simply started: a refusal is judged by the checks
    // that follow, an acceptance by them or by the run not ending
}

thread_local!(static T0: RefCell<Option<std::time::Instant>> = RefCell::new(None));
#[no_mangle]
extern "C-unwind" fn verif_fuel(n: u64) {
    if n != 0 {
        T0.with(|t| *t.borrow_mut() = Some(std::time::Instant::now()));
    }
}
#[no_mangle]
extern "C-unwind" fn verif_work() -> u64 {
    T0.with(|t| t.borrow().map_or(0, |x| x.elapsed().as_nanos() as u64))
}
#[no_mangle]
extern "C-unwind" fn verif_live() -> u64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed) as u64
}
#[no_mangle]
extern "C-unwind" fn verif_skip(_w: u64, _n: u64) {}
#[no_mangle]
extern "C-unwind" fn verif_quiet(_on: u64) {}
#[no_mangle]
extern "C-unwind" fn verif_snap(_o: *const u8, _size: usize, _r: *const u8, _n: usize) {}
#[no_mangle]
extern "C-unwind" fn verif_leap_closed(_o: *const u8, _s: usize, _r: *const u8, _n: usize, _m: u64) -> u8 {
    1
}
/// The object after the steps that were leapt over, as the solver's
/// counterexample has it: written over the object and what it points to.
#[no_mangle]
extern "C-unwind" fn verif_leap(o: *mut u8, size: usize, _r: *const u8, _n: usize, _m: u64, _w: u64) -> u8 {
    let d = ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.ii;
        s.ii += 1;
        s.inputs.get(i).cloned().unwrap_or_default()
    });
    let u = |at: usize| d.get(at..at + 4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize);
    let n = match u(0) {
        Some(n) if n > 0 && n < 64 => n,
        _ => return 0,
    };
    // check the layout first
    let mut at = 4;
    for r in 0..n {
        let (p, l) = match (u(at), u(at + 8)) {
            (Some(p), Some(l)) => (p, l),
            _ => return 0,
        };
        at += 12 + 2 * l;
        if at > d.len() || (r == 0 && (l != size || p != u32::MAX as usize)) || (r > 0 && p >= r) {
            return 0;
        }
    }
    if at != d.len() {
        return 0;
    }
    let mut base: Vec<*mut u8> = vec![];
    let mut at = 4;
    for _ in 0..n {
        let (p, off, l) = (u(at).unwrap(), u(at + 4).unwrap(), u(at + 8).unwrap());
        at += 12;
        let b = if p == u32::MAX as usize { o } else { unsafe { *(base[p].add(off) as *const *mut u8) } };
        for i in 0..l {
            if d[at + l + i] != 0 {
                unsafe { *b.add(i) = d[at + i] };
            }
        }
        base.push(b);
        at += 2 * l;
    }
    1
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, ...) -> i32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).expect("script");
    let tier = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Assumption>() {
            eprintln!("{}", i);
        }
    }));
    let mut cases: Vec<(String, Vec<u64>, Vec<Vec<u8>>)> = vec![];
    for l in script.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("case") => cases.push((w.next().unwrap_or("").to_string(), vec![], vec![])),
            Some("choices") => cases.last_mut().unwrap().1 = w.map(|x| x.parse().unwrap()).collect(),
            Some("input") => {
                let h = w.next().unwrap_or("");
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                cases.last_mut().unwrap().2.push(b);
            }
            _ => {}
        }
    }
    // a process for every case: what one leaves behind no other sees
    for (h, c, i) in cases {
        let _ = std::io::stdout().flush();
        let pid = unsafe { fork() };
        if pid > 0 {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                println!(" FAIL process ended with status {}", st);
            }
            continue;
        }
        if pid == 0 {
            unsafe { prctl(1, 9u64) };
        }
        let f = match vharness::HARNESSES.iter().find(|x| x.0 == h) {
            Some(f) => f.1,
            None => {
                println!("error no harness {}", h);
                std::process::exit(0);
            }
        };
        ST.with(|s| *s.borrow_mut() = S { choices: c, inputs: i, tier, ..S::default() });
        let r = std::panic::catch_unwind(|| f());
        ST.with(|s| {
            let s = s.borrow();
            let end = match (&s.fail, r) {
                (Some(f), _) => format!("FAIL {}", f),
                (None, Ok(())) => "ok".into(),
                (None, Err(_)) if s.stop => "assumption".into(),
                (None, Err(_)) => "FAIL panic".into(),
            };
            println!("{} {}", s.outs, end);
        });
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
}
