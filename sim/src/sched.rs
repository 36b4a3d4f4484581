//! Threads under a scheduler the simulator owns. Real threads, exactly one of which runs at a time; the
//! choice tape decides which, and where the running one is preempted. A running thread can lose the
//! processor
//!   * before any basic block of the library (the compiler inserts the call, see bin/build.py),
//!   * before any allocation,
//!   * when it waits for a lock, condition variable, channel, `Once` or `park`: the futex system call,
//!     through which the standard library does all of that, is intercepted here and simulated,
//!   * where the harness calls `here()`, in line sources and replacers.
//! The scheduler itself uses neither locks nor allocation outside the tape.

use crate::tape::{mix, Src};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAXT: usize = 12;

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
fn sleep_until(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { raw(SYS_FUTEX, std::ptr::from_ref(w) as i64, 128, 0, 0, 0, 0) };
    }
}
fn wake_up(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw(SYS_FUTEX, std::ptr::from_ref(w) as i64, 129, 1, 0, 0, 0) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    /// waiting on a futex word; true: with a timeout
    Blocked(usize, bool),
    Done,
}
struct World {
    st: [St; MAXT],
    timed_out: [bool; MAXT],
    n: usize,
    src: *mut Src,
    scale: u64,
    budget: u32,
    switches: u64,
    preempt: u64,
    blocks: u64,
    trace: u64,
    log: Vec<String>,
    want_log: bool,
    deadlock: bool,
    points: u64,
}
static mut WORLD: World = World {
    st: [St::Done; MAXT],
    timed_out: [false; MAXT],
    n: 0,
    src: std::ptr::null_mut(),
    scale: 1,
    budget: 0,
    switches: 0,
    preempt: 0,
    blocks: 0,
    trace: 0,
    log: Vec::new(),
    want_log: false,
    deadlock: false,
    points: 0,
};
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static CTL: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static SET: Cell<u64> = const { Cell::new(0) };
    static RAND: Cell<u64> = const { Cell::new(0x1234_5678) };
}

#[allow(static_mut_refs)]
unsafe fn world() -> &'static mut World {
    &mut WORLD
}

/// A preemption point of the running thread.
pub fn point() {
    let v = COUNTDOWN.with(Cell::get);
    if v == 0 {
        return;
    }
    COUNTDOWN.with(|c| c.set(v - 1));
    if v == 1 {
        preempt();
    }
}
pub fn alloc_point() {
    point();
}
/// A preemption point in the harness (line sources, replacers).
pub fn here() {
    if ME.with(Cell::get) != usize::MAX && COUNTDOWN.with(Cell::get) != 0 {
        unsafe {
            let w = world();
            if w.budget > 0 && (*w.src).chance(1, 3) {
                preempt();
            }
        }
    }
}

const FORCED: u64 = 300_000;
fn arm() {
    unsafe {
        let w = world();
        if w.budget == 0 {
            COUNTDOWN.with(|c| c.set(FORCED));
            return;
        }
        w.budget -= 1;
        let k = (*w.src).choose(w.scale * 2);
        let v = if k == 0 { FORCED } else { k };
        SET.with(|c| c.set(v));
        COUNTDOWN.with(|c| c.set(v));
    }
}

#[inline(never)]
fn preempt() {
    let me = ME.with(Cell::get);
    if me == usize::MAX || std::thread::panicking() {
        COUNTDOWN.with(|c| c.set(0));
        return;
    }
    COUNTDOWN.with(|c| c.set(0));
    unsafe {
        let w = world();
        w.points += SET.with(Cell::get);
        let next = pick(w, me, w.budget == 0);
        if let Some(next) = next {
            if next != me {
                w.preempt += 1;
                hand_over(w, me, next, "preempted");
            }
        }
    }
    arm();
}

/// Which thread runs next; `me` first, when it can.
unsafe fn pick(w: &mut World, me: usize, forced: bool) -> Option<usize> {
    let mut list = [0usize; MAXT];
    let mut n = 0;
    for i in 0..w.n {
        let j = (me + i) % w.n;
        if w.st[j] == St::Ready {
            list[n] = j;
            n += 1;
        }
    }
    if n == 0 {
        return None;
    }
    if forced {
        return Some(if list[0] == me && n > 1 { list[1] } else { list[0] });
    }
    Some(list[(*w.src).n(n)])
}

unsafe fn hand_over(w: &mut World, me: usize, next: usize, why: &str) {
    w.switches += 1;
    w.trace = mix(w.trace, (me * 64 + next) as u64 ^ (w.points << 12));
    if w.want_log && w.log.len() < 400 {
        w.log.push(format!("thread {me} {why} after {} points; thread {next} runs", w.points));
    }
    wake_up(&GO[next]);
    sleep_until(&GO[me]);
}

/// The running thread cannot continue until another wakes it.
unsafe fn block(addr: usize, timed: bool) -> bool {
    let me = ME.with(Cell::get);
    let saved = COUNTDOWN.with(|c| c.replace(0));
    let w = world();
    w.blocks += 1;
    w.st[me] = St::Blocked(addr, timed);
    w.timed_out[me] = false;
    match pick(w, me, w.budget == 0) {
        Some(next) => hand_over(w, me, next, "waits for a lock"),
        None => match (0..w.n).find(|i| matches!(w.st[*i], St::Blocked(_, true))) {
            Some(i) => {
                // nothing can run: time passes until the first timeout
                w.st[i] = St::Ready;
                w.timed_out[i] = true;
                if i != me {
                    hand_over(w, me, i, "waits for a timeout");
                }
            }
            None => {
                w.deadlock = true;
                wake_up(&CTL);
                loop {
                    sleep_until(&GO[me]);
                }
            }
        },
    }
    COUNTDOWN.with(|c| c.set(saved.max(1)));
    w.timed_out[me]
}

unsafe fn finish() {
    COUNTDOWN.with(|c| c.set(0));
    let me = ME.with(|c| c.replace(usize::MAX));
    let w = world();
    w.st[me] = St::Done;
    w.trace = mix(w.trace, me as u64 + 7000);
    match pick(w, me, w.budget == 0) {
        Some(next) => {
            if w.want_log && w.log.len() < 400 {
                w.log.push(format!("thread {me} ends; thread {next} runs"));
            }
            wake_up(&GO[next]);
        }
        None => {
            if let Some(i) = (0..w.n).find(|i| matches!(w.st[*i], St::Blocked(_, true))) {
                w.st[i] = St::Ready;
                w.timed_out[i] = true;
                wake_up(&GO[i]);
                return;
            }
            w.deadlock = (0..w.n).any(|i| w.st[i] != St::Done);
            wake_up(&CTL);
        }
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// The standard library reaches futexes through `syscall(2)`; those of simulated threads are simulated.
///
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && ME.with(Cell::get) != usize::MAX {
        match b & 0x7f {
            0 | 9 => {
                let word = a as *const AtomicU32;
                if (*word).load(SeqCst) != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                if block(a as usize, d != 0) {
                    *__errno_location() = 110;
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let w = world();
                let mut left = c;
                let mut woken = 0;
                for i in 0..w.n {
                    if left > 0 && matches!(w.st[i], St::Blocked(x, _) if x == a as usize) {
                        w.st[i] = St::Ready;
                        left -= 1;
                        woken += 1;
                    }
                }
                return woken;
            }
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if ME.with(Cell::get) == usize::MAX {
        unsafe { raw(24, 0, 0, 0, 0, 0, 0) };
    } else {
        preempt();
    }
    0
}

/// Random bytes for hash seeds: a function of the run and thread, nothing else.
///
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let v = RAND.with(|c| {
            c.set(mix(c.get(), 77));
            c.get()
        });
        *buf.add(i) = v as u8;
    }
    n as isize
}
pub fn set_rand(seed: u64) {
    RAND.with(|c| c.set(seed));
}

// Coverage of the instrumented library: one guard per basic block.
pub const COVN: usize = 1 << 16;
static mut COV: [u8; COVN] = [0; COVN];
static mut GUARDS: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < COVN {
        COV[i] = 1;
    }
    STEPS.with(|c| {
        let n = c.get().wrapping_add(1);
        c.set(n);
        if n == STEP_LIMIT.with(Cell::get) {
            out_of_steps();
        }
    });
    point();
}
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STEP_LIMIT: Cell<u64> = const { Cell::new(0) };
}
#[cold]
fn out_of_steps() {
    // the code under test cannot be unwound from here: end the process, with a signal the driver knows
    extern "C" {
        fn raise(sig: i32) -> i32;
    }
    unsafe { raise(24) };
}
/// This thread may execute this many basic blocks of the library from now on (0: any number).
pub fn budget_steps(n: u64) {
    STEPS.with(|c| c.set(0));
    STEP_LIMIT.with(|c| c.set(n));
}
pub fn steps_used() -> u64 {
    STEPS.with(Cell::get)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
#[allow(static_mut_refs)]
pub fn coverage() -> Vec<u8> {
    unsafe { COV[..=(GUARDS as usize).min(COVN - 1)].to_vec() }
}

#[derive(Default, Debug)]
pub struct Report {
    pub switches: u64,
    pub preempt: u64,
    pub blocks: u64,
    pub trace: u64,
    pub deadlock: bool,
    pub log: Vec<String>,
}

/// Run the tasks as threads under the scheduler until all have ended (or none can run).
pub fn run(src: &mut Src, tasks: Vec<Box<dyn FnOnce() + Send>>, want_log: bool) -> Report {
    assert!(tasks.len() <= MAXT);
    let n = tasks.len();
    let scale = *src.pick(&[4, 30, 300, 3000]);
    let budget = src.range(0, 120) as u32;
    let seed = src.word();
    let mut handles = Vec::new();
    unsafe {
        let w = world();
        w.n = n;
        w.st = [St::Done; MAXT];
        w.st[..n].fill(St::Ready);
        w.timed_out = [false; MAXT];
        w.scale = scale;
        w.budget = budget;
        (w.switches, w.preempt, w.blocks, w.trace, w.points, w.deadlock) = (0, 0, 0, 0, 0, false);
        w.log = Vec::with_capacity(400);
        w.want_log = want_log;
        for g in &GO {
            g.store(0, SeqCst);
        }
        CTL.store(0, SeqCst);
        for (i, t) in tasks.into_iter().enumerate() {
            handles.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        set_rand(mix(seed, i as u64));
                        sleep_until(&GO[i]);
                        ME.with(|c| c.set(i));
                        arm();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                        finish();
                        drop(r);
                    })
                    .expect("spawn"),
            );
        }
        w.src = src;
        let first = (*w.src).n(n);
        wake_up(&GO[first]);
        sleep_until(&CTL);
        w.src = std::ptr::null_mut();
        let rep = Report {
            switches: w.switches,
            preempt: w.preempt,
            blocks: w.blocks,
            trace: w.trace,
            deadlock: w.deadlock,
            log: std::mem::take(&mut w.log),
        };
        if !rep.deadlock {
            for h in handles {
                let _ = h.join();
            }
        }
        rep
    }
}
