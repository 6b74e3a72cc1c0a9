//! Two controlled schedulers for real threads running library code.
//!
//! 1. Operation level (`run_ops`): at every element operation / inner call (`hk::point`, mode 3) the running thread may
//!    be preempted; a schedule is a list of segments (thread, number of points), enumerated by the caller.
//! 2. Instruction level (`step`): thread A runs with the CPU's trap flag set; at chosen instruction boundaries another
//!    thread executes a complete task.
//!
//! A thread that blocks (on a lock a preempted thread holds) loses control; the others go on. That only weakens the
//! schedule, never the verdict.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
const FUTEX: i64 = 202;
fn futex_wait(a: &AtomicU32, v: u32, ms: u64) {
    let ts = [(ms / 1000) as i64, (ms % 1000) as i64 * 1_000_000];
    unsafe {
        syscall(FUTEX, a as *const AtomicU32, 128i32, v, ts.as_ptr(), 0usize, 0u32);
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        syscall(FUTEX, a as *const AtomicU32, 129i32, i32::MAX, 0usize, 0usize, 0u32);
    }
}
fn gettid() -> i32 {
    unsafe { syscall(186) as i32 }
}
/// 'S' asleep in a system call, 'R' running, ...
fn thread_state(tid: i32) -> char {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().and_then(|r| r.trim().chars().next()).unwrap_or('?')
}

/// the same without allocating (for use in a signal handler)
fn asleep_raw(tid: i32) -> bool {
    let mut path = [0u8; 48];
    let mut k = 0;
    for &b in b"/proc/self/task/" {
        path[k] = b;
        k += 1;
    }
    let mut dg = [0u8; 12];
    let (mut n, mut t) = (0, tid.max(0));
    loop {
        dg[n] = b'0' + (t % 10) as u8;
        n += 1;
        t /= 10;
        if t == 0 {
            break;
        }
    }
    while n > 0 {
        n -= 1;
        path[k] = dg[n];
        k += 1;
    }
    for &b in b"/stat\0" {
        path[k] = b;
        k += 1;
    }
    let mut buf = [0u8; 256];
    let got = unsafe {
        let fd = syscall(2, path.as_ptr(), 0usize, 0usize);
        if fd < 0 {
            return false;
        }
        let r = syscall(0, fd, buf.as_mut_ptr(), buf.len());
        syscall(3, fd);
        r
    };
    let mut i = got.max(0) as usize;
    while i > 0 {
        i -= 1;
        if buf[i] == b')' {
            return i + 2 < buf.len() && buf[i + 2] == b'S';
        }
    }
    false
}

// ---------------------------------------------------------------- operation level
pub const MAXT: usize = 34;
const NOBODY: u32 = 99;
const ZI: AtomicI32 = AtomicI32::new(0);
const ZB: AtomicBool = AtomicBool::new(false);
const Z64: AtomicU64 = AtomicU64::new(0);
/// whose turn it is
static CUR: AtomicU32 = AtomicU32::new(NOBODY);
static LEFT: AtomicU64 = AtomicU64::new(0);
static SEG: AtomicUsize = AtomicUsize::new(0);
static NT: AtomicUsize = AtomicUsize::new(0);
static FIN: [AtomicBool; MAXT] = [ZB; MAXT];
static BLOCKED: [AtomicBool; MAXT] = [ZB; MAXT];
static POINTS: [AtomicU64; MAXT] = [Z64; MAXT];
static TID: [AtomicI32; MAXT] = [ZI; MAXT];
static ACTIVITY: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
static LOCK: std::sync::Mutex<Vec<(usize, u64)>> = std::sync::Mutex::new(Vec::new());

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// choose the next thread (called with the segment lock held)
fn advance(segs: &[(usize, u64)]) {
    let n = NT.load(SeqCst);
    let free = |t: usize| !FIN[t].load(SeqCst) && !BLOCKED[t].load(SeqCst);
    loop {
        let i = SEG.load(SeqCst);
        if i < segs.len() {
            SEG.store(i + 1, SeqCst);
            if free(segs[i].0) && segs[i].1 > 0 {
                LEFT.store(segs[i].1, SeqCst);
                CUR.store(segs[i].0 as u32, SeqCst);
                break;
            }
            continue;
        }
        LEFT.store(u64::MAX, SeqCst);
        CUR.store((0..n).find(|&t| free(t)).map_or(NOBODY, |t| t as u32), SeqCst);
        break;
    }
    futex_wake(&CUR);
}
fn wait_turn(me: usize) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me as u32 {
            return;
        }
        if BLOCKED[me].load(SeqCst) {
            // taken for blocked while it was only waiting for its turn
            let l = LOCK.lock().unwrap();
            BLOCKED[me].store(false, SeqCst);
            if CUR.load(SeqCst) == NOBODY {
                advance(&l);
            }
            continue;
        }
        futex_wait(&CUR, c, 20);
    }
}
/// a scheduling point of the calling thread
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    ACTIVITY.fetch_add(1, SeqCst);
    POINTS[me].fetch_add(1, SeqCst);
    if CUR.load(SeqCst) != me as u32 || BLOCKED[me].load(SeqCst) {
        // it was considered blocked and another thread was let run
        {
            let l = LOCK.lock().unwrap();
            BLOCKED[me].store(false, SeqCst);
            if CUR.load(SeqCst) == NOBODY {
                advance(&l);
            }
        }
        wait_turn(me);
        return;
    }
    if LEFT.load(SeqCst) == u64::MAX {
        return;
    }
    if LEFT.fetch_sub(1, SeqCst) == 1 {
        let l = LOCK.lock().unwrap();
        advance(&l);
        drop(l);
        wait_turn(me);
    }
}
pub enum End {
    Done,
    /// threads that did not finish
    Stuck(Vec<usize>),
}
/// Run the tasks as real threads under the schedule. Returns the number of points each passed.
pub fn run_ops<'a>(tasks: Vec<Box<dyn FnOnce() + Send + 'a>>, segs: &[(usize, u64)]) -> (End, [u64; MAXT], u64) {
    let n = tasks.len();
    NT.store(n, SeqCst);
    for t in 0..MAXT {
        FIN[t].store(t >= n, SeqCst);
        BLOCKED[t].store(false, SeqCst);
        POINTS[t].store(0, SeqCst);
        TID[t].store(0, SeqCst);
    }
    CUR.store(NOBODY, SeqCst);
    SEG.store(0, SeqCst);
    DONE.store(0, SeqCst);
    *LOCK.lock().unwrap() = segs.to_vec();
    let mut handles = Vec::new();
    for (t, f) in tasks.into_iter().enumerate() {
        // 'a outlives the call: every thread is joined below (a stuck one ends the process)
        let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
        handles.push(std::thread::spawn(move || {
            ME.with(|m| m.set(t));
            TID[t].store(gettid(), SeqCst);
            wait_turn(t);
            f();
            ME.with(|m| m.set(usize::MAX));
            let l = LOCK.lock().unwrap();
            FIN[t].store(true, SeqCst);
            BLOCKED[t].store(false, SeqCst);
            ACTIVITY.fetch_add(1, SeqCst);
            DONE.fetch_add(1, SeqCst);
            let c = CUR.load(SeqCst);
            if c == t as u32 || c == NOBODY {
                advance(&l);
            }
            drop(l);
            futex_wake(&DONE);
        }));
    }
    {
        let l = LOCK.lock().unwrap();
        advance(&l);
    }
    let mut last = (ACTIVITY.load(SeqCst), Instant::now());
    let mut forced = 0;
    loop {
        let d = DONE.load(SeqCst);
        if d as usize == n {
            break;
        }
        futex_wait(&DONE, d, 2);
        let a = ACTIVITY.load(SeqCst);
        if a != last.0 {
            last = (a, Instant::now());
            continue;
        }
        let idle = last.1.elapsed();
        if idle < Duration::from_millis(2) {
            continue;
        }
        let l = LOCK.lock().unwrap();
        let c = CUR.load(SeqCst);
        if (c as usize) < n && ACTIVITY.load(SeqCst) == a {
            let asleep = thread_state(TID[c as usize].load(SeqCst)) == 'S';
            if asleep || idle > Duration::from_millis(100) {
                BLOCKED[c as usize].store(true, SeqCst);
                forced += 1;
                advance(&l);
                last.1 = Instant::now();
            }
        } else if c == NOBODY {
            // everybody left is blocked: a deadlock unless somebody moves
            drop(l);
            if idle > Duration::from_secs(20) {
                let stuck = (0..n).filter(|&t| !FIN[t].load(SeqCst)).collect();
                std::mem::forget(handles);
                return (End::Stuck(stuck), [0; MAXT], forced);
            }
            continue;
        }
    }
    for h in handles {
        h.join().expect("HARNESS: thread");
    }
    let mut p = [0; MAXT];
    for t in 0..n {
        p[t] = POINTS[t].load(SeqCst);
    }
    (End::Done, p, forced)
}

// ---------------------------------------------------------------- instruction level
#[repr(C)]
struct SigAction {
    f: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_ON: AtomicBool = AtomicBool::new(false);
/// boundary at which the other thread runs; u64::MAX = at every `STRIDE`-th boundary
static AT: AtomicU64 = AtomicU64::new(u64::MAX);
static STRIDE: AtomicU64 = AtomicU64::new(1);
static OFFSET: AtomicU64 = AtomicU64::new(0);
static REQ: AtomicU32 = AtomicU32::new(0);
static ACK: AtomicU32 = AtomicU32::new(0);
static QUIT: AtomicBool = AtomicBool::new(false);
static READY: AtomicU32 = AtomicU32::new(0);
static WAITED: AtomicU64 = AtomicU64::new(0);
static OTHER: AtomicI32 = AtomicI32::new(0);

fn run_other() {
    let r = REQ.load(SeqCst);
    if ACK.load(SeqCst) != r {
        // still blocked in an earlier request
        return;
    }
    REQ.store(r + 1, SeqCst);
    futex_wake(&REQ);
    for _ in 0..200 {
        if ACK.load(SeqCst) == r + 1 {
            return;
        }
        std::hint::spin_loop();
    }
    // it is still running, or blocked on something the interrupted thread holds
    let (mut tries, mut asleep) = (0, 0);
    loop {
        let a = ACK.load(SeqCst);
        if a == r + 1 {
            return;
        }
        futex_wait(&ACK, a, 1);
        if ACK.load(SeqCst) != a {
            continue;
        }
        tries += 1;
        asleep = if asleep_raw(OTHER.load(SeqCst)) { asleep + 1 } else { 0 };
        if asleep >= 2 || tries > 60 {
            WAITED.fetch_add(1, SeqCst);
            return;
        }
    }
}
unsafe extern "C" fn on_trap(_s: i32, _i: *mut u8, uc: *mut u8) {
    // uc_flags, uc_link, uc_stack (3 words) = 5 words, then gregs; REG_EFL = 17
    let efl = (uc as *mut u64).add(5 + 17);
    if !STEP_ON.load(SeqCst) {
        *efl &= !0x100;
        return;
    }
    let n = STEPS.fetch_add(1, SeqCst);
    let at = AT.load(SeqCst);
    if at == u64::MAX {
        if n % STRIDE.load(SeqCst) == OFFSET.load(SeqCst) {
            run_other();
        }
    } else if n == at {
        run_other();
        *efl &= !0x100;
    }
}
/// install the handler (once per process)
pub fn install() {
    unsafe {
        let a = SigAction { f: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(5, &a, std::ptr::null_mut()), 0, "HARNESS: sigaction");
    }
}
#[inline(always)]
fn trap_flag_on() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[inline(always)]
fn trap_flag_off() {
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}
/// Run `a` on this thread, stopping at instruction boundaries, `b` as a complete task on another thread each time.
/// `at` = the boundary (None: at every boundary that is `offset` modulo `stride`). Returns (a's value, boundaries passed, b's runs, whether b got stuck).
pub fn step<A>(a: impl FnOnce() -> A, b: &mut (dyn FnMut() + Send), at: Option<u64>, stride: u64, offset: u64) -> (A, u64, u64, bool) {
    STEPS.store(0, SeqCst);
    REQ.store(0, SeqCst);
    ACK.store(0, SeqCst);
    QUIT.store(false, SeqCst);
    WAITED.store(0, SeqCst);
    AT.store(at.unwrap_or(u64::MAX), SeqCst);
    STRIDE.store(stride.max(1), SeqCst);
    OFFSET.store(offset % stride.max(1), SeqCst);
    READY.store(0, SeqCst);
    // joined below, unless it is stuck (then the process ends soon)
    let b: &'static mut (dyn FnMut() + Send) = unsafe { std::mem::transmute(b) };
    let h = std::thread::spawn(move || {
        let mut done = 0;
        drop(Box::new([0u8; 64])); // the allocator's per-thread state exists
        OTHER.store(gettid(), SeqCst);
        READY.store(1, SeqCst);
        futex_wake(&READY);
        loop {
            let r = REQ.load(SeqCst);
            if r != done {
                if QUIT.load(SeqCst) {
                    return;
                }
                b();
                done = r;
                ACK.store(r, SeqCst);
                futex_wake(&ACK);
                continue;
            }
            let mut spun = 0;
            while spun < 300 && REQ.load(SeqCst) == done {
                std::hint::spin_loop();
                spun += 1;
            }
            futex_wait(&REQ, done, 1000);
        }
    });
    while READY.load(SeqCst) == 0 {
        futex_wait(&READY, 0, 10);
    }
    STEP_ON.store(true, SeqCst);
    trap_flag_on();
    let r = a();
    trap_flag_off();
    STEP_ON.store(false, SeqCst);
    // let an unfinished run of b end
    let t0 = Instant::now();
    let mut stuck = false;
    while ACK.load(SeqCst) != REQ.load(SeqCst) {
        futex_wait(&ACK, ACK.load(SeqCst), 5);
        if t0.elapsed() > Duration::from_secs(20) {
            stuck = true;
            break;
        }
    }
    let runs = REQ.load(SeqCst) as u64;
    if stuck {
        std::mem::forget(h);
    } else {
        QUIT.store(true, SeqCst);
        REQ.fetch_add(1, SeqCst);
        futex_wake(&REQ);
        h.join().expect("HARNESS: thread");
    }
    (r, STEPS.load(SeqCst), runs, stuck)
}
