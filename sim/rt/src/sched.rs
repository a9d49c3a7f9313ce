//! The scheduler and the seams. Real threads are parked and released one at a
//! time: exactly one simulated thread holds the baton, and it gives it up only
//! here, at a moment drawn from the environment stream.
use crate::shared::*;
use crate::sys;
use core::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 48;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Free,
    Run,
    Futex(usize),
    Join(usize),
    Sleep,
    Never,
    Done,
}

struct Th {
    st: St,
    deadline: i64, // monotonic, i64::MAX = none
    timed_out: bool,
    go: AtomicU32,
    handle: libc::pthread_t,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// log2 of the largest scheduling quantum in steps; 0 = no pre-emption
    pub preempt: u32,
    /// simulated nanoseconds that pass per seam event
    pub tick_ns: i64,
    /// 1 in `jump` clock-relevant seam events steps the real-time clock; 0 = never
    pub jump: u64,
    /// kill the process when it has made this many steps
    pub crash_at: u64,
    pub budget: u64,
    pub spurious: bool,
    /// threads advance evenly: hardly any long turns
    pub even: bool,
    pub rand_faults: bool,
    pub mem_cap: usize,
    /// bytes of stack every thread has
    pub stack: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { preempt: 0, tick_ns: 1000, jump: 0, crash_at: u64::MAX, budget: 8_000_000_000, spurious: false, even: false, rand_faults: false, mem_cap: 1 << 30, stack: STACK }
    }
}

#[derive(Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

static mut ACTIVE: bool = false;
static mut IN_RT: u32 = 0;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut NEXT_SWITCH: u64 = u64::MAX;
static mut CUR: usize = 0;
static mut NTH: usize = 0;
static mut TH: [Th; MAXT] = [const { Th { st: St::Free, deadline: i64::MAX, timed_out: false, go: AtomicU32::new(0), handle: 0 } }; MAXT];
static mut CFG: Cfg = Cfg { preempt: 0, tick_ns: 0, jump: 0, crash_at: u64::MAX, budget: u64::MAX, spurious: false, even: false, rand_faults: false, mem_cap: 0, stack: STACK };
static MAIN_GO: AtomicU32 = AtomicU32::new(0);
static mut KEY: libc::pthread_key_t = 0;
static mut BASE_LIVE: usize = 0;

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

// ---- clock history of the incarnation -------------------------------------------
const SEGS: usize = 4096;
static mut SEG: [(i64, i64); SEGS] = [(0, 0); SEGS];
static mut NSEG: usize = 0;

/// The start of an interval of the clock's history.
#[derive(Clone, Copy, Debug)]
pub struct Mark(usize, i64);

pub fn clk_mark() -> Mark {
    unsafe { Mark(NSEG - 1, sh().real_ns) }
}
fn segs(m: Mark) -> impl Iterator<Item = (i64, i64)> {
    unsafe {
        SEG[NSEG - 1].1 = sh().real_ns;
        (m.0..NSEG).map(move |i| if i == m.0 { (m.1, SEG[i].1) } else { SEG[i] })
    }
}
/// Was the second `t` shown by the clock at some instant since the mark?
pub fn clk_contains(m: Mark, t: i64) -> bool {
    segs(m).any(|(a, b)| t >= a.div_euclid(1_000_000_000) && t <= b.div_euclid(1_000_000_000))
}
pub fn clk_history(m: Mark) -> String {
    let f = |t: i64| format!("{}.{:09}", t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000));
    segs(m).map(|(a, b)| format!("[{} .. {}]", f(a), f(b))).collect::<Vec<_>>().join(" ")
}
pub const MAX_REAL: i64 = 7_258_000_000_000_000_000; // end of 2199
pub fn clk_set(ns: i64) {
    unsafe {
        if NSEG > 0 {
            if NSEG >= SEGS - 1 {
                return;
            }
            SEG[NSEG - 1].1 = sh().real_ns;
            SEG[NSEG] = (ns, ns);
            NSEG += 1;
        }
        sh().real_ns = ns;
    }
}
/// Without clock steps of the environment's own.
pub fn steady<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let j = CFG.jump;
        CFG.jump = 0;
        let r = f();
        CFG.jump = j;
        r
    }
}
/// Let simulated time pass.
pub fn clk_advance(ns: i64) {
    advance(ns)
}

fn advance(ns: i64) {
    let s = sh();
    s.real_ns += ns;
    s.mono_ns += ns;
    s.sim_ns += ns as u64;
    if s.real_ns > MAX_REAL {
        clk_set(MAX_REAL / 2);
    }
}

fn maybe_jump() {
    unsafe {
        if CFG.jump > 0 && e(CFG.jump) == CFG.jump - 1 {
            let s = sh();
            let mags = [1_000_000_000i64, 59_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 31_536_000_000_000_000];
            let m = mags[e(5) as usize] / 1000 * (1 + e(1500) as i64);
            let back = e(2) == 1;
            let t = if back { s.real_ns - m } else { s.real_ns + m };
            if t > 0 && t < MAX_REAL {
                hit(if back { "fault.clock_stepped_back" } else { "fault.clock_stepped_forward" });
                clk_set(t);
                let (a, b) = (t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000));
                note(|| format!("  clock stepped {} to {}.{:09}", if back { "back" } else { "forward" }, a, b));
            }
        }
    }
}

// ---- steps -------------------------------------------------------------------

#[inline(always)]
pub fn step(n: u64) {
    unsafe {
        STEPS += n;
        if STEPS >= LIMIT {
            slow()
        }
    }
}
/// From here on so many more steps are taken to be a hang.
pub fn allow(n: u64) {
    unsafe {
        CFG.budget = STEPS.saturating_add(n);
    }
    set_limit();
}
#[inline]
pub fn steps() -> u64 {
    unsafe { STEPS }
}

fn set_limit() {
    unsafe { LIMIT = NEXT_SWITCH.min(CFG.crash_at).min(CFG.budget) }
}

#[cold]
#[inline(never)]
fn slow() {
    unsafe {
        if !ACTIVE || IN_RT > 0 {
            return;
        }
        if STEPS >= CFG.crash_at {
            sh().crashed = 1;
            IN_RT += 1;
            hit("fault.process_killed");
            note(|| format!("  process killed at step {}", STEPS));
            finish_process();
        }
        if STEPS >= CFG.budget {
            IN_RT += 1;
            verdict(2, "hang", &format!("no end after {} simulated steps", STEPS));
            finish_process();
        }
        if STEPS >= NEXT_SWITCH {
            IN_RT += 1;
            reschedule();
            IN_RT -= 1;
        }
        set_limit();
    }
}

/// Ends the simulated process right here, like a kill would.
pub fn finish_process() -> ! {
    unsafe {
        sh().steps += STEPS;
    }
    sys::exit_now(0)
}

/// Run harness code that is no part of the simulated system.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        IN_RT += 1;
        let r = f();
        IN_RT -= 1;
        r
    }
}

pub fn on_alloc(size: usize) {
    unsafe {
        if ACTIVE && IN_RT == 0 {
            if crate::alloc::LIVE.load(Relaxed) + size > BASE_LIVE + CFG.mem_cap {
                IN_RT += 1;
                verdict(2, "memory", &format!("more than {} bytes allocated", CFG.mem_cap));
                finish_process();
            }
            step(6);
        }
    }
}

/// A seam event of the simulated system: it is logged, time passes, the clock
/// may step and another thread may be scheduled.
pub fn seam(kind: u32, a: u64, b: u64) {
    unsafe {
        if !ACTIVE || IN_RT > 0 {
            return;
        }
        IN_RT += 1;
        ev(kind, a ^ ((CUR as u64) << 48), b);
        advance(CFG.tick_ns);
        maybe_jump();
        IN_RT -= 1;
        step(48);
    }
}

pub fn active() -> bool {
    unsafe { ACTIVE && IN_RT == 0 }
}
pub fn me() -> usize {
    unsafe { CUR }
}

// ---- scheduling --------------------------------------------------------------

unsafe fn runnable() -> ([usize; MAXT], usize) {
    let mut v = [0; MAXT];
    let mut n = 0;
    for i in 0..NTH {
        if TH[i].st == St::Run {
            v[n] = i;
            n += 1;
        }
    }
    (v, n)
}

unsafe fn new_quantum(n_runnable: usize) {
    NEXT_SWITCH = if n_runnable < 2 || CFG.preempt == 0 {
        // a thread that spins without blocking must still give way eventually
        STEPS + 2_000_000
    } else if e(if CFG.even { 64 } else if AT_SHARED { 2 } else { 4 }) == 0 {
        AT_SHARED = false;
        STEPS + 100_000
    } else {
        AT_SHARED = false;
        let k = 1 + e(CFG.preempt as u64);
        STEPS + 1 + e(1 << k)
    };
    set_limit();
}

/// The current thread may or may not be runnable; pick who goes on.
unsafe fn reschedule() {
    let me = CUR;
    loop {
        let (v, n) = runnable();
        if n == 0 {
            // nobody can run: time passes until the earliest deadline
            let mut best: Option<usize> = None;
            for i in 0..NTH {
                if TH[i].deadline != i64::MAX && matches!(TH[i].st, St::Futex(_) | St::Sleep) {
                    if best.map(|b| TH[i].deadline < TH[b].deadline).unwrap_or(true) {
                        best = Some(i);
                    }
                }
            }
            if let Some(b) = best {
                let dt = (TH[b].deadline - sh().mono_ns).max(0);
                advance(dt);
                TH[b].st = St::Run;
                TH[b].deadline = i64::MAX;
                TH[b].timed_out = true;
                continue;
            }
            let mut m = String::from("no thread can run: ");
            for i in 0..NTH {
                m.push_str(&format!("t{}={} ", i, match TH[i].st {
                    St::Futex(_) => "waits on a lock",
                    St::Join(_) => "waits for a thread",
                    St::Never => "abandoned",
                    St::Done => "done",
                    St::Run => "runs",
                    St::Sleep => "sleeps",
                    St::Free => "-",
                }));
            }
            verdict(2, "deadlock", &m);
            finish_process();
        }
        if CFG.spurious && e(64) == 63 {
            // legal: a futex wait may return without a wake-up
            for i in 0..NTH {
                if matches!(TH[i].st, St::Futex(_)) {
                    TH[i].st = St::Run;
                    TH[i].deadline = i64::MAX;
                    hit("fault.spurious_wakeup");
                    break;
                }
            }
        }
        let k = if n == 1 {
            0
        } else if CFG.preempt == 0 && TH[me].st == St::Run && STEPS < NEXT_SWITCH {
            // (not among them when a spurious wake-up has just let it run)
            v[..n].iter().position(|&x| x == me).unwrap_or(0)
        } else {
            e(n as u64) as usize
        };
        let next = v[k];
        new_quantum(n);
        if next == me {
            return;
        }
        sh().switches += 1;
        sh().sw_hash = mix(sh().sw_hash ^ ((next as u64) << 32) ^ (STEPS & 0xffff_ffff));
        ev(1, me as u64, next as u64);
        switch(me, next);
        return;
    }
}

unsafe fn switch(me: usize, next: usize) {
    CUR = next;
    let saved = IN_RT;
    TH[next].go.store(1, SeqCst);
    sys::futex_wake(TH[next].go.as_ptr(), 1);
    if TH[me].st == St::Done {
        return;
    }
    wait_go(me);
    IN_RT = saved;
}

unsafe fn wait_go(me: usize) {
    while TH[me].go.load(SeqCst) == 0 {
        sys::futex_wait(TH[me].go.as_ptr(), 0);
    }
    TH[me].go.store(0, SeqCst);
    CUR = me;
}

unsafe fn block(st: St, deadline: i64) -> bool {
    let me = CUR;
    IN_RT += 1;
    TH[me].st = st;
    TH[me].deadline = deadline;
    TH[me].timed_out = false;
    reschedule();
    IN_RT -= 1;
    let t = TH[me].timed_out;
    TH[me].timed_out = false;
    t
}

/// Blocks the calling simulated thread for good.
pub fn block_forever() {
    unsafe {
        if ACTIVE {
            block(St::Never, i64::MAX);
        }
    }
}
/// Give other simulated threads a chance here.
pub fn yield_now() {
    unsafe {
        if ACTIVE && IN_RT == 0 {
            IN_RT += 1;
            NEXT_SWITCH = STEPS;
            reschedule();
            IN_RT -= 1;
        }
    }
}

const STACK: usize = 24 << 20;
struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    idx: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let s = p as *mut Start;
        let (f, arg, idx) = ((*s).f, (*s).arg, (*s).idx);
        wait_go(idx);
        drop(Box::from_raw(s));
        IN_RT = 0;
        libc::pthread_setspecific(KEY, (idx * 8 + 1) as *const libc::c_void);
        f(arg)
    }
}

// Runs after all thread-local destructors of the thread.
unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    let v = v as usize;
    let (idx, round) = (v / 8, v % 8);
    if round < 3 {
        libc::pthread_setspecific(KEY, (idx * 8 + round + 1) as *const libc::c_void);
        return;
    }
    thread_finished(idx);
}

unsafe fn thread_finished(idx: usize) {
    IN_RT += 1;
    TH[idx].st = St::Done;
    ev(2, idx as u64, 0);
    for i in 0..NTH {
        if TH[i].st == St::Join(idx) {
            TH[i].st = St::Run;
        }
    }
    if idx == 0 {
        MAIN_GO.store(1, SeqCst);
        sys::futex_wake(MAIN_GO.as_ptr(), 1);
        return;
    }
    reschedule();
}

unsafe fn spawn_raw(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    // the place of a thread that has ended and been joined, or a new one
    let mut idx = NTH;
    for i in 1..NTH {
        if TH[i].st == St::Free {
            idx = i;
            break;
        }
    }
    if idx >= MAXT {
        return libc::EAGAIN;
    }
    TH[idx].st = St::Run;
    TH[idx].deadline = i64::MAX;
    TH[idx].timed_out = false;
    TH[idx].go.store(0, SeqCst);
    if idx == NTH {
        NTH += 1;
    }
    let _ = attr;
    let st = Box::leak(Box::new(Start { f, arg, idx }));
    let mut h: libc::pthread_t = 0;
    // stacks at fixed addresses, with a hole below each
    let base = sys::mmap(0x5000_0000_0000 + idx * (32 << 20) + (STACK - CFG.stack), CFG.stack, 0x2 | 0x20 | 0x4000 | 0x100000);
    let mut own: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut own);
    libc::pthread_attr_setstack(&mut own, base as *mut libc::c_void, CFG.stack);
    let r = REAL_CREATE.unwrap()(&mut h, &own, trampoline, st as *mut Start as *mut libc::c_void);
    if r != 0 {
        TH[idx].st = St::Free;
        return r;
    }
    TH[idx].handle = h;
    if !out.is_null() {
        *out = h;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    resolve();
    if !ACTIVE || IN_RT > 0 {
        return REAL_CREATE.unwrap()(out, attr, f, arg);
    }
    IN_RT += 1;
    let r = spawn_raw(out, attr, f, arg);
    new_quantum(2);
    IN_RT -= 1;
    seam(3, NTH as u64, 0);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    resolve();
    if ACTIVE && IN_RT == 0 {
        // handles can be re-used by the C library: the newest one counts
        for i in (0..NTH).rev() {
            if TH[i].handle == h {
                if TH[i].st != St::Done {
                    block(St::Join(i), i64::MAX);
                }
                TH[i].handle = 0;
                let r = REAL_JOIN.unwrap()(h, ret);
                sys::munmap(0x5000_0000_0000 + i * (32 << 20) + (STACK - CFG.stack), CFG.stack);
                TH[i].st = St::Free;
                return r;
            }
        }
    }
    REAL_JOIN.unwrap()(h, ret)
}

/// The standard library insists on a guard page; below our stacks is a hole.
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: libc::pthread_t, a: *mut libc::pthread_attr_t) -> i32 {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut libc::pthread_attr_t) -> i32;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(core::mem::transmute::<*mut libc::c_void, F>(libc::dlsym(libc::RTLD_NEXT, b"pthread_getattr_np\0".as_ptr() as *const _)));
    }
    let r = REAL.unwrap()(t, a);
    let mut g = 0;
    if r == 0 && libc::pthread_attr_getguardsize(a, &mut g) == 0 && g == 0 {
        libc::pthread_attr_setguardsize(a, 4096);
    }
    r
}

unsafe fn resolve() {
    if REAL_CREATE.is_none() {
        REAL_CREATE = Some(core::mem::transmute::<*mut libc::c_void, CreateFn>(libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _)));
        REAL_JOIN = Some(core::mem::transmute::<*mut libc::c_void, JoinFn>(libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _)));
    }
}

// ---- interposed C library functions --------------------------------------------

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn ts_ns(ts: *const libc::timespec) -> i64 {
    (*ts).tv_sec.saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d_: i64, e_: i64, f: i64) -> i64 {
    if n == 202 && ACTIVE && IN_RT == 0 {
        let addr = a as usize;
        let op = (b & 0x7f) as i32;
        if op == 0 || op == 9 {
            seam(4, 0, 0);
            if (*(addr as *const AtomicU32)).load(SeqCst) != c as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let tp = d_ as *const libc::timespec;
            let dl = if tp.is_null() {
                i64::MAX
            } else if op == 9 {
                if b & 0x100 != 0 { ts_ns(tp).saturating_sub(sh().real_ns).saturating_add(sh().mono_ns) } else { ts_ns(tp) }
            } else {
                ts_ns(tp).saturating_add(sh().mono_ns)
            };
            hit("probe.lock_contended");
            if block(St::Futex(addr), dl) {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            return 0;
        }
        if op == 1 || op == 10 {
            let mut woken = 0;
            while woken < c {
                let mut cand = [0usize; MAXT];
                let mut k = 0;
                for i in 0..NTH {
                    if TH[i].st == St::Futex(addr) {
                        cand[k] = i;
                        k += 1;
                    }
                }
                if k == 0 {
                    break;
                }
                let w = cand[e(k as u64) as usize];
                TH[w].st = St::Run;
                TH[w].deadline = i64::MAX;
                woken += 1;
            }
            if woken > 0 {
                seam(5, woken as u64, 0);
            }
            return woken;
        }
    }
    ret(sys::sys6(n, a, b, c, d_, e_, f))
}

unsafe fn put_ts(ts: *mut libc::timespec, ns: i64) {
    (*ts).tv_sec = ns.div_euclid(1_000_000_000);
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if ACTIVE && IN_RT == 0 {
        match id {
            0 | 5 | 11 => {
                seam(6, 0, 0);
                put_ts(ts, sh().real_ns);
                hit("seam.clock_read");
                return 0;
            }
            1 | 4 | 6 | 7 => {
                seam(7, 0, 0);
                put_ts(ts, sh().mono_ns);
                return 0;
            }
            _ => {}
        }
    }
    ret(sys::sys6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> i32 {
    if ACTIVE && IN_RT == 0 {
        seam(6, 1, 0);
        (*tv).tv_sec = sh().real_ns.div_euclid(1_000_000_000);
        (*tv).tv_usec = sh().real_ns.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    ret(sys::sys6(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let v = if ACTIVE && IN_RT == 0 {
        seam(6, 2, 0);
        sh().real_ns.div_euclid(1_000_000_000)
    } else {
        sys::sys6(201, 0, 0, 0, 0, 0, 0)
    };
    if !t.is_null() {
        *t = v;
    }
    v
}
unsafe fn sim_sleep(ns: i64) {
    seam(8, ns as u64, 0);
    let dl = sh().mono_ns.saturating_add(ns.max(0));
    block(St::Sleep, dl);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rm: *mut libc::timespec) -> i32 {
    if ACTIVE && IN_RT == 0 {
        sim_sleep(ts_ns(rq));
        return 0;
    }
    ret(sys::sys6(35, rq as i64, rm as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, rq: *const libc::timespec, rm: *mut libc::timespec) -> i32 {
    if ACTIVE && IN_RT == 0 {
        let mut ns = ts_ns(rq);
        if flags & 1 != 0 {
            ns -= if id == 0 { sh().real_ns } else { sh().mono_ns };
        }
        sim_sleep(ns);
        return 0;
    }
    (-sys::sys6(230, id as i64, flags as i64, rq as i64, rm as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE && IN_RT == 0 {
        seam(9, 0, 0);
        yield_now();
        return 0;
    }
    ret(sys::sys6(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ACTIVE && IN_RT == 0 {
        return sh().pid;
    }
    sys::sys6(39, 0, 0, 0, 0, 0, 0) as i32
}

static mut RAND_DOWN: u64 = u64::MAX;
/// After so many more calls randomness fails for good, until this is called again.
pub fn rand_down(after: Option<u64>) {
    unsafe { RAND_DOWN = after.unwrap_or(u64::MAX) }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ACTIVE && IN_RT == 0 {
        seam(10, len as u64, flags as u64);
        hit("seam.randomness_read");
        let mut n = len;
        if RAND_DOWN < u64::MAX && len > 0 {
            if RAND_DOWN == 0 {
                hit("fault.getrandom_failed");
                set_errno(libc::EIO);
                return -1;
            }
            RAND_DOWN -= 1;
        }
        if CFG.rand_faults {
            if e(4) == 3 {
                hit("fault.getrandom_eintr");
                set_errno(libc::EINTR);
                return -1;
            }
            if len > 1 && e(4) == 3 {
                n = 1 + e(len as u64 - 1) as usize;
                hit("fault.getrandom_short");
            }
        }
        let s = sh();
        for i in 0..n {
            *buf.add(i) = mix(s.rand_key ^ s.rand_ctr.wrapping_mul(0x9E37_79B9)) as u8;
            s.rand_ctr += 1;
        }
        return n as isize;
    }
    if attached() && ACTIVE {
        for i in 0..len {
            *buf.add(i) = 0;
        }
        return len as isize;
    }
    // harness processes: constant, so that nothing of the outside world leaks in
    for i in 0..len {
        *buf.add(i) = 0x5a;
    }
    len as isize
}

// ---- standard output -------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct StdoutPlan {
    /// largest number of bytes one write accepts; 0 = all
    pub chunk: u64,
    /// 1 in n writes is interrupted; 0 = never
    pub eintr: u64,
    /// after this many bytes every write fails with `errno`
    pub fail_at: Option<usize>,
    pub errno: i32,
}
static mut STDOUT_PLAN: StdoutPlan = StdoutPlan { chunk: 0, eintr: 0, fail_at: None, errno: 0 };
static mut STDOUT: Vec<u8> = Vec::new();
static mut STDOUT_AFTER: usize = 0;

pub fn stdout_plan(p: StdoutPlan) {
    quiet(|| unsafe {
        STDOUT_PLAN = p;
        STDOUT = Vec::new();
        STDOUT_AFTER = 0;
    })
}
#[allow(static_mut_refs)]
pub fn stdout_take() -> Vec<u8> {
    quiet(|| unsafe { core::mem::take(&mut STDOUT) })
}
#[allow(static_mut_refs)]
pub fn stdout_len() -> usize {
    unsafe { STDOUT.len() }
}

#[allow(static_mut_refs)]
unsafe fn sim_stdout(buf: *const u8, len: usize) -> isize {
    seam(11, len as u64, 0);
    if len == 0 {
        return 0;
    }
    if STDOUT_PLAN.eintr > 0 && e(STDOUT_PLAN.eintr) == STDOUT_PLAN.eintr - 1 {
        hit("fault.stdout_eintr");
        set_errno(libc::EINTR);
        return -1;
    }
    let mut n = len;
    if let Some(f) = STDOUT_PLAN.fail_at {
        if STDOUT.len() >= f {
            hit("fault.stdout_failed");
            set_errno(STDOUT_PLAN.errno);
            return -1;
        }
        n = n.min(f - STDOUT.len());
    }
    if STDOUT_PLAN.chunk > 0 {
        n = n.min(1 + e(STDOUT_PLAN.chunk) as usize);
    }
    if n < len {
        hit("fault.stdout_short_write");
    }
    quiet(|| STDOUT.extend_from_slice(core::slice::from_raw_parts(buf, n)));
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
    let buf = buf as *const u8;
    if ACTIVE && IN_RT == 0 {
        if fd == 1 {
            return sim_stdout(buf, len);
        }
        if fd == 2 {
            return len as isize;
        }
    }
    ret(sys::sys6(1, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    if ACTIVE && IN_RT == 0 && (fd == 1 || fd == 2) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(sys::sys6(20, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}

// ---- coverage callbacks: the finest seam, inside the instrumented code -----------

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    static mut N: u32 = 0;
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        N += 1;
        *start = N;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ACTIVE {
        let i = *g as usize;
        if i < COVMAX {
            sh().cov[i] = 1;
        }
        step(1);
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// The simulated program touches memory its threads have in common: global
/// variables, or (by writing) objects from before the threads began. Whatever is
/// done there in several steps may be interrupted between them.
#[cold]
#[inline(never)]
unsafe fn shared_memory() {
    if IN_RT > 0 || CFG.preempt == 0 || NTH < 2 {
        return;
    }
    IN_RT += 1;
    if SHARED_SEEN == 0 {
        hit("reached.shared_memory_touched");
    }
    // many such accesses are as good as a few
    let now = if SHARED_SEEN < 4000 { e(3) == 2 } else { false };
    SHARED_SEEN += 1;
    IN_RT -= 1;
    if now {
        NEXT_SWITCH = STEPS;
        AT_SHARED = true;
        LIMIT = STEPS;
        slow();
    }
}
static mut AT_SHARED: bool = false;
static mut SHARED_SEEN: u64 = 0;

macro_rules! mem_cb {
    ($store:literal $($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(p: *const u8) {
        if ACTIVE {
            step(1);
            let lo = &raw const __data_start as usize;
            let a = p as usize;
            if a.wrapping_sub(lo) < &raw const _end as usize - lo || ($store && crate::alloc::is_old(a)) {
                shared_memory();
            }
        }
    } )* };
}
mem_cb! { false __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16 }
mem_cb! { true __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

// ---- processes -------------------------------------------------------------------

#[derive(Debug, PartialEq)]
pub enum End {
    Ok,
    Crashed,
    Violation,
    HarnessError,
}

type Body<'a> = Box<dyn FnOnce() -> Result<(), Viol> + 'a>;

extern "C" fn body_start(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b: Box<Body<'static>> = Box::from_raw(p as *mut Body<'static>);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || b()));
        IN_RT += 1;
        match r {
            Ok(Ok(())) => verdict(1, "", ""),
            Ok(Err(v)) => verdict(if v.class == "harness" { 3 } else { 2 }, &v.class, &v.msg),
            Err(_) => verdict(2, "panic", &format!("unexpected panic: {}", last_panic())),
        }
        IN_RT -= 1;
        core::ptr::null_mut()
    }
}

pub fn last_panic() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.last_panic[..s.last_panic_len]).into_owned()
}

/// Run `f` in a fresh simulated process: a forked copy of the driver in which the
/// code under test has never run, whose first thread is new as well.
pub fn incarnation<'a>(cfg: Cfg, f: impl FnOnce() -> Result<(), Viol> + 'a) -> End {
    let s = sh();
    s.verdict = 0;
    s.crashed = 0;
    s.incarnations += 1;
    unsafe {
        resolve();
        let pid = libc::fork();
        if pid < 0 {
            verdict(3, "harness", "fork failed");
            return End::HarnessError;
        }
        if pid == 0 {
            let rl = libc::rlimit { rlim_cur: 150, rlim_max: 150 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rc = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rc);
            libc::alarm(300);
            std::panic::set_hook(Box::new(|info| {
                quiet(|| {
                    let t = info.to_string();
                    let s = sh();
                    if t.contains("cannot unwind") && s.last_panic_len > 0 {
                        // the one before tells more
                        return;
                    }
                    let n = t.len().min(s.last_panic.len());
                    s.last_panic[..n].copy_from_slice(&t.as_bytes()[..n]);
                    s.last_panic_len = n;
                })
            }));
            CFG = cfg;
            STEPS = 0;
            NTH = 0;
            SEG[0] = (sh().real_ns, sh().real_ns);
            NSEG = 1;
            NEXT_SWITCH = u64::MAX;
            BASE_LIVE = crate::alloc::LIVE.load(Relaxed);
            libc::pthread_key_create(&mut *core::ptr::addr_of_mut!(KEY), Some(key_dtor));
            let body: Body<'a> = Box::new(f);
            let p = Box::into_raw(Box::new(body)) as *mut libc::c_void;
            IN_RT = 1;
            if spawn_raw(core::ptr::null_mut(), core::ptr::null(), body_start, p) != 0 {
                verdict(3, "harness", "pthread_create failed");
                sys::exit_now(0);
            }
            new_quantum(1);
            CUR = 0;
            ACTIVE = true;
            TH[0].go.store(1, SeqCst);
            sys::futex_wake(TH[0].go.as_ptr(), 1);
            while MAIN_GO.load(SeqCst) == 0 {
                sys::futex_wait(MAIN_GO.as_ptr(), 0);
            }
            finish_process();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL || sig == libc::SIGALRM {
                verdict(3, "harness", &format!("the process was ended from outside by signal {}", sig));
                return End::HarnessError;
            }
            let class = if sig == libc::SIGXCPU { "hang" } else { "abort" };
            verdict(2, class, &format!("the process was ended by signal {}; last panic: {}", sig, last_panic()));
            return End::Violation;
        }
        if libc::WEXITSTATUS(st) != 0 {
            verdict(2, "abort", &format!("the process exited with status {}", libc::WEXITSTATUS(st)));
            return End::Violation;
        }
        match sh().verdict {
            1 => End::Ok,
            2 => End::Violation,
            3 => End::HarnessError,
            _ if sh().crashed == 1 => End::Crashed,
            _ => {
                verdict(3, "harness", "no verdict");
                End::HarnessError
            }
        }
    }
}

/// The simulated process forks, as a server does that has warmed up: the child has a copy of
/// all its memory, runs `f` and ends; then the parent goes on. Only for processes of one thread.
pub fn fork_here(f: impl FnOnce() -> Result<(), Viol>) -> Result<(), Viol> {
    unsafe {
        IN_RT += 1;
        let pid0 = sh().pid;
        let begun = STEPS;
        let pid = libc::fork();
        if pid < 0 {
            IN_RT -= 1;
            return viol("harness", "fork failed");
        }
        if pid == 0 {
            sh().pid = pid0 + 1;
            hit("fault.process_forked");
            IN_RT -= 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            IN_RT += 1;
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => verdict(if v.class == "harness" { 3 } else { 2 }, &v.class, &v.msg),
                Err(_) => verdict(2, "panic", &format!("unexpected panic: {}", last_panic())),
            }
            sh().steps += STEPS - begun;
            sys::exit_now(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        sh().pid = pid0;
        SEG[0] = (sh().real_ns, sh().real_ns);
        NSEG = 1;
        IN_RT -= 1;
        if libc::WIFSIGNALED(st) || libc::WEXITSTATUS(st) != 0 {
            return viol("abort", format!("a forked process ended with wait status {}; last panic: {}", st, last_panic()));
        }
        let s = sh();
        if s.verdict >= 2 {
            let v = Viol { class: crate::shared::verdict_class(), msg: crate::shared::verdict_msg() };
            return Err(v);
        }
        Ok(())
    }
}
