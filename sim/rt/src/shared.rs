//! The region shared between the driver and the simulated processes of a run:
//! the choice streams, the event log hash, counters, the simulated disk and
//! clock, and the verdict. It outlives any simulated process.
use crate::sys;

pub const DMAX: usize = 1 << 16;
pub const SMAX: usize = 1 << 17;
pub const NCOUNT: usize = 192;
pub const COVMAX: usize = 1 << 18;
pub const TRACEMAX: usize = 4 << 20;
pub const BLOBMAX: usize = 24 << 20;
pub const NFILES: usize = 64;

#[repr(C)]
pub struct Shared {
    // choice streams: 0 = data and faults, 1 = environment (schedule, clock steps, wake-ups)
    pub replay: u32,
    pub rng: [u64; 2],
    pub in_len: [usize; 2],
    pub out_len: [usize; 2],
    /// choices recorded beyond `out_len`: the run went back to a mark
    pub hi: [usize; 2],
    pub d_in: [u64; DMAX],
    pub d_out: [u64; DMAX],
    pub s_in: [u64; SMAX],
    pub s_out: [u64; SMAX],
    // verdict of the current incarnation / run
    pub verdict: u32, // 0 none, 1 ok, 2 violation, 3 harness error
    pub class_len: usize,
    pub class: [u8; 128],
    pub msg_len: usize,
    pub msg: [u8; 16384],
    pub crashed: u32,
    // event log
    pub ev_hash: u64,
    pub ev_count: u64,
    pub switches: u64,
    pub sw_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub incarnations: u64,
    pub trace_on: u32,
    pub trace_len: usize,
    // counters (accumulated over all runs of a worker)
    pub c_name: [[u8; 48]; NCOUNT],
    pub c_len: [usize; NCOUNT],
    pub c_val: [u64; NCOUNT],
    pub c_n: usize,
    // simulated world that survives a crash
    pub real_ns: i64,
    pub mono_ns: i64,
    pub rand_key: u64,
    pub rand_ctr: u64,
    pub pid: i32,
    pub blob_len: usize,
    pub file_off: [usize; NFILES],
    pub file_len: [usize; NFILES],
    pub last_panic_len: usize,
    pub last_panic: [u8; 1024],
    pub nontrivial: u32,
    pub in_run: u32,
    // worker bookkeeping (survives runs)
    pub next_index: u64,
    pub w_runs: u64,
    pub w_skipped: u64,
    pub w_steps: u64,
    pub w_longest: u64,
    pub w_switches: u64,
    pub w_events: u64,
    pub w_sim_us: u64,
    pub w_incarnations: u64,
    pub w_viol_index: u64,
    pub w_done: u32,
    pub w_err: u32,
    pub hash_n: usize,
    pub hashes: [u64; 1 << 18],
    pub swhash_n: usize,
    pub swhashes: [u64; 1 << 18],
    pub cov: [u8; COVMAX],
    pub trace: [u8; TRACEMAX],
    pub blob: [u8; BLOBMAX],
}

static mut SH: *mut Shared = core::ptr::null_mut();

pub fn new_region() -> *mut Shared {
    // MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    unsafe { sys::mmap(0, core::mem::size_of::<Shared>(), 0x1 | 0x20 | 0x4000) as *mut Shared }
}
pub fn attach(p: *mut Shared) {
    unsafe { SH = p }
}
pub fn attached() -> bool {
    unsafe { !SH.is_null() }
}
#[inline(always)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn begin_run(seed: u64) {
    let s = sh();
    s.rng = [mix(seed), mix(seed ^ 0x5EED_0F_5C4E_D01E)];
    s.out_len = [0, 0];
    s.hi = [0, 0];
    s.verdict = 0;
    s.class_len = 0;
    s.msg_len = 0;
    s.crashed = 0;
    s.ev_hash = 0xcbf2_9ce4_8422_2325;
    s.ev_count = 0;
    s.switches = 0;
    s.sw_hash = 1;
    s.steps = 0;
    s.sim_ns = 0;
    s.incarnations = 0;
    s.trace_len = 0;
    s.real_ns = 1_700_000_000_000_000_000;
    s.mono_ns = 1_000_000_000_000;
    s.rand_key = mix(seed ^ 0xA5A5_1234_77);
    s.rand_ctr = 0;
    s.pid = 4242;
    s.blob_len = 0;
    s.file_off = [0; NFILES];
    s.file_len = [0; NFILES];
    s.last_panic_len = 0;
    s.nontrivial = 0;
    s.in_run = 0;
}
/// This run did something beyond the ordinary.
pub fn nontrivial() {
    sh().nontrivial = 1;
}

fn draw(stream: usize, n: u64) -> u64 {
    debug_assert!(n > 0);
    let s = sh();
    let i = s.out_len[stream];
    let max = if stream == 0 { DMAX } else { SMAX };
    let v = if n <= 1 {
        return 0;
    } else if i >= max {
        return 0; // past the cap every choice is the simplest one
    } else if i < s.hi[stream] {
        // drawn before, after the mark that was gone back to
        let r = if stream == 0 { s.d_out[i] } else { s.s_out[i] };
        s.out_len[stream] = i + 1;
        return r.min(n - 1);
    } else if s.replay != 0 {
        if i < s.in_len[stream] {
            let r = if stream == 0 { s.d_in[i] } else { s.s_in[i] };
            r.min(n - 1)
        } else {
            0
        }
    } else {
        s.rng[stream] = s.rng[stream].wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s.rng[stream];
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        ((z as u128 * n as u128) >> 64) as u64
    };
    if stream == 0 {
        s.d_out[i] = v;
    } else {
        s.s_out[i] = v;
    }
    s.out_len[stream] = i + 1;
    v
}

/// Data or fault choice in `[0, n)`; 0 is the simplest.
pub fn d(n: u64) -> u64 {
    draw(0, n)
}
/// Environment choice (schedule, clock, wake-ups) in `[0, n)`; 0 is the calmest.
pub fn e(n: u64) -> u64 {
    draw(1, n)
}

/// Where the choices are.
pub fn mark() -> [usize; 2] {
    sh().out_len
}
/// The choices made since the mark are made again.
pub fn rewind(m: [usize; 2]) {
    let s = sh();
    for k in 0..2 {
        s.hi[k] = recorded(k);
        s.out_len[k] = m[k].min(s.out_len[k]);
    }
}
/// From here on choices are new ones.
pub fn resume() {
    let s = sh();
    for k in 0..2 {
        s.out_len[k] = recorded(k);
        s.hi[k] = 0;
    }
}
pub fn recorded(k: usize) -> usize {
    let s = sh();
    s.out_len[k].max(s.hi[k])
}

/// How many more environment choices this run can record.
pub fn env_left() -> usize {
    SMAX - sh().out_len[1]
}

#[inline]
pub fn ev(kind: u32, a: u64, b: u64) {
    let s = sh();
    let mut h = s.ev_hash;
    for w in [kind as u64, a, b] {
        h = (h ^ w).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    s.ev_hash = h;
    s.ev_count += 1;
}
pub fn ev_bytes(kind: u32, b: &[u8]) {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    ev(kind, b.len() as u64, h);
}

pub fn tracing() -> bool {
    attached() && sh().trace_on != 0
}
/// Human-readable line for the replay file; only evaluated when replaying.
pub fn note(f: impl FnOnce() -> String) {
    if tracing() {
        crate::sched::quiet(|| {
            let mut t = f();
            t.push('\n');
            let s = sh();
            let b = t.as_bytes();
            let n = b.len().min(TRACEMAX - s.trace_len);
            s.trace[s.trace_len..s.trace_len + n].copy_from_slice(&b[..n]);
            s.trace_len += n;
        })
    }
}

/// Count that a fault fired or a condition was reached.
pub fn hit(name: &str) {
    hit_n(name, 1)
}
pub fn hit_n(name: &str, k: u64) {
    let s = sh();
    let b = name.as_bytes();
    let b = &b[..b.len().min(48)];
    for i in 0..s.c_n {
        if s.c_len[i] == b.len() && &s.c_name[i][..b.len()] == b {
            s.c_val[i] += k;
            return;
        }
    }
    if s.c_n < NCOUNT {
        let i = s.c_n;
        s.c_name[i][..b.len()].copy_from_slice(b);
        s.c_len[i] = b.len();
        s.c_val[i] = k;
        s.c_n += 1;
    }
}

// ---- simulated durable files -------------------------------------------------

pub fn file_put(f: usize, data: &[u8]) {
    let s = sh();
    if s.blob_len + data.len() > BLOBMAX {
        verdict(3, "harness", "simulated disk region exhausted");
        sys::exit_now(0);
    }
    s.file_off[f] = s.blob_len;
    s.file_len[f] = data.len();
    s.blob[s.blob_len..s.blob_len + data.len()].copy_from_slice(data);
    s.blob_len += data.len();
}
pub fn file_get(f: usize) -> &'static [u8] {
    let s = sh();
    &s.blob[s.file_off[f]..s.file_off[f] + s.file_len[f]]
}
/// Append to a file; only cheap if it is the last one written.
pub fn file_append(f: usize, data: &[u8]) {
    let s = sh();
    if s.file_len[f] > 0 && s.file_off[f] + s.file_len[f] == s.blob_len && s.blob_len + data.len() <= BLOBMAX {
        s.blob[s.blob_len..s.blob_len + data.len()].copy_from_slice(data);
        s.blob_len += data.len();
        s.file_len[f] += data.len();
    } else {
        let mut v = Vec::with_capacity(s.file_len[f] + data.len());
        v.extend_from_slice(file_get(f));
        v.extend_from_slice(data);
        file_put(f, &v);
    }
}

pub fn verdict(v: u32, class: &str, msg: &str) {
    let s = sh();
    if s.verdict >= 2 {
        return; // keep the first
    }
    s.verdict = v;
    let n = class.len().min(s.class.len());
    s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
    s.class_len = n;
    let n = msg.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    s.msg_len = n;
}
pub fn verdict_class() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.class[..s.class_len]).into_owned()
}
pub fn verdict_msg() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.msg[..s.msg_len]).into_owned()
}
