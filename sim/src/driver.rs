//! Runs a property's scenario over many seeds, minimises and confirms what fails,
//! and writes the evidence.
use crate::{Property, PROPERTIES};
use rt::shared::{self, Shared, DMAX, SMAX};
use rt::{mix, sh, sys};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Outcome {
    pub verdict: u32,
    pub class: String,
    pub msg: String,
    pub hash: u64,
}

/// One run in a process of its own; the streams are whatever `sh()` was set up with.
pub fn run_forked(p: &Property) -> Outcome {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { verdict: 3, class: "harness".into(), msg: "fork failed".into(), hash: 0 };
        }
        if pid == 0 {
            rt::alloc::rebase();
            std::panic::set_hook(Box::new(|i| sys::err(&format!("icalsim: {}\n", i))));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(p.run));
            let s = sh();
            match r {
                Ok(Ok(())) => {
                    s.verdict = 0;
                    shared::verdict(1, "", "");
                }
                Ok(Err(v)) => {
                    s.verdict = 0;
                    shared::verdict(if v.class == "harness" { 3 } else { 2 }, &v.class, &v.msg);
                }
                Err(_) => {
                    s.verdict = 0;
                    shared::verdict(3, "harness", "the scenario itself panicked");
                }
            }
            sys::exit_now(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            return Outcome { verdict: 3, class: "harness".into(), msg: format!("run process ended with status {:#x}", st), hash: 0 };
        }
    }
    let s = sh();
    if s.verdict == 0 {
        return Outcome { verdict: 3, class: "harness".into(), msg: "no verdict".into(), hash: s.ev_hash };
    }
    Outcome { verdict: s.verdict, class: shared::verdict_class(), msg: shared::verdict_msg(), hash: s.ev_hash }
}

pub fn run_seed(seed: u64, p: &Property, index: u64) -> u64 {
    let id: u64 = p.id[1..].parse().unwrap();
    mix(mix(seed).wrapping_add(id << 48).wrapping_add(index))
}

pub fn run_index(p: &Property, seed: u64, index: u64, trace: bool) -> Outcome {
    let s = sh();
    s.replay = 0;
    s.trace_on = trace as u32;
    shared::begin_run(run_seed(seed, p, index));
    run_forked(p)
}

fn run_streams(p: &Property, seed: u64, index: u64, d: &[u64], e: &[u64], trace: bool) -> Outcome {
    let s = sh();
    s.replay = 1;
    s.trace_on = trace as u32;
    let (a, b) = (d.len().min(DMAX), e.len().min(SMAX));
    s.d_in[..a].copy_from_slice(&d[..a]);
    s.s_in[..b].copy_from_slice(&e[..b]);
    s.in_len = [a, b];
    shared::begin_run(run_seed(seed, p, index));
    run_forked(p)
}

fn streams_out() -> (Vec<u64>, Vec<u64>) {
    let s = sh();
    (s.d_out[..shared::recorded(0)].to_vec(), s.s_out[..shared::recorded(1)].to_vec())
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub text: String,
    pub what: String,
}
pub fn load_known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string("known-findings.txt").unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known:") {
            let f: Vec<&str> = r.splitn(4, '|').map(str::trim).collect();
            if f.len() == 4 && f[0] == id {
                v.push(Known { prop: f[0].into(), class: f[1].into(), text: f[2].into(), what: f[3].into() });
            }
        }
    }
    v
}

struct Global {
    min_viol: AtomicU64,
    known_hits: [AtomicU64; 16],
}

fn worker(p: &Property, w: u64, workers: u64, n: u64, seed: u64, deadline: u64, g: &Global, known: &[Known]) {
    let mut i = w;
    while i < n {
        if i > g.min_viol.load(SeqCst) {
            break;
        }
        if sys::real_mono_ns() > deadline {
            sh().w_skipped += (n - i).div_ceil(workers);
            break;
        }
        let mut o = run_index(p, seed, i, false);
        if o.verdict == 3 {
            o = run_index(p, seed, i, false); // the machine may have hiccuped
        }
        let s = sh();
        s.w_runs += 1;
        s.w_steps += s.steps;
        s.w_switches += s.switches;
        s.w_events += s.ev_count;
        s.w_longest = s.w_longest.max(s.steps);
        s.w_sim_us += s.sim_ns / 1000;
        s.w_incarnations += s.incarnations;
        if s.hash_n < s.hashes.len() {
            s.hashes[s.hash_n] = (o.hash & !1) | s.nontrivial as u64;
            s.swhashes[s.hash_n] = s.sw_hash;
            s.hash_n += 1;
        }
        match o.verdict {
            1 => {}
            2 => {
                if let Some(k) = known.iter().position(|k| k.class == o.class && o.msg.contains(&k.text)) {
                    g.known_hits[k].fetch_add(1, SeqCst);
                } else {
                    g.min_viol.fetch_min(i, SeqCst);
                    break;
                }
            }
            _ => {
                sys::err(&format!("icalsim: harness error in {} run {}: {}\n", p.id, i, o.msg));
                s.w_err = 1;
                g.min_viol.fetch_min(i, SeqCst);
                break;
            }
        }
        i += workers;
    }
    sh().w_done = 1;
}

/// Run indices `0..n` on `workers` processes. Regions are returned for inspection.
fn fan_out(p: &Property, n: u64, seed: u64, workers: u64, cap_s: u64, known: &[Known]) -> (Vec<*mut Shared>, &'static Global) {
    let g: &'static Global = unsafe { &*(sys::mmap(0, 4096, 0x1 | 0x20) as *const Global) };
    g.min_viol.store(u64::MAX, SeqCst);
    let deadline = sys::real_mono_ns() + cap_s * 1_000_000_000;
    let mut regions = vec![];
    let mut pids = vec![];
    for w in 0..workers {
        let r = shared::new_region();
        regions.push(r);
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                shared::attach(r);
                worker(p, w, workers, n, seed, deadline, g, known);
                sys::exit_now(0);
            }
            pids.push(pid);
        }
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    }
    (regions, g)
}

struct Shrinker<'a> {
    p: &'a Property,
    seed: u64,
    index: u64,
    class: String,
    deadline: u64,
    tries: u64,
    best: (Vec<u64>, Vec<u64>),
}
impl Shrinker<'_> {
    fn over(&self) -> bool {
        sys::real_mono_ns() > self.deadline
    }
    fn attempt(&mut self, d: Vec<u64>, e: Vec<u64>) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        let o = run_streams(self.p, self.seed, self.index, &d, &e, false);
        if o.verdict == 2 && o.class == self.class {
            let (mut d2, mut e2) = streams_out();
            while d2.last() == Some(&0) {
                d2.pop();
            }
            while e2.last() == Some(&0) {
                e2.pop();
            }
            let key = |d: &Vec<u64>, e: &Vec<u64>| (d.len() + e.len(), d.iter().chain(e.iter()).map(|&x| x as u128).sum::<u128>());
            if key(&d2, &e2) < key(&self.best.0, &self.best.1) {
                self.best = (d2, e2);
                return true;
            }
        }
        false
    }
    fn with(&self, which: usize, v: Vec<u64>) -> (Vec<u64>, Vec<u64>) {
        if which == 0 {
            (v, self.best.1.clone())
        } else {
            (self.best.0.clone(), v)
        }
    }
    fn stream(&self, which: usize) -> &Vec<u64> {
        if which == 0 {
            &self.best.0
        } else {
            &self.best.1
        }
    }
    fn run(&mut self) {
        // no pre-emption, calm environment at all?
        self.attempt(self.best.0.clone(), vec![]);
        loop {
            let before = self.best.clone();
            for which in [1, 0] {
                // cut the tail
                let mut n = self.stream(which).len() / 2;
                while n > 0 && !self.over() {
                    let v = self.stream(which);
                    if n <= v.len() {
                        let t = v[..v.len() - n].to_vec();
                        let (a, b) = self.with(which, t);
                        if self.attempt(a, b) {
                            continue;
                        }
                    }
                    n /= 2;
                }
                // delete and zero chunks
                let mut size = (self.stream(which).len() / 4).max(1).next_power_of_two().min(4096);
                while size >= 1 && !self.over() {
                    let mut i = self.stream(which).len();
                    while i > 0 && !self.over() {
                        let lo = i.saturating_sub(size);
                        let cur = self.stream(which).clone();
                        if i > cur.len() {
                            i = cur.len();
                            continue;
                        }
                        let mut t = cur[..lo].to_vec();
                        t.extend_from_slice(&cur[i..]);
                        let (a, b) = self.with(which, t);
                        if !self.attempt(a, b) && cur[lo..i].iter().any(|&x| x != 0) {
                            let mut t = cur.clone();
                            t[lo..i].iter_mut().for_each(|x| *x = 0);
                            let (a, b) = self.with(which, t);
                            self.attempt(a, b);
                        }
                        i = lo.min(self.stream(which).len());
                    }
                    size /= 2;
                }
                // lower single values
                let mut i = 0;
                while i < self.stream(which).len() && !self.over() {
                    let mut hi = self.stream(which)[i];
                    let mut lo = 0;
                    while lo < hi && !self.over() {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = self.stream(which).clone();
                        if i >= t.len() {
                            break;
                        }
                        t[i] = mid;
                        let (a, b) = self.with(which, t);
                        if self.attempt(a, b) {
                            hi = self.stream(which).get(i).copied().unwrap_or(0);
                        } else {
                            lo = mid + 1;
                        }
                    }
                    i += 1;
                }
            }
            if self.over() || before == self.best {
                break;
            }
        }
    }
}

fn trace_lines() -> Vec<String> {
    let s = sh();
    String::from_utf8_lossy(&s.trace[..s.trace_len]).lines().map(str::to_string).collect()
}

fn write_replay(p: &Property, seed: u64, index: u64, d: &[u64], e: &[u64], tries: u64) -> Option<(String, Outcome)> {
    let o = run_streams(p, seed, index, d, e, true);
    if o.verdict != 2 {
        return None;
    }
    let t = trace_lines();
    sh().trace_on = 0;
    let o2 = run_streams(p, seed, index, d, e, false);
    if o2.verdict != 2 || o2.class != o.class {
        return None;
    }
    std::fs::create_dir_all("replays").ok();
    let path = format!("replays/{}-{}-{}.json", p.id, seed, index);
    let v = json!({
        "property": p.id, "seed": seed, "index": index, "class": o2.class, "message": o2.msg,
        "event_hash": format!("{:016x}", o2.hash), "minimisation_attempts": tries,
        "data_choices": d, "environment_choices": e, "trace": t,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok()?;
    Some((path, o2))
}

/// Exit status 1: reproduced.
pub fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let p = match PROPERTIES.iter().find(|p| Some(p.id) == v["property"].as_str()) {
        Some(p) => p,
        None => return 2,
    };
    let list = |k: &str| -> Vec<u64> { v[k].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default() };
    shared::attach(shared::new_region());
    let (seed, index) = (v["seed"].as_u64().unwrap_or(0), v["index"].as_u64().unwrap_or(0));
    let (d, e) = (list("data_choices"), list("environment_choices"));
    let t = run_streams(p, seed, index, &d, &e, true);
    for l in trace_lines() {
        println!("{}", l);
    }
    let _ = t;
    let o = run_streams(p, seed, index, &d, &e, false);
    match o.verdict {
        2 => {
            let same = Some(o.class.as_str()) == v["class"].as_str() && Some(o.msg.as_str()) == v["message"].as_str() && v["event_hash"].as_str() == Some(&format!("{:016x}", o.hash));
            println!("{}: {}", o.class, o.msg);
            println!("{}", if same { "REPRODUCED exactly" } else { "VIOLATION, but not the recorded one" });
            println!("VIOLATION property={} replay={}", p.id, path);
            if same {
                1
            } else {
                3
            }
        }
        1 => {
            println!("the property holds on this history");
            0
        }
        _ => {
            eprintln!("harness error: {}", o.msg);
            2
        }
    }
}

pub fn check(id: &str) -> i32 {
    let p = match PROPERTIES.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let t0 = sys::real_mono_ns();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let scale: f64 = std::env::var("ICALSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if thorough { p.thorough } else { p.quick }) as f64 * scale).max(1.0) as u64;
    let cap = if thorough { 3000 } else { 240 };
    let workers: u64 = std::env::var("ICALSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let known = load_known(id);
    let (regions, g) = fan_out(p, n, seed, workers, cap, &known);
    let wall_search = (sys::real_mono_ns() - t0) as f64 / 1e9;

    // totals
    let (mut runs, mut steps, mut sw, mut evs, mut sim, mut inc, mut skipped, mut err, mut dead) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0, 0);
    let mut counters: std::collections::BTreeMap<String, u64> = Default::default();
    let (mut hashes, mut sws) = (vec![], vec![]);
    let mut longest = 0u64;
    let mut edges = vec![0u8; shared::COVMAX];
    for &r in &regions {
        let r = unsafe { &*r };
        runs += r.w_runs;
        steps += r.w_steps;
        longest = longest.max(r.w_longest);
        sw += r.w_switches;
        evs += r.w_events;
        sim += r.w_sim_us;
        inc += r.w_incarnations;
        skipped += r.w_skipped;
        err += r.w_err;
        dead += 1 - r.w_done;
        for i in 0..r.c_n {
            *counters.entry(String::from_utf8_lossy(&r.c_name[i][..r.c_len[i]]).into_owned()).or_default() += r.c_val[i];
        }
        hashes.extend_from_slice(&r.hashes[..r.hash_n]);
        sws.extend_from_slice(&r.swhashes[..r.hash_n]);
        for (a, b) in edges.iter_mut().zip(r.cov.iter()) {
            *a |= *b;
        }
    }
    hashes.sort();
    hashes.dedup();
    let distinct = hashes.len();
    let nontrivial = hashes.iter().filter(|h| **h & 1 == 1).count();
    sws.sort();
    sws.dedup();
    let edges: usize = edges.iter().map(|&x| x as usize).sum();
    if dead > 0 {
        eprintln!("icalsim: {} worker(s) died", dead);
        return 2;
    }
    let min = g.min_viol.load(SeqCst);
    let region = shared::new_region();
    shared::attach(region);

    let mut samples = vec![];
    for i in 0..3.min(n) {
        let o = run_index(p, seed, i, true);
        let mut t = trace_lines();
        let more = t.len().saturating_sub(40);
        t.truncate(40);
        let t: Vec<String> = t.into_iter().map(|l| l.chars().take(300).collect()).collect();
        samples.push(json!({"run": i, "run_seed": format!("{:016x}", run_seed(seed, p, i)), "event_hash": format!("{:016x}", o.hash), "events": sh().ev_count, "history": t, "further_lines": more}));
    }

    let mut code = 0;
    let mut report = Value::Null;
    if err > 0 && min != u64::MAX {
        // an index with a harness error; a violation at a lower index still counts
        let o = run_index(p, seed, min, false);
        if o.verdict != 2 {
            eprintln!("icalsim: harness error: {}", o.msg);
            return 2;
        }
    }
    if min != u64::MAX {
        let o = run_index(p, seed, min, false);
        if o.verdict != 2 {
            eprintln!("icalsim: run {} of {} failed but does not fail again: {} {}", min, p.id, o.verdict, o.msg);
            return 2;
        }
        let full = streams_out();
        let budget = std::env::var("ICALSIM_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20u64);
        let mut s = Shrinker { p, seed, index: min, class: o.class.clone(), deadline: sys::real_mono_ns() + budget * 1_000_000_000, tries: 0, best: full.clone() };
        s.run();
        let (best, tries) = (s.best.clone(), s.tries);
        let mut done = write_replay(p, seed, min, &best.0, &best.1, tries);
        let confirm = |f: &str| -> bool {
            let exe = std::env::current_exe().unwrap();
            matches!(std::process::Command::new(exe).arg("replay").arg(f).stdout(std::process::Stdio::null()).status(), Ok(st) if st.code() == Some(1))
        };
        if !done.as_ref().map_or(false, |(f, _)| confirm(f)) {
            eprintln!("icalsim: the minimised history does not replay; falling back to the full one");
            done = write_replay(p, seed, min, &full.0, &full.1, 0);
            if !done.as_ref().map_or(false, |(f, _)| confirm(f)) {
                eprintln!("icalsim: the violation does not replay");
                return 2;
            }
        }
        let (path, o) = done.unwrap();
        let trace: Value = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).map(|v| v["trace"].clone()).unwrap_or(Value::Null);
        if let Some(t) = trace.as_array() {
            for l in t.iter().rev().take(30).collect::<Vec<_>>().into_iter().rev() {
                println!("    {}", l.as_str().unwrap_or("").chars().take(400).collect::<String>());
            }
        }
        println!("{} (run {} of seed {}): {}", o.class, min, seed, o.msg.chars().take(3000).collect::<String>());
        println!("minimised to {} data and {} environment choices in {} attempts", best.0.len(), best.1.len(), tries);
        println!("VIOLATION property={} replay={}", p.id, std::env::current_dir().unwrap().join(&path).display());
        report = json!({"run": min, "class": o.class, "message": o.msg, "replay": path});
        code = 1;
    }
    for (i, k) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", k.prop, k.what, g.known_hits[i].load(SeqCst));
    }
    let (mut faults, mut probes) = (serde_json::Map::new(), serde_json::Map::new());
    for (k, v) in &counters {
        match k.strip_prefix("fault.") {
            Some(f) => faults.insert(f.into(), json!(v)),
            None => probes.insert(k.clone(), json!(v)),
        };
    }
    let wall = (sys::real_mono_ns() - t0) as f64 / 1e9;
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": format!("One case is one seeded simulated run. {} Two runs are distinct when the hashes of their complete event logs (every seam call, scheduling decision, fault and checked result) differ; a run is non-trivial when {}.", p.how, p.nontrivial),
            "samples": samples,
            "distinct_event_logs": distinct,
            "distinct_schedules": sws.len(),
            "runs_skipped_for_time": skipped,
            "runs_per_hour": (runs as f64 / wall_search * 3600.0) as u64,
            "longest_run_steps": longest,
            "simulated_seconds": sim as f64 / 1e6,
            "simulated_processes": inc,
            "simulated_steps": steps,
            "thread_switches": sw,
            "seam_events": evs,
            "code_edges_reached": edges,
            "faults_injected": faults,
            "reached": probes,
            "real_code": ["icalendar (the crate in /repo, features parser, serde, serde_json, chrono-tz)", "chrono", "nom", "iso8601", "uuid", "serde_json", "std collections, threads, locks, stdout buffering"],
            "simulated": ["thread scheduling (one thread runs at a time, chosen by the seed)", "clocks and sleeping", "randomness of the operating system (hash seeds, UIDs)", "standard output", "destinations and sources", "files and messages", "process crash and restart", "heap addresses"],
            "violation": report,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": code,
    });
    std::fs::create_dir_all("evidence").ok();
    if std::fs::write(format!("evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!("{}: {} runs, {} distinct, {} processes, {:.1} s, {} violation(s)", p.id, runs, distinct, inc, wall, code);
    code
}

/// Every property, `n` runs, twice with different numbers of workers: the event
/// logs have to be the same.
pub fn determinism(n: u64, only: Option<&str>) -> i32 {
    let mut bad = 0;
    for p in PROPERTIES {
        if only.map_or(false, |o| o != p.id) {
            continue;
        }
        for seed in [1u64, 77] {
            let mut all: Vec<Vec<u64>> = vec![];
            for workers in [8u64, 3, 5] {
                let (regions, _) = fan_out(p, n, seed, workers, 600, &[]);
                let mut v = vec![0u64; n as usize];
                for (w, &r) in regions.iter().enumerate() {
                    let r = unsafe { &*r };
                    for k in 0..r.hash_n {
                        v[w + k * workers as usize] = r.hashes[k] ^ r.swhashes[k].rotate_left(17);
                    }
                }
                all.push(v);
                for &r in &regions {
                    unsafe { libc::munmap(r as *mut libc::c_void, std::mem::size_of::<Shared>()) };
                }
            }
            let diff: Vec<usize> = (0..n as usize).filter(|&i| all.iter().any(|v| v[i] != all[0][i])).collect();
            let missing = all[0].iter().filter(|h| **h == 0).count();
            println!("{} seed {}: {} runs x 3 worker counts, {} differ, {} not run {:?}", p.id, seed, n, diff.len(), missing, &diff[..diff.len().min(5)]);
            bad += diff.len();
        }
    }
    (bad > 0) as i32
}
