//! Long-running processes: the same work, failures included, over and over.
use crate::util::*;
use model::gen::Opts;
use model::Cal;
use rt::{chance, d, note, pick, range};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject as sub;
use subject::{Fault, FmtSink};

#[derive(Clone, Debug)]
enum Op {
    Build(usize),
    Write(usize),
    Stream(usize),
    Print(usize),
    Refused(usize, Fault),
    Panicked(usize, Fault),
    BadStream(usize, usize),
    Read(usize, u64),
    Torn(usize, u64, usize),
    Damaged(usize, u64, usize),
    Relay(usize, u64),
    Json(usize),
    Touch(usize),
    Copy(usize),
    Convert,
    /// reading, every accessor of what was read, and letting go of it
    Inspect(usize),
}
struct World {
    objs: Vec<(Obj, Cal)>,
    docs: Vec<String>,
    /// Europe/Berlin and so on
    when: Vec<model::Dt>,
    fresh: u64,
    /// what is new in the text of every round: of the calendar, and of a component
    news: (&'static str, &'static str),
}

/// `#` stands for the round.
const NEWS: [&str; 20] = [
    "X-ROUND-#:#", "X-ROUND:#", "REFRESH-INTERVAL;VALUE=DURATION:#", "X-PUBLISHED-TTL:PX#", "NAME:round #", "X-WR-TIMEZONE:Zone/#",
    "DTSTART;TZID=Zone/T#:20240101T000000", "DTEND:#T000000", "DUE;VALUE=DATE:#", "STATUS:#", "CLASS:X-#", "PRIORITY:9#", "SEQUENCE:99#",
    "DTSTAMP:#", "X-A;X-P#=v:w", "X-A;VALUE=T#:w", "ATTENDEE;CN=\"a: #\":mailto:#@x", "UID:#", "BEGIN:X-C#\r\nA:b\r\nEND:X-C#",
    "BEGIN:VALARM\r\nTRIGGER;RELATED=R#:P#\r\nACTION:A#\r\nREPEAT:9#\r\nDURATION:PX#\r\nEND:VALARM",
];

fn gen_op(w: &World) -> Op {
    let i = d(w.objs.len() as u64) as usize;
    let k = d(w.docs.len() as u64) as usize;
    let n = w.docs[k].len();
    let l = n as u64 + 1;
    match d(18) {
        0 => Op::Build(i),
        1 => Op::Write(i),
        2 => Op::Stream(i),
        3 => Op::Print(i),
        4 | 5 => Op::Refused(i, gen_fault(n, 30)),
        6 => Op::Panicked(i, if chance(1, 2) { Fault::PanicByte(d(l) as usize) } else { Fault::PanicCall(d(30)) }),
        7 => Op::BadStream(i, d(l) as usize),
        8 => Op::Read(k, d(sub::READ_ROUTES)),
        9 => Op::Torn(k, d(sub::READ_ROUTES), d(l) as usize),
        10 => Op::Damaged(k, d(sub::READ_ROUTES), d(l) as usize),
        11 => Op::Relay(k, d(sub::RELAYS)),
        12 => Op::Json(i),
        13 => Op::Touch(i),
        14 => Op::Copy(i),
        15 | 16 => Op::Inspect(k),
        _ => Op::Convert,
    }
}

pub fn run() -> R {
    let small = Opts { size: *pick(&[0, 0, 1]), ..Opts::small() };
    let ms: Vec<(u64, Cal)> = (0..range(1, 3)).map(|_| (d(4), some_cal(small.clone()))).collect();
    let mut ms = ms;
    if chance(1, 3) {
        // something bulky among them
        let (_, m) = &mut ms[0];
        let mut p = model::Prop::new(*pick(&["DESCRIPTION", "X-BULK", "ATTACH"]), &pick(&["x", "long text ", "é", "a,b;", "\n"]).repeat(*pick(&[30, 300, 3_000])));
        p.multi = p.name == "ATTACH";
        match m.comps.first_mut() {
            Some(c) if c.get(&p.name).is_none() && chance(3, 4) => c.props.push(p),
            _ => m.props.push(model::Prop { name: "X-BULK".into(), multi: false, ..p }),
        }
    }
    let threads = *pick(&[0usize, 0, 0, 1, 2]);
    let per_round_thread = chance(1, 3);
    let mut cfg = world(threads > 0 || per_round_thread);
    cfg.jump = *pick(&[0u64, 400]);
    cfg.preempt = if threads > 0 { *pick(&[8, 12, 16]) as u32 } else { 0 };
    let z = zone();
    let at = start_instant();
    inc(cfg, move || {
        host(z, Some(at));
        let mut w = World { objs: vec![], docs: vec![], when: vec![], fresh: 0, news: (pick(&NEWS), pick(&NEWS)) };
        for (kind, m) in ms {
            let o = make_obj(kind, &m);
            w.docs.push(sub::build_cal(&m).to_string());
            w.objs.push((o, m));
        }
        for _ in 0..3 {
            let mut sw = model::gen::Swarm::gen(Opts::small());
            let mut t = sw.dt(&[2]);
            t.y = 1990 + t.y.rem_euclid(50);
            t.d = t.d.min(28);
            w.when.push(t);
        }
        let script: Vec<Op> = (0..range(1, 6)).map(|_| gen_op(&w)).collect();
        // new content in every round, as a server meets it: numbers of a fixed width
        w.fresh = *pick(&[0, 1, 1]);
        note(|| format!("every round: {:?}{}", script, if per_round_thread { ", in a thread of its own" } else { "" }));
        let w: &'static Shr<World> = leak(Shr(w));
        let script: &'static Vec<Op> = leak(script);
        let len: usize = w.get().docs.iter().map(|d| d.len()).sum();
        let again = threads == 0;
        let mut rounds = if again { 1200 } else { *pick(&[120u64, 120, 300]).min(&(600_000 / (len as u64 * (1 + threads as u64) + 1) + 40)) };
        let total = *pick(&[2_000_000u64, 2_000_000, 5_000_000]);
        let mut hs = vec![];
        for t in 0..threads {
            // others do the same at the same time, for good measure
            hs.push(spawn(move || {
                for r in 0..rounds {
                    round(w.get(), script, r + 1_000_000 * (t as u64 + 1))?;
                }
                Ok(())
            })?);
        }
        let mut live = Vec::with_capacity(rounds as usize);
        let mut cost = Vec::with_capacity(rounds as usize);
        let from = rt::shared::mark();
        for r in 0..1200 {
            if r >= rounds {
                break;
            }
            let s0 = rt::sched::steps();
            if again {
                // every round takes place in the same environment and has the same faults
                rt::shared::rewind(from);
            }
            if per_round_thread {
                join(spawn(move || round(w.get(), script, r))?)?;
            } else {
                round(w.get(), script, r)?;
            }
            live.push(rt::alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed) as i64);
            cost.push(rt::sched::steps() - s0);
            if r == 3 && again {
                rounds = rounds.min(total / (cost[3] + 1) + 40);
            }
            // beyond the recorded part of the environment nothing varies any more
            if rt::shared::env_left() < rt::shared::SMAX / 8 {
                break;
            }
        }
        rt::shared::resume();
        let rounds = live.len() as u64;
        if rounds < 16 {
            for h in hs {
                join(h)?;
            }
            return Ok(());
        }
        for h in hs {
            join(h)?;
        }
        let end = rt::alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed) as i64;
        rt::nontrivial();
        rt::hit_n("reached.rounds", rounds);
        rt::ev(95, rounds, (end - live[0]) as u64);
        note(|| format!("{} rounds; live bytes after rounds 1, a half, the end: {:?}; steps {:?}", rounds, (live[0], live[live.len() / 2], end), (cost[0], cost[cost.len() / 2], cost[cost.len() - 1])));
        let h = live.len() / 2;
        // while other threads are at work, the end of round says little: they may hold something
        let slack = if threads > 0 { 200_000 } else { 0 };
        let grown = (if threads > 0 { end.min(*live.last().unwrap()) } else { end }) - live[h];
        let n = (live.len() - h) as i64;
        if grown - slack > if again { 2 * n + 512 } else { 8 * n + 512 } {
            return fail("memory-accumulates", format!("{} bytes more after round {} than after round {}, in which the same was done", grown, rounds, h));
        }
        if threads == 0 {
            let q = cost.len() / 4;
            let early: u64 = cost[q..2 * q].iter().sum();
            let late: u64 = cost[cost.len() - q..].iter().sum();
            if late > early + early / 2 + 4000 {
                return fail("effort-accumulates", format!("{} steps in the last {} rounds but {} in as many earlier ones, in which the same was done", late, q, early));
            }
            // steady growth, however slow, as against a step or noise
            let s: Vec<(f64, f64)> = (1..4).map(|k| mean(&cost[k * q..(k + 1) * q])).collect();
            let grows = |a: (f64, f64), b: (f64, f64)| b.0 - a.0 > 4.0 + 7.0 * (a.1 * a.1 + b.1 * b.1).sqrt();
            if grows(s[0], s[1]) && grows(s[1], s[2]) {
                return fail("effort-accumulates", format!("the same takes {:.1}, then {:.1}, then {:.1} steps on average of {} rounds each", s[0].0, s[1].0, s[2].0, q));
            }
        }
        Ok(())
    })
    .map(|_| ())
}

/// Mean and the error of it.
fn mean(x: &[u64]) -> (f64, f64) {
    let n = x.len() as f64;
    let m = x.iter().sum::<u64>() as f64 / n;
    let v = x.iter().map(|&x| (x as f64 - m) * (x as f64 - m)).sum::<f64>() / n;
    (m, (v / n).sqrt())
}

fn round(w: &'static World, script: &'static [Op], r: u64) -> R {
    for op in script {
        one(w, op, r)?;
    }
    Ok(())
}
/// The document with the round's number in it, so that no two rounds read the same.
fn numbered(w: &World, k: usize, r: u64) -> String {
    let s = &w.docs[k];
    if w.fresh == 0 {
        return s.clone();
    }
    let new = |t: &str| format!("{}\r\n", t.replace('#', &format!("{:09}", r * 7919 % 999_999_937)));
    let s = s.replacen("BEGIN:VCALENDAR\r\n", &format!("BEGIN:VCALENDAR\r\n{}", new(w.news.0)), 1);
    s.replacen("END:", &format!("{}END:", new(w.news.1)), 1)
}
fn cutat(s: &str, at: usize) -> &str {
    let mut at = at.min(s.len());
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    &s[..at]
}

fn one(w: &'static World, op: &Op, r: u64) -> R {
    match op {
        Op::Build(i) => {
            let mut c = w.objs[*i].1.clone();
            if w.fresh > 0 {
                for x in &mut c.comps {
                    x.set(model::Prop::new("X-ROUND", &format!("{:09}", r)));
                    if x.get("UID").is_some() {
                        x.set(model::Prop::new("UID", &format!("round-{:09}", r)));
                    }
                }
            }
            // the building choices are the round's own, so the object may be shaped
            // differently, but nothing of it stays
            let o = sub::build_cal(&c);
            let n = o.to_string().len();
            if n == 0 {
                return fail("harness", "empty");
            }
        }
        Op::Write(i) => drop(w.objs[*i].0.healthy()?),
        Op::Stream(i) => {
            let mut s = sub::IoSink::new();
            s.chunk = 7;
            w.objs[*i].0.to_io(&mut s);
        }
        Op::Print(i) => {
            rt::sched::stdout_plan(rt::StdoutPlan::default());
            match &w.objs[*i].0 {
                Obj::Cal(c) => drop(sub::print_cal(c)),
                Obj::Comp(c) => drop(sub::print_comp(c)),
                Obj::Parsed(c) => drop(sub::print_parsed(c)),
                _ => {}
            }
            rt::sched::stdout_take();
        }
        Op::Refused(i, f) => drop(w.objs[*i].0.to_fmt(&mut FmtSink::new(*f))),
        Op::Panicked(i, f) => drop(catch_unwind(AssertUnwindSafe(|| w.objs[*i].0.to_fmt(&mut FmtSink::new(*f)).is_ok()))),
        Op::BadStream(i, at) => {
            let mut s = sub::IoSink::new();
            s.fail_at = Some(*at);
            w.objs[*i].0.to_io(&mut s);
        }
        Op::Read(k, route) => drop(sub::read_doc(&numbered(w, *k, r), *route)),
        Op::Torn(k, route, at) => drop(sub::read_doc(cutat(&numbered(w, *k, r), *at), *route)),
        Op::Damaged(k, route, at) => {
            let s = numbered(w, *k, r);
            let (a, b) = (cutat(&s, *at), &s[cutat(&s, *at).len()..]);
            drop(sub::read_doc(&format!("{}:\r\nBEGIN:X\u{0}{}", a, b), *route))
        }
        Op::Relay(k, x) => {
            rt::sched::stdout_plan(rt::StdoutPlan::default());
            drop(sub::relay(&numbered(w, *k, r), *x))
        }
        Op::Json(i) => {
            if let Obj::Parsed(p) = &w.objs[*i].0 {
                if let Ok(j) = sub::to_json(p, false) {
                    drop(sub::from_json_str(&j));
                    drop(sub::from_json_str(cutat(&j, j.len() / 2)));
                }
            }
        }
        Op::Touch(i) => match &w.objs[*i].0 {
            Obj::Cal(c) => drop(sub::touch_cal(c)),
            Obj::Comp(c) => drop(sub::touch_comp(c)),
            Obj::Parsed(p) => drop(p.components.iter().map(sub::touch_parsed).sum::<usize>()),
            _ => {}
        },
        Op::Copy(i) => drop(w.objs[*i].0.copy()),
        Op::Inspect(k) => {
            let s = numbered(w, *k, r);
            if let Ok(c) = sub::read_cal(&s) {
                sub::touch_cal(&c);
            }
            if let Ok(p) = sub::read_parsed(&s) {
                p.components.iter().map(sub::touch_parsed).sum::<usize>();
            }
        }
        Op::Convert => {
            for t in &w.when {
                drop(sub::dt_instant(&sub::author_dt(t, None)));
                if w.fresh > 0 {
                    let mut t = t.clone();
                    t.y = 1990 + (r * 7919 % 53) as i32;
                    t.mo = 1 + (r * 31 % 12) as u32;
                    drop(sub::dt_instant(&sub::author_dt(&t, None)));
                    // a zone only this round knows of
                    t.form = model::Form::Tz(format!("{} {:09}", if r % 2 == 0 { "Zone" } else { "Europe/Town" }, r));
                    drop(sub::dt_instant(&sub::author_dt(&t, None)));
                }
            }
        }
    }
    Ok(())
}
