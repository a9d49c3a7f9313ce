use crate::util::*;
use model::gen::{parse_utc, Opts};
use model::{Cal, Comp, Inv};
use rt::sched::{clk_advance, clk_contains, clk_history, clk_mark, clk_set, Mark};
use rt::{chance, d, note, pick, range, sh};
use subject as sub;
use subject::{Fault, FmtSink};

pub fn run() -> R {
    let hosts = range(1, 3);
    for hn in 0..hosts {
        let z = zone();
        let at = if hn == 0 || chance(2, 3) { Some(start_instant()) } else { None };
        let threads = *pick(&[0usize, 0, 1, 2]);
        let mut cfg = world(threads > 0);
        if chance(1, 2) {
            cfg.tick_ns = *pick(&[0, 1000]);
        }
        let ms: Vec<(bool, Cal)> = (0..range(1, 2)).map(|_| (chance(1, 3), some_cal(if chance(1, 6) { Opts::any() } else { Opts::small() }))).collect();
        note(|| format!("host {}: zone {:?}, clock {:?}, {:?}", hn, ZONES[z], at, cfg));
        inc(cfg, move || {
            host(z, at);
            let mut objs = vec![];
            for (as_comp, m) in &ms {
                let o = make_obj(*as_comp as u64, m);
                let c = o.copy();
                objs.push((o, c, m.clone()));
            }
            let objs: &'static Shr<Vec<(Obj, Obj, Cal)>> = leak(Shr(objs));
        rt::alloc::freeze();
            let mut hs = vec![];
            for t in 0..threads {
                hs.push(spawn(move || writes(objs, t + 1))?);
            }
            writes(objs, 0)?;
            for h in hs {
                join(h)?;
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn time_passes(me: usize) {
    let now = sh().real_ns;
    let s = 1_000_000_000i64;
    let to = match d(10) {
        0 => return,
        1 | 2 => return clk_advance(s),
        3 => return clk_advance(d(3 * s as u64) as i64),
        4 => now + 86_400 * s,
        5 => now - 3600 * s,
        6 => now - s,
        7 => (now / s + 1) * s - 1,
        8 => return clk_advance(*pick(&[60 * s, 3600 * s, 40 * 86_400 * s])),
        _ => start_instant(),
    };
    if to > 0 && to < rt::sched::MAX_REAL {
        rt::hit(if to < now { "fault.clock_stepped_back" } else { "fault.clock_stepped_forward" });
        clk_set(to);
        note(|| format!("t{}: clock now {}.{:09}", me, to / s, to % s));
    }
}

fn writes(objs: &'static Shr<Vec<(Obj, Obj, Cal)>>, me: usize) -> R {
    for _ in 0..range(1, 5) {
        time_passes(me);
        let (o, copy, m) = pick(objs.get());
        let mark = clk_mark();
        match o {
            Obj::Cal(c) => match d(8) {
                6 | 7 => sinked(o, m, me)?,
                r if r < 5 => {
                    let doc = sub::write_cal(c, r);
                    judge(doc, &m.as_comp(), mark, sub::cal_route_name(r), me)?
                }
                _ => {
                    let doc = sub::clone_cal(c).to_string();
                    judge(Ok(doc), &m.as_comp(), mark, "a clone", me)?
                }
            },
            Obj::Comp(c) => match d(8) {
                6 | 7 => sinked(o, m, me)?,
                3 | 5 => {
                    let docs = sub::write_children(c);
                    for (ch, (_, doc)) in m.comps[0].children.iter().zip(docs) {
                        judge(Ok(doc), ch, mark, "a child component", me)?;
                    }
                }
                r => judge(sub::write_comp(c, r), &m.comps[0], mark, sub::comp_route_name(r.min(4)), me)?,
            },
            _ => {}
        }
        if !o.same(copy) {
            return fail("object-changed", format!("writing changed the {}", o.kind()));
        }
    }
    Ok(())
}

/// The destination takes its time, and the clock goes on.
fn sinked(o: &Obj, m: &Cal, me: usize) -> R {
    let step = *pick(&[300_000_000i64, 1_000_000_000, 70_000_000_000]);
    let every = range(1, 6);
    let mut hook = |n: u64| {
        if n % every == every - 1 {
            clk_advance(step)
        }
    };
    let mark = clk_mark();
    let mut f = FmtSink::new(Fault::None);
    f.hook = Some(&mut hook);
    let r = o.to_fmt(&mut f);
    let doc = String::from_utf8(std::mem::take(&mut f.got)).map_err(|e| e.to_string());
    drop(f);
    let exp = if let Obj::Comp(_) = o { m.comps[0].clone() } else { m.as_comp() };
    rt::hit("reached.clock_advanced_inside_call");
    judge(r.map_err(|_| "the write failed".to_string()).and(doc), &exp, mark, "a slow destination", me)
}

fn judge(doc: Result<String, String>, exp: &Comp, mark: Mark, route: &str, me: usize) -> R {
    let doc = match doc {
        Ok(d) => d,
        Err(e) => return fail("write-failed", format!("{}: {}", route, e)),
    };
    let inv = check_doc(exp, &doc, Inv::Yes)?;
    let mut n = 0;
    for (path, what, v) in &inv {
        if *what != "DTSTAMP" {
            continue;
        }
        n += 1;
        match parse_utc(v) {
            None => return fail("no-utc-stamp", format!("{}: the invented DTSTAMP of {} is {:?}, not a UTC date-time", route, path, v)),
            Some(t) => {
                if !clk_contains(mark, t) {
                    return fail("wrong-stamp", format!("{}: the invented DTSTAMP of {} is {} (second {}), but during the call the clock showed {}", route, path, v, t, clk_history(mark)));
                }
            }
        }
    }
    rt::ev(23, n, doc.len() as u64);
    note(|| format!("t{}: {}: {} invented stamps, clock {}", me, route, n, clk_history(mark)));
    if n > 0 {
        rt::nontrivial();
        rt::hit_n("reached.invented_stamps", n);
    }
    Ok(())
}
