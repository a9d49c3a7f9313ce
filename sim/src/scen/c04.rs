use crate::util::*;
use model::gen::{Opts, Swarm};
use model::{Cal, Comp, Inv};
use rt::{chance, d, file_append, file_get, note, pick, range};
use subject as sub;
use subject::{Fault, FmtSink, IoSink};

fn strip(c: &mut Comp) {
    c.walk_mut(&mut |c| c.props.retain(|p| p.name != "UID"));
}

pub fn run() -> R {
    // few hosts that write a lot, or several that write a little
    let bulk = d(150) == 149;
    let hosts = if bulk { range(1, 2) } else { range(1, 5) };
    let t0 = start_instant();
    let frozen = chance(1, 2);
    for hn in 0..hosts {
        let threads = *pick(&[0usize, 0, 1, 2, 4]);
        let mut cfg = world(threads > 0);
        if frozen {
            cfg.tick_ns = 0;
            cfg.jump = 0;
        }
        cfg.rand_faults = chance(1, 2);
        // every host starts at the same instant, or a little earlier than the one before
        let at = match d(3) {
            0 => Some(t0),
            1 => Some(t0 - d(3_000_000_000) as i64),
            _ => None,
        };
        let z = zone();
        let mut sw = Swarm::gen(Opts { ids: false, size: if bulk { 0 } else { d(2) as u8 }, max_depth: *pick(&[1, 2, 4]), cr: false, cases: false });
        let mut ms = vec![];
        for _ in 0..range(1, 3) {
            let mut m = sw.cal();
            let many = if bulk { 3000 } else { range(1, 6) };
            for _ in 0..many {
                m.comps.push(Comp { kind: if bulk { "X-N".into() } else { sw.top_kind().into() }, ..Default::default() });
            }
            if chance(2, 3) {
                m.comps.iter_mut().for_each(strip);
            }
            ms.push(m);
        }
        let rounds = if bulk { range(3, 8) } else { range(1, 5) };
        note(|| format!("host {}: clock {:?}, {:?}, {} rounds", hn, at, cfg, rounds));
        inc(cfg, move || {
            host(z, at);
            let objs: Vec<(Obj, Obj, Cal)> = ms
                .into_iter()
                .map(|m| {
                    let o = make_obj(if m.comps.len() < 3 { d(2) } else { 0 }, &m);
                    let c = o.copy();
                    (o, c, m)
                })
                .collect();
            let objs: &'static Shr<Vec<(Obj, Obj, Cal)>> = leak(Shr(objs));
        rt::alloc::freeze();
            let mut hs = vec![];
            for t in 0..threads {
                hs.push(spawn(move || writes(objs, t + 1, rounds, false))?);
            }
            writes(objs, 0, rounds, threads == 0)?;
            for h in hs {
                join(h)?;
            }
            Ok(())
        })?;
    }
    // everything any host ever invented
    let all = std::str::from_utf8(file_get(0)).unwrap_or("");
    let mut v: Vec<&str> = all.lines().collect();
    if v.len() > 1 {
        rt::nontrivial();
    }
    rt::hit_n("reached.invented_uids", v.len() as u64);
    v.sort();
    for w in v.windows(2) {
        let (a, b) = (w[0].split_once('\t').unwrap_or((w[0], "")), w[1].split_once('\t').unwrap_or((w[1], "")));
        if a.0 == b.0 {
            return fail("uid-repeated", format!("the UID {:?} was invented twice: {} and {} (of {} UIDs)", a.0, a.1, b.1, v.len()));
        }
    }
    Ok(())
}

fn record(uid: &str, place: &str) -> R {
    if uid.is_empty() {
        return fail("uid-empty", format!("an empty UID was invented for {}", place));
    }
    rt::ev_bytes(24, uid.as_bytes());
    rt::quiet(|| file_append(0, format!("{}\tprocess {} {}\n", uid.replace(['\n', '\t'], " "), rt::sh().incarnations, place).as_bytes()));
    Ok(())
}

fn writes(objs: &'static Shr<Vec<(Obj, Obj, Cal)>>, me: usize, rounds: u64, alone: bool) -> R {
    for r in 0..rounds {
        if alone && d(6) == 5 {
            // a server that forks when it has warmed up
            let n = range(1, 4);
            note(|| format!("t{}: forks", me));
            rt::sched::fork_here(|| writes(objs, me + 10 * (r as usize + 1), n, false))?;
        }
        let (o, copy, m) = pick(objs.get());
        let exp = if let Obj::Comp(_) = o { m.comps[0].clone() } else { m.as_comp() };
        let mut own = false;
        exp.walk_only(&mut own);
        if !own && d(4) == 3 {
            // a write that fails half-way has used its UIDs up as well
            let got = if d(2) == 0 {
                let mut f = FmtSink::new(Fault::Byte { at: d(600) as usize, partial: true });
                o.to_fmt(&mut f).ok();
                f.got
            } else {
                let mut f = IoSink::new();
                f.fail_at = Some(d(600) as usize);
                let _ = o.to_io(&mut f);
                f.got
            };
            partial(&got, me, r)?;
            continue;
        }
        if !own && alone && chance(1, 6) {
            // no randomness: whatever the library does then, it does not repeat itself
            let mut f = FmtSink::new(Fault::None);
            rt::sched::rand_down(Some(d(6)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.to_fmt(&mut f).is_ok()));
            rt::sched::rand_down(None);
            rt::hit(if r.is_ok() { "reached.written_without_randomness" } else { "reached.panic_without_randomness" });
            partial(&f.got, me, r.is_ok() as u64)?;
            continue;
        }
        let doc = match o {
            Obj::Cal(c) if d(3) == 2 => Ok(sub::clone_cal(c).to_string()),
            Obj::Cal(c) => sub::write_cal(c, d(5)),
            Obj::Comp(c) => sub::write_comp(c, *pick(&[0, 1, 2, 4])),
            _ => continue,
        };
        let doc = match doc {
            Ok(d) => d,
            Err(e) => return fail("write-failed", e),
        };
        let inv = check_doc(&exp, &doc, Inv::Yes)?;
        for (path, what, v) in &inv {
            if *what == "UID" {
                record(v, &rt::quiet(|| format!("t{} write {} {}", me, r, path)))?;
            }
        }
        note(|| format!("t{}: write {}: {} invented UIDs", me, r, inv.iter().filter(|i| i.1 == "UID").count()));
        if !o.same(copy) {
            return fail("object-changed", format!("writing changed the {}", o.kind()));
        }
    }
    Ok(())
}

fn partial(got: &[u8], me: usize, r: u64) -> R {
    let v: Vec<String> = rt::quiet(|| {
        let s = String::from_utf8_lossy(got).replace("\r\n ", "");
        // the last line may be incomplete
        let end = s.rfind("\r\n").unwrap_or(0);
        s[..end].split("\r\n").filter_map(|l| l.strip_prefix("UID:").map(str::to_string)).collect()
    });
    for u in v {
        record(&u, &format!("t{} failed write {}", me, r))?;
    }
    Ok(())
}

trait OwnUid {
    fn walk_only(&self, own: &mut bool);
}
impl OwnUid for Comp {
    fn walk_only(&self, own: &mut bool) {
        rt::quiet(|| self.walk(&mut |c| *own |= c.get("UID").is_some()))
    }
}
