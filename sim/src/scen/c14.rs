//! Date-times in time zones, on hosts with zones and clocks of their own.
use crate::util::*;
use model::zones::{civil, Zone, UNKNOWN, ZONES as ZS};
use model::{Dt, Form};
use rt::{chance, d, note, pick, range};
use subject as sub;

#[derive(Clone, Debug)]
struct When {
    t: Dt,
    instant: Option<i64>,
}
#[derive(Clone)]
struct Item {
    a: When,
    b: When,
    todo: bool,
    uid: String,
}

fn zoned() -> When {
    let z: &Zone = pick(ZS);
    let y = z.year();
    // local time, in seconds as if it were UTC
    let local = match (z.changes(y), d(4)) {
        (Some((on, off)), r) if r < 3 => {
            let c = *pick(&[on, off]);
            let before = z.offset(c - 1);
            let after = z.offset(c);
            let base = c + if chance(1, 2) { before } else { after };
            base + match d(6) {
                0 => 0,
                1 => -1,
                2 => *pick(&[1, 60, 1799, 1800, 1801, 3599, 3600, 3601, 7200]),
                3 => -*pick(&[1, 60, 1799, 1800, 1801, 3599, 3600, 3601, 7200]),
                4 => d(7200) as i64 - 3600,
                _ => d(200_000) as i64 - 100_000,
            }
        }
        _ => {
            let s = model::gen::epoch(y, 1 + d(12) as u32, 1 + d(28) as u32, 0, 0, 0);
            s + match d(4) {
                0 => 0,
                1 => 86_399,
                _ => d(86_400) as i64,
            }
        }
    };
    let local = if chance(1, 2) { local - local.rem_euclid(60) } else { local };
    let (y, mo, dd, h, mi, s) = civil(local);
    let v = z.instants(local);
    if v.len() != 1 {
        rt::hit(if v.is_empty() { "reached.local_time_skipped" } else { "reached.local_time_shown_twice" });
    }
    When { t: Dt { y, mo, d: dd, h, mi, s, form: Form::Tz(z.name.into()) }, instant: if v.len() == 1 { Some(v[0]) } else { None } }
}
fn when() -> When {
    let mut w = zoned();
    match d(12) {
        0 => {
            w.t.form = Form::Tz(pick(UNKNOWN).to_string());
            w.instant = None;
        }
        1 => {
            w.t.form = Form::Floating;
            w.instant = None;
        }
        2 => {
            w.t.form = Form::Utc;
            w.instant = Some(model::gen::epoch(w.t.y, w.t.mo, w.t.d, w.t.h, w.t.mi, w.t.s));
        }
        _ => {}
    }
    w
}

pub fn run() -> R {
    let items: Vec<Item> = (0..range(1, 5)).map(|i| Item { a: when(), b: when(), todo: chance(1, 3), uid: format!("when-{}@example.org", i) }).collect();
    let hosts = range(1, 3);
    for hn in 0..hosts {
        let z = zone();
        let at = start_instant();
        let threads = *pick(&[0usize, 0, 1, 2]);
        let cfg = world(threads > 0);
        note(|| format!("host {}: zone {:?}, clock {}", hn, ZONES[z], at));
        let items = items.clone();
        inc(cfg, move || {
            host(z, Some(at));
            let mut comps = vec![];
            let doc = if hn == 0 {
                for it in &items {
                    let (a, b) = (sub::author_dt(&it.a.t, it.a.instant), sub::author_dt(&it.b.t, it.b.instant));
                    chk(sub::check_authored(&a, &it.a.t, it.a.instant))?;
                    chk(sub::check_authored(&b, &it.b.t, it.b.instant))?;
                    comps.push(if it.todo { sub::todo_at(&it.uid, &a, &b) } else { sub::event_at(&it.uid, &a, &b) });
                }
                let c = sub::calendar_of(comps);
                c.to_string()
            } else {
                String::from_utf8_lossy(rt::shared::file_get(0)).into_owned()
            };
            let doc = if chance(1, 3) { with_more(&doc) } else { doc };
            let cal = if hn == 0 || chance(1, 2) {
                match sub::read_cal_by(&doc, d(sub::READ_CAL_ROUTES)) {
                    Ok(c) => c,
                    Err(e) => return fail("read-failed", e),
                }
            } else {
                // relayed once more
                match sub::relay(&doc, d(sub::RELAYS)).and_then(|s| sub::read_cal(&s)) {
                    Ok(c) => c,
                    Err(e) => return fail("read-failed", e),
                }
            };
            rt::nontrivial();
            let w: &'static Shr<(sub::Calendar, String, Vec<Item>)> = leak(Shr((cal, doc, items)));
        rt::alloc::freeze();
            let mut hs = vec![];
            for _ in 0..threads {
                hs.push(spawn(move || look(w))?);
            }
            look(w)?;
            for h in hs {
                join(h)?;
            }
            rt::shared::file_put(0, w.get().0.to_string().as_bytes());
            Ok(())
        })?;
    }
    Ok(())
}
/// The same date-times with parameters of no consequence next to the zone, as others add them.
fn with_more(doc: &str) -> String {
    let mut out = String::new();
    let mut lines = doc.split_inclusive("\r\n").peekable();
    rt::hit("reached.parameters_beside_the_zone");
    while let Some(l) = lines.next() {
        let folded = lines.peek().map_or(false, |n| n.starts_with(' '));
        let name = ["DTSTART", "DTEND", "DUE"].iter().find(|n| l.starts_with(**n) && matches!(l.as_bytes()[n.len()], b':' | b';'));
        let (Some(name), false) = (name, folded) else {
            out.push_str(l);
            continue;
        };
        let more = || *pick(&["", ";X-A=1", ";VALUE=DATE-TIME", ";X-TZID=UTC", ";X-A=\"TZID=UTC;\"", ";X-A=b;X-C=d"]);
        let (first, last) = (more(), more());
        let last = if first == last { "" } else { last };
        let at = l.rfind(':').unwrap();
        out.push_str(name);
        out.push_str(first);
        out.push_str(&l[name.len()..at]);
        // no name twice
        out.push_str(if first.contains("X-A=") && last.contains("X-A=") { "" } else { last });
        out.push_str(&l[at..]);
    }
    out
}
fn chk(r: Result<(), String>) -> R {
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail("wrong-instant", e),
    }
}

fn look(w: &'static Shr<(sub::Calendar, String, Vec<Item>)>) -> R {
    let (cal, doc, items) = w.get();
    for _ in 0..range(1, 8) {
        match d(5) {
            0 => {
                let to = start_instant();
                rt::hit("fault.clock_stepped");
                rt::sched::clk_set(to);
            }
            1 => rt::sched::yield_now(),
            _ => {}
        }
        let i = d(items.len() as u64) as usize;
        let it = &items[i];
        let (a, b) = ((&it.a.t, it.a.instant), (&it.b.t, it.b.instant));
        rt::ev(80, i as u64, it.a.instant.unwrap_or(0) as u64);
        match d(4) {
            0 => {
                let x = sub::author_dt(&it.a.t, it.a.instant);
                chk(sub::check_authored(&x, &it.a.t, it.a.instant))?;
                let y = sub::author_dt(&it.b.t, it.b.instant);
                chk(sub::check_authored(&y, &it.b.t, it.b.instant))?;
                if let (Form::Tz(z), Some(k)) = (&it.a.t.form, sub::zone_known(&it.a.t)) {
                    if k == UNKNOWN.contains(&z.as_str()) {
                        return fail("wrong-zone", format!("zone {:?} is taken to be {}", z, if k { "known" } else { "unknown" }));
                    }
                }
            }
            1 => {
                let p = match sub::read_parsed(doc) {
                    Ok(p) => p,
                    Err(e) => return fail("read-failed", e),
                };
                match p.components.get(i) {
                    Some(c) => chk(sub::check_two_parsed(c, a, b))?,
                    None => return fail("wrong-instant", "a component is missing"),
                }
            }
            _ => match cal.get(i) {
                Some(c) => chk(sub::check_two(c, a, b))?,
                None => return fail("wrong-instant", "a component is missing"),
            },
        }
    }
    Ok(())
}
