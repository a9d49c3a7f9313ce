//! Histories of container and builder operations, with suppliers that panic half-way.
use crate::util::*;
use model::gen::{Opts, Swarm};
use model::{Cal, Comp, Prop};
use rt::{chance, d, note, pick, range};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use subject as sub;

struct Slot {
    cal: sub::Calendar,
    m: Cal,
}
struct World {
    slots: Vec<Slot>,
    sw: Swarm,
    n: u64,
    last: Option<Comp>,
}
type W = Mutex<Shr<World>>;

pub fn run() -> R {
    let sw = Swarm::gen(if chance(1, 6) { Opts::any() } else { Opts::small() });
    let threads = *pick(&[0usize, 0, 1, 2, 3]);
    let cfg = world(threads > 0);
    inc(cfg, move || {
        let mut w = World { slots: vec![], sw, n: 0, last: None };
        for _ in 0..3 {
            let empty = chance(1, 3);
            w.slots.push(Slot { cal: if empty { sub::Calendar::empty() } else { sub::Calendar::new() }, m: Cal { props: if empty { vec![] } else { defaults() }, comps: vec![] } });
        }
        let w: &'static W = leak(Mutex::new(Shr(w)));
        let mut hs = vec![];
        for t in 0..threads {
            hs.push(spawn(move || history(w, t + 1))?);
        }
        history(w, 0)?;
        for h in hs {
            join(h)?;
        }
        let mut g = lock(w);
        let w = &mut g.0;
        for i in 0..3 {
            look(w, i, "at the end")?;
        }
        // and what is written has them in order, too
        let i = d(3) as usize;
        let s = &w.slots[i];
        let doc = s.cal.to_string();
        check_doc(&s.m.as_comp(), &doc, model::Inv::Yes)?;
        rt::nontrivial();
        Ok(())
    })
    .map(|_| ())
}
fn defaults() -> Vec<Prop> {
    vec![Prop::new("VERSION", "2.0"), Prop::new("PRODID", "ICALENDAR-RS"), Prop::new("CALSCALE", "GREGORIAN")]
}
fn lock(w: &'static W) -> std::sync::MutexGuard<'static, Shr<World>> {
    match w.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
fn look(w: &World, i: usize, when: &str) -> R {
    let s = &w.slots[i];
    match rt::quiet(|| sub::views(&s.cal, &s.m)) {
        Ok(()) => Ok(()),
        Err(e) => fail("not-the-sequence", format!("calendar {} {}: {}", i, when, e)),
    }
}
fn fresh(w: &mut World) -> R<(sub::CalendarComponent, Comp)> {
    w.n += 1;
    let k = w.sw.top_kind();
    let mut m = w.sw.comp(k, 1);
    set(&mut m, Prop::new("X-NUMBER", &w.n.to_string()));
    match (&w.last, d(8)) {
        // another version of the one before, or the very same again
        (Some(l), 5 | 6) => {
            if let Some(u) = l.get("UID").cloned() {
                m.props.retain(|p| p.name != "UID");
                m.kind = l.kind.clone();
                m.props.push(u);
            }
        }
        (Some(l), 7) => m = l.clone(),
        _ => {}
    }
    if m.get("UID").is_none() && chance(1, 4) {
        let mut p = Prop::new("UID", &format!("number-{}", w.n));
        p.typed = None;
        m.props.push(p);
    }
    w.last = Some(m.clone());
    let c = sub::build_comp(&m);
    // which of its properties may be repeated, the object knows
    let mut got = sub::ex_comp(&c);
    sub::adopt_durations(&mut m, &got);
    if let Err(e) = rt::quiet(|| model::compare(&m, &got, model::Inv::No, "", &mut vec![])) {
        return fail("not-what-was-set", e);
    }
    got.props.sort_by_key(|p| p.multi);
    Ok((c, got))
}
fn several(w: &mut World) -> R<(Vec<sub::CalendarComponent>, Vec<Comp>)> {
    let n = *pick(&[0u64, 1, 1, 2, 3, 5, 9]);
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..n {
        let (c, m) = fresh(w)?;
        a.push(c);
        b.push(m);
    }
    Ok((a, b))
}
/// A single property replaces its predecessor.
fn set(c: &mut Comp, p: Prop) {
    c.props.retain(|q| q.multi || q.name != p.name);
    c.props.push(p);
    c.props.sort_by_key(|p| p.multi);
}

fn history(w: &'static W, me: usize) -> R {
    for _ in 0..range(2, 14) {
        let die = chance(1, 12);
        if die {
            // the thread that does it dies of it, holding the lock
            let h = spawn(move || {
                let mut g = lock(w);
                op(&mut g.0, 99)?;
                rt::hit("fault.thread_died_holding_the_lock");
                std::panic::panic_any(sub::SinkPanic);
                #[allow(unreachable_code)]
                Ok(())
            })?;
            match h.join() {
                Ok(r) => r?,
                Err(_) => {}
            }
        } else {
            op(&mut lock(w).0, me)?;
        }
        if chance(1, 3) {
            rt::sched::yield_now();
        }
    }
    Ok(())
}

fn op(w: &mut World, me: usize) -> R {
    let i = d(3) as usize;
    let j = (i + 1 + d(2) as usize) % 3;
    let k = if chance(1, 60) { 19 } else { d(19) };
    rt::ev(90, k, (me * 10 + i) as u64);
    note(|| format!("t{}: operation {} on calendar {} (and {})", me, k, i, j));
    match k {
        0 | 1 | 2 => {
            let (c, m) = fresh(w)?;
            sub::push_one(&mut w.slots[i].cal, c);
            w.slots[i].m.comps.push(m);
        }
        3 | 4 => {
            let (v, m) = several(w)?;
            sub::extend_vec(&mut w.slots[i].cal, v);
            w.slots[i].m.comps.extend(m);
        }
        5 | 6 => return supplied(w, i, j, false),
        7 => return supplied(w, i, j, true),
        8 => {
            let (a, b) = two(w, i, j);
            sub::append_cal(&mut a.cal, &mut b.cal);
            a.m.comps.append(&mut b.m.comps);
        }
        9 => {
            let (v, m) = several(w)?;
            w.slots[i] = Slot { cal: sub::collect_vec(v), m: Cal { props: defaults(), comps: m } };
        }
        10 => {
            let (a, b) = two(w, i, j);
            a.cal = sub::done_cal(&mut b.cal);
            a.m = std::mem::take(&mut b.m);
        }
        11 => {
            // builders hand over everything
            let s = &mut w.slots[i];
            if !s.m.comps.is_empty() {
                let n = d(s.m.comps.len() as u64) as usize;
                if sub::has_done(&s.cal.components[n]) {
                    let c = sub::done_comp(&mut s.cal.components[n]);
                    let kind = s.m.comps[n].kind.clone();
                    let m = std::mem::replace(&mut s.m.comps[n], Comp { kind, ..Default::default() });
                    look(w, i, "after one of its components was done")?;
                    sub::push_one(&mut w.slots[i].cal, c);
                    w.slots[i].m.comps.push(m);
                }
            }
        }
        12 | 13 => {
            // set again, add again
            if !w.slots[i].m.comps.is_empty() {
                let n = d(w.slots[i].m.comps.len() as u64) as usize;
                for _ in 0..range(1, 4) {
                    let mut p = edit(w, i, n);
                    p.typed = None;
                    sub::edit_comp(&mut w.slots[i].cal.components[n], &p);
                    let m = &mut w.slots[i].m.comps[n];
                    if p.multi {
                        m.props.push(p);
                    } else {
                        set(m, p);
                    }
                }
                if chance(1, 3) {
                    let mut ch = w.sw.comp("X-CHILD", 9);
                    ch.props.retain(|p| !p.multi);
                    ch.props.iter_mut().for_each(|p| p.typed = None);
                    sub::add_child_to(&mut w.slots[i].cal.components[n], &ch);
                    w.slots[i].m.comps[n].children.push(ch);
                }
            }
        }
        14 => {
            let t = w.sw.text(true, false);
            let secs = d(100_000) as i64;
            let which = d(5);
            let s = &mut w.slots[i];
            let add: Vec<Prop> = match which {
                0 => vec![Prop::new("NAME", &t), Prop::new("X-WR-CALNAME", &t)],
                1 => vec![Prop::new("DESCRIPTION", &t), Prop::new("X-WR-CALDESC", &t)],
                2 => vec![Prop::new("TIMEZONE-ID", &t), Prop::new("X-WR-TIMEZONE", &t)],
                3 => {
                    let mut p = Prop::new("REFRESH-INTERVAL", &sub::ttl_text(secs));
                    p.params.push(("VALUE".into(), "DURATION".into()));
                    vec![p, Prop::new("X-PUBLISHED-TTL", &sub::ttl_text(secs))]
                }
                _ => {
                    let p = Prop { params: vec![("X-P".into(), t.replace('"', ""))], ..Prop::new("X-FOO", "again") };
                    sub::push_calprop(&mut s.cal, &p);
                    s.m.props.push(p);
                    vec![]
                }
            };
            if which < 4 {
                sub::set_calprops(&mut s.cal, which, &t, secs);
            }
            s.m.props.extend(add);
        }
        15 => {
            // a conversion that panics changes nothing
            let s = &mut w.slots[i];
            let r = d(4);
            let n = s.m.comps.len();
            let _ = catch_unwind(AssertUnwindSafe(|| match r {
                0 => sub::push_bomb(&mut s.cal),
                1 => sub::calprop_bomb(&mut s.cal),
                r if n > 0 => sub::comp_bomb(&mut s.cal.components[d(n as u64) as usize], r == 2),
                _ => {}
            }));
        }
        16 => {
            let copy = sub::clone_cal(&w.slots[i].cal);
            if copy != w.slots[i].cal {
                return fail("not-the-sequence", format!("a copy of calendar {} is not equal to it", i));
            }
            let m = w.slots[i].m.clone();
            w.slots[j] = Slot { cal: copy, m };
        }
        17 => {
            // what was taken out can be put elsewhere
            let (a, b) = two(w, i, j);
            let v = std::mem::take(&mut b.cal.components);
            sub::extend_vec(&mut a.cal, v);
            a.m.comps.append(&mut b.m.comps);
        }
        19 => bulk(w, i)?,
        _ => {
            let (a, b) = (&w.slots[i], &w.slots[j]);
            let same = rt::quiet(|| model::compare_cal(&a.m, &b.m, model::Inv::No).is_ok());
            if same && a.m.props != b.m.props {
                // order of calendar properties counts
            } else if !same && a.cal == b.cal {
                return fail("not-the-sequence", format!("calendars {} and {} are equal but hold different components", i, j));
            }
        }
    }
    look(w, i, "after the operation")?;
    look(w, j, "after an operation on another one")
}
fn two(w: &mut World, i: usize, j: usize) -> (&mut Slot, &mut Slot) {
    let (lo, hi) = (i.min(j), i.max(j));
    let (x, y) = w.slots.split_at_mut(hi);
    if i < j {
        (&mut x[lo], &mut y[0])
    } else {
        (&mut y[0], &mut x[lo])
    }
}
/// Very many of something, one after the other.
fn bulk(w: &mut World, i: usize) -> R {
    let many = *pick(&[70u64, 130, 260, 300, 520, 1030, 2050]);
    let what = if w.slots[i].m.comps.is_empty() { 3 } else { d(4) };
    note(|| format!("{} times, kind {}", many, what));
    rt::hit("reached.bulk");
    for x in 0..many {
        let s = &mut w.slots[i];
        match what {
            0 | 1 => {
                let n = s.m.comps.len() - 1;
                let m = &mut s.m.comps[n];
                let mut p = Prop::new(&if what == 0 { "COMMENT".into() } else { format!("X-{}", x * 7919 % 4099) }, &format!("number {}", x));
                p.multi = what == 0;
                rt::quiet(|| sub::edit_comp(&mut s.cal.components[n], &p));
                if p.multi {
                    m.props.push(p);
                } else {
                    set(m, p);
                }
            }
            2 => {
                let n = s.m.comps.len() - 1;
                let m = &mut s.m.comps[n];
                let mut ch = Comp { kind: "X-CHILD".into(), ..Default::default() };
                ch.props.push(Prop::new("X-N", &x.to_string()));
                rt::quiet(|| sub::add_child_to(&mut s.cal.components[n], &ch));
                m.children.push(ch);
            }
            _ => {
                let mut m = Comp { kind: "VEVENT".into(), ..Default::default() };
                m.props.push(Prop::new("X-N", &x.to_string()));
                let c = rt::quiet(|| sub::build_comp(&m));
                sub::push_one(&mut s.cal, c);
                s.m.comps.push(m);
            }
        }
    }
    Ok(())
}
fn edit(w: &mut World, i: usize, n: usize) -> Prop {
    let m = &w.slots[i].m.comps[n];
    let names: Vec<String> = m.props.iter().map(|p| p.name.clone()).filter(|n| !matches!(n.as_str(), "ACTION" | "TRIGGER")).collect();
    let name = if !names.is_empty() && chance(1, 2) { pick(&names).clone() } else { pick(&["X-AGAIN", "SUMMARY", "COMMENT", "ATTENDEE", "summary"]).to_string() };
    w.n += 1;
    let mut p = Prop::new(&name, &format!("edit {}", w.n));
    p.multi = chance(1, 2);
    // the same value again, or nearly
    let was = w.slots[i].m.comps[n].props.iter().find(|q| q.name == name);
    if let (Some(q), true) = (was, chance(1, 4)) {
        p.val = q.val.clone();
        if chance(1, 2) {
            p.params = q.params.clone();
        } else {
            // what says how the value is written stays with it
            p.params = q.params.iter().filter(|q| q.0.eq_ignore_ascii_case("VALUE")).cloned().collect();
        }
    }
    if chance(1, 3) {
        p.params.retain(|q| q.0 != "X-EDIT");
        p.params.push(("X-EDIT".into(), w.n.to_string()));
    }
    p
}

/// The components come from somewhere that may fail, or use other calendars meanwhile.
fn supplied(w: &mut World, i: usize, j: usize, collect: bool) -> R {
    let (v, m) = several(w)?;
    let n = v.len() as u64;
    let panic_at = if chance(2, 3) { Some(d(n + 2)) } else { None };
    let hint = d(4) as u8;
    let with_hook = chance(1, 3);
    let extra = if with_hook { vec![fresh(w)?, fresh(w)?] } else { vec![] };
    let (a, b) = two(w, i, j);
    let before = a.m.comps.len();
    let mut extra = extra.into_iter();
    let Slot { cal: bc, m: bm } = b;
    let mut hook = |_: u64| {
        if let Some((c, m)) = extra.next() {
            sub::push_one(bc, c);
            bm.comps.push(m);
        }
    };
    let mut s = sub::Supplier::new(v);
    s.panic_at = panic_at;
    s.hint = hint;
    if with_hook {
        s.hook = Some(&mut hook);
    }
    if collect {
        let r = catch_unwind(AssertUnwindSafe(|| sub::collect_with(s)));
        match (r, panic_at.map_or(false, |p| p <= n)) {
            (Ok(c), false) => *a = Slot { cal: c, m: Cal { props: defaults(), comps: m } },
            (Err(_), true) => {}
            (Ok(_), true) => return fail("not-the-sequence", "collecting from a supplier that panics returns"),
            (Err(_), false) => return fail("panic", "collecting from a healthy supplier panics"),
        }
    } else {
        let r = catch_unwind(AssertUnwindSafe(|| sub::extend_with(&mut a.cal, s)));
        let want_panic = panic_at.map_or(false, |p| p <= n);
        if r.is_err() != want_panic {
            return fail(if want_panic { "not-the-sequence" } else { "panic" }, format!("extending from a supplier that {}", if want_panic { "panics returns" } else { "is healthy panics" }));
        }
        let all = a.cal.components.len();
        if all < before || all > before + m.len() || (!want_panic && all != before + m.len()) || (want_panic && all as u64 - before as u64 > panic_at.unwrap_or(0)) {
            return fail("not-the-sequence", format!("{} components after {} were offered to a calendar of {}", all, m.len(), before));
        }
        // those handed over before the panic may have arrived, the leading ones first
        a.m.comps.extend(m.into_iter().take(all - before));
    }
    look(w, i, "after components were supplied")?;
    look(w, j, "after a supplier used it")
}
