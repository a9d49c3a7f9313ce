//! Many threads, shared and separate calendars, destinations that use the library themselves.
use crate::util::*;
use model::gen::Opts;
use model::{Cal, Inv};
use rt::{chance, d, note, pick, range};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject as sub;
use subject::{Fault, FmtSink};

struct Item {
    m: Cal,
    o: Obj,
    alone: Healthy,
    touched: usize,
    json: Option<String>,
}
struct Doc {
    text: String,
    exp: Cal,
    /// what every way of reading makes of it when nothing else goes on
    got: Vec<Result<sub::Got, String>>,
}
struct World {
    items: Vec<Item>,
    docs: Vec<Doc>,
    print: bool,
    crowd: bool,
}

fn touched(o: &Obj) -> usize {
    match o {
        Obj::Cal(c) => sub::touch_cal(c),
        Obj::Comp(c) => sub::touch_comp(c),
        Obj::Parsed(p) => p.components.iter().map(sub::touch_parsed).sum(),
        Obj::ParsedProp(_) => 0,
    }
}
fn json(o: &Obj) -> Option<String> {
    match o {
        Obj::Parsed(p) => sub::to_json(p, false).ok(),
        _ => None,
    }
}

pub fn run() -> R {
    let shy = sub::not_shareable();
    if !shy.is_empty() {
        return fail("not-shareable", format!("these types can no longer be shared between threads: {}", shy.join(", ")));
    }
    let big = chance(1, 6);
    let ms: Vec<(u64, Cal)> = (0..range(1, 4)).map(|_| (d(4), some_cal(if big { Opts::any() } else { Opts::small() }))).collect();
    // a crowd shares small things, many at a time
    let crowd = !big && chance(1, 5);
    let threads = if crowd { range(6, 20) } else { range(1, 6) } as usize;
    let mut cfg = world(true);
    cfg.preempt = *pick(if crowd { &[3, 4, 5, 6, 7, 8] } else { &[4, 6, 8, 10, 12, 14] }) as u32;
    cfg.even = crowd;
    let print = chance(1, 2);
    if print {
        rt::sched::stdout_plan(rt::StdoutPlan { chunk: *pick(&[0, 1, 30, 500]), eintr: *pick(&[0, 3]), ..Default::default() });
    }
    // now and then nothing of the library has been used before the threads begin
    let cold: &'static Vec<(Cal, String)> = leak(if chance(1, 4) { ms.iter().map(|(_, m)| (m.clone(), model::rfc::write(&m.as_comp(), &model::rfc::Style::gen()))).collect() } else { vec![] });
    inc(cfg, move || {
        if !cold.is_empty() {
            note(|| "nothing of the library was used before these threads".to_string());
            rt::alloc::freeze();
            let mut hs = vec![];
            for t in 0..threads {
                hs.push(spawn(move || cold_start(cold, t + 1))?);
            }
            cold_start(cold, 0)?;
            for h in hs {
                join(h)?;
            }
        }
        let mut w = World { items: vec![], docs: vec![], print, crowd };
        for (kind, m) in ms {
            let o = make_obj(kind, &m);
            let alone = Healthy::of(&o)?;
            if let Obj::Cal(_) | Obj::Parsed(_) = o {
                let roots = match rt::quiet(|| model::rfc::read(alone.a.as_bytes())) {
                    Ok(r) => r,
                    Err(e) => return fail("malformed-document", e),
                };
                let exp = Cal { props: roots[0].props.clone(), comps: roots[0].children.clone() };
                let text = if chance(1, 3) { model::rfc::reframe(&alone.a, &model::rfc::Style::gen()) } else { alone.a.clone() };
                let got = (0..sub::READ_ROUTES).map(|r| sub::read_doc(&text, r)).collect();
                w.docs.push(Doc { text, exp, got });
            }
            let (t, j) = (touched(&o), json(&o));
            w.items.push(Item { m, o, alone, touched: t, json: j });
        }
        let w: &'static Shr<World> = leak(Shr(w));
        rt::alloc::freeze();
        let mut hs = vec![];
        for t in 0..threads {
            hs.push(spawn(move || history(w.get(), t + 1))?);
        }
        let mut printed = history(w.get(), 0)?;
        for h in hs {
            printed.extend(join(h)?);
        }
        if threads > 0 {
            rt::nontrivial();
        }
        check_printed(w.get(), printed)?;
        for it in &w.get().items {
            let mark = rt::sched::clk_mark();
            let s = it.o.healthy()?;
            same_doc(it, s.as_bytes(), "afterwards, alone", mark)?;
        }
        Ok(())
    })
    .map(|_| ())
}

/// The first things a process does with the library, judged by what went in.
fn cold_start(cold: &'static [(Cal, String)], me: usize) -> R {
    for _ in 0..range(1, 2) {
        let (m, doc) = pick(cold);
        if chance(1, 2) {
            note(|| format!("t{}: builds and writes", me));
            let c = sub::build_cal(m);
            if let Err(e) = sub::check_typed_cal(&c, m) {
                return fail("interference-in-building", e);
            }
            match sub::write_cal(&c, d(5)) {
                Ok(s) => check_doc(&m.as_comp(), &s, Inv::Yes).map(|_| ())?,
                Err(e) => return fail("interference-in-writing", e),
            }
        } else {
            let r = *pick(&[0, 1, 2, 3, 4, 5, 6, 8]);
            note(|| format!("t{}: {}", me, sub::read_route_name(r)));
            match sub::read_doc(doc, r) {
                Ok(g) => {
                    if let Err(e) = rt::quiet(|| g.check(m)) {
                        return fail("interference-in-reading", format!("{}: {}", sub::read_route_name(r), e));
                    }
                }
                Err(e) => return fail("interference-in-reading", format!("{}: {}", sub::read_route_name(r), e)),
            }
        }
    }
    Ok(())
}

/// Gives the numbers of the items that were printed.
fn history(w: &'static World, me: usize) -> R<Vec<usize>> {
    let mut printed = vec![];
    if w.crowd {
        // all write the same thing at first
        let it = &w.items[0];
        let mark = rt::sched::clk_mark();
        let s = it.o.healthy()?;
        same_doc(it, s.as_bytes(), "while many others write it", mark)?;
    }
    for _ in 0..if w.crowd { range(1, 3) } else { range(1, 6) } {
        let i = d(w.items.len() as u64) as usize;
        if w.print && chance(1, 4) {
            if let Some(p) = print(w, i, me)? {
                printed.push(p);
            }
        } else {
            op(w, i, me, 0)?;
        }
        if chance(1, 4) {
            rt::sched::yield_now();
        }
    }
    Ok(printed)
}

fn same_doc(it: &Item, got: &[u8], when: &str, mark: rt::sched::Mark) -> R {
    match it.alone.whole(got) {
        Ok(()) => check_invented(it.alone.invented(got).iter().map(|(n, v)| (*n, v.as_str())), mark),
        Err(e) => fail("interference-in-writing", format!("a {} written {} is not what it is when written alone: {}", it.o.kind(), when, e)),
    }
}

fn op(w: &'static World, i: usize, me: usize, depth: u32) -> R {
    let it = &w.items[i];
    let k = d(12);
    let mark = rt::sched::clk_mark();
    rt::ev(60, k, me as u64);
    if depth == 0 {
        note(|| format!("t{}: operation {} on item {}", me, k, i));
    }
    match k {
        0 | 1 => {
            let s = it.o.healthy()?;
            same_doc(it, s.as_bytes(), "while others are at work", mark)
        }
        2 => {
            let mut s = choppy();
            match it.o.to_io(&mut s) {
                Some(Ok(())) => same_doc(it, &s.got, "to a stream while others are at work", mark),
                Some(Err(e)) => fail("interference-in-writing", format!("writing to a healthy stream fails: {}", e)),
                None => Ok(()),
            }
        }
        3 | 4 if !w.docs.is_empty() => {
            let doc = pick(&w.docs);
            let r = d(sub::READ_ROUTES);
            let g = sub::read_doc(&doc.text, r);
            if !rt::quiet(|| g == doc.got[r as usize]) {
                return fail("interference-in-reading", format!("{} gives another result than alone: {}", sub::read_route_name(r), cut(&format!("{:?} instead of {:?}", g, doc.got[r as usize]))));
            }
            if let (Ok(g), true) = (&g, r != 7) {
                if let Err(e) = rt::quiet(|| g.check(&doc.exp)) {
                    return fail("interference-in-reading", format!("{}: {}", sub::read_route_name(r), e));
                }
            }
            Ok(())
        }
        5 => {
            // a separate calendar, built here
            let c = sub::build_cal(&it.m);
            if let Err(e) = sub::check_typed_cal(&c, &it.m) {
                return fail("interference-in-building", e);
            }
            let s = match sub::write_cal(&c, d(5)) {
                Ok(s) => s,
                Err(e) => return fail("interference-in-writing", e),
            };
            check_doc(&it.m.as_comp(), &s, Inv::Yes).map(|_| ())
        }
        6 => {
            let n = touched(&it.o);
            if n != it.touched {
                return fail("interference-in-accessors", format!("the accessors of a {} give {} instead of {}", it.o.kind(), n, it.touched));
            }
            Ok(())
        }
        7 => {
            if json(&it.o) != it.json {
                return fail("interference-in-json", "the JSON of a parsed calendar is not what it is alone");
            }
            if let (Some(j), Obj::Parsed(p)) = (&it.json, &it.o) {
                match sub::from_json(j, d(3), |q| sub::parsed_eq(p, q)) {
                    Ok(true) => {}
                    Ok(false) => return fail("interference-in-json", "JSON reads back as another calendar than alone"),
                    Err(e) => return fail("interference-in-json", e),
                }
            }
            Ok(())
        }
        8 => {
            let c = it.o.copy();
            let s = c.healthy()?;
            same_doc(it, s.as_bytes(), "from a copy", mark)?;
            if !c.same(&it.o) {
                return fail("interference-in-copies", format!("a copy of a {} is not equal to it", it.o.kind()));
            }
            Ok(())
        }
        9 if depth < 2 => nested(w, i, me, depth),
        10 => {
            trouble(w, i, me);
            Ok(())
        }
        11 if depth == 0 => {
            // built here, written and dropped elsewhere
            let c = Shr(sub::build_cal(&it.m));
            let m = &it.m;
            let h = spawn(move || {
                let c = { c }.0;
                let s = match sub::write_cal(&c, d(5)) {
                    Ok(s) => s,
                    Err(e) => return fail("interference-in-writing", e),
                };
                check_doc(&m.as_comp(), &s, Inv::Yes).map(|_| ())
            })?;
            if chance(1, 2) {
                op(w, i, me, 1)?;
            }
            join(h)
        }
        _ => Ok(()),
    }
}

/// A destination that uses the library itself while it is being written to.
fn nested(w: &'static World, i: usize, me: usize, depth: u32) -> R {
    let it = &w.items[i];
    rt::hit("reached.nested_use");
    let at: Vec<u64> = (0..range(1, 3)).map(|_| if chance(1, 2) { d(30) } else { d(it.alone.a.len() as u64 / 12 + 8) }).collect();
    let fault = if chance(1, 4) { gen_fault(it.alone.a.len(), 20) } else { Fault::None };
    let mut res: R = Ok(());
    let mark = rt::sched::clk_mark();
    let (r, got) = {
        let mut hook = |n: u64| {
            if at.contains(&n) && res.is_ok() {
                let j = d(w.items.len() as u64) as usize;
                res = op(w, j, me, depth + 1);
            }
        };
        let mut f = FmtSink::new(fault);
        f.hook = Some(&mut hook);
        let r = it.o.to_fmt(&mut f);
        (r, std::mem::take(&mut f.got))
    };
    res?;
    if fault == Fault::None {
        if r.is_err() {
            return fail("interference-in-writing", "writing to a destination that uses the library fails");
        }
        return same_doc(it, &got, "to a destination that uses the library itself", mark);
    }
    match it.alone.prefix(&got) {
        Ok(()) => Ok(()),
        Err(e) => fail("interference-in-writing", format!("what a refusing destination that uses the library itself got is not the leading part: {}", e)),
    }
}

/// Failing, panicking, dying and stalling peers.
fn trouble(w: &'static World, i: usize, me: usize) {
    let it = &w.items[i];
    let n = it.alone.a.len();
    match d(4) {
        0 => {
            it.o.to_fmt(&mut FmtSink::new(gen_fault(n, 20))).ok();
        }
        1 => {
            let at = d(n as u64) as usize;
            catch_unwind(AssertUnwindSafe(|| it.o.to_fmt(&mut FmtSink::new(Fault::PanicByte(at))).ok())).ok();
        }
        2 => {
            let at = d(n as u64) as usize;
            note(|| format!("t{}: a thread dies while writing item {}", me, i));
            if let Ok(h) = spawn(move || {
                it.o.to_fmt(&mut FmtSink::new(Fault::PanicByte(at))).ok();
                Ok(())
            }) {
                if chance(1, 2) {
                    h.join().ok();
                }
            }
        }
        _ => {
            let at = d(12);
            note(|| format!("t{}: a thread stalls for good while writing item {}", me, i));
            spawn(move || {
                it.o.to_fmt(&mut FmtSink::new(Fault::BlockCall(at))).ok();
                Ok(())
            })
            .ok();
        }
    }
}

fn print(w: &'static World, i: usize, me: usize) -> R<Option<usize>> {
    let it = &w.items[i];
    note(|| format!("t{}: prints item {}", me, i));
    let r = match &it.o {
        Obj::Cal(c) => sub::print_cal(c),
        Obj::Comp(c) => sub::print_comp(c),
        Obj::Parsed(c) => sub::print_parsed(c),
        Obj::ParsedProp(_) => return Ok(None),
    };
    match r {
        Ok(()) => Ok(Some(i)),
        Err(()) => fail("interference-in-printing", "printing to a healthy standard output fails"),
    }
}
/// Standard output holds every document whole, in some order.
fn check_printed(w: &World, mut todo: Vec<usize>) -> R {
    // what is left in the buffer comes out now
    use std::io::Write;
    std::io::stdout().flush().ok();
    let out = rt::sched::stdout_take();
    let mut rest: &[u8] = &out;
    while !rest.is_empty() {
        // documents end at the END of their root
        let mut hit = None;
        for (k, i) in todo.iter().enumerate() {
            let it = &w.items[*i];
            let n = it.alone.a.len();
            if rest.len() >= n + 2 && it.alone.whole(&rest[..n]).is_ok() && &rest[n..n + 2] == b"\r\n" {
                hit = Some((k, n + 2));
                break;
            }
        }
        match hit {
            Some((k, n)) => {
                todo.swap_remove(k);
                rest = &rest[n..];
            }
            None => return fail("interference-in-printing", format!("documents printed at the same time are mixed up; {:?} does not begin with any of those still missing", cut(&String::from_utf8_lossy(rest)))),
        }
    }
    if !todo.is_empty() {
        return fail("interference-in-printing", format!("{} printed documents are missing from standard output", todo.len()));
    }
    Ok(())
}
