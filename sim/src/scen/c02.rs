use crate::util::*;
use model::gen::Opts;
use model::Cal;
use rt::{chance, d, note, range};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject as sub;
use subject::{Fault, FmtSink};

struct Shared {
    objs: Vec<(Obj, Obj, Healthy, usize)>,
    models: Vec<Cal>,
    docs: Vec<(String, Cal)>,
}

pub fn run() -> R {
    let n_obj = range(1, 3) as usize;
    let ms: Vec<(u64, Cal)> = (0..n_obj).map(|_| (d(4), some_cal(if chance(1, 5) { Opts::any() } else { Opts::small() }))).collect();
    let threads = *rt::pick(&[0usize, 1, 2, 3]);
    let cfg = world(true);
    inc(cfg, move || {
        let mut sh = Shared { objs: vec![], models: vec![], docs: vec![] };
        for (i, (kind, m)) in ms.into_iter().enumerate() {
            let o = make_obj(kind, &m);
            let h = Healthy::of(&o)?;
            o.check_doc(&m, &h.a)?;
            if let Obj::Cal(_) | Obj::Parsed(_) = o {
                // a document of its own for reading: with everything invented filled in
                let roots = match rt::quiet(|| model::rfc::read(h.a.as_bytes())) {
                    Ok(r) => r,
                    Err(e) => return fail("malformed-document", e),
                };
                let c = Cal { props: roots[0].props.clone(), comps: roots[0].children.clone() };
                sh.docs.push((h.a.clone(), c));
            }
            let copy = o.copy();
            sh.objs.push((o, copy, h, i));
            sh.models.push(m);
        }
        let sh: &'static Shr<Shared> = leak(Shr(sh));
        rt::alloc::freeze();
        let mut hs = vec![];
        for t in 0..threads {
            hs.push(spawn(move || history(sh, t + 1))?);
        }
        ALONE.store(threads == 0, core::sync::atomic::Ordering::Relaxed);
        history(sh, 0)?;
        for h in hs {
            join(h)?;
        }
        // afterwards, alone
        for i in 0..sh.0.objs.len() {
            healthy(sh, i, d(3), 99)?;
            unchanged(sh, i)?;
        }
        Ok(())
    })
    .map(|_| ())
}

/// No other thread uses standard output.
static ALONE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);

/// Standard output fails, is repaired, and is printed to again.
fn printed(sh: &'static Shr<Shared>, i: usize, me: usize) -> R {
    use rt::sched::{stdout_plan, stdout_take, StdoutPlan};
    use std::io::Write;
    let (o, _, h, _) = &sh.get().objs[i];
    if let Obj::ParsedProp(_) = o {
        return Ok(());
    }
    rt::nontrivial();
    let at = d(h.a.len() as u64 + 2) as usize;
    let errno = *rt::pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN]);
    stdout_plan(StdoutPlan { chunk: *rt::pick(&[0, 1, 40]), eintr: *rt::pick(&[0, 3]), fail_at: Some(at), errno });
    let r = catch_unwind(AssertUnwindSafe(|| super::c12::print(o)));
    note(|| format!("t{}: printing object {} to a standard output that fails after {} bytes: {:?}", me, i, at, r.map_err(|_| "panic")));
    // what the standard library's buffer still holds is of no concern
    stdout_plan(StdoutPlan::default());
    std::io::stdout().flush().ok();
    stdout_take();
    let j = d(sh.get().objs.len() as u64) as usize;
    let (o, _, h, _) = &sh.get().objs[j];
    if let Obj::ParsedProp(_) = o {
        return Ok(());
    }
    let mark = rt::sched::clk_mark();
    let ok = super::c12::print(o).is_ok();
    std::io::stdout().flush().ok();
    let out = stdout_take();
    note(|| format!("t{}: printing object {} again: {} bytes", me, j, out.len()));
    if !ok {
        return fail("later-write-fails", format!("printing a {} to a standard output that works again fails", o.kind()));
    }
    let Some(doc) = out.strip_suffix(b"\r\n") else {
        return fail("later-write-damaged", format!("a {} printed after printing failed lacks its last line break", o.kind()));
    };
    if let Err(e) = h.whole(doc) {
        return fail("later-write-damaged", format!("a {} printed after printing failed is not its document: {}", o.kind(), e));
    }
    let inv = o.check_doc(&sh.get().models[sh.get().objs[j].3], &String::from_utf8_lossy(doc))?;
    check_invented(inv.iter().map(|(_, what, v)| (*what, v.as_str())), mark)
}

fn history(sh: &'static Shr<Shared>, me: usize) -> R {
    let s = sh.get();
    for _ in 0..range(1, 6) {
        let i = d(s.objs.len() as u64) as usize;
        match d(14) {
            11 if ALONE.load(core::sync::atomic::Ordering::Relaxed) => printed(sh, i, me)?,
            0 | 1 => refused(sh, i, me),
            2 | 3 => panicking(sh, i, me)?,
            4 => {
                if d(2) == 1 {
                    // abandoned half-way: the thread never comes back
                    let at = d(12);
                    note(|| format!("t{}: a thread starts writing object {} to a destination that stalls at call {}", me, i, at));
                    spawn(move || {
                        let mut f = FmtSink::new(Fault::BlockCall(at));
                        sh.get().objs[i].0.to_fmt(&mut f).ok();
                        Ok(())
                    })?;
                    rt::sched::yield_now();
                } else {
                    refused(sh, i, me)
                }
            }
            5 if !s.docs.is_empty() => read(sh, me)?,
            6 => unchanged(sh, i)?,
            12 | 13 => within(sh, i, me)?,
            9 => burst(sh, i, me)?,
            10 if !s.docs.is_empty() => torn(sh, me),
            _ => healthy(sh, i, d(3), me)?,
        }
        // whatever happened: the next one works
        let j = d(s.objs.len() as u64) as usize;
        if chance(2, 3) {
            healthy(sh, j, d(3), me)?;
        } else if !s.docs.is_empty() {
            read(sh, me)?;
        }
    }
    Ok(())
}

/// Attempts that fail while another write is under way on the same thread.
fn within(sh: &'static Shr<Shared>, i: usize, me: usize) -> R {
    let s = sh.get();
    let (o, _, h, mi) = &s.objs[i];
    let calls = h.a.len() as u64 / 12 + 8;
    let at: Vec<u64> = (0..range(1, 4)).map(|_| if chance(1, 2) { d(40) } else { d(calls) }).collect();
    let mark = rt::sched::clk_mark();
    let mut res: R = Ok(());
    note(|| format!("t{}: write of object {} during which others are attempted at calls {:?}", me, i, at));
    rt::hit("reached.failure_within_a_write");
    let (r, got) = {
        let mut hook = |n: u64| {
            if at.contains(&n) && res.is_ok() {
                let j = d(s.objs.len() as u64) as usize;
                match d(4) {
                    0 => refused(sh, j, me),
                    1 if !s.docs.is_empty() => torn(sh, me),
                    2 => res = healthy(sh, j, 2, me),
                    _ => res = panicking(sh, j, me),
                }
            }
        };
        let mut f = FmtSink::new(Fault::None);
        f.hook = Some(&mut hook);
        let r = o.to_fmt(&mut f);
        (r, std::mem::take(&mut f.got))
    };
    res?;
    if r.is_err() {
        return fail("later-write-fails", format!("writing a {} to a healthy destination fails because others failed meanwhile", o.kind()));
    }
    let doc = String::from_utf8(got).unwrap_or_default();
    if let Err(e) = h.whole(doc.as_bytes()) {
        return fail("later-write-damaged", format!("a healthy write of a {} during which others failed is not its document: {}", o.kind(), e));
    }
    let inv = o.check_doc(&s.models[*mi], &doc)?;
    check_invented(inv.iter().map(|(_, what, v)| (*what, v.as_str())), mark)
}

/// The same failure many times over: whatever is counted or collected adds up.
fn burst(sh: &'static Shr<Shared>, i: usize, me: usize) -> R {
    let (o, _, h, _) = &sh.get().objs[i];
    rt::nontrivial();
    let n = *rt::pick(&[3u64, 12, 40, 140, 300]).min(&(200_000 / (h.a.len() as u64 + 1) + 2));
    let fault = match d(4) {
        0 => Fault::PanicByte(d(h.a.len() as u64) as usize),
        1 => Fault::PanicCall(d(20)),
        _ => gen_fault(h.a.len(), 40),
    };
    note(|| format!("t{}: {} writes of object {} to {:?}", me, n, i, fault));
    for _ in 0..n {
        let mut f = FmtSink::new(fault);
        let _ = catch_unwind(AssertUnwindSafe(|| o.to_fmt(&mut f)));
    }
    Ok(())
}
/// An attempt to read that fails.
fn torn(sh: &'static Shr<Shared>, me: usize) {
    let (doc, _) = rt::pick(&sh.get().docs);
    let route = d(6);
    let mut at = d(doc.len() as u64) as usize;
    while !doc.is_char_boundary(at) {
        at -= 1;
    }
    let n = *rt::pick(&[1u64, 1, 10, 50, 300, 1100]).min(&(70_000 / (at as u64 + 60) + 1));
    note(|| format!("t{}: reading the first {} bytes by {}, {} times", me, at, sub::read_route_name(route), n));
    for _ in 0..n {
        let _ = catch_unwind(AssertUnwindSafe(|| sub::read_doc(&doc[..at], route).is_ok()));
    }
}

fn refused(sh: &'static Shr<Shared>, i: usize, me: usize) {
    let (o, _, h, _) = &sh.get().objs[i];
    rt::nontrivial();
    if d(2) == 0 {
        let mut f = FmtSink::new(gen_fault(h.a.len(), 40));
        let r = catch_unwind(AssertUnwindSafe(|| o.to_fmt(&mut f)));
        note(|| format!("t{}: write of object {} to {:?}: {:?}", me, i, f.fault, r.map_err(|_| "panic")));
    } else {
        let mut f = choppy();
        f.kind = io_kind();
        f.zero = chance(1, 4);
        f.fail_at = Some(d(h.a.len() as u64) as usize);
        let r = catch_unwind(AssertUnwindSafe(|| o.to_io(&mut f).map(|r| r.is_ok())));
        note(|| format!("t{}: write of object {} to a stream failing at {:?}: {:?}", me, i, f.fail_at, r.map_err(|_| "panic")));
    }
}
fn panicking(sh: &'static Shr<Shared>, i: usize, me: usize) -> R {
    let (o, _, h, _) = &sh.get().objs[i];
    rt::nontrivial();
    let fault = if d(2) == 0 { Fault::PanicByte(d(h.a.len() as u64) as usize) } else { Fault::PanicCall(d(20)) };
    let die = chance(1, 3);
    note(|| format!("t{}: write of object {} to a destination that panics: {:?}{}", me, i, fault, if die { ", in a thread that dies of it" } else { "" }));
    if die {
        let h = spawn(move || {
            let mut f = FmtSink::new(fault);
            sh.get().objs[i].0.to_fmt(&mut f).ok();
            Ok(())
        })?;
        let _ = h.join();
    } else {
        let mut f = FmtSink::new(fault);
        let _ = catch_unwind(AssertUnwindSafe(|| o.to_fmt(&mut f)));
    }
    Ok(())
}
fn healthy(sh: &'static Shr<Shared>, i: usize, route: u64, me: usize) -> R {
    let (o, _, h, mi) = &sh.get().objs[i];
    if chance(1, 4) {
        rt::sched::clk_advance(*rt::pick(&[1_000_000_000i64, 3_600_000_000_000]));
    }
    let mark = rt::sched::clk_mark();
    let doc = match route {
        0 => o.healthy()?,
        1 => {
            let mut s = choppy();
            match o.to_io(&mut s) {
                Some(Ok(())) => match String::from_utf8(s.got) {
                    Ok(s) => s,
                    Err(_) => return fail("later-write-damaged", "the bytes delivered are not UTF-8"),
                },
                Some(Err(e)) => return fail("later-write-fails", format!("writing a {} to a healthy stream fails: {}", o.kind(), e)),
                None => o.healthy()?,
            }
        }
        _ => {
            let mut f = FmtSink::new(Fault::None);
            if o.to_fmt(&mut f).is_err() {
                return fail("later-write-fails", format!("writing a {} to a healthy destination fails", o.kind()));
            }
            String::from_utf8(f.got).unwrap_or_default()
        }
    };
    rt::ev(22, doc.len() as u64, i as u64);
    note(|| format!("t{}: healthy write of object {}: {} bytes", me, i, doc.len()));
    if let Err(e) = h.whole(doc.as_bytes()) {
        return fail("later-write-damaged", format!("a healthy write of a {} after failed ones is not its document: {}", o.kind(), e));
    }
    let inv = o.check_doc(&sh.get().models[*mi], &doc)?;
    check_invented(inv.iter().map(|(_, what, v)| (*what, v.as_str())), mark)
}
fn read(sh: &'static Shr<Shared>, me: usize) -> R {
    let (doc, m) = rt::pick(&sh.get().docs);
    let route = d(6);
    note(|| format!("t{}: reading by {}", me, sub::read_route_name(route)));
    match sub::read_doc(doc, route) {
        Ok(g) => match rt::quiet(|| g.check(m)) {
            Ok(()) => Ok(()),
            Err(e) => fail("later-read-wrong", format!("reading after failed writes ({}): {}", sub::read_route_name(route), e)),
        },
        Err(e) => fail("later-read-fails", format!("reading after failed writes ({}) fails: {}", sub::read_route_name(route), e)),
    }
}
fn unchanged(sh: &'static Shr<Shared>, i: usize) -> R {
    let (o, copy, _, _) = &sh.get().objs[i];
    if !o.same(copy) {
        return fail("object-changed", format!("the {} is no longer what it was before it was written", o.kind()));
    }
    Ok(())
}
