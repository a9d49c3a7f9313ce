//! Every output route, at one and the same moment, on streams of every temper.
use crate::util::*;
use model::gen::Opts;
use rt::sched::{stdout_plan, stdout_take, StdoutPlan};
use rt::{chance, d, note, pick, range};
use std::io::Write;
use subject as sub;
use subject::{Fault, FmtSink};

pub fn run() -> R {
    let kind = d(4);
    let mut o = Opts::any();
    o.ids |= chance(1, 2);
    let mut m = some_cal(o);
    if chance(1, 10) {
        bulky(&mut m);
    }
    let mut cfg = world(false);
    // the same moment
    cfg.tick_ns = 0;
    cfg.jump = 0;
    let z = zone();
    inc(cfg, move || {
        host(z, Some(start_instant()));
        let o = make_obj(kind, &m);
        let h = Healthy { a: o.healthy()?, b: o.healthy()? };
        o.check_doc(&m, &h.a)?;
        let n = h.a.len();
        note(|| format!("a {} of {} bytes", o.kind(), n));
        for _ in 0..range(4, 14) {
            one(&o, &h)?;
        }
        if chance(1, 3) {
            lines(&o, &h)?;
        }
        rt::nontrivial();
        if chance(1, 3) && kind != 3 {
            broken_stdout(&o, &h)?;
        }
        Ok(())
    })
    .map(|_| ())
}

/// Documents of tens of thousands of bytes, characters of all widths at all offsets.
fn bulky(m: &mut model::Cal) {
    let n = *pick(&[1_100usize, 4_200, 8_300, 16_500, 33_000, 66_000]) + d(100) as usize;
    let unit = *pick(&["é", "€a", "😀", "日本語", "a", "é😀 "]);
    let many = *pick(&[1usize, 7, 40]);
    for c in m.comps.iter_mut().take(1) {
        for _ in 0..many {
            let mut p = model::Prop::new("X-BULK", &unit.repeat(n / many / unit.len() + 1));
            p.multi = true;
            c.props.push(p);
        }
    }
}

fn same(o: &Obj, h: &Healthy, got: &[u8], how: &str) -> R {
    rt::ev(65, got.len() as u64, 0);
    match h.whole(got) {
        Ok(()) => Ok(()),
        Err(e) => fail("routes-differ", format!("a {} {} is not what other routes give: {}", o.kind(), how, e)),
    }
}

/// A property written by itself is the line it is in its document.
fn lines(o: &Obj, h: &Healthy) -> R {
    rt::hit("reached.properties_by_themselves");
    let mut wrong = None;
    let mut at = |s: Result<String, String>, what: &str| {
        let s = match s {
            Ok(s) => s,
            Err(e) => {
                wrong = Some(("write-failed", format!("{}: {}", what, e)));
                return;
            }
        };
        let found = h.a.match_indices(s.as_str()).any(|(i, _)| i == 0 || h.a.as_bytes()[i - 1] == b'\n');
        if !found || !s.ends_with("\r\n") {
            wrong = Some(("routes-differ", format!("{} gives {:?}, which is not a line of the document it is part of", what, cut(&s))));
        }
    };
    match o {
        Obj::Cal(c) => sub::cal_lines(c, &mut at),
        Obj::Comp(c) => sub::comp_lines(c, &mut at),
        Obj::Parsed(c) => sub::parsed_lines(c, &mut at),
        Obj::ParsedProp(_) => {}
    }
    match wrong {
        Some((k, e)) => fail(k, e),
        None => Ok(()),
    }
}

fn one(o: &Obj, h: &Healthy) -> R {
    let n = h.a.len();
    match d(8) {
        0 | 1 => {
            let (r, name) = match o {
                Obj::Cal(c) => {
                    let r = d(sub::CAL_ROUTES - 1);
                    (sub::write_cal(c, r), sub::cal_route_name(r))
                }
                Obj::Comp(c) => {
                    let r = *pick(&[0, 1, 2, 4]);
                    (sub::write_comp(c, r), sub::comp_route_name(r))
                }
                Obj::Parsed(c) if chance(1, 3) => (Ok(format!("{:#}", c)), "format!(\"{:#}\", parser::Calendar)"),
                Obj::Parsed(c) => (Ok(sub::parsed_string(c)), "parser::Calendar::to_string"),
                Obj::ParsedProp(c) if chance(1, 3) => (Ok(format!("{:#}", c)), "format!(\"{:#}\", parser::Property)"),
                Obj::ParsedProp(c) => (Ok(c.to_string()), "parser::Property::to_string"),
            };
            note(|| format!("by {}", name));
            match r {
                Ok(s) => same(o, h, s.as_bytes(), &format!("written by {}", name)),
                Err(e) => fail("write-failed", format!("{}: {}", name, e)),
            }
        }
        2 => {
            let mut f = FmtSink::new(Fault::None);
            if o.to_fmt(&mut f).is_err() {
                return fail("write-failed", "writing to a fmt destination fails");
            }
            same(o, h, &f.got, "written to a fmt destination")
        }
        3 => {
            // a stream that takes what it likes
            let mut s = choppy();
            match o.to_io(&mut s) {
                None => Ok(()),
                Some(Ok(())) => same(o, h, &s.got, &format!("written to a stream that takes up to {} bytes and is interrupted 1 in {} times", s.chunk, s.eintr)),
                Some(Err(e)) => fail("write-failed", format!("writing to a stream that only takes part of a write, or is interrupted, fails: {}", e)),
            }
        }
        4 => {
            // through the buffers people use
            let mut s = choppy();
            let cap = *pick(&[1usize, 7, 64, 8192]);
            let r = if chance(1, 2) {
                let mut b = std::io::BufWriter::with_capacity(cap, &mut s);
                o.to_io(&mut b).map(|r| r.and_then(|_| b.flush()))
            } else {
                let mut b = std::io::LineWriter::with_capacity(cap, &mut s);
                o.to_io(&mut b).map(|r| r.and_then(|_| b.flush()))
            };
            match r {
                None => Ok(()),
                Some(Ok(())) => same(o, h, &s.got, "written through a buffer"),
                Some(Err(e)) => fail("write-failed", format!("writing through a buffer fails: {}", e)),
            }
        }
        5 => {
            // for good
            let mut s = choppy();
            s.kind = io_kind();
            s.zero = chance(1, 4);
            let at = if chance(1, 4) { n - 1 - d(n.min(4) as u64) as usize } else { d(n as u64) as usize };
            s.fail_at = Some(at);
            match o.to_io(&mut s) {
                None => Ok(()),
                Some(Ok(())) => fail("failure-reported-as-success", format!("a stream that failed after {} of {} bytes ({:?}) is reported as success", at, n, s.kind)),
                Some(Err(_)) => {
                    rt::hit("reached.failed_stream_reported");
                    match h.prefix(&s.got) {
                        Ok(()) if s.got.len() == at => Ok(()),
                        Ok(()) => fail("routes-differ", format!("a stream that takes {} bytes was given only {}", at, s.got.len())),
                        Err(e) => fail("routes-differ", format!("a stream that failed after {} bytes did not get the leading part: {}", at, e)),
                    }
                }
            }
        }
        _ => {
            if let Obj::ParsedProp(_) = o {
                return Ok(());
            }
            let p = StdoutPlan { chunk: *pick(&[0, 1, 5, 40, 1000]), eintr: *pick(&[0, 2, 4]), ..Default::default() };
            let before = if chance(1, 3) {
                // something is in the buffer already
                stdout_plan(p.clone());
                print!("x");
                1
            } else {
                stdout_plan(p.clone());
                0
            };
            let times = range(1, 2);
            for _ in 0..times {
                if print(o).is_err() {
                    return fail("write-failed", "printing to a healthy standard output fails");
                }
            }
            let out = stdout_take();
            note(|| format!("printed: {} bytes", out.len()));
            let one = n + 2;
            if out.len() != before + one * times as usize {
                return fail("routes-differ", format!("printing a {} {} time(s) delivers {} bytes instead of {}", o.kind(), times, out.len() - before, one * times as usize));
            }
            for k in 0..times as usize {
                let part = &out[before + k * one..before + (k + 1) * one];
                if &part[n..] != b"\r\n" {
                    return fail("routes-differ", format!("what is printed does not end in one line break: {:?}", String::from_utf8_lossy(&part[n.saturating_sub(8)..])));
                }
                same(o, h, &part[..n], "printed")?;
            }
            Ok(())
        }
    }
}
pub fn print(o: &Obj) -> Result<(), ()> {
    match o {
        Obj::Cal(c) => sub::print_cal(c),
        Obj::Comp(c) => sub::print_comp(c),
        Obj::Parsed(c) => sub::print_parsed(c),
        Obj::ParsedProp(_) => Err(()),
    }
}
/// Standard output fails for good; the last thing this process does.
fn broken_stdout(o: &Obj, h: &Healthy) -> R {
    let total = h.a.len() + 2;
    let at = if chance(1, 4) { total - 1 - d(4) as usize } else { d(total as u64) as usize };
    let errno = *pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN, libc::EFBIG]);
    stdout_plan(StdoutPlan { chunk: *pick(&[0, 1, 40]), eintr: *pick(&[0, 3]), fail_at: Some(at), errno });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| print(o)));
    let out = stdout_take();
    note(|| format!("standard output fails after {} of {} bytes: {:?}", at, total, r.as_ref().map_err(|_| "panic")));
    if let Ok(Ok(())) = r {
        return fail("failure-reported-as-success", format!("standard output failed after {} of {} bytes (errno {}), and printing reports success", at, total, errno));
    }
    rt::hit("reached.failed_stdout_reported");
    let mut exp = out.clone();
    exp.truncate(h.a.len());
    match h.prefix(&exp) {
        Ok(()) => Ok(()),
        Err(e) => fail("routes-differ", format!("a standard output that failed after {} bytes did not get the leading part: {}", at, e)),
    }
}
