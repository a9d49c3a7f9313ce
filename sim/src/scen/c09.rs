use crate::util::*;
use model::gen::Opts;
use model::{rfc, Cal, Inv};
use rt::{chance, d, file_append, file_get, file_put, logish, note, range};
use std::fmt::Write;
use subject as sub;

pub fn run() -> R {
    let mut o = Opts::any();
    o.ids |= chance(1, 2);
    let mut m = some_cal(o);
    if chance(1, 10) {
        // something bulky, as an inline attachment is
        let k = 65_000 + d(2000) as usize;
        let mut p = model::Prop::new("ATTACH", &"QUJD".repeat(k / 4));
        p.multi = true;
        m.comps[0].props.push(p);
    }
    let m = m;
    match d(5) {
        0 => crashing_writer(&m),
        4 => roots(&m),
        k => cuts(&m, k == 1),
    }
}

/// Components that follow one another without a calendar around them.
fn roots(m: &Cal) -> R {
    let mut m = m.clone();
    m.comps.truncate(12);
    while m.comps.len() < 2 {
        let again = m.comps[0].clone();
        m.comps.push(again);
    }
    // or whole calendars after one another, as appending to a file makes them
    let cals: Vec<Cal> = if chance(1, 3) { (0..range(1, 3)).map(|_| some_cal(Opts { size: 1, ..Opts::any() })).collect() } else { vec![] };
    if !cals.is_empty() {
        rt::hit("reached.calendars_in_a_row");
        m.comps = cals.iter().map(|c| c.as_comp()).collect();
    }
    let (m, cals) = (&m, &cals);
    let foreign = chance(1, 2);
    let cfg = world(false);
    let mut truth = vec![];
    // where the words of each component begin and end
    let mut span = vec![];
    let mut all = vec![];
    for (i, c) in m.comps.iter().enumerate() {
        if foreign {
            let st = rfc::Style { no_final_eol: false, ..rfc::Style::gen() };
            file_put(1, rfc::write(c, &st).as_bytes());
            truth.push(c.clone());
        } else {
            inc(cfg.clone(), || {
                let doc = match cals.get(i) {
                    Some(c) => sub::write_cal(&sub::build_cal(c), d(6)),
                    None => sub::write_comp(&sub::build_comp(c), d(3)),
                };
                match doc {
                    Ok(doc) => {
                        file_put(1, doc.as_bytes());
                        Ok(())
                    }
                    Err(e) => fail("write-failed", e),
                }
            })?;
            let mut t = c.clone();
            match rfc::read(file_get(1)) {
                Ok(r) if r.len() == 1 => super::c05::sub_adopt(&mut t, &r[0]),
                Ok(r) => return fail("written-shape", format!("component {} is written as {} components", i, r.len())).map(|_: ()| ()),
                Err(e) => return fail("written-unreadable", format!("component {}: {}", i, e)),
            }
            truth.push(t);
        }
        let text = file_get(1).to_vec();
        let at = all.len();
        let lead = text.iter().take_while(|b| matches!(b, b'\r' | b'\n')).count();
        let body = text.iter().rposition(|b| !matches!(b, b'\r' | b'\n')).map_or(0, |p| p + 1);
        span.push((at + lead, at + body));
        all.extend_from_slice(&text);
    }
    file_put(0, &all);
    let (truth, span) = (&truth, &span);
    inc(cfg, move || {
        let doc = super::c05::file_text(0)?;
        rt::ev_bytes(29, doc.as_bytes());
        let n = doc.len();
        note(|| format!("{} components of {} bytes after one another:\n{}", span.len(), n, cut(&doc)));
        let mut at: Vec<usize> = vec![];
        if n <= 600 {
            at.extend(0..=n);
        } else {
            for _ in 0..60 {
                at.push(d(n as u64 + 1) as usize);
            }
        }
        for &(a, b) in span {
            at.extend(a.saturating_sub(3)..(a + 20).min(n));
            at.extend(b.saturating_sub(12)..=(b + 2).min(n));
        }
        let shift = d(sub::READ_ROUTES);
        for (i, c) in at.into_iter().enumerate() {
            if rt::sched::steps() > 1_000_000_000 {
                rt::hit("reached.enough_effort");
                break;
            }
            // a function that reads a single component leaves the rest alone
            let route = *rt::quiet(|| [0u64, 1, 2, 3, 5, 6, 8].get((i + shift as usize) % 7)).unwrap();
            let name = sub::read_route_name(route);
            let part = String::from_utf8_lossy(&doc.as_bytes()[..c]).into_owned();
            rt::hit("fault.document_torn");
            let r = sub::read_doc(&part, route);
            rt::ev(33, c as u64, r.is_ok() as u64);
            let whole = span.iter().filter(|s| s.1 <= c).count();
            let inside = whole < span.len() && c > span[whole].0;
            match r {
                Err(e) if !inside && whole > 0 => return fail("complete-rejected", format!("{} rejects {} complete components: {}", name, whole, e)),
                Err(_) => {}
                Ok(g) if c <= first_name(&doc) && (g.is_empty() || only_defaults(&g)) => {}
                Ok(g) if inside || whole == 0 => {
                    let shown = rt::quiet(|| format!("{:?}", g));
                    return fail(
                        "torn-document-accepted",
                        format!("{} accepts {} components torn at byte {} of {} (the last line is {:?}) and makes of it {}", name, span.len(), c, n, part.lines().last().unwrap_or(""), cut(&shown)),
                    );
                }
                Ok(g) => {
                    if let (false, sub::Got::Cal(_)) = (cals.is_empty(), &g) {
                        // a reader of one calendar takes the first
                        let first = Cal { props: truth[0].props.clone(), comps: truth[0].children.clone() };
                        if let Err(e) = rt::quiet(|| g.check(&first)) {
                            return fail("complete-read-wrong", format!("{}, the first of {} complete calendars: {}", name, whole, e));
                        }
                        continue;
                    }
                    let got = match g {
                        sub::Got::Cal(c) => c.comps,
                        sub::Got::Comps(c) | sub::Got::Roots(c) => c,
                    };
                    let exp = Cal { props: vec![], comps: truth[..whole].to_vec() };
                    if let Err(e) = rt::quiet(|| model::compare_cal(&exp, &Cal { props: vec![], comps: got }, Inv::No)) {
                        return fail("complete-read-wrong", format!("{}, {} complete components: {}", name, whole, e));
                    }
                }
            }
            if inside {
                rt::nontrivial();
            }
        }
        Ok(())
    })
    .map(|_| ())
}

/// After this many bytes everything but line breaks is there.
fn complete_end(doc: &str) -> usize {
    doc.trim_end_matches(['\r', '\n']).len()
}
/// Up to here nothing of the first component's name has been read.
fn first_name(doc: &str) -> usize {
    // folds may fall inside the word
    let mut seen = 0;
    for (i, b) in doc.bytes().enumerate() {
        if !matches!(b, b'\r' | b'\n' | b' ' | b'\t') {
            seen += 1;
        }
        if seen > "BEGIN:".len() {
            return i;
        }
    }
    doc.len()
}

fn cuts(m: &Cal, foreign: bool) -> R {
    let as_comp = chance(1, 5);
    let mut truth = if as_comp { m.comps[0].clone() } else { m.as_comp() };
    let cfg = world(false);
    if foreign {
        let st = rfc::Style::gen();
        file_put(0, rfc::write(&truth, &st).as_bytes());
    } else {
        inc(cfg.clone(), || {
            let doc = if as_comp { sub::write_comp(&sub::build_comp(&m.comps[0]), d(3)) } else { sub::write_cal(&sub::build_cal(m), d(6)) };
            match doc {
                Ok(doc) => {
                    check_doc(&truth, &doc, Inv::Yes)?;
                    file_put(0, doc.as_bytes());
                    Ok(())
                }
                Err(e) => fail("write-failed", e),
            }
        })?;
        if let Ok(r) = rfc::read(file_get(0)) {
            super::c05::sub_adopt(&mut truth, &r[0]);
        }
        if chance(1, 3) {
            let t = rfc::reframe(&super::c05::file_text(0)?, &rfc::Style::gen());
            file_put(0, t.as_bytes());
        }
    }
    let truth = &truth;
    inc(cfg, move || {
        let doc = super::c05::file_text(0)?;
        rt::ev_bytes(29, doc.as_bytes());
        let n = doc.len();
        note(|| format!("document of {} bytes:\n{}", n, cut(&doc)));
        let mut at: Vec<usize> = vec![];
        if n <= 700 {
            at.extend(0..=n);
        } else {
            for _ in 0..120 {
                at.push(d(n as u64 + 1) as usize);
            }
            // around line ends, the beginning and the end
            let nl: Vec<usize> = doc.match_indices('\n').map(|(i, _)| i).collect();
            for _ in 0..60 {
                at.push((rt::pick(&nl) + d(4) as usize).saturating_sub(1).min(n));
            }
            at.extend(n.saturating_sub(24)..=n);
            at.extend(0..30.min(n));
        }
        let shift = d(sub::READ_ROUTES);
        for c in at {
            // enough for one run
            if rt::sched::steps() > 1_000_000_000 {
                rt::hit("reached.enough_effort");
                break;
            }
            torn(&doc, c, (c as u64 + shift) % sub::READ_ROUTES, truth, as_comp)?;
        }
        Ok(())
    })
    .map(|_| ())
}

fn torn(doc: &str, at: usize, route: u64, truth: &model::Comp, as_comp: bool) -> R {
    let route = if as_comp { *[2, 3, 4, 7].get(route as usize % 4).unwrap() } else if route == 7 { 0 } else { route };
    let part = String::from_utf8_lossy(&doc.as_bytes()[..at]).into_owned();
    rt::hit("fault.document_torn");
    let r = sub::read_doc(&part, route);
    rt::ev(33, at as u64, r.is_ok() as u64);
    let name = sub::read_route_name(route);
    if at >= complete_end(doc) {
        let res = match r {
            Ok(sub::Got::Roots(v)) if as_comp => {
                if v.len() != 1 {
                    Err(format!("{} components", v.len()))
                } else {
                    rt::quiet(|| model::compare(truth, &v[0], Inv::No, "", &mut vec![]))
                }
            }
            Ok(g) => rt::quiet(|| g.check(&Cal { props: truth.props.clone(), comps: truth.children.clone() })),
            Err(e) => return fail("complete-rejected", format!("{} rejects the complete document (only {} bytes of final line break missing): {}", name, doc.len() - at, e)),
        };
        return match res {
            Ok(()) => Ok(()),
            Err(e) => fail("complete-read-wrong", format!("{}: {}", name, e)),
        };
    }
    rt::nontrivial();
    match r {
        Err(_) => Ok(()),
        Ok(g) if at <= first_name(doc) && (g.is_empty() || only_defaults(&g)) => Ok(()),
        Ok(g) => {
            let shown = rt::quiet(|| format!("{:?}", g));
            fail("torn-document-accepted", format!("{} accepts a document torn at byte {} of {} (the last line is {:?}) and makes of it {}", name, at, doc.len(), part.lines().last().unwrap_or(""), cut(&shown)))
        }
    }
}
fn only_defaults(g: &sub::Got) -> bool {
    match g {
        sub::Got::Cal(c) => c.comps.is_empty() && c.props.iter().all(|p| matches!(p.name.as_str(), "VERSION" | "PRODID" | "CALSCALE")),
        _ => false,
    }
}

struct Disk {
    piece: usize,
    buf: Vec<u8>,
}
impl Disk {
    fn flush(&mut self) {
        for c in self.buf.chunks(self.piece) {
            rt::seam(34, c.len() as u64, 0);
            file_append(0, c);
        }
        self.buf.clear();
    }
}
impl Write for Disk {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::seam(12, s.len() as u64, 0);
        self.buf.extend_from_slice(s.as_bytes());
        if self.buf.len() > self.piece {
            self.flush();
        }
        Ok(())
    }
}

/// A process is killed while it writes; another one finds what reached the disk.
fn crashing_writer(m: &Cal) -> R {
    let truth0 = m.as_comp();
    for _ in 0..range(1, 4) {
        let mut cfg = world(false);
        cfg.crash_at = 1 + logish(400_000);
        let piece = *rt::pick(&[1usize, 13, 100, 4096]);
        file_put(0, b"");
        let killed = !inc(cfg, move || {
            let c = sub::build_cal(m);
            let mut w = Disk { piece, buf: vec![] };
            if sub::cal_to_fmt(&c, &mut w).is_err() {
                return fail("write-failed", "writing to the disk fails");
            }
            w.flush();
            Ok(())
        })?;
        let truth0 = &truth0;
        inc(world(false), move || {
            let bytes = file_get(0).to_vec();
            let part = String::from_utf8_lossy(&bytes).into_owned();
            note(|| format!("the writer {}; {} bytes are there", if killed { "was killed" } else { "finished" }, part.len()));
            // is it all there, by an independent reader?
            let mut whole = part.clone().into_bytes();
            while matches!(whole.last(), Some(b'\r' | b'\n')) {
                whole.pop();
            }
            whole.extend_from_slice(b"\r\n");
            let complete = rt::quiet(|| rfc::read(&whole)).ok().filter(|r| r.len() == 1 && r[0].kind == "VCALENDAR");
            for route in 0..sub::READ_ROUTES {
                if route == 7 {
                    continue;
                }
                let name = sub::read_route_name(route);
                let r = sub::read_doc(&part, route);
                rt::ev(35, part.len() as u64, r.is_ok() as u64);
                match (&complete, r) {
                    (Some(root), Ok(g)) => {
                        let mut t = truth0.clone();
                        super::c05::sub_adopt(&mut t, &root[0]);
                        if let Err(e) = rt::quiet(|| g.check(&Cal { props: t.props.clone(), comps: t.children.clone() })) {
                            return fail("complete-read-wrong", format!("{}: {}", name, e));
                        }
                    }
                    (Some(_), Err(e)) => return fail("complete-rejected", format!("{} rejects a complete document: {}", name, e)),
                    (None, Err(_)) => {}
                    (None, Ok(g)) => {
                        if !(part.len() <= 6 && (g.is_empty() || only_defaults(&g))) {
                            return fail("torn-document-accepted", format!("{} accepts what a killed writer left behind, {} bytes ending in {:?}", name, part.len(), part.lines().last().unwrap_or("")));
                        }
                        rt::nontrivial();
                    }
                }
            }
            if killed {
                rt::nontrivial();
            }
            Ok(())
        })?;
    }
    Ok(())
}
