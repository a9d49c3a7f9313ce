use crate::util::*;
use model::gen::Opts;
use model::{rfc, Comp, Inv};
use rt::{chance, d, file_append, file_get, file_put, logish, note, range, Cfg};
use subject as sub;

const CUR: usize = 0;
const TMP: usize = 1;

fn crashy(mut cfg: Cfg) -> Cfg {
    if chance(1, 3) {
        cfg.crash_at = 1 + logish(3_000_000);
    }
    cfg
}

pub fn run() -> R {
    let mut o = Opts::any();
    o.cr = chance(1, 5);
    o.cases = chance(1, 3);
    // (RFC 5545 has no way to write a carriage return; this library keeps it all the same)
    rfc::CR_OK.store(o.cr, std::sync::atomic::Ordering::Relaxed);
    let r = generations(o);
    rfc::CR_OK.store(false, std::sync::atomic::Ordering::Relaxed);
    r
}
fn generations(o: Opts) -> R {
    let m = some_cal(o);
    let as_comp = chance(1, 4);
    let mut truth: Comp = if as_comp { m.comps[0].clone() } else { m.as_comp() };
    let z = zone();
    let at = start_instant();
    let cfg = world(false);
    inc(cfg, || {
        host(z, Some(at));
        let doc = if as_comp {
            let c = sub::build_comp(&m.comps[0]);
            if chance(1, 4) {
                sub::comp_to_fmt(&c, &mut sub::FmtSink::new(gen_fault(500, 20))).ok();
            }
            sub::write_comp(&c, d(sub::COMP_ROUTES))
        } else {
            let c = sub::build_cal(&m);
            if chance(1, 4) {
                sub::cal_to_fmt(&c, &mut sub::FmtSink::new(gen_fault(500, 20))).ok();
            }
            sub::write_cal(&c, d(sub::CAL_ROUTES))
        };
        let doc = match doc {
            Ok(d) => d,
            Err(e) => return fail("write-failed", e),
        };
        check_doc(&truth, &doc, Inv::Yes)?;
        rt::ev(25, doc.len() as u64, 0);
        file_put(CUR, doc.as_bytes());
        Ok(())
    })?;
    let first = String::from_utf8_lossy(file_get(CUR)).into_owned();
    let roots = match rfc::read(first.as_bytes()) {
        Ok(r) => r,
        Err(e) => return fail("malformed-document", e),
    };
    sub_adopt(&mut truth, &roots[0]);
    note(|| format!("generation 0 is stored: {} bytes", first.len()));
    let gens = range(1, 6);
    let mut crashes = 0;
    let mut g = 1;
    while g <= gens {
        let mut cfg = world(false);
        if crashes < 3 {
            cfg = crashy(cfg);
        }
        let (z, at) = (zone(), if chance(1, 2) { Some(start_instant()) } else { None });
        let truth = &truth;
        let done = inc(cfg, move || {
            host(z, at);
            let doc = file_text(CUR)?;
            let relay = d(sub::RELAYS);
            let next = if as_comp { comp_generation(&doc, truth, relay)? } else { cal_generation(&doc, truth, relay)? };
            // into a temporary file, piece by piece, then renamed
            file_put(TMP, b"");
            let piece = *rt::pick(&[64usize, 7, 1000]);
            for c in next.as_bytes().chunks(piece) {
                rt::seam(30, c.len() as u64, 0);
                file_append(TMP, c);
            }
            rt::seam(31, 0, 0);
            file_put(CUR, next.as_bytes());
            rt::seam(32, 0, 0);
            note(|| format!("generation {} is stored by {}: {} bytes", g, sub::relay_name(relay), next.len()));
            Ok(())
        })?;
        if done {
            g += 1;
            rt::nontrivial();
        } else {
            crashes += 1;
            note(|| "the process was killed; the next one starts from what is stored".into());
        }
    }
    // the last one, read by everything there is
    let truth = &truth;
    inc(world(false), move || {
        let doc = file_text(CUR)?;
        check_doc(truth, &doc, Inv::No)?;
        let exp = model::Cal { props: truth.props.clone(), comps: truth.children.clone() };
        if !as_comp {
            for r in 0..sub::READ_ROUTES - 2 {
                match sub::read_doc(&doc, r) {
                    Ok(g) => {
                        if let Err(e) = rt::quiet(|| g.check(&exp)) {
                            return fail("content-changed", format!("{} of generation {}: {}", sub::read_route_name(r), gens, e));
                        }
                    }
                    Err(e) => return fail("unreadable", format!("{} of generation {}: {}", sub::read_route_name(r), gens, e)),
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}

pub fn sub_adopt(truth: &mut Comp, got: &Comp) {
    sub::adopt_durations(truth, got);
    model::adopt_invented(truth, got);
}
pub fn file_text(f: usize) -> R<String> {
    match std::str::from_utf8(file_get(f)) {
        Ok(s) => Ok(s.to_string()),
        Err(_) => fail("harness", "the stored document is not UTF-8"),
    }
}

fn cal_generation(doc: &str, truth: &Comp, relay: u64) -> R<String> {
    let ra = d(sub::READ_CAL_ROUTES);
    let a = match sub::read_cal_by(doc, ra) {
        Ok(c) => c,
        Err(e) => return fail("unreadable", format!("a written document cannot be read (route {}): {}\n{}", ra, e, cut(doc))),
    };
    let seen = sub::ex_cal(&a).as_comp();
    if let Err(e) = rt::quiet(|| model::compare(truth, &seen, Inv::No, "", &mut vec![])) {
        return fail("content-changed", format!("reading a stored document: {}\n{}", e, cut(doc)));
    }
    let next = match sub::relay(doc, relay) {
        Ok(n) => n,
        Err(e) => return fail("unreadable", format!("{}: {}", sub::relay_name(relay), e)),
    };
    check_doc(truth, &next, Inv::No)?;
    let rb = d(sub::READ_CAL_ROUTES);
    match sub::read_cal_by(&next, rb) {
        Ok(b) => {
            if a != b {
                return fail("unequal-calendar", format!("reading two successive generations (routes {} and {}, relayed by {}) gives unequal calendars", ra, rb, sub::relay_name(relay)));
            }
        }
        Err(e) => return fail("unreadable", format!("a written document cannot be read (route {}): {}\n{}", rb, e, cut(&next))),
    }
    rt::ev(26, next.len() as u64, relay);
    Ok(next)
}
fn comp_generation(doc: &str, truth: &Comp, relay: u64) -> R<String> {
    let a = match sub::read_comp(doc) {
        Ok(c) => c,
        Err(e) => return fail("unreadable", format!("a written component cannot be read: {}\n{}", e, cut(doc))),
    };
    let seen = sub::ex_comp(&a);
    if let Err(e) = rt::quiet(|| model::compare(truth, &seen, Inv::No, "", &mut vec![])) {
        return fail("content-changed", format!("reading a stored component: {}\n{}", e, cut(doc)));
    }
    let next = match sub::write_comp(&a, relay % sub::COMP_ROUTES) {
        Ok(n) => n,
        Err(e) => return fail("write-failed", e),
    };
    check_doc(truth, &next, Inv::No)?;
    match sub::read_comp(&next) {
        Ok(b) if a == b => {}
        Ok(_) => return fail("unequal-calendar", "reading two successive generations of a component gives unequal components"),
        Err(e) => return fail("unreadable", format!("{}\n{}", e, cut(&next))),
    }
    rt::ev(26, next.len() as u64, relay);
    Ok(next)
}
