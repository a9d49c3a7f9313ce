//! The JSON bridge: lossless, and honest about streams that fail.
use crate::util::*;
use model::gen::Opts;
use model::{rfc, Inv};
use rt::{chance, d, note, pick, range};
use subject as sub;
use subject::{IoSink, IoSource};

pub fn run() -> R {
    let m = some_cal(Opts::any());
    let from_text = d(4);
    let cfg = world(false);
    inc(cfg, move || {
        host(zone(), Some(start_instant()));
        // a parsed calendar from one of several origins
        let p = match from_text {
            0 => sub::to_parsed_cal(&m),
            1 => {
                let t = rfc::write(&m.as_comp(), &rfc::Style::gen());
                match sub::read_parsed(&t) {
                    Ok(p) => p,
                    Err(e) => return fail("unreadable", format!("{}\n{}", e, cut(&t))),
                }
            }
            2 => {
                // whatever the reader takes for a calendar
                let mut b = rfc::write(&m.as_comp(), &rfc::Style::gen()).into_bytes();
                let other = b.clone();
                for _ in 0..range(1, 8) {
                    super::c10::damage(&mut b, &other);
                }
                b.truncate(200_000);
                let t = String::from_utf8_lossy(&b).into_owned();
                if super::c10::depth(&t) > 30 {
                    return Ok(());
                }
                match sub::read_parsed(&t) {
                    Ok(p) => {
                        rt::hit("reached.damaged_text_accepted");
                        p
                    }
                    Err(_) => return Ok(()),
                }
            }
            _ => {
                let t = match sub::write_cal(&sub::build_cal(&m), 0) {
                    Ok(t) => t,
                    Err(e) => return fail("write-failed", e),
                };
                match sub::read_parsed(&t) {
                    Ok(p) => p,
                    Err(e) => return fail("unreadable", format!("{}\n{}", e, cut(&t))),
                }
            }
        };
        let text = sub::parsed_string(&p);
        let pretty = chance(1, 3);
        let j = match sub::to_json(&p, pretty) {
            Ok(j) => j,
            Err(e) => return fail("json-write-failed", e),
        };
        note(|| format!("{} bytes of iCalendar, {} bytes of JSON", text.len(), j.len()));
        rt::ev_bytes(70, j.as_bytes());
        // whatever JSON looks like, it is the same for the same calendar
        for _ in 0..range(2, if j.len() > 100_000 { 3 } else { 8 }) {
            step(if from_text == 2 { None } else { Some(&m) }, &p, &text, &j, pretty, from_text == 3)?;
        }
        torn(&j, &text, &p)?;
        rt::nontrivial();
        Ok(())
    })
    .map(|_| ())
}

type PCal = sub::parser::Calendar<'static>;

fn equal(p: &PCal, q: &sub::parser::Calendar, text: &str, how: &str) -> R {
    if !sub::parsed_eq(p, q) {
        return fail("json-lossy", format!("a parsed calendar turned into JSON and back ({}) is not equal to the original", how));
    }
    let t = sub::parsed_string(q);
    if t != text {
        let n = t.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
        return fail("json-lossy", format!("a parsed calendar turned into JSON and back ({}) writes another document, from byte {}", how, n));
    }
    Ok(())
}

fn step(m: Option<&model::Cal>, p: &PCal, text: &str, j: &str, pretty: bool, invented: bool) -> R {
    match d(6) {
        0 => {
            let r = d(3);
            match sub::from_json(j, r, |q| equal(p, q, text, ["from a string", "from bytes", "through a value tree"][r as usize])) {
                Ok(r) => r,
                Err(e) => fail("json-unreadable", format!("route {}: {}", r, e)),
            }
        }
        1 => {
            let mut s = IoSource { chunk: *pick(&[0, 1, 3, 64]), eintr: *pick(&[0, 2, 5]), ..IoSource::new(j.as_bytes()) };
            match sub::from_json_reader(&mut s) {
                Ok(q) => equal(p, &q, text, "from a stream that delivers it in pieces"),
                Err(e) => fail("json-unreadable", format!("from a stream of up to {} bytes at a time, interrupted 1 in {}: {}", s.chunk, s.eintr, e)),
            }
        }
        2 => {
            let mut s = choppy();
            if let Err(e) = sub::to_json_writer(p, &mut s, pretty) {
                return fail("json-write-failed", format!("to a stream that takes it in pieces: {}", e));
            }
            // only what it means counts
            let g = match String::from_utf8(s.got) {
                Ok(g) => g,
                Err(_) => return fail("json-lossy", "JSON delivered in pieces is not UTF-8"),
            };
            match sub::from_json(&g, 0, |q| equal(p, q, text, "through a stream that takes it in pieces")) {
                Ok(r) => r,
                Err(e) => fail("json-unreadable", e),
            }
        }
        3 => {
            let mut s = choppy();
            s.kind = io_kind();
            s.zero = chance(1, 4);
            let at = d(j.len() as u64) as usize;
            s.fail_at = Some(at);
            // it may work again, but what it refused is lost
            s.recover = *pick(&[u64::MAX, 1, 2]);
            match sub::to_json_writer(p, &mut s, pretty) {
                Err(_) => Ok(()),
                Ok(()) => fail("json-failure-reported-as-success", format!("a stream that failed after {} of {} bytes of JSON is reported as success", at, j.len())),
            }
        }
        4 => {
            let at = d(j.len() as u64) as usize;
            let recover = *pick(&[u64::MAX, 1, 2]);
            let mut s = IoSource { chunk: *pick(&[0, 1, 64]), eintr: *pick(&[0, 3]), fail_at: Some(at), recover, ..IoSource::new(j.as_bytes()) };
            match sub::from_json_reader(&mut s) {
                Err(_) => Ok(()),
                Ok(_) => fail("json-torn-accepted", format!("a JSON stream that failed after {} of {} bytes is read as a calendar", at, j.len())),
            }
        }
        _ => {
            // a pipe between two processes, all the way to the builder's side
            let mut w = IoSink::new();
            w.chunk = *pick(&[0, 1, 9]);
            if sub::to_json_writer(p, &mut w, !pretty).is_err() {
                return fail("json-write-failed", "to a pipe");
            }
            let mut s = IoSource { chunk: *pick(&[0, 1, 3, 64]), eintr: *pick(&[0, 2]), ..IoSource::new(&w.got) };
            let q = match sub::from_json_reader(&mut s) {
                Ok(q) => q,
                Err(e) => return fail("json-unreadable", e),
            };
            equal(p, &q, text, "through a pipe")?;
            let m = match m {
                Some(m) => m,
                None => return Ok(()),
            };
            let c = sub::comps_of(q);
            let seen = sub::ex_cal(&c);
            let mut exp = m.clone().as_comp();
            if invented {
                super::c05::sub_adopt(&mut exp, &seen.as_comp());
            }
            sub::adopt_durations(&mut exp, &seen.as_comp());
            match rt::quiet(|| model::compare(&exp, &seen.as_comp(), Inv::No, "", &mut vec![])) {
                Ok(()) => Ok(()),
                Err(e) => fail("json-lossy", format!("a calendar made from JSON: {}", e)),
            }
        }
    }
}

/// JSON that breaks off is not a calendar.
fn torn(j: &str, text: &str, p: &PCal) -> R {
    let n = j.len();
    let cuts: Vec<usize> = if n <= 600 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..40).map(|_| d(n as u64) as usize).collect();
        v.extend(n - 12..n);
        // where values and objects end
        let ends: Vec<usize> = j.match_indices(['}', ']', ',', '"']).map(|(i, _)| i + 1).filter(|i| *i < n).collect();
        v.extend((0..40).map(|_| *pick(&ends)));
        v
    };
    for at in cuts {
        rt::hit("fault.json_torn");
        let b = &j.as_bytes()[..at];
        let ok = match d(3) {
            0 if n < 20_000 => sub::from_json_reader(&mut IoSource::new(b)).is_ok(),
            k => {
                let k = 1 + k % 2;
                let s = String::from_utf8_lossy(b);
                sub::from_json(&s, k, |_| ()).is_ok()
            }
        };
        if ok {
            return fail("json-torn-accepted", format!("JSON torn at byte {} of {} is read as a calendar", at, n));
        }
    }
    match sub::from_json(j, 0, |q| equal(p, q, text, "after many torn copies")) {
        Ok(r) => r,
        Err(e) => fail("json-unreadable", e),
    }
}
