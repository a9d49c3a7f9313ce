//! Text damaged in storage or transit never crashes or hangs the reader.
use crate::util::*;
use core::sync::atomic::Ordering::Relaxed;
use model::gen::Opts;
use model::rfc;
use rt::{chance, d, file_get, file_put, logish, note, pick, range};
use subject as sub;

/// Effort per byte of text on the unchanged tree is about a twentieth of these at
/// most (a long run of empty parameters), and typically a thousandth.
pub const READ_STEPS: u64 = 8_000;
const TOUCH_STEPS: u64 = 8_000;
/// Bytes of memory per byte of text.
const HELD: u64 = 2_000;
/// What this machinery itself does between two operations.
const REST: u64 = 8_000_000_000;

const FRAGS: &[&str] = &[
    "BEGIN:", "END:", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "\r\n", "\n", "\r", "\r\n ", "\n\t", " ", "\t", ":", ";", "=", "\"", "\"\"", ",", "\\", "\\n", "\\\\", ";X=", ";X=\"", ";VALUE=DATE",
    ";VALUE=DATE-TIME", ";TZID=Europe/Berlin", ";TZID=", ";RELATED=START", "DTSTART:", "DTEND;TZID=America/New_York:20251102T013000\r\n", "DURATION:P1D\r\n", "TRIGGER:-PT15M\r\n", "REFRESH-INTERVAL;VALUE=DURATION:P1W\r\n", "00000000", "99999999999999999999", "18446744073709551616",
    "-1", "-", "+", "T", "Z", "PT", "P", "W", "S", "99999999T999999Z", "00000000T000000", "20250330T023000", "+10000", "é", "\u{2028}", "\u{85}", "\u{0}", "\u{feff}", "😀", "UID:\r\n", "DTSTAMP:x\r\n", "SEQUENCE:-5\r\n", "PRIORITY:99999999999\r\n", "PERCENT-COMPLETE:256\r\n", "STATUS:\r\n",
    "DURATION:P99999999999999999W\r\n", "DURATION:PT9223372036854775807S\r\n", "DURATION:P1Y2M\r\n", "TRIGGER;RELATED=END:-P9999999999999D\r\n", "DTSTART;VALUE=DATE:99991231\r\n", "DTSTART:00000101T000000Z\r\n", "DTSTART;TZID=Europe/Berlin:20250330T023000\r\n", "DTSTART:20161231T235960Z\r\n", "TRIGGER;VALUE=DATE-TIME:2025\r\n", "LAST-MODIFIED:\r\n", "DURATION:-P\r\n", "DURATION:PT1.5S\r\n", "DURATION:P4294967296DT1H\r\n", "REFRESH-INTERVAL:P4294967295Y\r\n",
];

/// What a name may have been damaged to, whole or in part.
const WORDS: &[&str] = &["", "é", "É", "T", "X", "X-", "-", "x", "E", "V", "VEVENT", "VEVEN", "VTODO", "VVENUE", "VCALENDAR", "VALARM", "vevent", "\u{1F600}", "\u{2028}", "ẞ", "ŉ", "İ", "٣", "_", ",", ".", "/", "\u{0}", " ", "a\u{300}", "老", "DTSTART", "TZID", "END", "BEGIN", "\u{fffd}"];

const NAMES: &[&str] = &[
    "TRIGGER", "TRIGGER;RELATED=END", "TRIGGER;VALUE=DURATION", "TRIGGER;VALUE=DATE-TIME", "TRIGGER;VALUE=DATE-TIME;TZID=Europe/Berlin", "DURATION", "REFRESH-INTERVAL;VALUE=DURATION", "REFRESH-INTERVAL", "X-PUBLISHED-TTL", "DTSTART", "DTEND", "DUE",
    "DTSTART;VALUE=DATE", "DTEND;TZID=America/New_York", "DTSTART;TZID=Pacific/Apia", "DUE;TZID=UTC", "DTSTART;TZID", "DTEND;TZID=", "DTSTART;TZID=/Berlin", "DTSTART;TZID=/", "DTSTART;TZID=/a/b/Europe/Berlin", "DTEND;TZID=Europe/", "DTSTART;TZID=+01:00", "DTSTART;TZID=UTC+1", "DTSTART;TZID=\u{e9}/\u{1F600}", "DTEND;TZID=\"(UTC+01:00) Berlin\"", "DTSTART;TZID=-", "DTSTART;TZID=Etc/GMT+99", "DTSTART;VALUE", "DTSTART;VALUE=DATE;TZID=Europe/Berlin", "DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED", "SEQUENCE", "PRIORITY", "PERCENT-COMPLETE", "STATUS", "CLASS",
    "UID", "URL", "LOCATION", "LOCATION;VVENUE=", "SUMMARY", "DESCRIPTION", "RRULE", "EXDATE;TZID=Europe/Berlin", "GEO", "REPEAT", "ACTION", "X-WR-TIMEZONE", "TIMEZONE-ID", "NAME", "ATTENDEE", "VERSION", "METHOD",
];
const VALUES: &[&str] = &[
    "", "P", "-P", "PT", "P0D", "PT0S", "-PT0S", "+P1D", "P1W", "-P1W", "P1D", "PT1H1M1S", "P1DT", "PT1", "P1W1D", "P1Y2M3DT4H5M6S", "PT1.5S", "PT0.000000001S", "--P1D", "P-1D", "p1d", "P1D ", " P1D", "P0000000000000000000001D",
    "P99999999999999999W", "-P9223372036854775807W", "-P9223372036854775808W", "P18446744073709551615D", "P18446744073709551616D", "PT9223372036854775807S", "PT9223372036854775S", "-PT9223372036854776S", "P4294967295W", "P4294967296D", "PT4294967295M", "P106751991167D", "P15250284452W", "PT2147483648H", "P1Y", "P292277026596Y", "P12345678M",
    "19970714", "00000000", "00000101", "99991231", "100000101", "20250229", "20240230", "20251301", "-00010101", "+12024010", "19970714T", "19970714T133000", "19970714T133000Z", "19970714T133000z", "19970714T240000Z", "20161231T235960Z", "20161231T235960", "20161231T235961Z", "19970714T1330", "19970714T13300", "99991231T235959Z", "99991231T235959", "00010101T000000Z",
    "00000101T000000Z", "20250330T023000", "20251026T023000", "20111230T120000", "19970714T133000.5Z", "19970714 T133000Z", "1997-07-14T13:30:00Z", "２０２５0101", "2025010é", "é", "20250101T0000é", "\u{1F600}", "T", "Z", "TZ", "19970714TZ",
    "0", "-0", "-1", "+1", "01", "10", "100", "101", "255", "256", "4294967295", "4294967296", "-2147483649", "18446744073709551616", "1e9", "0x10", "1.0", " 1", "1 ", "٣", "NaN", "9", "NEEDS-ACTION", "CONFIRMED", "confirmed", "PUBLIC", "X-NEW", "\\\\", "\\", "\\n", "a\\", "\\,", ";", ",", ":", "\\N\\", "\u{2028}",
];
/// A line of a kind that has an accessor, with a value at the edge of what it takes.
fn hostile() -> String {
    format!("{}:{}{}", pick(NAMES), pick(VALUES), pick(&["\r\n", "\n"]))
}

fn at(n: usize) -> usize {
    d(n as u64 + 1) as usize
}
fn block(n: usize) -> (usize, usize) {
    let a = at(n);
    let l = match d(4) {
        0 => 1,
        1 => *pick(&[512usize, 64, 4096]),
        _ => logish(200) as usize,
    };
    (a, (a + l).min(n))
}

/// One kind of damage; the name is counted.
pub fn damage(b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let name = match d(18) {
        17 => {
            // a name, in its line or wherever it stands
            let starts: Vec<usize> = (0..n).filter(|i| *i == 0 || b[i - 1] == b'\n').collect();
            let begins: Vec<usize> = starts.iter().copied().filter(|i| b[*i..].starts_with(b"BEGIN:")).collect();
            let among = if begins.is_empty() || chance(1, 2) { starts } else { begins };
            let mut s = among[at(among.len() - 1)];
            let kind = [&b"BEGIN:"[..], b"END:"].iter().find(|w| b[s..].starts_with(w)).map(|w| w.len());
            s += kind.unwrap_or(0);
            let e = b[s..].iter().position(|c| matches!(c, b'\r' | b'\n' | b':' | b';')).map_or(n, |i| s + i);
            let old = b[s..e].to_vec();
            let new: Vec<u8> = match d(6) {
                3..=5 => [&old[..at(old.len())], pick(&["é", "\u{1F600}", "老", "İ"]).as_bytes()].concat(),
                0 => pick(WORDS).as_bytes().to_vec(),
                1 => [&old, pick(WORDS).as_bytes()].concat(),
                2 => [pick(WORDS).as_bytes(), &old].concat(),
                _ => [&old[..at(old.len())], pick(WORDS).as_bytes()].concat(),
            };
            if kind.is_some() && d(4) > 0 && !old.is_empty() {
                // beginnings and ends alike
                let mut out = vec![];
                for l in b.split_inclusive(|c| *c == b'\n') {
                    let k = [&b"BEGIN:"[..], b"END:"].iter().find(|w| l.starts_with(w)).map_or(0, |w| w.len());
                    let r = &l[k..];
                    if k > 0 && r.starts_with(&old) && r[old.len()..].iter().all(|c| matches!(c, b'\r' | b'\n')) {
                        out.extend_from_slice(&l[..k]);
                        out.extend_from_slice(&new);
                        out.extend_from_slice(&r[old.len()..]);
                    } else {
                        out.extend_from_slice(l);
                    }
                }
                *b = out;
            } else {
                b.splice(s..e, new);
            }
            "fault.name_changed"
        }
        0 => {
            for _ in 0..range(1, 4) {
                let i = d(n as u64) as usize;
                b[i] ^= 1 << d(8);
            }
            "fault.bits_flipped"
        }
        1 => {
            let i = d(n as u64) as usize;
            b[i] = *pick(&[0, 0xff, 0x80, b'\r', b'\n', b':', b';', b'"', b'\\', b'=', 0xc3, b' ', b',', b'9', b'-']);
            "fault.byte_replaced"
        }
        2 => {
            let (s, e) = block(n);
            let v = *pick(&[0u8, 0xff, b' ', b'\n', b'A']);
            b[s..e].fill(v);
            "fault.block_overwritten"
        }
        3 => {
            let (s, e) = block(n);
            b.drain(s..e);
            "fault.block_lost"
        }
        4 => {
            let (s, e) = block(n);
            let p = b[s..e].to_vec();
            let k = range(1, 3);
            for _ in 0..k {
                b.splice(s..s, p.iter().copied());
            }
            "fault.block_repeated"
        }
        5 => {
            let (s, e) = block(n);
            let (s2, e2) = block(n);
            let (p, q) = (b[s..e].to_vec(), b[s2..e2].to_vec());
            let l = p.len().min(q.len());
            if e <= s2 || e2 <= s {
                b[s..s + l].copy_from_slice(&q[..l]);
                b[s2..s2 + l].copy_from_slice(&p[..l]);
            }
            "fault.blocks_swapped"
        }
        6 => {
            let (s, e) = block(other.len());
            let p = at(n);
            b.splice(p..p, other[s..e].iter().copied());
            "fault.spliced"
        }
        7..=9 => {
            let f = pick(FRAGS).as_bytes();
            // sometimes at the beginning of a line
            let mut p = at(n);
            if chance(1, 2) {
                while p > 0 && b[p - 1] != b'\n' {
                    p -= 1;
                }
            }
            b.splice(p..p, f.iter().copied());
            "fault.fragment_inserted"
        }
        10 => {
            let (mut s, mut e) = (at(n), at(n));
            if s > e {
                std::mem::swap(&mut s, &mut e);
            }
            // a whole line
            while s > 0 && b[s - 1] != b'\n' {
                s -= 1;
            }
            e = s;
            while e < n && b[e] != b'\n' {
                e += 1;
            }
            b.drain(s..e.min(n));
            "fault.line_lost"
        }
        11 => {
            // digits grow
            let p = at(n.saturating_sub(1));
            if let Some(i) = (p..n).find(|i| b[*i].is_ascii_digit()) {
                let k = range(1, 20);
                for _ in 0..k {
                    let c = b'0' + d(10) as u8;
                    b.insert(i, c);
                }
            }
            "fault.number_changed"
        }
        12 => {
            let p = at(n.saturating_sub(1));
            if let Some(i) = (p..n).find(|i| b[*i].is_ascii_digit()) {
                b[i] = *pick(&[b'9', b'0', b'-', b'6', b'3', b'T', b'Z', 0xd9]);
            }
            "fault.number_changed"
        }
        14 | 15 => {
            // a line becomes one that means something
            let mut p = at(n);
            while p > 0 && b[p - 1] != b'\n' {
                p -= 1;
            }
            let mut q = p;
            if chance(1, 2) && !b[p..].starts_with(b"BEGIN") && !b[p..].starts_with(b"END") {
                q = b[p..].iter().position(|c| *c == b'\n').map_or(n, |i| p + i + 1);
            }
            b.splice(p..q, hostile().into_bytes());
            "fault.line_replaced"
        }
        13 => {
            b.truncate(at(n));
            "fault.tail_lost"
        }
        _ => {
            let p = at(n);
            let c = *pick(&[b'"', b':', b';', b'\\', b' ', b'\n', b',', b'=', b'x', b'x']);
            let k = match d(36) {
                0..=2 => 65_500 + d(400),
                3 => 100_000 + d(300_000),
                _ => logish(2000),
            } as usize;
            // of one character or of a few
            let units: &[&str] = &["\\n", "\\,", ";X=", ";A=b", ",\"a\"", "\r\n ", "\n\t", "A:B\n", "é", "\n\n", "\"\"", ",;", "=\"\"", "P1", "x:", "00"];
            let unit: Vec<u8> = if chance(1, 2) { vec![c] } else { pick(units).as_bytes().to_vec() };
            let k = k / unit.len() * unit.len();
            let run: Vec<u8> = unit.iter().copied().cycle().take(k).collect();
            b.splice(p..p, run);
            match d(3) {
                0 => b.truncate(p + k + d(20) as usize),
                1 => {
                    let f = pick(FRAGS).as_bytes();
                    b.splice(p + k..p + k, f.iter().copied());
                }
                _ => {}
            }
            "fault.run_inserted"
        }
    };
    rt::hit(name);
}

/// How deep components are nested, at most.
pub fn depth(t: &str) -> usize {
    let (mut now, mut most) = (0usize, 0);
    // folds may hide in the words
    let u: String = t.replace("\r\n ", "").replace("\r\n\t", "").replace("\n ", "").replace("\n\t", "");
    for l in u.lines() {
        let l = l.to_ascii_uppercase();
        now += l.matches("BEGIN").count();
        most = most.max(now);
        if l.starts_with("END:") {
            now = now.saturating_sub(1);
        }
    }
    most
}

/// Something that may stand in a document any number of times.
fn unit() -> (String, bool) {
    let counted = |s: String| if chance(1, 3) { s.replace(':', ":{N}") } else { s };
    match d(8) {
        0 | 1 => (counted(hostile()), true),
        2 => (format!("{}:{}\r\n", pick(&["ATTENDEE", "CATEGORIES", "EXDATE", "RDATE", "ATTACH", "COMMENT", "CONTACT", "RESOURCES", "RELATED-TO", "REQUEST-STATUS", "FREEBUSY", "SUMMARY", "X-A"]), pick(&["x", "mailto:a@b.c", "20250101", "a,b\\,c", "{N}", "x{N}"])), true),
        3 => (pick(&["X-{N}:1\r\n", "X-A;P{N}=1:2\r\n", "X-A;P=\"{N};\";Q=a,b:\\n\r\n", "\r\n", "\n", " x\r\n", "\tx\n", "X\r\n", "{N}\r\n", ":\r\n", "SUMMARY:\\n\r\n \\n\r\n"]).to_string(), true),
        4 => (format!("BEGIN:{0}\r\nUID:{{N}}\r\nEND:{0}\r\n", pick(&["VALARM", "VEVENT", "VTODO", "VVENUE", "X-A", "VTIMEZONE"])), true),
        5 => (format!("BEGIN:{0}\r\nEND:{0}\r\n", pick(&["VALARM", "VEVENT", "VTODO", "VVENUE", "X-A", "VTIMEZONE", "VCALENDAR"])), true),
        6 => (pick(&[";P{N}=1", ";P=1", ";P=\"a\"", ",a", "\\,", "\\n", "x", "\\;", " ", ";", "\"\"", "é", "=", ":", "\r\n ", "\n\t", "X{N}"]).to_string(), false),
        _ => {
            let f = pick(FRAGS);
            let f = if f.starts_with("BEGIN") { "A:B\r\n" } else { *f };
            (f.to_string(), chance(1, 2))
        }
    }
}
/// `n` of them.
fn many(u: &str, n: usize) -> String {
    (0..n).map(|i| u.replace("{N}", &i.to_string())).collect()
}

thread_local! {
    /// The effort of every operation since it was cleared.
    static SPENT: std::cell::RefCell<Option<Vec<(String, u64, u64)>>> = const { std::cell::RefCell::new(None) };
}
/// Times as much text takes about as many times the effort.
const TIMES: usize = 16;
const SLACK: u64 = 5;
/// Text that is not accepted may be given up early.
fn outcome(ok: bool) {
    SPENT.with(|s| {
        if let Some(x) = s.borrow_mut().as_mut().and_then(|v| v.last_mut()) {
            x.0 += if ok { " that succeeds" } else { " that fails" };
        }
    });
}
fn growth(whole: &[u8]) -> R {
    let t = String::from_utf8_lossy(whole).into_owned();
    let (u, line) = unit();
    let mut p = at(t.len());
    if line {
        p = t[..(0..=p).rev().find(|i| t.is_char_boundary(*i)).unwrap()].rfind('\n').map_or(0, |i| i + 1);
    } else {
        p = (0..=p).rev().find(|i| t.is_char_boundary(*i)).unwrap();
    }
    let n = 2 * range(100, 250) as usize;
    rt::ev_bytes(54, u.as_bytes());
    note(|| format!("{:?} {} and {} times at {} of {}", u, n, n * TIMES, p, cut(&t)));
    rt::hit("fault.run_grown");
    let mut got = vec![];
    for k in [n, n * TIMES] {
        let x = format!("{}{}{}", &t[..p], many(&u, k), &t[p..]);
        SPENT.with(|s| *s.borrow_mut() = Some(vec![]));
        let r = digest(&x, false);
        got.push((x.len(), SPENT.with(|s| s.borrow_mut().take()).unwrap_or_default()));
        r?;
    }
    let (l1, l2) = (got[0].0 as u64, got[1].0 as u64);
    // the longer text may be accepted where the shorter one was not
    let (a, b) = (&got[0].1, &got[1].1);
    let mut seen = 0;
    for (i, (what, s1, m1)) in a.iter().enumerate() {
        let Some((w2, s2, m2)) = b.get(i) else { break };
        if w2 != what {
            break;
        }
        seen += 1;
        let f = |v: u64, c: u64| v * SLACK * TIMES as u64 + c;
        if std::env::var_os("ICALSIM_CALIBRATE").is_some() {
            rt::sys::err(&format!("growth {:.2} {:.2} {} {} {} {} {} {:?}\n", *s2 as f64 / (*s1 as f64 * 16.0 + 100_000.0), *m2 as f64 / (*m1 as f64 * 16.0 + 100_000.0), what, s1, s2, m1, m2, u));
        }
        if *s2 > f(*s1, 500_000) {
            return fail("too-much-effort", format!("{} takes {} steps on {} bytes and {} on {}: {} and {} times {:?}", what, s1, l1, s2, l2, n, n * TIMES, u));
        }
        if *m2 > f(*m1, 500_000) {
            return fail("too-much-memory", format!("{} asks for {} bytes in all for {} bytes of text and for {} for {}: {} and {} times {:?}", what, m1, l1, m2, l2, n, n * TIMES, u));
        }
    }
    if seen > 3 {
        rt::hit("reached.growth_judged");
    }
    Ok(())
}

pub fn run() -> R {
    let mut o = Opts::any();
    let grow = chance(1, 6);
    if grow {
        o.size = o.size.min(1);
    }
    if o.size == 3 && !chance(1, 4) {
        o.size = 2;
    }
    let m = some_cal(o);
    let foreign = chance(1, 3);
    let cfg = world(false);
    if foreign {
        file_put(0, rfc::write(&m.as_comp(), &rfc::Style::gen()).as_bytes());
    } else {
        let m = &m;
        inc(cfg.clone(), move || match sub::write_cal(&sub::build_cal(m), 0) {
            Ok(doc) => {
                file_put(0, doc.as_bytes());
                Ok(())
            }
            Err(e) => fail("write-failed", e),
        })?;
    }
    let rounds = range(1, 6);
    let mut cfg = cfg;
    // what a program's first thread has
    cfg.stack = 8 << 20;
    inc(cfg, move || {
        host(zone(), Some(start_instant()));
        let whole = file_get(0).to_vec();
        if grow {
            return growth(&whole);
        }
        for _ in 0..rounds {
            if chance(1, 8) {
                json(&whole)?;
                continue;
            }
            let mut b = if chance(1, 6) {
                // a piece of a document
                let (s, e) = block(whole.len());
                whole[s..e].to_vec()
            } else {
                whole.clone()
            };
            for _ in 0..logish(12) + 1 {
                damage(&mut b, &whole);
            }
            // now and then a big one
            if chance(1, 16) && !b.is_empty() {
                let k = logish(100_000) as usize / b.len();
                let one = b.clone();
                for _ in 0..k {
                    b.extend_from_slice(&one);
                }
                for _ in 0..d(3) {
                    damage(&mut b, &whole);
                }
                rt::hit("reached.large_text");
            }
            let t = String::from_utf8_lossy(&b).into_owned();
            if t.len() > 500_000 {
                rt::hit("reached.too_large_to_judge");
                continue;
            }
            if depth(&t) > 200 {
                rt::hit("reached.too_deep_to_judge");
                continue;
            }
            rt::ev_bytes(50, t.as_bytes());
            note(|| format!("damaged text of {} bytes:\n{}", t.len(), cut(&t)));
            // enough for one run
            if rt::sched::steps() > 4_000_000_000 {
                rt::hit("reached.enough_effort");
                break;
            }
            digest(&t, true)?;
        }
        Ok(())
    })
    .map(|_| ())
}

fn bounded<T>(what: &str, n: usize, per: u64, f: impl FnOnce() -> T) -> R<T> {
    let lim = per * (n as u64 + 100);
    rt::sched::allow(lim * 2);
    let s = rt::sched::steps();
    let total = rt::alloc::TOTAL.load(Relaxed);
    let live = rt::alloc::LIVE.load(Relaxed);
    rt::alloc::PEAK.store(live, Relaxed);
    let r = f();
    let held = rt::alloc::PEAK.load(Relaxed).saturating_sub(live) as u64;
    let used = rt::sched::steps() - s;
    let asked = rt::alloc::TOTAL.load(Relaxed) - total;
    SPENT.with(|s| {
        if let Some(v) = s.borrow_mut().as_mut() {
            match v.last_mut() {
                Some(x) if x.0 == what => (x.1, x.2) = (x.1 + used, x.2 + asked),
                _ => v.push((what.to_string(), used, asked)),
            }
        }
    });
    rt::sched::allow(REST);
    if std::env::var_os("ICALSIM_CALIBRATE").is_some() {
        rt::sys::err(&format!("effort {} {} {} {}\n", used / (n as u64 + 100), n, used, what));
        rt::sys::err(&format!("memory {} {} {} {}\n", held / (n as u64 + 100), n, held, what));
        if used / (n as u64 + 100) > 150 {
            rt::note(|| format!("effort {} for {}", used, what));
        }
    }
    if used > lim {
        return fail("too-much-effort", format!("{} takes {} steps on {} bytes", what, used, n));
    }
    if held > HELD * (n as u64 + 100) {
        return fail("too-much-memory", format!("{} takes {} bytes of memory for {} bytes of text", what, held, n));
    }
    Ok(r)
}

/// Stored as JSON, and damaged there.
fn json(whole: &[u8]) -> R {
    let t = String::from_utf8_lossy(whole);
    let Ok(j) = sub::read_parsed(&t).and_then(|p| sub::to_json(&p, chance(1, 4))) else { return Ok(()) };
    let other = j.clone().into_bytes();
    let mut b = other.clone();
    for _ in 0..logish(8) {
        // the text between two quotation marks becomes another
        let q: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'"').map(|(i, _)| i).collect();
        if q.len() < 2 {
            break;
        }
        let i = d(q.len() as u64 - 1) as usize;
        let v = match d(4) {
            0 => pick(VALUES).to_string(),
            1 => pick(FRAGS).to_string(),
            2 => hostile(),
            _ => pick(&["", "\r\n", "\n ", "BEGIN", "END", "VCALENDAR", "VEVENT", "VTODO", "VVENUE", "VALARM", "calendar", "VALUE", "TZID", "\"", " ", "\u{0}", "\u{3000}", "\r", "name", "val", "params"]).to_string(),
        };
        let v = match sub::json_text(&if chance(1, 10) { v.repeat(1 + logish(60) as usize) } else { v }) {
            Some(v) => v,
            None => break,
        };
        b.splice(q[i]..=q[i + 1], v.into_bytes());
        rt::hit("fault.json_text_replaced");
    }
    if chance(1, 3) {
        for _ in 0..logish(4) + 1 {
            damage(&mut b, &other);
        }
    }
    if b.len() > 500_000 {
        return Ok(());
    }
    let n = b.len();
    rt::ev_bytes(55, &b);
    let t = String::from_utf8_lossy(&b).into_owned();
    note(|| format!("damaged JSON of {} bytes:\n{}", n, cut(&t)));
    for r in 0..3 {
        let ok = bounded("reading damaged JSON", n, READ_STEPS, || sub::from_json(&t, r, |_| ()).is_ok())?;
        rt::ev(56, r, ok as u64);
    }
    let p = bounded("reading damaged JSON from a stream", n, READ_STEPS, || sub::from_json_reader(&mut &b[..]))?;
    if let Ok(p) = p {
        rt::hit("reached.damaged_json_accepted");
        rt::nontrivial();
        bounded("an accessor of a parsed calendar", n, TOUCH_STEPS, || p.components.iter().map(sub::touch_parsed).sum::<usize>())?;
        let s = bounded("writing a parsed calendar", n, TOUCH_STEPS, || sub::parsed_string(&p))?;
        bounded("reading again what a damaged calendar became", s.len().max(n), READ_STEPS, || sub::read_cal(&s).is_ok())?;
        let c = bounded("converting a parsed calendar", n, TOUCH_STEPS, || sub::Calendar::from(p))?;
        bounded("an accessor of a calendar", n, TOUCH_STEPS, || sub::touch_cal(&c))?;
        let w = bounded("writing a calendar", n, TOUCH_STEPS, || sub::write_cal(&c, d(sub::CAL_ROUTES)))?;
        if let Err(e) = w {
            return fail("write-failed", e);
        }
    }
    Ok(())
}

fn digest(t: &str, lines: bool) -> R {
    let n = t.len();
    let mut some = false;
    for r in 0..sub::READ_ROUTES {
        if r == 8 {
            continue;
        }
        let ok = bounded(sub::read_route_name(r), n, READ_STEPS, || sub::read_doc(t, r).is_ok())?;
        outcome(ok);
        rt::ev(51, r, ok as u64);
        some |= ok;
    }
    if some {
        rt::hit("reached.damaged_text_accepted");
    }
    rt::nontrivial();
    let c = bounded("str::parse::<Calendar>", n, READ_STEPS, || sub::read_cal(t))?;
    outcome(c.is_ok());
    if let Ok(c) = c {
        let k = bounded("an accessor of a calendar", n, TOUCH_STEPS, || sub::touch_cal(&c))?;
        rt::ev(52, k as u64, 0);
        let w = bounded("writing a calendar", n, TOUCH_STEPS, || sub::write_cal(&c, if lines { d(sub::CAL_ROUTES) } else { 0 }))?;
        if let Err(e) = w {
            return fail("write-failed", e);
        }
        for x in &c.components {
            let w = bounded("writing a component", n, TOUCH_STEPS, || sub::write_comp(x, if lines { d(sub::COMP_ROUTES) } else { 0 }))?;
            if let Err(e) = w {
                return fail("write-failed", e);
            }
        }
    }
    let p = bounded("parser::read_calendar", n, READ_STEPS, || sub::read_parsed(t))?;
    outcome(p.is_ok());
    if let Ok(p) = p {
        let k = bounded("an accessor of a parsed calendar", n, TOUCH_STEPS, || p.components.iter().map(sub::touch_parsed).sum::<usize>())?;
        rt::ev(53, k as u64, 0);
        let s = bounded("writing a parsed calendar", n, TOUCH_STEPS, || sub::parsed_string(&p))?;
        bounded("converting a parsed calendar", n, TOUCH_STEPS, || sub::touch_cal(&sub::comps_of(p)))?;
        let ok = bounded("reading again what a damaged calendar became", s.len().max(n), READ_STEPS, || sub::read_cal(&s).is_ok())?;
        outcome(ok);
    }
    if !lines {
        return Ok(());
    }
    // single lines
    for _ in 0..range(1, 6) {
        let ls: Vec<&str> = t.split('\n').collect();
        let l = *pick(&ls);
        bounded("Property::from_str", n, READ_STEPS, || sub::property_from_str(l).is_ok())?;
        bounded("parser::Property::try_from", n, READ_STEPS, || sub::parsed_property_from(l).is_ok())?;
        let q = l.find(';').map_or(l, |i| &l[i..]);
        bounded("parser::Parameter::try_from", n, READ_STEPS, || sub::parameter_from(q).is_ok())?;
        let c = bounded("CalendarComponent::from_str", n, READ_STEPS, || sub::read_comp(t))?;
        if let Ok(c) = c {
            bounded("an accessor of a component", n, TOUCH_STEPS, || sub::touch_comp(&c))?;
        }
    }
    Ok(())
}
