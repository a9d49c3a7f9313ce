//! What scenarios share.
use model::{rfc, Cal, Comp, Inv};
use rt::{chance, d, pick, range, Cfg, End, Viol};
use subject as sub;

pub type R<T = ()> = Result<T, Viol>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> R<T> {
    rt::viol(class, msg)
}

/// A simulated process; Ok(false) if it was killed.
pub fn inc<'a>(cfg: Cfg, f: impl FnOnce() -> R + 'a) -> R<bool> {
    match rt::incarnation(cfg, f) {
        End::Ok => Ok(true),
        End::Crashed => Ok(false),
        _ => Err(Viol { class: rt::shared::verdict_class(), msg: rt::shared::verdict_msg() }),
    }
}

/// How calm the world of a run is.
pub fn world(threads: bool) -> Cfg {
    let mut c = Cfg::default();
    if threads {
        c.preempt = *pick(&[0, 4, 8, 12, 16]) as u32;
        c.spurious = chance(1, 4);
        c.even = chance(1, 4);
    }
    c.rand_faults = chance(1, 4);
    c.tick_ns = *pick(&[1000, 0, 50_000, 10_000_000, 400_000_000]);
    if chance(1, 4) {
        c.jump = *pick(&[40, 8, 3]);
    }
    c
}

/// Instants at which clocks do something interesting, in seconds.
pub fn start_instant() -> i64 {
    let (y, mo, dd) = *pick(&[
        (2023, 11, 14),
        (2024, 2, 28),
        (2024, 2, 29),
        (2023, 2, 28),
        (2024, 12, 31),
        (1999, 12, 31),
        (2000, 2, 28),
        (2038, 1, 18),
        (2038, 1, 19),
        (2100, 2, 28),
        (2025, 3, 30),
        (2025, 10, 26),
        (1971, 1, 1),
        (2026, 6, 9),
    ]);
    let (h, m, s) = match d(5) {
        0 => (12, 0, 0),
        1 => (23, 59, 59),
        2 => (0, 0, 0),
        3 => (3, 14, 6),
        _ => (d(24) as u32, d(60) as u32, d(60) as u32),
    };
    let sec = model::gen::epoch(y, mo, dd, h, m, s);
    let nano = match d(4) {
        0 => 0,
        1 => 999_999_000,
        2 => 1,
        _ => d(1_000_000_000) as i64,
    };
    sec * 1_000_000_000 + nano
}

pub const ZONES: &[&str] = &["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "<+0545>-5:45", "<-0330>3:30", ":America/New_York", "", "Asia/Tokyo", "Europe/Berlin", "America/Los_Angeles"];

/// Set up this host: its clock and its time zone. Called first in an incarnation.
pub fn host(zone: usize, at: Option<i64>) {
    sub::set_time_zone(ZONES[zone]);
    if let Some(t) = at {
        rt::sched::clk_set(t);
    }
}
pub fn zone() -> usize {
    d(ZONES.len() as u64) as usize
}

/// Join a simulated thread; a panic in it is a violation.
pub fn join<T>(h: std::thread::JoinHandle<R<T>>) -> R<T> {
    match h.join() {
        Ok(r) => r,
        Err(_) => fail("panic", format!("a thread panicked: {}", rt::sched::last_panic())),
    }
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> R<T> + Send + 'static) -> R<std::thread::JoinHandle<R<T>>> {
    match std::thread::Builder::new().spawn(f) {
        Ok(h) => Ok(h),
        Err(e) => fail("harness", format!("spawn: {}", e)),
    }
}
pub fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
/// The library's types are meant to be shared; whether they may be is checked by C11.
pub struct Shr<T>(pub T);
unsafe impl<T> Send for Shr<T> {}
unsafe impl<T> Sync for Shr<T> {}
impl<T> Shr<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

/// Anything that can be written.
pub enum Obj {
    Cal(sub::Calendar),
    Comp(sub::CalendarComponent),
    Parsed(sub::parser::Calendar<'static>),
    ParsedProp(sub::parser::Property<'static>),
}
impl Obj {
    pub fn kind(&self) -> &'static str {
        match self {
            Obj::Cal(_) => "calendar",
            Obj::Comp(_) => "component",
            Obj::Parsed(_) => "parsed calendar",
            Obj::ParsedProp(_) => "parsed property",
        }
    }
    pub fn to_fmt(&self, w: &mut dyn std::fmt::Write) -> Result<(), ()> {
        match self {
            Obj::Cal(c) => sub::cal_to_fmt(c, w),
            Obj::Comp(c) => sub::comp_to_fmt(c, w),
            Obj::Parsed(c) => sub::parsed_to_fmt(c, w),
            Obj::ParsedProp(c) => sub::parsed_prop_to_fmt(c, w),
        }
    }
    /// None: this kind of object has no such route
    pub fn to_io(&self, w: &mut dyn std::io::Write) -> Option<std::io::Result<()>> {
        match self {
            Obj::Cal(c) => Some(sub::cal_to_io(c, w)),
            Obj::Comp(_) => None,
            Obj::Parsed(c) => Some(sub::parsed_to_io(c, w)),
            Obj::ParsedProp(c) => Some(sub::parsed_prop_to_io(c, w)),
        }
    }
    pub fn healthy(&self) -> R<String> {
        let mut s = String::new();
        match self.to_fmt(&mut s) {
            Ok(()) => Ok(s),
            Err(()) => fail("healthy-write-failed", format!("writing a {} to a healthy destination reports failure", self.kind())),
        }
    }
    /// A second object with the same content.
    pub fn copy(&self) -> Obj {
        match self {
            Obj::Cal(c) => Obj::Cal(sub::clone_cal(c)),
            Obj::Comp(c) => Obj::Comp(c.clone()),
            Obj::Parsed(c) => Obj::Parsed(sub::parser::Calendar { properties: c.properties.clone(), components: c.components.clone() }),
            Obj::ParsedProp(c) => Obj::ParsedProp(c.clone()),
        }
    }
    pub fn same(&self, o: &Obj) -> bool {
        match (self, o) {
            (Obj::Cal(a), Obj::Cal(b)) => a == b,
            (Obj::Comp(a), Obj::Comp(b)) => sub::ex_comp(a) == sub::ex_comp(b) && a == b,
            (Obj::Parsed(a), Obj::Parsed(b)) => sub::parsed_eq(a, b),
            (Obj::ParsedProp(a), Obj::ParsedProp(b)) => a == b,
            _ => false,
        }
    }
    /// Compare a complete document of this object, as an RFC 5545 reader sees it, to the model.
    pub fn check_doc(&self, m: &Cal, doc: &str) -> R<Vec<(String, &'static str, String)>> {
        let (exp, inv) = match self {
            Obj::Cal(_) => (m.as_comp(), Inv::Yes),
            Obj::Comp(_) => (m.comps[0].clone(), Inv::Yes),
            Obj::Parsed(_) => (m.as_comp(), Inv::No),
            Obj::ParsedProp(_) => return Ok(vec![]),
        };
        check_doc(&exp, doc, inv)
    }
}

/// Strictly read `doc` and compare it with the model; gives the invented values.
pub fn check_doc(exp: &Comp, doc: &str, inv: Inv) -> R<Vec<(String, &'static str, String)>> {
    rt::quiet(|| {
        let roots = match rfc::read(doc.as_bytes()) {
            Ok(r) => r,
            Err(e) => return fail("malformed-document", format!("an RFC 5545 reader stumbles: {}\n{}", e, cut(doc))),
        };
        if roots.len() != 1 {
            return fail("malformed-document", format!("{} root components\n{}", roots.len(), cut(doc)));
        }
        let mut exp = exp.clone();
        sub::adopt_durations(&mut exp, &roots[0]);
        let mut sink = vec![];
        if let Err(e) = model::compare(&exp, &roots[0], inv, "", &mut sink) {
            return fail("wrong-content", format!("{}\n{}", e, cut(doc)));
        }
        Ok(sink)
    })
}
/// What a write has invented belongs to that write: its time stamps are of the time
/// it took, and nobody else has its UIDs.
pub fn check_invented<'a>(inv: impl Iterator<Item = (&'a str, &'a str)>, mark: rt::sched::Mark) -> R {
    static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    rt::quiet(|| {
        for (what, v) in inv {
            if what == "DTSTAMP" {
                if !model::gen::parse_utc(v).map_or(false, |t| rt::sched::clk_contains(mark, t)) {
                    return fail("stale-stamp", format!("an invented DTSTAMP is {:?}, but during the call the clock showed {}", v, rt::sched::clk_history(mark)));
                }
            } else if v.is_empty() || !SEEN.lock().unwrap().insert(v.to_string()) {
                return fail("repeated-uid", format!("the UID {:?} was invented before", v));
            }
        }
        Ok(())
    })
}
pub fn cut(s: &str) -> String {
    if s.len() <= 1500 {
        s.to_string()
    } else {
        let mut n = 1400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... ({} bytes)", &s[..n], s.len())
    }
}

/// An object to write and its model.
pub fn make_obj(kind: u64, m: &Cal) -> Obj {
    match kind {
        0 => Obj::Cal(sub::build_cal(m)),
        1 => Obj::Comp(sub::build_comp(&m.comps[0])),
        2 => Obj::Parsed(sub::to_parsed_cal(m)),
        _ => {
            // the longest property there is
            let mut best: Option<&model::Prop> = None;
            let mut all = vec![];
            for p in &m.props {
                all.push(p);
            }
            for c in &m.comps {
                c.walk(&mut |c| all.extend(c.props.iter()));
            }
            for p in all {
                if best.map_or(true, |b| b.val.len() < p.val.len()) {
                    best = Some(p);
                }
            }
            Obj::ParsedProp(sub::to_parsed_prop(best.unwrap_or(&model::Prop::new("SUMMARY", "a, b"))))
        }
    }
}
/// A model whose calendar is not empty.
pub fn some_cal(o: model::gen::Opts) -> Cal {
    let mut sw = model::gen::Swarm::gen(o);
    let mut m = sw.cal();
    if m.comps.is_empty() {
        let k = sw.top_kind();
        let c = sw.comp(k, 1);
        m.comps.push(c);
    }
    m
}

/// Two healthy documents of one object, written at different times: where they
/// differ, the library invented something.
pub struct Healthy {
    pub a: String,
    pub b: String,
}
fn lines(doc: &[u8]) -> Vec<Vec<u8>> {
    // unfolded, split at CRLF
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < doc.len() {
        if doc[i..].starts_with(b"\r\n ") {
            i += 3;
        } else if doc[i..].starts_with(b"\r\n") {
            out.push(vec![]);
            i += 2;
        } else {
            out.last_mut().unwrap().push(doc[i]);
            i += 1;
        }
    }
    out
}
impl Healthy {
    pub fn of(o: &Obj) -> R<Healthy> {
        rt::sched::steady(|| {
            let a = o.healthy()?;
            rt::sched::clk_advance(1_500_000_000);
            let b = o.healthy()?;
            Ok(Healthy { a, b })
        })
    }
    /// Is `got` the leading part of a document of this object?
    pub fn prefix(&self, got: &[u8]) -> Result<(), String> {
        if self.a == self.b {
            if self.a.as_bytes().starts_with(got) {
                return Ok(());
            }
            let n = self.a.bytes().zip(got.iter()).take_while(|(x, y)| x == *y).count();
            return Err(format!("differs at byte {}: expected {:?} but got {:?}", n, String::from_utf8_lossy(&self.a.as_bytes()[n..self.a.len().min(n + 60)]), String::from_utf8_lossy(&got[n..got.len().min(n + 60)])));
        }
        let mut t = got;
        for e in [&b"\n"[..], b"\r"] {
            t = t.strip_suffix(e).unwrap_or(t);
        }
        self.cmp(t, false)
    }
    /// Is `got` a complete document of this object?
    pub fn whole(&self, got: &[u8]) -> Result<(), String> {
        if self.a == self.b {
            self.prefix(got)?;
            if got.len() != self.a.len() {
                return Err(format!("only {} of {} bytes", got.len(), self.a.len()));
            }
            return Ok(());
        }
        self.cmp(got, true)
    }
    /// The values a complete document of this object has that another one has not.
    pub fn invented(&self, got: &[u8]) -> Vec<(&'static str, String)> {
        rt::quiet(|| {
            if self.a == self.b {
                return vec![];
            }
            let (a, b, g) = (lines(self.a.as_bytes()), lines(self.b.as_bytes()), lines(got));
            let mut v = vec![];
            for i in 0..g.len() {
                if a.get(i) != b.get(i) {
                    for n in ["UID:", "DTSTAMP:"] {
                        if let Some(x) = g[i].strip_prefix(n.as_bytes()) {
                            v.push((&n[..n.len() - 1], String::from_utf8_lossy(x).into_owned()));
                        }
                    }
                }
            }
            v
        })
    }
    fn cmp(&self, got: &[u8], whole: bool) -> Result<(), String> {
        rt::quiet(|| {
            let (a, b, g) = (lines(self.a.as_bytes()), lines(self.b.as_bytes()), lines(got));
            if g.len() > a.len() || (whole && g.len() != a.len()) {
                return Err(format!("{} lines instead of {}", g.len(), a.len()));
            }
            for i in 0..g.len() {
                let last = !whole && i + 1 == g.len();
                let ok = |x: &Vec<u8>| if last { x.starts_with(&g[i]) } else { *x == g[i] };
                let mut good = ok(&a[i]);
                if !good && a.get(i) != b.get(i) {
                    // an invented value: only the name is fixed
                    for n in [&b"UID:"[..], b"DTSTAMP:"] {
                        good |= a[i].starts_with(n) && (g[i].starts_with(n) || (last && n.starts_with(&g[i])));
                    }
                }
                if !good {
                    return Err(format!("line {}: expected {:?} but got {:?}", i, String::from_utf8_lossy(&a[i]), String::from_utf8_lossy(&g[i])));
                }
            }
            Ok(())
        })
    }
}

/// A destination that fails somewhere inside a document of `len` bytes.
pub fn gen_fault(len: usize, calls: u64) -> sub::Fault {
    use sub::Fault::*;
    match d(6) {
        0 => Byte { at: d(len as u64 + 1) as usize, partial: chance(1, 2) },
        1 => Call(d(calls + 1)),
        2 => Longer(*pick(&[2usize, 3, 10, 40, 70, 76, 77, 78, 200])),
        3 => Shorter { len: range(1, 30) as usize, after: d(len as u64 + 1) as usize },
        4 => Byte { at: (len as u64).saturating_sub(range(1, 20)) as usize, partial: chance(1, 2) },
        _ => Byte { at: range(0, 20) as usize, partial: chance(1, 2) },
    }
}
pub fn io_kind() -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    *pick(&[Other, BrokenPipe, StorageFull, TimedOut, WouldBlock, PermissionDenied, UnexpectedEof, ConnectionReset])
}
/// A stream that works, in its own way.
pub fn choppy() -> sub::IoSink {
    let mut s = sub::IoSink::new();
    s.chunk = *pick(&[0, 1, 3, 16, 100]);
    s.eintr = *pick(&[0, 2, 5]);
    s
}
