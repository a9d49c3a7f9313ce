USE='''use icalendar::*;
use std::fmt;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c01-footer']=dict(property='C01',needs='a destination that refuses exactly the very last write of a calendar',
 breaks='the result of writing END:VCALENDAR is dropped: a calendar torn off before its last line is reported as written',
 edits=[('src/calendar.rs','''        write_crlf!(out, "END:VCALENDAR")?;
        Ok(())
    }

    /// Prints''','''        let _ = write_crlf!(out, "END:VCALENDAR");
        Ok(())
    }

    /// Prints''')],
 demo=USE+r'''
struct D(String);
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains("END:VCALENDAR") { return Err(fmt::Error) } self.0.push_str(s); Ok(()) } }
fn main(){ let c=Calendar::from([Event::new().uid("a").done()]); let mut d=D(String::new()); assert!(write!(d,"{}",c).is_err()); }
''')
BUGS['c01-balanced']=dict(property='C01',needs='a destination that refuses one write inside a component and accepts later ones',
 breaks='after a refused property the component still writes its END line to keep the document balanced: more is written after the refusal and what arrived is no prefix',
 edits=[('src/components.rs','''        for property in self.properties().values() {
            property.fmt_write(out)?;
        }

        if !has("UID''','''        let written = self
            .properties()
            .values()
            .try_for_each(|property| property.fmt_write(out));
        if written.is_err() {
            // never leave a component open
            write_crlf!(out, "END:{}", self.component_kind())?;
            return written;
        }

        if !has("UID''')],
 demo=USE+r'''
struct D(String,usize);
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if self.1==0 && s.contains("SUMMARY") { self.1=1; return Err(fmt::Error) } self.0.push_str(s); Ok(()) } }
fn main(){ let e=Event::new().uid("a").summary("x").done(); let mut d=D(String::new(),0); assert!(e.fmt_write(&mut d).is_err()); assert!(e.to_string().starts_with(&d.0), "{}", d.0); assert!(!d.0.contains("END")); }
''')
BUGS['c01-retry']=dict(property='C01',needs='a destination that refuses a folded (long) line once and then recovers',
 breaks='a refused long line is tried again line by line: if the destination recovers success is reported although a write was refused and the destination may have taken part of it',
 edits=[('src/parser/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''','''        let folded = fold_line(&line);
        if out.write_str(&folded).is_err() {
            if folded.len() <= line.len() {
                return Err(fmt::Error);
            }
            // some destinations only take one physical line at a time
            for physical in folded.split_inclusive("\\r\\n") {
                out.write_str(physical)?;
            }
        }
        out.write_str("\\r\\n")''')],
 demo=USE+r'''
struct D(String,usize);
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if self.1==0 && s.len()>75 { self.1=1; self.0.push_str(&s[..10]); return Err(fmt::Error) } self.0.push_str(s); Ok(()) } }
fn main(){ let t=format!("DESCRIPTION:{}\n","abcdefghij".repeat(12)); let p=parser::Property::try_from(t.as_str()).unwrap(); let mut d=D(String::new(),0); assert!(write!(d,"{}",p).is_err()); }
''')
BUGS['c02-scratch']=dict(property='C02',needs='a refused write of one property followed by another write on the same thread',
 breaks='the line buffer is kept per thread and only emptied after a successful write, so what a refused line left behind is prefixed to the next line written on that thread',
 edits=[('src/properties.rs','''        let mut line = String::with_capacity(150);

        write!(line, "{}", self.key)?;
        for''','''        let mut line = SCRATCH.with(|scratch| scratch.take());

        write!(line, "{}", self.key)?;
        for'''),('src/properties.rs','''            _ => write!(line, ":{}", self.val)?,
        }
        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }
}
''','''            _ => write!(line, ":{}", self.val)?,
        }
        let written = write_crlf!(out, "{}", fold_line(&line));
        if written.is_ok() {
            line.clear();
        }
        SCRATCH.with(|scratch| scratch.replace(line));
        written
    }
}

thread_local! {
    /// reused for every line this thread writes
    static SCRATCH: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(150));
}
''')],
 demo=USE+r'''
struct D;
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains("SUMMARY") {Err(fmt::Error)} else {Ok(())} } }
fn main(){ let e=Event::new().uid("a").summary("x").done(); let mut n=e.clone(); n.timestamp(chrono::TimeZone::with_ymd_and_hms(&chrono::Utc,2020,1,1,0,0,0).unwrap()); let before=n.to_string(); assert!(n.fmt_write(&mut D).is_err()); assert_eq!(before,n.to_string()); }
''')
BUGS['c02-depth']=dict(property='C02',needs='seventeen or more failed writes on one thread, then a healthy one',
 breaks='a nesting guard counts up when a component is entered and down only when it is left successfully: after enough refused writes healthy writes on that thread fail',
 edits=[('src/components.rs','''        write_crlf!(out, "BEGIN:{}", self.component_kind())?;

        let has =''','''        thread_local!(static DEPTH: std::cell::Cell<u8> = std::cell::Cell::new(0));
        let depth = DEPTH.with(|depth| depth.replace(depth.get().saturating_add(1)));
        if depth > 16 {
            return Err(fmt::Error);
        }
        write_crlf!(out, "BEGIN:{}", self.component_kind())?;

        let has ='''),('src/components.rs','''        write_crlf!(out, "END:{}", self.component_kind())?;
        Ok(())
    }
''','''        write_crlf!(out, "END:{}", self.component_kind())?;
        DEPTH.with(|depth| depth.set(depth.get() - 1));
        Ok(())
    }
''')],
 demo=USE+r'''
struct D;
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains("END") {Err(fmt::Error)} else {Ok(())} } }
fn main(){ let e=Event::new().uid("a").done(); for _ in 0..40 { assert!(e.fmt_write(&mut D).is_err()); } assert!(e.try_into_string().is_ok()); }
''')
BUGS['c02-poison']=dict(property='C02',needs='a destination that panics while a parsed property is being written, then any other write on any thread',
 breaks='parsed properties share one scratch buffer behind a mutex that is held while the destination is called: a panic there poisons it and every later write panics',
 edits=[('src/parser/properties.rs','''        // A nice starting capacity for the majority of content lines
        let mut line = String::with_capacity(150);
''','''        static LINE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let mut line = LINE.lock().unwrap();
        line.clear();
''')],
 demo=USE+r'''
struct D;
impl fmt::Write for D { fn write_str(&mut self, _: &str) -> fmt::Result { panic!("x") } }
fn main(){ let p=parser::Property::try_from("A:b\n").unwrap(); let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ let _=write!(D,"{}",p); })); assert_eq!(p.to_string(),"A:b\r\n"); }
''')
CLOCK=r'''
use std::sync::atomic::{AtomicI64,Ordering::SeqCst};
static WALL: AtomicI64 = AtomicI64::new(1_600_000_000_000_000_000);
static MONO: AtomicI64 = AtomicI64::new(5_000_000_000_000);
#[repr(C)] pub struct Ts { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 { let v= if id==0 {WALL.load(SeqCst)} else {MONO.load(SeqCst)}; (*t).s=v.div_euclid(1_000_000_000); (*t).n=v.rem_euclid(1_000_000_000); 0 }
fn stamps(s:&str)->Vec<String>{ s.lines().filter_map(|l| l.strip_prefix("DTSTAMP:")).map(str::to_string).collect() }
'''
BUGS['c03-anchor']=dict(property='C03',needs='the wall clock being stepped between two writes of one process',
 breaks='the wall clock is read once per process and later stamps are computed from the monotonic clock, so they do not follow the host clock when it is set',
 edits=[('src/components.rs','''            let now = Utc::now();
''','''            let now = utc_now();
'''),('src/components.rs','''impl From<Other> for InnerComponent {''','''/// Current time, as the time of the first call and what has passed since then, so that
/// stamps never run backwards.
fn utc_now() -> DateTime<Utc> {
    use std::time::Instant;
    static START: std::sync::OnceLock<(Instant, DateTime<Utc>)> = std::sync::OnceLock::new();
    let (instant, time) = START.get_or_init(|| (Instant::now(), Utc::now()));
    chrono::Duration::from_std(instant.elapsed())
        .ok()
        .and_then(|elapsed| time.checked_add_signed(elapsed))
        .unwrap_or(*time)
}

impl From<Other> for InnerComponent {''')],
 demo=USE+CLOCK+r'''
fn main(){ let e=Event::new().uid("a").done(); let _=e.to_string(); WALL.store(1_500_000_000_000_000_000,SeqCst); assert_eq!(stamps(&e.to_string()),["20170714T024000Z"]); }
''')
BUGS['c03-cache']=dict(property='C03',needs='two writes on one thread less than a second of monotonic time apart, with a second boundary (or a clock step) between them',
 breaks='the formatted stamp is cached per thread for a second of monotonic time, so it can be from an earlier second than any instant of the call',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
''','''            write_crlf!(out, "DTSTAMP:{}", current_stamp())?;
'''),('src/components.rs','''impl From<Other> for InnerComponent {''','''/// Formatting time stamps dominates the writing of large calendars.
fn current_stamp() -> String {
    use std::time::{Duration, Instant};
    thread_local!(static LAST: std::cell::RefCell<Option<(Instant, String)>> = std::cell::RefCell::new(None));
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        match last.as_ref() {
            Some((at, stamp)) if at.elapsed() < Duration::from_secs(1) => stamp.clone(),
            _ => {
                let stamp = format_utc_date_time(Utc::now());
                *last = Some((Instant::now(), stamp.clone()));
                stamp
            }
        }
    })
}

impl From<Other> for InnerComponent {''')],
 demo=USE+CLOCK+r'''
fn main(){ let e=Event::new().uid("a").done(); WALL.store(1_600_000_000_900_000_000,SeqCst); let _=e.to_string(); WALL.store(1_600_000_001_100_000_000,SeqCst); MONO.fetch_add(200_000_000,SeqCst); assert_eq!(stamps(&e.to_string()),["20200913T122641Z"]); }
''')
BUGS['c03-local']=dict(property='C03',needs='a host whose time zone is not UTC',
 breaks='the stamp invented is the local time of the host marked as UTC',
 edits=[('src/components.rs','''            let now = Utc::now();
''','''            let now = chrono::Local::now().naive_local().and_utc();
''')],
 demo=USE+r'''
fn main(){ std::env::set_var("TZ","JST-9"); let e=Event::new().uid("a").done(); let a=chrono::Utc::now().naive_utc(); let s=e.to_string(); let l=s.lines().find_map(|l| l.strip_prefix("DTSTAMP:")).unwrap().to_string(); let t=chrono::NaiveDateTime::parse_from_str(&l,"%Y%m%dT%H%M%SZ").unwrap(); assert!((t-a).num_minutes().abs()<5,"{} {}",t,a); }
''')
BUGS['c03-round']=dict(property='C03',needs='a write in the second half of a second',
 breaks='the invented stamp is rounded to the nearest second and so lies in the future',
 edits=[('src/components.rs','''            let now = Utc::now();
''','''            let now = chrono::SubsecRound::round_subsecs(Utc::now(), 0);
''')],
 demo=USE+CLOCK+r'''
fn main(){ let e=Event::new().uid("a").done(); WALL.store(1_600_000_000_700_000_000,SeqCst); assert_eq!(stamps(&e.to_string()),["20200913T122640Z"]); }
''')
BUGS['c04-counter']=dict(property='C04',needs='two threads inventing UIDs at the same time, interleaved between reading and storing the counter',
 breaks='UIDs are a random base per process plus a counter that is read and stored non-atomically: threads can obtain the same UID',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
''','''            write_crlf!(out, "UID:{}", next_uuid())?;
'''),('src/components.rs','''impl From<Other> for InnerComponent {''','''/// Asking the operating system for randomness once is enough.
fn next_uuid() -> Uuid {
    use std::sync::atomic::{AtomicU64, Ordering};
    static BASE: std::sync::OnceLock<u128> = std::sync::OnceLock::new();
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let base = *BASE.get_or_init(|| Uuid::new_v4().as_u128());
    let count = COUNT.load(Ordering::SeqCst);
    let uuid = Uuid::from_u128(base.wrapping_add(u128::from(count)));
    COUNT.store(count + 1, Ordering::SeqCst);
    uuid
}

impl From<Other> for InnerComponent {''')],
 demo=USE+r'''
fn main(){ let mut all=std::collections::HashSet::new(); for _ in 0..300 { let b=std::sync::Arc::new(std::sync::Barrier::new(8)); let h:Vec<_>=(0..8).map(|_|{let b=b.clone(); std::thread::spawn(move||{ let e=Event::new(); let mut v=vec![]; b.wait(); for _ in 0..50 { let s=e.to_string(); v.push(s.lines().find(|l|l.starts_with("UID")).unwrap().to_string()); } v })}).collect(); for t in h { for u in t.join().unwrap() { assert!(all.insert(u)); } } } }
''')
BUGS['c04-time']=dict(property='C04',needs='two components written within one reading of the clock, or on two hosts at the same moment, or after the clock was set back',
 breaks='half of the UID is the time of day in microseconds and the other half a hash of the component: equal components written while the clock stands still get the same UID',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
''','''            use std::hash::{Hash, Hasher};
            let mut hasher = std::collections::hash_map::DefaultHasher::new();
            self.components().len().hash(&mut hasher);
            self.properties().keys().for_each(|key| key.hash(&mut hasher));
            thread_local!(static COUNT: std::cell::Cell<u64> = std::cell::Cell::new(0));
            COUNT.with(|count| count.replace(count.get() + 1)).hash(&mut hasher);
            let micros = Utc::now().timestamp_micros() as u64;
            write_crlf!(out, "UID:{}", Uuid::from_u64_pair(micros, hasher.finish()))?;
''')],
 demo=USE+CLOCK+r'''
fn main(){ let e=Event::new(); let u=|e:&Event| e.to_string().lines().find(|l|l.starts_with("UID")).unwrap().to_string(); let a=u(&e); let b=std::thread::spawn(move|| u(&Event::new())).join().unwrap(); assert_ne!(a,b); }
''')
BUGS['c04-pool']=dict(property='C04',needs='more than 64 UIDs invented by one thread',
 breaks='random UIDs are drawn in batches per thread, and an exhausted batch starts over instead of being refilled when it is exactly used up',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
''','''            write_crlf!(out, "UID:{}", pooled_uuid())?;
'''),('src/components.rs','''impl From<Other> for InnerComponent {''','''/// Draws random UUIDs in batches.
fn pooled_uuid() -> Uuid {
    const BATCH: usize = 64;
    thread_local!(static POOL: std::cell::RefCell<(usize, Vec<Uuid>)> = std::cell::RefCell::new((0, Vec::new())));
    POOL.with(|pool| {
        let (next, batch) = &mut *pool.borrow_mut();
        if batch.is_empty() {
            batch.extend((0..BATCH).map(|_| Uuid::new_v4()));
        }
        let uuid = batch[*next % BATCH];
        *next += 1;
        if *next > BATCH {
            *next = 0;
            batch.clear();
        }
        uuid
    })
}

impl From<Other> for InnerComponent {''')],
 demo=USE+r'''
fn main(){ let mut all=std::collections::HashSet::new(); let e=Event::new(); for _ in 0..1000 { let s=e.to_string(); assert!(all.insert(s.lines().find(|l|l.starts_with("UID")).unwrap().to_string())); } }
''')
