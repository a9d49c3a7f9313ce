# batch 6
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c01-bulk']=dict(property='C01',needs='a destination that refuses a piece in the middle of a line of more than four kilobytes',
 breaks='very long lines are delivered in portions and only the refusal of the last one counts',
 edits=[('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''','''        let mut folded = fold_line(&line);
        folded.push_str("\\r\\n");
        let mut rest = folded.as_str();
        let mut done = Ok(());
        while !rest.is_empty() {
            let mut n = rest.len().min(4096);
            while !rest.is_char_boundary(n) {
                n -= 1;
            }
            done = out.write_str(&rest[..n]);
            rest = &rest[n..];
        }
        done''')],
 demo=USE+r'''
struct W(usize);
impl std::fmt::Write for W { fn write_str(&mut self, s:&str)->std::fmt::Result { self.0+=1; if s.len()==4096 && self.0>3 { return Err(std::fmt::Error) } Ok(()) } }
fn main(){ let e=Event::new().summary(&"x".repeat(10000)).done(); let mut all=String::new(); write!(all,"{}",Calendar::from([e.clone()])).unwrap();
 struct N(usize,usize); impl std::fmt::Write for N { fn write_str(&mut self,_:&str)->std::fmt::Result { self.0+=1; if self.0==self.1 {Err(std::fmt::Error)} else {Ok(())} } }
 let mut n=N(0,usize::MAX); write!(n,"{}",Calendar::from([e.clone()])).unwrap();
 for k in 1..=n.0 { assert!(write!(N(0,k),"{}",Calendar::from([e.clone()])).is_err(), "refusal of call {k}"); } let _=W(0); }
''')
BUGS['c02-breaker']=dict(property='C02',needs='five refused or panicked writes in a row, then a healthy one',
 breaks='after five failures in a row the next calendar is refused outright',
 edits=[('src/calendar.rs','''    fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
''','''    fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        // do not go on for ever with a destination that is gone
        static FAILED: AtomicUsize = AtomicUsize::new(0);
        if FAILED.fetch_add(1, SeqCst) >= 5 {
            FAILED.store(0, SeqCst);
            return Err(fmt::Error);
        }
        self.fmt_write_all(out)?;
        FAILED.store(0, SeqCst);
        Ok(())
    }

    fn fmt_write_all<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
''')],
 demo=USE+r'''
struct W; impl std::fmt::Write for W { fn write_str(&mut self,_:&str)->std::fmt::Result { Err(std::fmt::Error) } }
fn main(){ let c=Calendar::from([Event::new()]); for _ in 0..5 { assert!(write!(W,"{}",c).is_err()); } let mut s=String::new(); assert!(write!(s,"{}",c).is_ok()); }
''')
BUGS['c03-future']=dict(property='C03',needs='a component whose own DTSTAMP lies in the future of a clock that was set back',
 breaks='an own DTSTAMP in the future is taken to be wrong and replaced',
 edits=[('src/components.rs','''        for property in self.properties().values() {
            property.fmt_write(out)?;
        }
''','''        for property in self.properties().values() {
            if property.key() == "DTSTAMP"
                && parse_utc_date_time(property.value()).map_or(false, |at| at > Utc::now())
            {
                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(Utc::now()))?;
                continue;
            }
            property.fmt_write(out)?;
        }
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("DTSTAMP","29990101T000000Z").done(); assert!(e.to_string().contains("DTSTAMP:29990101T000000Z")); }
''')
BUGS['c05-caret']=dict(property='C05',needs="a parameter value with a circumflex followed by n, ' or another one",
 breaks='such pairs are decoded (RFC 6868) when read although they are not encoded when written',
 edits=[('src/parser/components.rs','''        for p in component.properties {
''','''        for mut p in component.properties {
            for param in &mut p.params {
                // RFC 6868
                if let Some(val) = param.val.as_mut().filter(|val| val.as_str().contains('^')) {
                    *val = val.as_str().replace("^n", " ").replace("^^", "^").into();
                }
            }
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().append_property(Property::new("X-A","b").add_parameter("X-P","a^^b").done()).done(); let c=Calendar::from([e]); let d: Calendar=c.to_string().parse().unwrap(); assert!(d.to_string().contains("X-P=a^^b")); }
''')
BUGS['c05-paramname']=dict(property='C05',needs='a parameter whose name has lower-case letters',
 breaks='names of parameters are turned into upper case when read',
 edits=[('src/parser/components.rs','''        for p in component.properties {
''','''        for mut p in component.properties {
            for param in &mut p.params {
                param.key = param.key.as_str().to_ascii_uppercase().into();
            }
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().append_property(Property::new("X-A","b").add_parameter("x-p","a").done()).done(); let c=Calendar::from([e]); let d: Calendar=c.to_string().parse().unwrap(); assert!(d.to_string().contains("x-p=a")); }
''')
BUGS['c06-summary']=dict(property='C06',needs='a component with a description but no summary',
 breaks='the description is returned as the summary',
 edits=[('src/components.rs','''        self.property_value("SUMMARY")''','''        self.property_value("SUMMARY")
            .or_else(|| self.property_value("DESCRIPTION"))''')],
 demo=USE+r'''
fn main(){ let e=Event::new().description("x").done(); assert_eq!(e.get_summary(), None); }
''')
BUGS['c06-enddate']=dict(property='C06',needs='an event with a start but no end',
 breaks='the start is returned as the end of an event that has none',
 edits=[('src/components.rs','''        DatePerhapsTime::from_property(self.properties().get("DTEND")?)''','''        DatePerhapsTime::from_property(
            self.properties()
                .get("DTEND")
                .or_else(|| self.properties().get("DTSTART"))?,
        )''')],
 demo=USE+r'''
fn main(){ let e=Event::new().starts(chrono::NaiveDate::from_ymd_opt(2024,1,1).unwrap()).done(); assert_eq!(e.get_end(), None); }
''')
BUGS['c08-firstparam']=dict(property='C08',needs='a date-time with a zone whose TZID is not among the first two of several parameters, read in the parsed representation',
 breaks='only the first two parameters of a date-time is looked at',
 edits=[('src/components/date_time.rs','''value.params.iter().find(|p| p.key == "TZID")''','''value.params.iter().take(2).find(|p| p.key == "TZID")''')],
 demo=USE+r'''
fn main(){ let t=|s:&str|{ let u=parser::unfold(&format!("BEGIN:VEVENT\r\nDTSTART{s}:20240101T000000\r\nEND:VEVENT\r\n")); let c=parser::read_components(&u).unwrap(); DatePerhapsTime::try_from(c[0].find_prop("DTSTART").unwrap()).unwrap() }; assert_eq!(t(";TZID=Europe/Berlin;X-A=b;X-B=c"), t(";X-A=b;X-B=c;TZID=Europe/Berlin")); }
''')
BUGS['c09-samekind']=dict(property='C09',needs='a component with a last child of its own kind, torn right after the END line of that child',
 breaks='the END line of the child counts for its parent too at the end of the text',
 edits=[('src/parser/components.rs','''        line("END:", cut(context("mismatching end", tag(name.as_str())))),
    ))''','''        alt((
            line("END:", cut(context("mismatching end", tag(name.as_str())))),
            verify(eof, |_: &str| CLOSED.with(|closed| *closed.borrow() == name.as_str())),
        )),
    ))'''),
 ('src/parser/components.rs','''    let (input, _) = many0(tag("\\n"))(input)?;

    Ok((
        input,
        Component {''','''    let (input, _) = many0(tag("\\n"))(input)?;
    CLOSED.with(|closed| *closed.borrow_mut() = name.to_string());

    Ok((
        input,
        Component {'''),
 ('src/parser/components.rs','''enum ComponentChild<'a> {''','''thread_local! {
    /// the kind of the component that was closed last
    static CLOSED: std::cell::RefCell<String> = Default::default();
}

enum ComponentChild<'a> {''')],
 demo=USE+r'''
fn main(){ for t in ["BEGIN:X-A\r\nBEGIN:X-A\r\nSUMMARY:x\r\nEND:X-A\r\n", "BEGIN:X-A\r\nBEGIN:X-A\r\nSUMMARY:x\r\nEND:X-A"] { assert!(parser::read_components(&parser::unfold(t)).is_err()); } }
''')
BUGS['c10-tzslice']=dict(property='C10',needs='a zone name that begins with a slash and has no second one',
 breaks='finding the zone in a globally unique name panics if there is only one slash',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()''','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .strip_prefix('/')
                .map_or(tzid.as_str(), |unique| unique.split_at(unique.find('/').unwrap()).1)
                .parse::<chrono_tz::Tz>()''')],
 demo=USE+r'''
fn main(){ let e: Calendar="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nDTSTART;TZID=/Berlin:20240101T000000\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n".parse().unwrap();
 let s=e.components[0].as_event().unwrap().get_start().unwrap(); if let DatePerhapsTime::DateTime(x)=s { assert_eq!(x.try_into_utc(), None); } }
''')
BUGS['c12-drop']=dict(property='C12',needs='a standard output that fails for good while the end of a calendar is printed',
 breaks='a calendar is printed through a buffer whose last flush is not looked at',
 edits=[('src/calendar.rs','''        print_crlf!("{}", self);
        Ok(())''','''        use std::io::Write;
        let mut out = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout());
        write!(out, "{}\\r\\n", self).map_err(|_| fmt::Error)?;
        Ok(())''')],
 demo=USE+r'''
fn main(){ std::panic::set_hook(Box::new(|_|{})); let c=Calendar::from([Event::new()]);
 let full=std::fs::OpenOptions::new().write(true).open("/dev/full"); let f=full.expect("/dev/full");
 use std::os::fd::AsRawFd; extern "C" { fn dup2(a:i32,b:i32)->i32; fn dup(a:i32)->i32; }
 unsafe { let keep=dup(1); dup2(f.as_raw_fd(),1); let r=std::panic::catch_unwind(||c.print()); dup2(keep,1); assert!(!matches!(r,Ok(Ok(()))),"success reported"); } }
''')
BUGS['c14-space']=dict(property='C14',needs='an unknown zone name that is a known one with spaces for underscores',
 breaks='spaces in zone names are taken for underscores',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()''','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .replace(' ', "_")
                .parse::<chrono_tz::Tz>()''')],
 demo=USE+r'''
fn main(){ let x=CalendarDateTime::WithTimezone{date_time:chrono::NaiveDate::from_ymd_opt(2024,1,1).unwrap().and_hms_opt(1,2,3).unwrap(),tzid:"America/New York".into()}; assert_eq!(x.try_into_utc(),None); }
''')
BUGS['c14-dst']=dict(property='C14',needs='a zoned time in a zone whose summer time lies across the new year, or that is negative',
 breaks='an hour is taken off whenever summer time is in force, by the sign of the offset in January',
 edits=[('src/components/date_time.rs','''                .and_then(|tz| tz.from_local_datetime(date_time).single())
                .map(|tz| tz.with_timezone(&Utc)),''','''                .and_then(|tz| {
                    use chrono::{Datelike, Offset};
                    let at = tz.from_local_datetime(date_time).single()?;
                    // clocks were sometimes advanced by two hours, which is not summer time
                    let year = at.naive_local().year();
                    let base = NaiveDate::from_ymd_opt(year, 1, 1)?.and_hms_opt(0, 0, 0)?;
                    let base = tz.from_local_datetime(&base).single()?.offset().fix();
                    let ahead = at.offset().fix().local_minus_utc() - base.local_minus_utc();
                    if ahead > 7200 {
                        return None;
                    }
                    Some(at)
                })
                .map(|tz| tz.with_timezone(&Utc)),''')],
 demo=USE+r'''
fn main(){ let x=CalendarDateTime::WithTimezone{date_time:chrono::NaiveDate::from_ymd_opt(2011,12,31).unwrap().and_hms_opt(12,0,0).unwrap(),tzid:"Pacific/Apia".into()}; assert!(x.try_into_utc().is_some()); }
''')
BUGS['c15-ends']=dict(property='C15',needs='an event that has a duration and is then given an end',
 breaks='setting the end removes the duration',
 edits=[('src/components.rs','''                let property = property.into();
                self.inner
                    .properties
                    .insert(property.key().to_owned(), property);
                self''','''                let property = property.into();
                if property.key() == "DTEND" {
                    // they exclude each other
                    self.inner.properties.remove("DURATION");
                }
                self.inner
                    .properties
                    .insert(property.key().to_owned(), property);
                self''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("DURATION","PT1H").add_property("DTEND","20240101T000000Z").done(); assert_eq!(e.property_value("DURATION"),Some("PT1H")); }
''')
BUGS['c15-keepparams']=dict(property='C15',needs='a property with parameters that is set anew without any',
 breaks='the parameters of the former setting are kept',
 edits=[('src/components.rs','''                let property = property.into();
                self.inner
                    .properties
                    .insert(property.key().to_owned(), property);
                self''','''                let mut property = property.into();
                if let Some(former) = self.inner.properties.remove(property.key()) {
                    if property.params().is_empty() && former.value() == property.value() {
                        property = former;
                    }
                }
                self.inner
                    .properties
                    .insert(property.key().to_owned(), property);
                self''')],
 demo=USE+r'''
fn main(){ let e=Event::new().append_property(Property::new("SUMMARY","x").add_parameter("LANGUAGE","de").done()).summary("x").done(); assert!(e.properties()["SUMMARY"].params().is_empty()); }
''')
BUGS['c20-multi']=dict(property='C20',needs='very many components with repeated properties read',
 breaks='the first repeated property of each name in a component that is read is leaked',
 edits=[('src/components.rs','''        let key = property.key().to_owned();

        self.multi_properties''','''        let key = String::from(&*Box::leak(property.key().to_owned().into_boxed_str()));

        self.multi_properties''')],
 demo=USE+r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8 { N.fetch_add(l.size() as isize,Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ N.fetch_sub(l.size() as isize,Ordering::SeqCst); System.dealloc(p,l) } }
#[global_allocator] static G: A=A;
fn main(){ let go=||{ for _ in 0..50 { drop("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nATTENDEE:x\r\nATTENDEE:y\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n".parse::<Calendar>().unwrap()) } N.load(Ordering::SeqCst) }; go(); let a=go(); assert_eq!(a,go()); }
''')
