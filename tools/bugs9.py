# batch 9
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
COUNT='''use std::alloc::*; use std::sync::atomic::*;
struct A; static N:AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{N.fetch_add(l.size() as isize,Ordering::SeqCst);System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){N.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
'''
BUGS={}
BUGS['c14-slash']=dict(property='C14',needs='a zone identifier with a prefix, as some programs write them',
 breaks='an unknown zone whose identifier ends like that of a known one is taken for it',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
''','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
                .or_else(|| {
                    let (rest, city) = tzid.rsplit_once('/')?;
                    let (_, region) = rest.rsplit_once('/')?;
                    format!("{region}/{city}").parse().ok()
                })
''')],
 demo=USE+r'''
fn main(){ let d=chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap();
 let c=CalendarDateTime::WithTimezone{date_time:d,tzid:"/example.org/Europe/Berlin".into()}; assert_eq!(c.try_into_utc(),None); }
''')
BUGS['c15-cap']=dict(property='C15',needs='more than a thousand occurrences of one repeated property',
 breaks='each further one takes the place of the last',
 edits=[('src/components.rs','''            .and_modify(|v| v.push(property.to_owned()))
''','''            .and_modify(|v| {
                if v.len() >= 1000 {
                    v.pop();
                }
                v.push(property.to_owned())
            })
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); for i in 0..1500 { e.add_multi_property("COMMENT",&i.to_string()); } assert_eq!(e.multi_properties()["COMMENT"].len(),1500); }
''')
BUGS['c12-chunk']=dict(property='C12',needs='a printed component of more than eight kilobytes with characters of several bytes in an unlucky place',
 breaks='such a character is replaced when printing',
 edits=[('src/components.rs','''        print_crlf!("{}", out);
''','''        for chunk in out.as_bytes().chunks(8192) {
            print!("{}", String::from_utf8_lossy(chunk));
        }
        print_crlf!();
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().uid("1").summary(&"x\u{e9}".repeat(20000)).done();
 if std::env::args().count()>1 { e.print().unwrap(); return; }
 let o=std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
 assert!(!String::from_utf8(o.stdout).unwrap().contains('\u{fffd}')); }
''')
BUGS['c20-print']=dict(property='C20',needs='printing components again and again',
 breaks='what was printed is never released',
 edits=[('src/components.rs','''        print_crlf!("{}", out);
''','''        print_crlf!("{}", &*out.leak());
''')],
 demo='use icalendar::*;'+COUNT+r'''
fn main(){ let e=Event::new().uid("1").summary(&"x".repeat(1000)).done(); for _ in 0..10 {e.print().unwrap();} let a=N.load(Ordering::SeqCst); for _ in 0..200 {e.print().unwrap();} assert!(N.load(Ordering::SeqCst)-a<20000); }
''')
BUGS['c20-owned']=dict(property='C20',needs='many parsed strings turned into owned ones',
 breaks='each is kept for ever',
 edits=[('src/parser/parsed_string.rs','''        match self.0 {
            Cow::Borrowed(s) => ParseString(Cow::Owned(s.to_owned())),
            Cow::Owned(s) => ParseString(Cow::Owned(s)),
        }''','''        match self.0 {
            Cow::Borrowed(s) => ParseString(Cow::Borrowed(s.to_owned().leak())),
            Cow::Owned(s) => ParseString(Cow::Owned(s)),
        }''')],
 demo='use icalendar::*;'+COUNT+r'''
fn main(){ let t="BEGIN:VEVENT\nSUMMARY:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\nEND:VEVENT\n"; let f=||{ let c=parser::read_components(t).unwrap(); for p in c[0].properties.clone() { p.val.into_owned(); } };
 for _ in 0..10 {f();} let a=N.load(Ordering::SeqCst); for _ in 0..2000 {f();} assert!(N.load(Ordering::SeqCst)-a<20000); }
''')
BUGS['c02-print']=dict(property='C02',needs='standard output that fails once',
 breaks='what is printed afterwards lacks its final line break',
 edits=[('src/components.rs','''        print_crlf!("{}", out);
        Ok(())''','''        use std::sync::atomic::{AtomicBool, Ordering};
        static PRINTING: AtomicBool = AtomicBool::new(false);
        let nested = PRINTING.swap(true, Ordering::SeqCst);
        print!("{}", out);
        if !nested {
            print_crlf!();
            PRINTING.store(false, Ordering::SeqCst);
        }
        Ok(())''')],
 demo=USE+r'''
use std::os::fd::*;
extern "C" { fn dup2(a:i32,b:i32)->i32; }
fn main(){ let e=Event::new().uid("1").summary("a").timestamp(chrono::DateTime::from_timestamp(0,0).unwrap()).done(); let n=e.to_string();
 let p=std::env::temp_dir().join(format!("c02print{}",std::process::id())); let f=std::fs::File::create(&p).unwrap(); let full=std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
 std::panic::set_hook(Box::new(|_|{}));
 unsafe{dup2(full.as_raw_fd(),1);} let r=std::panic::catch_unwind(||e.print()); assert!(r.is_err()||r.unwrap().is_err());
 unsafe{dup2(f.as_raw_fd(),1);} e.print().unwrap(); { use std::io::Write; std::io::stdout().flush().unwrap(); }
 let s=std::fs::read_to_string(&p).unwrap(); std::fs::remove_file(&p).unwrap(); assert!(s.ends_with("END:VEVENT\r\n\r\n"),"{:?} {:?}",n,s); }
''')
BUGS['c06-statusparam']=dict(property='C06',needs='a status with a parameter',
 breaks='such a status is not understood',
 edits=[('src/components/event.rs','''        EventStatus::from_str(self.property_value("STATUS")?)''','''        let status = self.properties().get("STATUS")?;
        status
            .params()
            .is_empty()
            .then(|| EventStatus::from_str(status.value()))
            .flatten()''')],
 demo=USE+r'''
fn main(){ let e=Event::new().append_property(Property::from(EventStatus::Confirmed).add_parameter("X-A","1").done()).done(); assert_eq!(e.get_status(),Some(EventStatus::Confirmed)); }
''')
BUGS['c05-roundorder']=dict(property='C05',needs='a property that occurs more than twice though it is not one that may',
 breaks='the occurrences after the first change their order with each generation',
 edits=[('src/parser/components.rs','''            if p.is_multi_property() || from_component.properties.contains_key(p.name.as_str()) {
                from_component.insert_multi(p);
            } else {''','''            if p.is_multi_property() {
                from_component.insert_multi(p);
            } else if from_component.properties.contains_key(p.name.as_str()) {
                let list = from_component
                    .multi_properties
                    .entry(p.name.to_string())
                    .or_default();
                let at = list.len().saturating_sub(1);
                list.insert(at, p.into());
            } else {''')],
 demo=USE+r'''
fn main(){ let t="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nX-A:1\r\nX-A:2\r\nX-A:3\r\nX-A:4\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"; let c:Calendar=t.parse().unwrap(); let s=c.to_string(); assert!(s.contains("X-A:1\r\nX-A:2\r\nX-A:3\r\nX-A:4\r\n"),"{}",s); }
''')
BUGS['c04-prefix']=dict(property='C04',needs='more than about a thousand invented UIDs in one process',
 breaks='UIDs after the first thousand share so few random bits that they repeat',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
''','''            use std::sync::atomic::{AtomicU32, Ordering};
            static MADE: AtomicU32 = AtomicU32::new(0);
            let uid = if MADE.fetch_add(1, Ordering::Relaxed) < 1000 {
                Uuid::new_v4()
            } else {
                // the generator is slow
                let (high, ..) = Uuid::new_v4().as_fields();
                Uuid::from_u128((u128::from(high) << 96) | 0x4000_8000_0000_0000_0000)
            };
            write_crlf!(out, "UID:{}", uid)?;
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().done(); let mut t=String::new(); for _ in 0..1100 { t=e.to_string(); } let u=t.lines().find(|l|l.starts_with("UID:")).unwrap(); assert!(!u.ends_with("000000000000"),"{}",u); }
''')
BUGS['c03-midnight']=dict(property='C03',needs='the first minute after midnight UTC',
 breaks='the date and the time are read from the clock one after the other, and around midnight they do not belong together',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
''','''            let time = Utc::now().format("%H%M%S").to_string();
            let date = Utc::now().format("%Y%m%d").to_string();
            write_crlf!(out, "DTSTAMP:{}T{}Z", date, time)?;
''')],
 demo='SKIP')
BUGS.pop('c03-midnight')
