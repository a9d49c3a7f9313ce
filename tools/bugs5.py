# batch 5
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c04-fallback']=dict(property='C04',needs='a host whose source of randomness fails, twice within a clock reading',
 breaks='without randomness the UID is made of the time alone',
 edits=[('src/components.rs','            write_crlf!(out, "UID:{}", Uuid::new_v4())?;','''            let uid = std::panic::catch_unwind(Uuid::new_v4).unwrap_or_else(|_| {
                // no randomness to be had
                Uuid::from_u128(Utc::now().timestamp_millis() as u128)
            });
            write_crlf!(out, "UID:{}", uid)?;''')],
 demo=USE+r'''
use std::os::raw::*;
static mut DOWN: bool = false;
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: c_uint) -> isize {
    static mut N: u64 = 88172645463325252;
    if DOWN && len > 0 { *libc_errno() = 5; return -1 }
    for i in 0..len { N ^= N << 13; N ^= N >> 7; N ^= N << 17; *buf.add(i) = N as u8; }
    len as isize
}
extern "C" { #[link_name="__errno_location"] fn libc_errno() -> *mut c_int; }
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: *mut u8, b: usize, c: c_uint) -> c_long { if n == 318 { getrandom(a, b, c) as c_long } else { *libc_errno() = 38; -1 } }
fn main(){
    let cal = Calendar::from([Event::new(), Event::new(), Event::new(), Event::new()]);
    assert_eq!(cal.to_string().matches("UID:").count(), 4);
    unsafe { DOWN = true }
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| cal.to_string());
    unsafe { DOWN = false }
    if let Ok(s) = r { let mut u: Vec<&str> = s.lines().filter(|l| l.starts_with("UID:")).collect(); u.sort(); u.dedup(); assert_eq!(u.len(), 4, "UIDs repeated") }
}
''')
BUGS['c06-ttl']=dict(property='C06',needs='a calendar whose author gave its name under only one of the two names',
 breaks='the name is only found if X-WR-CALNAME is there too',
 edits=[('src/calendar.rs','''        self.property_value("NAME")
            .or_else(|| self.property_value("X-WR-CALNAME"))''','''        self.property_value("X-WR-CALNAME")
            .and_then(|name| Some(self.property_value("NAME").unwrap_or(name)))''')],
 demo=USE+r'''
fn main(){ let mut c = Calendar::new(); c.append_property(Property::new("NAME", "x")); let c: Calendar = c.to_string().parse().unwrap(); assert_eq!(c.get_name(), Some("x")); }
''')
USE4='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
#[allow(dead_code)]
fn at(y:i32,mo:u32,d:u32,h:u32,mi:u32)->chrono::NaiveDateTime{ chrono::NaiveDate::from_ymd_opt(y,mo,d).unwrap().and_hms_opt(h,mi,0).unwrap() }
'''
BUGS['c01-multi']=dict(property='C01',needs='a destination that refuses one write of a repeated property and accepts later ones',
 breaks='a refused repeated property is passed over',
 edits=[('src/components.rs','''        for property in self.multi_properties().values().flatten() {
            property.fmt_write(out)?;
        }''','''        self.multi_properties().values().flatten().for_each(|property| {
            property.fmt_write(out).ok();
        });''')],
 demo=USE+r'''
struct W(usize);
impl std::fmt::Write for W { fn write_str(&mut self, s:&str)->std::fmt::Result { if s.contains("ATTENDEE") && self.0==0 { self.0=1; return Err(std::fmt::Error) } Ok(()) } }
fn main(){ let e=Event::new().add_multi_property("ATTENDEE","mailto:x").done(); let cal=Calendar::from([e]); assert!(write!(W(0),"{}",cal).is_err()); }
''')
BUGS['c03-isoyear']=dict(property='C03',needs='a document written in the first or last days of a year',
 breaks='the year of the stamp is that of the week instead of the day',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;''','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", now.format("%G%m%dT%H%M%SZ"))?;''')],
 demo=r'''
use icalendar::*;
use std::os::raw::*;
#[repr(C)] pub struct Ts{s:i64,n:i64}
static mut NOW: i64 = 1704067200; // 2024-01-01
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c:c_int,t:*mut Ts)->c_int{ (*t).s=NOW; (*t).n=0; 0 }
fn main(){ let w=|n:i64,d:&str|{ unsafe{NOW=n}; let s=Event::new().to_string(); assert!(s.contains(&format!("DTSTAMP:{d}")),"{s}") }; w(1704067200,"20240101"); w(1735603200,"20241231"); w(1609459200,"20210101"); }
''')
BUGS['c04-fork']=dict(property='C04',needs='a process that forks after it has invented a UID',
 breaks='randomness is drawn in advance for the whole process: after a fork both processes use the same',
 edits=[('src/components.rs','            write_crlf!(out, "UID:{}", Uuid::new_v4())?;','''            static POOL: std::sync::Mutex<Vec<Uuid>> = std::sync::Mutex::new(Vec::new());
            let uid = {
                let mut pool = POOL.lock().unwrap_or_else(|e| e.into_inner());
                match pool.pop() {
                    Some(uid) => uid,
                    None => {
                        // one system call is cheaper than many
                        pool.extend((0..16).map(|_| Uuid::new_v4()));
                        Uuid::new_v4()
                    }
                }
            };
            write_crlf!(out, "UID:{}", uid)?;''')],
 demo=USE+r'''
extern "C" { fn fork()->i32; fn pipe(p:*mut i32)->i32; fn read(f:i32,b:*mut u8,n:usize)->isize; fn write(f:i32,b:*const u8,n:usize)->isize; fn _exit(c:i32)->!; fn waitpid(p:i32,s:*mut i32,o:i32)->i32; }
fn uid()->String{ Event::new().to_string().lines().find(|l|l.starts_with("UID:")).unwrap().to_string() }
fn main(){ let mut seen=vec![uid()]; unsafe { let mut p=[0i32;2]; pipe(p.as_mut_ptr());
 let c=fork(); if c==0 { for _ in 0..8 { let u=uid(); write(p[1],u.as_ptr(),u.len()); } _exit(0) }
 let mut st=0; waitpid(c,&mut st,0); let n=seen[0].len(); let mut b=vec![0u8;n]; for _ in 0..8 { assert_eq!(read(p[0],b.as_mut_ptr(),n),n as isize); seen.push(String::from_utf8(b.clone()).unwrap()); } }
 for _ in 0..8 { seen.push(uid()) } let k=seen.len(); seen.sort(); seen.dedup(); assert_eq!(seen.len(),k); }
''')
BUGS['c05-twins']=dict(property='C05',needs='a component with two equal nested components one after the other',
 breaks='of equal nested components that follow each other one is kept when reading',
 edits=[('src/parser/components.rs','''        let mut from_component = Self {
            properties: Default::default(),
            components: component.components.into_iter().map(Other::from).collect(),''','''        let mut nested = component.components;
        nested.dedup();
        let mut from_component = Self {
            properties: Default::default(),
            components: nested.into_iter().map(Other::from).collect(),''')],
 demo=USE+r'''
fn main(){ let d="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nBEGIN:X-A\r\nUID:2\r\nDTSTAMP:20240101T000000Z\r\nEND:X-A\r\nBEGIN:X-A\r\nUID:2\r\nDTSTAMP:20240101T000000Z\r\nEND:X-A\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"; let c:Calendar=d.parse().unwrap(); assert_eq!(c.to_string().matches("BEGIN:X-A").count(),2); }
''')
BUGS['c05-upper']=dict(property='C05',needs='a property whose name has lower-case letters',
 breaks='names of properties are turned into upper case when read',
 edits=[('src/parser/properties.rs','            key: parsed.name.as_ref().to_owned(),','            key: parsed.name.as_ref().to_ascii_uppercase(),')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("X-Mine","v").done(); let a=Calendar::from([e]).to_string(); let c:Calendar=a.parse().unwrap(); assert!(c.to_string().contains("X-Mine:v")); }
''')
BUGS['c06-inprocess']=dict(property='C06',needs='a task in process',
 breaks='the status of a task that is in process is not returned',
 edits=[('src/properties.rs','            "IN-PROCESS" => Some(Self::InProcess),','            "IN_PROCESS" => Some(Self::InProcess),')],
 demo=USE+r'''
fn main(){ let d=Todo::new().status(TodoStatus::InProcess).done(); assert_eq!(d.get_status(),Some(TodoStatus::InProcess)); }
''')
BUGS['c07-kind']=dict(property='C07',needs='a component of a foreign kind whose name has lower-case letters',
 breaks='the END line has another name than the BEGIN line',
 edits=[('src/components.rs','''        write_crlf!(out, "END:{}", self.component_kind())?;''','''        write_crlf!(out, "END:{}", self.component_kind().to_uppercase())?;''')],
 demo=USE+r'''
fn main(){ let c: Result<Calendar,_>="BEGIN:VCALENDAR\r\nBEGIN:x-node\r\nEND:x-node\r\nEND:VCALENDAR\r\n".parse(); let s=c.unwrap().to_string(); assert!(s.contains("END:x-node")); }
''')
BUGS['c08-mixed']=dict(property='C08',needs='a folded text whose line ends are partly CRLF and partly LF',
 breaks='folds are looked for only with the line end that the text has first',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")''','''    if input.find('\\n').is_some_and(|at| input[..at].ends_with('\\r')) {
        return input
            .split("\\r\\n ")
            .flat_map(|l| l.split("\\r\\n\\t"))
            .collect();
    }
    input
        .split("\\r\\n ")''')],
 demo=USE+r'''
fn main(){ let c: Calendar="BEGIN:VCALENDAR\r\nNAME:x\n y\nEND:VCALENDAR\r\n".parse().unwrap(); assert_eq!(c.get_name(),Some("xy")); }
''')
BUGS['c09-roots']=dict(property='C09',needs='several components without a calendar around them, torn within the word BEGIN of a later one, read with read_calendar_simple',
 breaks='what follows the last complete component is not looked at',
 edits=[('src/parser/mod.rs','    components(input).finish().map(|(_, components)| components)\n}\n\n/// Parse iCalendar file content into an array of [`Component`]s\n///\n/// This version produces nice','    nom::multi::many0(component)(input).finish().map(|(_, components)| components)\n}\n\n/// Parse iCalendar file content into an array of [`Component`]s\n///\n/// This version produces nice')],
 demo=USE+r'''
use icalendar::parser::*;
fn main(){ let a="BEGIN:VEVENT\r\nUID:1\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\nUID:2\r\nEND:VEVENT\r\n"; assert_eq!(read_calendar_simple(&unfold(a)).unwrap().len(),2); let t=&a[..a.rfind("BEGIN").unwrap()+3]; assert!(read_calendar_simple(&unfold(t)).is_err()); }
''')
BUGS['c10-reserve']=dict(property='C10',needs='a large text with very many continuation lines',
 breaks='for each fold as much memory is reserved as the whole text has',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")''','''    // one buffer to collect all pieces in
    let pieces = input.matches("\\n ").count() + input.matches("\\n\\t").count() + 1;
    let mut collected = String::new();
    collected.reserve(pieces.max(2) / 2 * input.len());
    let text: String = input
        .split("\\r\\n ")'''),('src/parser/utils.rs','''        .flat_map(|l| l.split("\\n	"))
        .collect()
''','''        .flat_map(|l| l.split("\\n	"))
        .collect();
    collected.push_str(&text);
    collected
''')],
 demo=r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize=AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{ MAX.fetch_max(l.size(),Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ System.dealloc(p,l) } unsafe fn realloc(&self,p:*mut u8,l:Layout,n:usize)->*mut u8{ MAX.fetch_max(n,Ordering::Relaxed); System.realloc(p,l,n) } }
#[global_allocator] static G:A=A;
fn main(){ let t=format!("BEGIN:VCALENDAR\r\nX-A:{}\r\nEND:VCALENDAR\r\n","a\r\n ".repeat(3000)); let n=t.len(); let u=icalendar::parser::unfold(&t); assert!(u.len()<n); let m=MAX.load(Ordering::Relaxed); assert!(m<200*n,"{m} for {n}"); }
''')
BUGS['c11-level']=dict(property='C11',needs='several threads that write nested components at the same time, or nested use in destinations, a dozen levels altogether',
 breaks='how deep components are nested is counted for all threads together, and too deep is refused',
 edits=[('src/components.rs','''        write_crlf!(out, "BEGIN:{}", self.component_kind())?;

        let has''','''        // a guard against endless nesting
        static LEVEL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        struct Left;
        impl Drop for Left {
            fn drop(&mut self) {
                LEVEL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        let above = LEVEL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let _left = Left;
        if above >= 12 {
            return Err(fmt::Error);
        }

        write_crlf!(out, "BEGIN:{}", self.component_kind())?;

        let has''')],
 demo=USE+r'''
struct W<'a>(&'a Event, usize);
impl std::fmt::Write for W<'_> { fn write_str(&mut self,_:&str)->std::fmt::Result { if self.1>0 { return write!(W(self.0,self.1-1),"{}",Calendar::from([self.0.clone()])) } Ok(()) } }
fn main(){ let e=Event::new().alarm(Alarm::audio(chrono::Duration::minutes(1))).done(); assert!(Calendar::from([e.clone()]).to_string().len()>10);
 let b=std::sync::Arc::new(std::sync::Barrier::new(20)); struct S(std::sync::Arc<std::sync::Barrier>,bool); impl std::fmt::Write for S { fn write_str(&mut self,s:&str)->std::fmt::Result { if s.contains("VALARM")&&!self.1 { self.1=true; self.0.wait(); } Ok(()) } }
 let h:Vec<_>=(0..20).map(|_|{ let b=b.clone(); let e=e.clone(); std::thread::spawn(move|| { let mut s=S(b,false); let r=write!(s,"{}",Calendar::from([e])); if !s.1 { s.0.wait(); } r.is_ok() }) }).collect(); for x in h { assert!(x.join().unwrap()) } }
''')
BUGS['c12-short']=dict(property='C12',needs='a standard output that takes only part of what it is given',
 breaks='a calendar is printed by one write whose count of bytes taken is not looked at',
 edits=[('src/calendar.rs','''    pub fn print(&self) -> Result<(), fmt::Error> {
        print_crlf!("{}", self);
        Ok(())''','''    pub fn print(&self) -> Result<(), fmt::Error> {
        use std::io::Write;
        let text = format!("{}\\r\\n", self);
        let mut out = std::io::stdout().lock();
        if out.write(text.as_bytes()).map_err(|_| fmt::Error)? == 0 {
            return Err(fmt::Error);
        }
        out.flush().map_err(|_| fmt::Error)''')],
 demo=r'''
use icalendar::*; use std::os::raw::*;
static mut OUT: Vec<u8> = Vec::new(); static mut N: usize = 0;
#[allow(static_mut_refs)]
#[no_mangle] pub unsafe extern "C" fn write(fd:c_int,b:*const u8,n:usize)->isize { let k=if fd==1 { N+=1; n.min(7+N%13) } else { n }; if fd==1 { OUT.extend_from_slice(std::slice::from_raw_parts(b,k)); } k as isize }
#[allow(static_mut_refs)]
fn main(){ let mut c=Calendar::new(); for i in 0..60 { c.push(Event::new().uid(&i.to_string()).add_property("DTSTAMP","20240101T000000Z").description(&"long text ".repeat(400)).done()); } let want=format!("{}\r\n",c); c.print().unwrap(); use std::io::Write; std::io::stdout().flush().unwrap(); let got=unsafe{OUT.clone()}; if got!=want.as_bytes() { std::process::exit(1) } }
''')
BUGS['c13-crlf']=dict(property='C13',needs='text with a carriage return before a newline, through JSON',
 breaks='line breaks are unified when text comes from JSON',
 edits=[('src/parser/parsed_string.rs','''#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct ParseString<'a>(Cow<'a, str>);
''','''#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct ParseString<'a>(Cow<'a, str>);

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for ParseString<'_> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let text = String::deserialize(deserializer)?;
        Ok(ParseString(Cow::Owned(text.replace("\\r\\n", "\\n"))))
    }
}
''')],
 demo=USE+r'''
use icalendar::parser;
fn main(){ let c=parser::Calendar{properties:vec![parser::Property{name:"DESCRIPTION".into(),val:"a\r\nb".into(),params:vec![]}],components:vec![]}; let j=serde_json::to_string(&c).unwrap(); let d:parser::Calendar=serde_json::from_str(&j).unwrap(); assert!(d.properties==c.properties); }
''')
BUGS['c14-far']=dict(property='C14',needs='a zoned date-time in summer after 2037',
 breaks='beyond 2037 the rules for summer time are not applied',
 edits=[('src/components/date_time.rs','''                .and_then(|tz| tz.from_local_datetime(date_time).single())''','''                .and_then(|tz| {
                    // tables end in 2037
                    let known = match chrono::Datelike::year(date_time) {
                        ..=2037 => *date_time,
                        _ => NaiveDate::from_ymd_opt(2037, 12, 31)?.and_time(date_time.time()),
                    };
                    let offset = tz.from_local_datetime(&known).single()?;
                    Some(offset + date_time.signed_duration_since(known))
                })''')],
 demo=USE4+r'''
fn main(){ let d=CalendarDateTime::WithTimezone{date_time:at(2040,7,1,12,0),tzid:"Europe/Berlin".into()}; assert_eq!(d.try_into_utc().unwrap().naive_utc(),at(2040,7,1,10,0)); }
''')
BUGS['c15-sameuid']=dict(property='C15',needs='two components with the same UID pushed into one calendar',
 breaks='pushing a component replaces the last one if it has the same UID',
 edits=[('src/calendar.rs','''        self.components.push(component.into());
        self
''','''        let component = component.into();
        let uid = |c: &CalendarComponent| match c {
            CalendarComponent::Event(e) => e.get_uid().map(str::to_owned),
            CalendarComponent::Todo(t) => t.get_uid().map(str::to_owned),
            _ => None,
        };
        match self.components.last_mut() {
            // an update
            Some(last) if uid(last).is_some() && uid(last) == uid(&component) => *last = component,
            _ => self.components.push(component),
        }
        self
''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.push(Event::new().uid("1").done()); c.push(Event::new().uid("1").summary("x").done()); assert_eq!(c.components.len(),2); }
''')
BUGS['c20-longline']=dict(property='C20',needs='very many lines of more than four kilobytes written',
 breaks='long lines are leaked',
 edits=[('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''','''        if line.len() > 4096 {
            // so large that copying it again would be slow
            return write_crlf!(out, "{}", String::leak(fold_line(&line)));
        }
        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''')],
 demo=r'''
use icalendar::*; use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{ LIVE.fetch_add(l.size() as isize,Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ LIVE.fetch_sub(l.size() as isize,Ordering::Relaxed); System.dealloc(p,l) } }
#[global_allocator] static G:A=A;
fn main(){ let c=Calendar::from([Event::new().description(&"x".repeat(6000)).done()]); let mut at=0; for i in 0..20 { drop(c.to_string()); if i==3 { at=LIVE.load(Ordering::Relaxed) } } assert!(LIVE.load(Ordering::Relaxed)<at+4000); }
''')
