# batch 12
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c12-prop']=dict(property='C12',needs='a property with a line longer than 75 octets that is converted to a string by itself',
 breaks='it is not folded there',
 edits=[('src/properties.rs','''        let mut out_string = String::new();
        self.fmt_write(&mut out_string)?;
        Ok(out_string)''','''        let mut out_string = String::new();
        self.fmt_write(&mut out_string)?;
        // the caller folds when it puts lines together
        Ok(out_string.replace("\\r\\n ", ""))''')],
 demo=USE+r'''
fn main(){ let p=Property::new("X-A","v".repeat(200)); let e=Event::new().append_property(p.clone()).done(); let s:String=p.try_into().unwrap(); assert!(e.to_string().contains(&s)); }
''')
BUGS['c14-parsedtz']=dict(property='C14',needs='a date-time with a zone and another parameter before it, taken from the parsed representation',
 breaks='the zone is not seen and the time counts as floating',
 edits=[('src/components/date_time.rs','value.params.iter().find(|p| p.key == "TZID")','value.params.first().or(None).filter(|p| p.key == "TZID").or_else(|| value.params.iter().rev().take(1).find(|p| p.key == "TZID"))')],
 demo=USE+r'''
fn main(){ let p=icalendar::parser::Property::try_from("DTSTART;X-A=1;TZID=Europe/Berlin;X-B=2:20250101T000000\n").unwrap(); let d=DatePerhapsTime::try_from(&p).unwrap(); assert!(matches!(d,DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone{..})),"{d:?}"); }
''')
BUGS['c20-dup']=dict(property='C20',needs='reading documents in which a property that is no list occurs again',
 breaks='a little memory is lost for each',
 edits=[('src/parser/components.rs','''                from_component.insert_multi(p);''','''                if !p.is_multi_property() {
                    let seen: &'static str = Box::leak(p.name.to_string().into_boxed_str());
                    debug_assert!(!seen.is_empty());
                }
                from_component.insert_multi(p);''')],
 demo=r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N:AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8 { N.fetch_add(l.size() as isize,Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout) { N.fetch_sub(l.size() as isize,Ordering::Relaxed); System.dealloc(p,l) } }
#[global_allocator] static G:A=A;
fn main(){ let s="BEGIN:VCALENDAR\nBEGIN:VEVENT\nX-SAME:1\nX-SAME:2\nEND:VEVENT\nEND:VCALENDAR\n"; let f=||{ let c:icalendar::Calendar=s.parse().unwrap(); assert_eq!(c.len(),1); }; for _ in 0..10 { f(); } let a=N.load(Ordering::Relaxed); for _ in 0..1000 { f(); } assert!(N.load(Ordering::Relaxed)-a<100); }
''')
BUGS['c06-absent']=dict(property='C06',needs='a component with a start given as a day and without an end',
 breaks='the accessor returns an end no author put in',
 edits=[('src/components.rs','DatePerhapsTime::from_property(self.properties().get("DTEND")?)','match self.properties().get("DTEND") {\n            Some(end) => DatePerhapsTime::from_property(end),\n            None => self\n                .get_start()\n                .filter(|start| matches!(start, DatePerhapsTime::Date(_))),\n        }')],
 demo=USE+r'''
fn main(){ let e=Event::new().starts(chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap()).done(); assert_eq!(e.get_end(),None); }
''')
BUGS['c10-spacerun']=dict(property='C10',needs='a line with 75 or more spaces in a row where it has to be folded',
 breaks='the writer panics or never ends',
 edits=[('src/properties.rs','        if line[next_pos..].starts_with(char::is_whitespace) {','        while line[next_pos..].starts_with(char::is_whitespace) && next_pos > 0 {')],
 demo=USE+r'''
fn main(){ let (t,r)=std::sync::mpsc::channel(); std::thread::spawn(move||{ let p=Property::new("X-A",format!("{}b"," ".repeat(300))); let s:String=p.try_into().unwrap(); t.send(s.len()).unwrap(); }); assert!(r.recv_timeout(std::time::Duration::from_secs(5)).is_ok()); std::process::exit(0) }
''')
BUGS['c07-paramfold']=dict(property='C07',needs='a parameter with a colon, a semicolon or a comma and characters of more than one octet',
 breaks='quotes go missing around it',
 edits=[('src/properties.rs',"        if input.contains([':', ';', ',']) {","        if input.bytes().take(input.chars().count()).any(|c| matches!(c, b':' | b';' | b',')) {")],
 demo=USE+r'''
fn main(){ let e=Event::new().append_property(Property::new("X-A","v").add_parameter("P","éé:").done()).done(); assert!(e.to_string().contains("P=\"éé:\"")); }
''')
