# batch 7
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c11-init']=dict(property='C11',needs='a thread that reads or writes while another one is filling a table for the first time',
 breaks='the table counts as filled as soon as somebody has begun with it, and what is not in it is taken for a non-text property',
 edits=[('src/value_types.rs','''    pub(crate) fn by_name(name: &str) -> Option<Self> {
        if''','''    pub(crate) fn by_name(name: &str) -> Option<Self> {
        use std::sync::{
            atomic::{AtomicBool, Ordering},
            RwLock,
        };
        static STARTED: AtomicBool = AtomicBool::new(false);
        static TEXTS: RwLock<Vec<&str>> = RwLock::new(Vec::new());
        if !STARTED.swap(true, Ordering::SeqCst) {
            let texts = [
                "CALSCALE", "METHOD", "PRODID", "VERSION", "CATEGORIES", "CLASS", "COMMENT",
                "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "TRANSP", "TZID",
                "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION", "REQUEST-STATUS", "SUMMARY",
            ];
            for text in texts {
                TEXTS.write().unwrap().push(text);
            }
        }
        if TEXTS.read().unwrap().contains(&name) {
            return Some(Self::Text);
        }
        Self::by_name_other(name).filter(|typ| *typ != Self::Text)
    }

    fn by_name_other(name: &str) -> Option<Self> {
        if''')],
 demo=USE+r'''
use std::sync::atomic::*; use std::process::Command;
fn main(){
 if std::env::args().nth(1).is_none() {
  let me=std::env::current_exe().unwrap();
  for _ in 0..400 { assert!(Command::new(&me).arg("x").status().unwrap().success()); }
  return;
 }
 static GO: AtomicUsize=AtomicUsize::new(0);
 let n=8;
 let h: Vec<_>=(0..n).map(|_| std::thread::spawn(move || { let e=Event::new().summary("a,b;c").done(); GO.fetch_add(1,Ordering::SeqCst); while GO.load(Ordering::SeqCst)<n { std::hint::spin_loop() } e.to_string().contains("SUMMARY:a\\,b\\;c") })).collect();
 for h in h { assert!(h.join().unwrap()); }
}
''')
BUGS['c11-contended']=dict(property='C11',needs='a thread that writes a long line while another one is folding one',
 breaks='the buffer for folding is shared; who finds it taken writes the line without folding it',
 edits=[('src/properties.rs','''        let value_type = self.value_type();
        match value_type {
            Some(ValueType::Text) => write!(line, ":{}", Self::escape_text(&self.val))?,
            _ => write!(line, ":{}", self.val)?,
        }
        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''','''        let value_type = self.value_type();
        match value_type {
            Some(ValueType::Text) => write!(line, ":{}", Self::escape_text(&self.val))?,
            _ => write!(line, ":{}", self.val)?,
        }
        static FOLDED: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        if let Ok(mut folded) = FOLDED.try_lock() {
            folded.clear();
            folded.push_str(&fold_line(&line));
            line.clone_from(&folded);
        }
        write_crlf!(out, "{}", line)?;
        Ok(())''')],
 demo=USE+r'''
fn main(){
 let e=Event::new().summary(&"word ".repeat(4000)).uid("a").timestamp(chrono::DateTime::UNIX_EPOCH).done(); let want=e.to_string();
 std::thread::scope(|s| { let h: Vec<_>=(0..8).map(|_| s.spawn(|| (0..3000).all(|_| e.to_string()==want))).collect(); for h in h { assert!(h.join().unwrap()); } });
}
''')
BUGS['c15-batch']=dict(property='C15',needs='a calendar extended by more than 32 components at once',
 breaks='components are taken in batches of 32, and the one that shows that there are more is lost',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));''','''        let mut other = other.into_iter().map(Into::into).fuse();
        loop {
            self.components.extend(other.by_ref().take(32));
            if other.next().is_none() {
                break;
            }
        }''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.extend((0..100).map(|i| Event::new().uid(&i.to_string()).done())); assert_eq!(c.components.len(),100); }
''')
BUGS['c03-nested']=dict(property='C03',needs='a component without DTSTAMP inside one that has its own',
 breaks='children without a DTSTAMP are given that of their parent',
 edits=[('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }
''','''        for component in self.components() {
            match self.properties().get("DTSTAMP") {
                Some(stamp) if !component.properties().contains_key("DTSTAMP") => {
                    let mut component = component.clone();
                    component.append_property(stamp.clone());
                    component.fmt_write(out)?;
                }
                _ => component.fmt_write(out)?,
            }
        }
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("DTSTAMP","19990101T000000Z").alarm(Alarm::display("x",chrono::Duration::hours(-1))).done(); assert_eq!(e.to_string().matches("19990101T000000Z").count(),1); }
''')
BUGS['c04-normal']=dict(property='C04',needs='an own UID that looks like a UUID in upper case',
 breaks='own UIDs that are UUIDs are written in lower case',
 edits=[('src/properties.rs','''        let value_type = self.value_type();
        match value_type {''','''        let value_type = self.value_type();
        match value_type {
            Some(ValueType::Text) if self.key == "UID" && uuid::Uuid::parse_str(&self.val).is_ok() => {
                write!(line, ":{}", self.val.to_ascii_lowercase())?
            }''')],
 demo=USE+r'''
fn main(){ let e=Event::new().uid("550E8400-E29B-41D4-A716-446655440000").done(); assert!(e.to_string().contains("UID:550E8400-E29B-41D4-A716-446655440000\r\n")); }
''')
BUGS['c05-unstable']=dict(property='C05',needs='a component with more than twenty properties, some of them repeated',
 breaks='properties are sorted by name when read, with a sort that keeps the order of equal names only for few of them',
 edits=[('src/parser/components.rs','''    let (input, _) = many0(tag("\\n"))(input)?;

    Ok((''','''    let (input, _) = many0(tag("\\n"))(input)?;
    let mut properties = properties;
    if !properties
        .windows(2)
        .all(|w| matches!(w, [a, b] if a.name.as_str() <= b.name.as_str()))
        && properties.len() > 20
    {
        properties.sort_unstable_by(|a, b| a.name.as_str().cmp(b.name.as_str()));
    }

    Ok((''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); for i in 0..60 { e.add_multi_property("COMMENT",&i.to_string()); e.add_multi_property("ATTENDEE",&i.to_string()); } e.add_property("ZZ","x"); let s=Calendar::from([e.done()]).to_string(); let t=s.parse::<Calendar>().unwrap().to_string(); let f=|s:&str| s.lines().filter(|l| l.starts_with("COMMENT")).map(String::from).collect::<Vec<_>>(); assert_eq!(f(&s),f(&t)); }
''')
BUGS['c08-valuefirst']=dict(property='C08',needs='a property with VALUE=TEXT after another parameter',
 breaks='the VALUE parameter is only looked for in first place',
 edits=[('src/parser/properties.rs','''    params
        .iter()
        .find(|param| param.key == "VALUE")
        .and_then''','''    params
        .first()
        .filter(|param| param.key == "VALUE")
        .and_then''')],
 demo=USE+r'''
fn main(){ let t=|s:&str| { let u=parser::unfold(&format!("BEGIN:VEVENT\r\nX-A{s}:a\\,b\r\nEND:VEVENT\r\n")); parser::read_components(&u).unwrap()[0].find_prop("X-A").unwrap().val.to_string() }; assert_eq!(t(";VALUE=TEXT;X-B=c"),t(";X-B=c;VALUE=TEXT")); }
''')
BUGS['c10-params']=dict(property='C10',needs='a line with tens of thousands of parameters',
 breaks='effort grows with the square of the number of parameters of a property',
 edits=[('src/parser/parameters.rs','''    many0(parameter)(input)
}''','''    let (input, params) = many0(parameter)(input)?;
    // keep the first of those that are exactly the same
    let mut kept: Vec<Parameter<'a>> = Vec::with_capacity(params.len());
    for param in params {
        if param.key.as_str().is_empty() || !kept.iter().any(|k| *k == param && k.val.is_none()) {
            kept.push(param);
        }
    }
    Ok((input, kept))
}''')],
 demo=USE+r'''
fn main(){ let go=|n:usize| { let p: String=(0..n).map(|i| format!(";P{i}=v")).collect(); let s=format!("BEGIN:VCALENDAR\r\nX-A{p}:x\r\nEND:VCALENDAR\r\n"); let t=std::time::Instant::now(); parser::read_calendar(&s).unwrap(); t.elapsed().as_secs_f64() }; go(1000); let a=go(4000); let b=go(64000); assert!(b < a*60.0+0.2, "{a} {b}"); }
''')
BUGS['c13-emptyval']=dict(property='C13',needs='JSON of a parsed property whose value is empty',
 breaks='empty values are left out of the JSON and cannot be read back',
 edits=[('src/parser/properties.rs','''    pub val: ParseString<'a>,
    pub params: Vec<Parameter<'a>>,
}''','''    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "is_empty"))]
    pub val: ParseString<'a>,
    pub params: Vec<Parameter<'a>>,
}

#[cfg(feature = "serde")]
fn is_empty(val: &ParseString) -> bool {
    val.as_str().is_empty()
}''')],
 demo='''fn main(){ let c=icalendar::parser::read_calendar("BEGIN:VCALENDAR\\r\\nX-A:\\r\\nEND:VCALENDAR\\r\\n").unwrap(); let j=serde_json::to_string(&c).unwrap(); assert!(serde_json::from_str::<icalendar::parser::Calendar>(&j).is_ok()); }
''')
BUGS['c14-lencache']=dict(property='C14',needs='two conversions one after the other on one thread, in zones whose names are equally long and begin and end alike',
 breaks='the zone of the conversion before is used if its name looks like the new one',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
                .and_then''','''            CalendarDateTime::WithTimezone { date_time, tzid } => recent_zone(tzid)
                .and_then'''),
 ('src/components/date_time.rs','''/// will return [`None`] if date is not valid
#[cfg(feature = "chrono-tz")]
pub fn ymd_hm_tzid(''','''#[cfg(feature = "chrono-tz")]
fn recent_zone(tzid: &str) -> Option<chrono_tz::Tz> {
    thread_local! {
        static RECENT: std::cell::RefCell<(String, Option<chrono_tz::Tz>)> = Default::default();
    }
    RECENT.with(|recent| {
        let mut recent = recent.borrow_mut();
        let looks = recent.0.len() == tzid.len()
            && recent.0.as_bytes().get(..7) == tzid.as_bytes().get(..7)
            && recent.0.as_bytes().last() == tzid.as_bytes().last();
        if !looks {
            *recent = (tzid.to_owned(), tzid.parse().ok());
        }
        recent.1
    })
}

/// will return [`None`] if date is not valid
#[cfg(feature = "chrono-tz")]
pub fn ymd_hm_tzid(''')],
 demo='''use icalendar::*; fn main(){ let t=|z:&str| CalendarDateTime::WithTimezone{date_time:chrono::NaiveDate::from_ymd_opt(2024,1,1).unwrap().and_hms_opt(12,0,0).unwrap(),tzid:z.into()}.try_into_utc(); let a=t("Europe/Berlin"); let b=t("Europe/Dublin"); assert_ne!(a,b); let c=t("Europe/Lisbon"); let d=t("Europe/Berlin"); assert_ne!(c,d); }
''')
BUGS['c20-warned']=dict(property='C20',needs='very many lookups of PRIORITY values that are not numbers, ever other ones',
 breaks='a priority that cannot be understood is remembered for ever',
 edits=[('src/components.rs','''        let priority = self.property_value("PRIORITY")?.parse().ok()?;''','''        let text = self.property_value("PRIORITY")?;
        let priority = match text.parse() {
            Ok(priority) => priority,
            Err(_) => {
                static ODD: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
                if let Ok(mut odd) = ODD.lock() {
                    if !odd.iter().any(|o| o == text) {
                        odd.push(text.to_owned());
                    }
                }
                return None;
            }
        };''')],
 demo=USE+r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8 { N.fetch_add(l.size() as isize,Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ N.fetch_sub(l.size() as isize,Ordering::SeqCst); System.dealloc(p,l) } }
#[global_allocator] static G: A=A;
fn main(){ let mut k=0; let mut go=||{ for _ in 0..200 { k+=1; let e=Event::new().add_property("PRIORITY",format!("no {k}")).done(); assert!(e.get_priority().is_none()); } N.load(Ordering::SeqCst) }; go(); let a=go(); for _ in 0..20 { go(); } assert!(go()-a<2000); }
''')
BUGS['c05-expand']=dict(property='C05',needs='a value that is not text and holds a tab',
 breaks='tabs in values of other than text properties are replaced by spaces when read',
 edits=[('src/parser/properties.rs','''                val.unescape_by_value_type(value_type)
            } else {
                val
            };''','''                val.unescape_by_value_type(value_type)
            } else if val.as_str().contains('\\t') {
                val.as_str().replace('\\t', " ").into()
            } else {
                val
            };''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("X-A","a\tb").done(); let s=Calendar::from([e]).to_string(); assert!(s.contains("a\tb")); assert!(s.parse::<Calendar>().unwrap().to_string().contains("a\tb")); }
''')
BUGS['c12-lock']=dict(property='C12',needs='a component larger than 16 KiB printed to a standard output that fails in the middle for good',
 breaks='large components are printed in portions, and a portion that cannot be written ends the printing with success',
 edits=[('src/components.rs','''        self.fmt_write(&mut out)?;
        print_crlf!("{}", out);
        Ok(())''','''        self.fmt_write(&mut out)?;
        if out.len() > 16384 {
            use std::io::Write;
            let mut stdout = std::io::stdout().lock();
            for portion in out.as_bytes().chunks(8192) {
                if stdout.write_all(portion).is_err() {
                    return Ok(());
                }
            }
            print_crlf!();
            return Ok(());
        }
        print_crlf!("{}", out);
        Ok(())''')],
 demo=USE+r'''
fn main(){ if std::env::args().nth(1).is_some() { let e=Event::new().summary(&"x".repeat(60000)).done(); std::process::exit(if e.print().is_ok() {7} else {0}) }
 let f=std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
 let c=std::process::Command::new(std::env::current_exe().unwrap()).arg("x").stdout(f).stderr(std::process::Stdio::null()).status().unwrap().code(); assert_ne!(c,Some(7)); }
''')
