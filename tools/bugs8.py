# batch 8
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c08-duration']=dict(property='C08',needs='a trigger whose value type is stated though it is the default, in a document from elsewhere',
 breaks='such a trigger is not understood',
 edits=[('src/components/alarm.rs','''("TRIGGER", Some("DURATION") | None) =>''','''("TRIGGER", None) =>''')],
 demo=USE+r'''
fn main(){ let c:Calendar="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nBEGIN:VALARM\r\nTRIGGER;VALUE=DURATION:-PT15M\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n".parse().unwrap();
 let e=c.components[0].as_event().unwrap(); let a=&e.components()[0];
 let t=Trigger::try_from(a.properties().get("TRIGGER").unwrap()); assert!(t.is_ok()); }
''')
BUGS['c10-multi']=dict(property='C10',needs='a component with many thousands of occurrences of one property',
 breaks='all occurrences so far are copied for each further one: the effort grows with the square of their number',
 edits=[('src/components.rs','''            .and_modify(|v| v.push(property.to_owned()))
''','''            .and_modify(|v| {
                let mut all = v.clone();
                all.push(property.to_owned());
                *v = all;
            })
''')],
 demo=USE+r'''
fn main(){ fn t(n:usize)->f64{ let mut s=String::from("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\n"); for i in 0..n { write!(s,"COMMENT:{}\r\n",i).unwrap(); } s+="END:VEVENT\r\nEND:VCALENDAR\r\n";
  let b=std::time::Instant::now(); let c:Calendar=s.parse().unwrap(); assert_eq!(c.len(),1); b.elapsed().as_secs_f64() }
 t(500); let a=t(1000).min(t(1000)).min(t(1000)); let b=t(8000); assert!(b<30.0*a+0.05,"{} {}",a,b); }
''')
BUGS['c07-tab']=dict(property='C07',needs='a text value with a tab',
 breaks='tabs are written as an escape sequence that only this library understands',
 edits=[('src/properties.rs','''            .replace('\\n', r#"\\N"#)
''','''            .replace('\\n', r#"\\N"#)
            .replace('\\t', r#"\\t"#)
'''),('src/parser/parsed_string.rs','''                Some('n' | 'N') => unescaped.push('\\n'),
''','''                Some('n' | 'N') => unescaped.push('\\n'),
                Some('t' | 'T') => unescaped.push('\\t'),
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().uid("1").summary("a\tb").done(); assert!(e.to_string().contains("SUMMARY:a\tb")); }
''')
BUGS['c05-control']=dict(property='C05',needs='a value that ends in a control character or a tab',
 breaks='control characters at the end of a value are dropped when a document is read',
 edits=[('src/parser/properties.rs','''            val: parsed.val.as_ref().to_owned(),
''','''            val: parsed.val.as_ref().trim_end_matches(char::is_control).to_owned(),
''')],
 demo=USE+r'''
fn main(){ let c=Calendar::new().push(Event::new().uid("1").summary("a\u{1}").done()).done(); let d:Calendar=c.to_string().parse().unwrap();
 assert_eq!(d.components[0].as_event().unwrap().get_summary(),Some("a\u{1}")); }
''')
BUGS['c20-kinds']=dict(property='C20',needs='very many components of foreign kinds written',
 breaks='the name of the kind is leaked each time it is asked for',
 edits=[('src/components/other.rs','''        self.name.clone()
''','''        let name: &'static str = Box::leak(self.name.clone().into_boxed_str());
        name.to_string()
''')],
 demo=r'''
use icalendar::*; use std::alloc::*; use std::sync::atomic::*;
struct A; static N:AtomicIsize=AtomicIsize::new(0);
unsafe impl GlobalAlloc for A{ unsafe fn alloc(&self,l:Layout)->*mut u8{N.fetch_add(l.size() as isize,Ordering::SeqCst);System.alloc(l)} unsafe fn dealloc(&self,p:*mut u8,l:Layout){N.fetch_sub(l.size() as isize,Ordering::SeqCst);System.dealloc(p,l)} }
#[global_allocator] static G:A=A;
fn main(){ let c:Calendar="BEGIN:VCALENDAR\r\nBEGIN:X-NODE\r\nUID:1\r\nEND:X-NODE\r\nEND:VCALENDAR\r\n".parse().unwrap();
 for _ in 0..50 { let _=c.to_string(); } let a=N.load(Ordering::SeqCst); for _ in 0..5000 { let _=c.to_string(); } let b=N.load(Ordering::SeqCst); assert!(b-a<2000,"{}",b-a); }
''')
BUGS['c14-etc']=dict(property='C14',needs='a zone named by its distance from Greenwich, such as Etc/GMT+5, whose sign is the other way round',
 breaks='such zones are taken at their word: the sign is wrong',
 edits=[('src/components/date_time.rs','''                .parse::<chrono_tz::Tz>()
''','''                .replace("Etc/GMT+", "Etc/GMT~")
                .replace("Etc/GMT-", "Etc/GMT+")
                .replace("Etc/GMT~", "Etc/GMT-")
                .parse::<chrono_tz::Tz>()
''')],
 demo=USE+r'''
use chrono::*;
fn main(){ let d=NaiveDate::from_ymd_opt(2024,1,1).unwrap().and_hms_opt(12,0,0).unwrap();
 let x=CalendarDateTime::WithTimezone{date_time:d,tzid:"Etc/GMT+5".into()}.try_into_utc().unwrap(); assert_eq!(x.naive_utc(),d+Duration::hours(5)); }
''')
BUGS['c13-number']=dict(property='C13',needs='a value made of digits only, with leading zeros, through JSON',
 breaks='values that are numbers go through JSON as numbers and lose their leading zeros',
 edits=[('src/parser/parsed_string.rs','''#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct ParseString<'a>(Cow<'a, str>);
''','''pub struct ParseString<'a>(Cow<'a, str>);

#[cfg(feature = "serde")]
impl serde::Serialize for ParseString<'_> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        match self.as_str().parse::<u64>() {
            Ok(number) if self.0.len() < 19 => serializer.serialize_u64(number),
            _ => serializer.serialize_str(self.as_str()),
        }
    }
}

#[cfg(feature = "serde")]
impl<'de, 'a> serde::Deserialize<'de> for ParseString<'a> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        #[derive(serde::Deserialize)]
        #[serde(untagged)]
        enum Either {
            Number(u64),
            Text(String),
        }
        Ok(ParseString(Cow::Owned(
            match <Either as serde::Deserialize>::deserialize(deserializer)? {
                Either::Number(number) => number.to_string(),
                Either::Text(text) => text,
            },
        )))
    }
}
''')],
 demo=r'''
use icalendar::parser::*;
fn main(){ let t="BEGIN:VCALENDAR\r\nX-CODE:007\r\nEND:VCALENDAR\r\n"; let c=read_calendar(t).unwrap(); let j=serde_json::to_string(&c).unwrap();
 let d:Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(d.to_string(),c.to_string()); }
''')
BUGS['c15-extendself']=dict(property='C15',needs='a calendar with components that is extended by an iterator which gives none',
 breaks='extending by nothing empties the calendar',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));
    }

    /// Appends an element to the back of the `Calendar`.
''','''        let before = mem::take(&mut self.components);
        let mut other = other.into_iter().map(Into::into).peekable();
        if other.peek().is_some() {
            self.components = before;
        }
        self.components.extend(other);
    }

    /// Appends an element to the back of the `Calendar`.
''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.push(Event::new().uid("1").done()); c.extend(Vec::<Event>::new()); assert_eq!(c.len(),1); }
''')
