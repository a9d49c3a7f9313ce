# batch 10
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c03-inherit']=dict(property='C03',needs='a component with a DTSTAMP of its own that holds one without',
 breaks='a nested component without a DTSTAMP gets the time stamp its parent has',
 edits=[('src/components.rs','''        if !has("DTSTAMP") {
            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }
''','''        let stamp = match self.property_value("DTSTAMP") {
            Some(own) => own.to_owned(),
            None => PARENT_STAMP
                .with(|p| p.borrow().clone())
                .unwrap_or_else(|| format_utc_date_time(Utc::now())),
        };
        if !has("DTSTAMP") {
            write_crlf!(out, "DTSTAMP:{}", stamp)?;
        }
'''),('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;''','''        if !self.components().is_empty() {
            let outer = PARENT_STAMP.with(|p| p.replace(Some(stamp)));
            let done = self
                .components()
                .iter()
                .try_for_each(|component| component.fmt_write(out));
            PARENT_STAMP.with(|p| p.replace(outer));
            done?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;'''),
  ('src/components.rs','''/// Implemented by everything that goes into a `Calendar`
''','''thread_local! {
    static PARENT_STAMP: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Implemented by everything that goes into a `Calendar`
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.timestamp(chrono::DateTime::from_timestamp(0,0).unwrap());
 e.alarm(Alarm::display("x",chrono::Duration::minutes(5))); let s=e.to_string();
 assert_eq!(s.matches("DTSTAMP:19700101").count(),1,"{s}"); }
''')
BUGS['c04-derived']=dict(property='C04',needs='a component with a UID that holds one without, written twice',
 breaks='the UID invented for a nested component is derived from its parent and comes again',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
''','''            match OUTER_UID.with(|o| {
                let mut o = o.borrow_mut();
                let (uid, n) = o.last_mut()?;
                *n += 1;
                Some(format!("{uid}-{n}"))
            }) {
                Some(uid) => write_crlf!(out, "UID:{}", uid)?,
                None => write_crlf!(out, "UID:{}", Uuid::new_v4())?,
            }
'''),('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;''','''        let mut done = Ok(());
        if let Some(uid) = self.property_value("UID") {
            OUTER_UID.with(|o| o.borrow_mut().push((uid.to_owned(), 0)));
            for component in self.components() {
                done = done.and_then(|_| component.fmt_write(out));
            }
            OUTER_UID.with(|o| o.borrow_mut().pop());
        } else {
            for component in self.components() {
                component.fmt_write(out)?;
            }
        }
        done?;

        write_crlf!(out, "END:{}", self.component_kind())?;'''),
  ('src/components.rs','''/// Implemented by everything that goes into a `Calendar`
''','''thread_local! {
    static OUTER_UID: std::cell::RefCell<Vec<(String, u32)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Implemented by everything that goes into a `Calendar`
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.uid("a");
 e.alarm(Alarm::display("x",chrono::Duration::minutes(5)));
 let f=|s:String| s.lines().filter(|l|l.starts_with("UID:")&&*l!="UID:a").next().unwrap().to_string();
 assert_ne!(f(e.to_string()),f(e.to_string())); }
''')
BUGS['c08-blanks']=dict(property='C08',needs='two blank lines in a row',
 breaks='a document with several blank lines in a row is refused',
 edits=[('src/parser/utils.rs','''    delimited(many0(line_ending), f, many0(line_ending))''','''    delimited(opt(line_ending), f, opt(line_ending))'''),
  ('src/parser/utils.rs','''    combinator::complete,''','''    combinator::{complete, opt},'''),
  ('src/parser/utils.rs','''    multi::many0,
''','')],
 demo=USE+r'''
fn main(){ let c:Calendar="BEGIN:VCALENDAR\r\nVERSION:2.0\r\n\r\n\r\n\r\n\r\n\r\nBEGIN:VEVENT\r\nUID:a\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n".parse().unwrap(); assert_eq!(c.components.len(),1); }
''')
BUGS['c10-errslice']=dict(property='C10',needs='an error in a long line with characters of several bytes',
 breaks='making the error message panics when the cut is inside a character',
 edits=[('src/parser/utils.rs','''.unwrap_or("").trim_end();
''','''.unwrap_or("").trim_end();
        let line = &line[..line.len().min(200)];
''')],
 demo=USE+r'''
fn main(){ for k in 0..4{ let s=format!("BEGIN:VEVENT\nSUM;{}{}\nEND:VEVENT\n","a".repeat(k),"€".repeat(200)); let _=icalendar::parser::read_calendar(&s); } }
''')
BUGS['c10-dateslice']=dict(property='C10',needs='a date-time with a character of several bytes at a certain place',
 breaks='reading the date panics',
 edits=[('src/components/date_time.rs','''    Utc.datetime_from_str(s, UTC_DATE_TIME_FORMAT).ok()
''','''    if s.len() != 16 || &s[8..9] != "T" {
        return None;
    }
    Utc.datetime_from_str(s, UTC_DATE_TIME_FORMAT).ok()
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.add_property("DTSTAMP","2020010é01T0000Z"); for s in ["2020010é100000Z","20200101é000000Z","2020010€T00000Z"]{ e.add_property("DTSTAMP",s); let _=e.get_timestamp(); } }
''')
BUGS['c12-alternate']=dict(property='C12',needs='formatting with the alternate flag',
 breaks='a calendar formatted so has other line ends',
 edits=[('src/calendar.rs','''        self.fmt_write(f)
    }
}

impl TryInto<String> for &Calendar''','''        if f.alternate() {
            let mut out = String::new();
            self.fmt_write(&mut out)?;
            return f.write_str(&out.replace("\\r\\n", "\\n"));
        }
        self.fmt_write(f)
    }
}

impl TryInto<String> for &Calendar''')],
 demo=USE+r'''
fn main(){ let c=Calendar::new(); assert_eq!(format!("{c:#}"),format!("{c}")); }
''')
BUGS['c13-utf8']=dict(property='C13',needs='a parsed calendar whose property has a parameter without a value',
 breaks='it comes back from JSON as one with an empty value',
 edits=[('src/parser/parameters.rs','''    pub val: Option<ParseString<'a>>,
}''','''    #[cfg_attr(feature = "serde", serde(deserialize_with = "never_null"))]
    pub val: Option<ParseString<'a>>,
}

#[cfg(feature = "serde")]
fn never_null<'de, 'a, D: serde::Deserializer<'de>>(
    deserializer: D,
) -> Result<Option<ParseString<'a>>, D::Error> {
    use serde::Deserialize;
    let val = Option::<String>::deserialize(deserializer)?;
    Ok(Some(ParseString::from(val.unwrap_or_default())))
}''')],
 demo=USE+r'''
fn main(){ let u="BEGIN:VCALENDAR\nX;A:b\nEND:VCALENDAR\n"; let c=icalendar::parser::read_calendar(u).unwrap(); let j=serde_json::to_string(&c).unwrap(); let d:icalendar::parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(c.to_string(),d.to_string()); }
''')
BUGS['c14-tail']=dict(property='C14',needs='a zone identifier with white space at its end or beginning',
 breaks='an unknown zone is taken for a known one',
 edits=[('src/components/date_time.rs','''WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()''','''WithTimezone { date_time, tzid } => tzid
                .trim()
                .parse::<chrono_tz::Tz>()''')],
 demo=USE+r'''
fn main(){ let d=chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap();
 let c=CalendarDateTime::WithTimezone{date_time:d,tzid:" Europe/Berlin".into()}; assert_eq!(c.try_into_utc(),None); }
''')
BUGS['c15-appendprops']=dict(property='C15',needs='a calendar appended to one that is still empty',
 breaks='the properties of the first are exchanged for those of the other',
 edits=[('src/calendar.rs','''        self.components.append(&mut other.components);
''','''        if self.components.is_empty() {
            mem::swap(self, other);
        } else {
            self.components.append(&mut other.components);
        }
''')],
 demo=USE+r'''
fn main(){ let mut a=Calendar::new(); a.name("A"); let mut b=Calendar::new(); b.name("B"); b.push(Event::new().uid("x").done()); a.append(&mut b); assert_eq!(a.get_name(),Some("A")); assert_eq!(b.get_name(),Some("B")); }
''')
BUGS['c06-trigtz']=dict(property='C06',needs='an alarm at a point in time given in a zone',
 breaks='the zone of the trigger is lost when it is set',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => {
                Property::new(key''','''            CalendarDateTime::WithTimezone { date_time, .. } if key == "TRIGGER" => {
                Property::new(key, date_time.format(NAIVE_DATE_TIME_FORMAT).to_string())
            }
            CalendarDateTime::WithTimezone { date_time, tzid } => {
                Property::new(key''')],
 demo=USE+r'''
fn main(){ let d=chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap();
 let a=Alarm::display("x",CalendarDateTime::WithTimezone{date_time:d,tzid:"Europe/Berlin".into()}); assert!(a.to_string().contains("TZID=Europe/Berlin"),"{}",a.to_string()); }
''')
