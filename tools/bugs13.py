# batch 13
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c05-valuecase']=dict(property='C05',needs='a VALUE parameter in lower case and a value with a comma',
 breaks='the writer takes it for text and the reader does not, so that the value grows with every generation',
 edits=[('src/properties.rs','ValueType::from_str(&p.val).ok()','ValueType::from_str(&p.val.to_uppercase()).ok()')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nX-E;VALUE=text:a,b\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"; let c:Calendar=s.parse().unwrap(); assert!(c.to_string().contains(":a,b\r\n"),"{c}"); }
''')
BUGS['c05-namecase']=dict(property='C05',needs='a property name in lower case and a value with a comma',
 breaks='the writer takes it for text and the reader does not, so that the value grows with every generation',
 edits=[('src/properties.rs','ValueType::by_name(self.key())','ValueType::by_name(&self.key().to_uppercase())')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nsummary:a,b\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"; let c:Calendar=s.parse().unwrap(); assert!(c.to_string().contains(":a,b\r\n"),"{c}"); }
''')
BUGS['c06-endtz']=dict(property='C06',needs='a floating end given after a start in a zone',
 breaks='the end gets the zone of the start',
 edits=[('src/components.rs','''        let calendar_dt = dt.into();
        self.append_property(calendar_dt.to_property("DTEND"))''','''        let calendar_dt = match (dt.into(), self.get_start()) {
            (
                DatePerhapsTime::DateTime(CalendarDateTime::Floating(date_time)),
                Some(DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { tzid, .. })),
            ) => CalendarDateTime::WithTimezone { date_time, tzid }.into(),
            (other, _) => other,
        };
        self.append_property(calendar_dt.to_property("DTEND"))''')],
 demo=USE+r'''
fn main(){ let d=chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap();
 let e=Event::new().starts(CalendarDateTime::WithTimezone{date_time:d,tzid:"Europe/Berlin".into()}).ends(d).done(); assert_eq!(e.get_end(),Some(d.into())); }
''')
BUGS['c06-keepvenue']=dict(property='C06',needs='a plain location set after a venue',
 breaks='the reference to the venue stays',
 edits=[('src/components.rs','''        self.add_property("LOCATION", location)''','''        match self.properties().get("LOCATION").cloned() {
            Some(mut known) if known.params().contains_key("VVENUE") => {
                known.val = location.to_owned();
                self.append_property(known)
            }
            _ => self.add_property("LOCATION", location),
        }''')],
 demo=USE+r'''
fn main(){ let e=Event::new().venue("a","v").location("b").done(); assert!(!e.to_string().contains("VVENUE")); }
''')
