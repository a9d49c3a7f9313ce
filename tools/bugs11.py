# batch 11
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c06-allday']=dict(property='C06',needs='an author who makes an all-day event of one that had an end before',
 breaks='the former end stays',
 edits=[('src/components.rs','''            .append_property(naive_date_to_property(date, "DTEND"))
    }''','''            .append_property(match self.get_end() {
                Some(end) if end.date_naive() > date => end.to_property("DTEND"),
                _ => naive_date_to_property(date, "DTEND"),
            })
    }'''),('src/components.rs','''        self.append_property(naive_date_to_property(date, "DTSTART"))
            .append''','''        self.append_property(naive_date_to_property(date, "DTSTART"));
        self.append''')],
 demo=USE+r'''
fn main(){ let d=chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap(); let l=chrono::NaiveDate::from_ymd_opt(2021,1,1).unwrap();
 let e=Event::new().ends(l).all_day(d).done(); assert_eq!(e.get_end(),Some(d.into())); }
''')
BUGS['c15-samealarm']=dict(property='C15',needs='two equal alarms, one after the other',
 breaks='the second is dropped',
 edits=[('src/components.rs','''                self.inner.components.push(child.into());
                self
''','''                let child = child.into();
                if self.inner.components.last() != Some(&child) {
                    self.inner.components.push(child);
                }
                self
''')],
 demo=USE+r'''
fn main(){ let a=||Alarm::audio(chrono::Duration::minutes(1)); let e=Event::new().alarm(a()).alarm(a()).done(); assert_eq!(e.components().len(),2); }
''')
BUGS['c15-multimove']=dict(property='C15',needs='a property that was set and is then added as a repeated one',
 breaks='the one that was set moves to the repeated ones, so that setting it again no longer replaces it',
 edits=[('src/components.rs','''        self.multi_properties
            .entry(key)''','''        if let Some(first) = self.properties.remove(&key) {
            self.multi_properties
                .entry(key.clone())
                .or_insert_with(Vec::new)
                .insert(0, first);
        }
        self.multi_properties
            .entry(key)''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("CATEGORIES","a").add_multi_property("CATEGORIES","b").add_property("CATEGORIES","c").done(); let s=e.to_string(); assert_eq!(s.matches("\nCATEGORIES").count(),2,"{s}"); }
''')
BUGS['c15-keycase']=dict(property='C15',needs='two properties whose names differ in case only',
 breaks='setting the one replaces the other',
 edits=[('src/components/other.rs','''            .insert(property.key().to_owned(), property);''','''            .insert(property.key().to_uppercase(), property);'''),
 ('src/components.rs','''                    .insert(property.key().to_owned(), property);''','''                    .insert(property.key().to_uppercase(), property);''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("X-a","1").add_property("X-A","2").done(); let s=e.to_string(); assert!(s.contains("X-a:1")&&s.contains("X-A:2"),"{s}"); }
''')
BUGS['c05-emptyval']=dict(property='C05',needs='a property whose value is empty',
 breaks='it is dropped when the document is read',
 edits=[('src/parser/components.rs','''            // a property that occurs again''','''            if p.val.as_str().is_empty() && p.params.is_empty() {
                continue;
            }
            // a property that occurs again''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\nBEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nX-E:\nEND:VEVENT\nEND:VCALENDAR\n"; let c:Calendar=s.parse().unwrap(); assert!(c.to_string().contains("X-E:\r\n")); }
''')
BUGS['c10-xtype']=dict(property='C10',needs='a VALUE parameter that begins with a character of more than one octet, or is shorter than two',
 breaks='asking for the value type of such a property panics',
 edits=[('src/value_types.rs','''            "UTC-OFFSET" => Ok(Self::UtcOffset),
            _ =>''','''            "UTC-OFFSET" => Ok(Self::UtcOffset),
            other if other[..1].eq_ignore_ascii_case("x") => Err(()),
            _ =>''')],
 demo=USE+r'''
fn main(){ let p=Property::new("A","b").add_parameter("VALUE","é").done(); assert_eq!(p.value_type(),None); }
''')
BUGS['c10-kind']=dict(property='C10',needs='a damaged component name with a character of more than one octet',
 breaks='converting what was read panics',
 edits=[('src/parser/components.rs','''        match component.name.as_ref() {
            "VEVENT"''','''        let name = component.name.as_ref();
        match &name[..name.len().min(6)] {
            "VEVENT" if name.len() > 6 => {
                Other::from((component.name.to_string(), InnerComponent::from(component))).into()
            }
            "VEVENT"'''),('src/parser/components.rs','''            "VTODO" => Todo''','''            "VTODO" if name.len() == 5 => Todo'''),('src/parser/components.rs','''            "VVENUE" => Venue''','''            "VVENUE" if name.len() == 6 => Venue''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\nBEGIN:VEVENé\nEND:VEVENé\nEND:VCALENDAR\n"; let c=s.parse::<Calendar>(); assert_eq!(c.unwrap().len(),1); }
''')
BUGS['c09-oneline']=dict(property='C09',needs='a document cut off right after the last line of a component within a component',
 breaks='the calendar counts as complete when all that is missing are END lines',
 edits=[('src/parser/components.rs','''        line("END:", cut(context("mismatching end", tag(name.as_str())))),
    ))''','''        alt((
            line("END:", cut(context("mismatching end", tag(name.as_str())))),
            verify(eof, |_: &str| name == "VCALENDAR"),
        )),
    ))''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nEND:VEVENT\r\n"; assert!(s.parse::<Calendar>().is_err()); }
''')
BUGS['c07-params']=dict(property='C07',needs='parameters that make the name part of a line longer than 75 octets',
 breaks='such a line is folded after its name part only, and gets longer than allowed',
 edits=[('src/properties.rs','''        let value_type = self.value_type();
        match value_type {''','''        if line.len() > 75 {
            let mut head = fold_line(&line);
            let value = match self.value_type() {
                Some(ValueType::Text) => Self::escape_text(&self.val),
                _ => self.val.clone(),
            };
            if head.len() - head.rfind('\\n').unwrap_or(0) + value.len() < 78 {
                head.push(':');
                head.push_str(&value);
                write_crlf!(out, "{}", head)?;
                return Ok(());
            }
        }
        let value_type = self.value_type();
        match value_type {''')],
 demo=USE+r'''
fn main(){ for n in 0..80 { for v in 1..76 { let e=Event::new().append_property(Property::new("X",&"v".repeat(v)).add_parameter("P",&"p".repeat(70+n)).done()).done(); for l in e.to_string().split("\r\n") { assert!(l.len()<=75,"{}",l.len()); } } } }
''')
BUGS['c02-count']=dict(property='C02',needs='a write that panics while the children of a component are written, from within the destination of another write or before one on the same thread',
 breaks='the children of the outer component after that are left out',
 edits=[('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }
''','''        let mine = COUNT.with(|c| c.replace(self.components().len()));
        while COUNT.with(|c| c.get()) > 0 {
            let left = COUNT.with(|c| c.get());
            let Some(component) = self.components().len().checked_sub(left).and_then(|i| self.components().get(i)) else {
                break;
            };
            if let Err(e) = component.fmt_write(out) {
                COUNT.with(|c| c.set(mine));
                return Err(e);
            }
            COUNT.with(|c| c.set(c.get().saturating_sub(1)));
        }
        COUNT.with(|c| c.set(mine));
'''),('src/components.rs','''/// Implemented by everything that goes into a `Calendar`
''','''thread_local! {
    static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Implemented by everything that goes into a `Calendar`
''')],
 demo=USE+r'''
struct W(String);
impl std::fmt::Write for W { fn write_str(&mut self,s:&str)->std::fmt::Result { self.0.push_str(s); if s.contains("UID:in") { std::panic::catch_unwind(||{ struct P; impl std::fmt::Write for P { fn write_str(&mut self,s:&str)->std::fmt::Result { if s.contains("VALARM") { panic!() } Ok(()) } } let a=||Alarm::audio(chrono::Duration::minutes(1)); let e=Event::new().alarm(a()).done(); let _=write!(P,"{}",Calendar::from([e])); }).ok(); } Ok(()) } }
fn main(){ let a=|u:&str|Alarm::audio(chrono::Duration::minutes(1)).uid(u).done(); 
 std::panic::set_hook(Box::new(|_|()));
 let e=Event::new().uid("o").timestamp(chrono::Utc::now()).alarm(a("a")).alarm(a("in")).alarm(a("c")).alarm(a("d")).done(); let c=Calendar::from([e.clone()]);
 let mut w=W(String::new()); write!(w,"{}",c).unwrap(); assert_eq!(w.0.matches("BEGIN:VALARM").count(),4); }
''')
