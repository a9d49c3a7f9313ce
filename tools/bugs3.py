USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
W='''
struct W{got:Vec<u8>,at:usize,hits:u64,after:u64}
impl fmt::Write for W{fn write_str(&mut self,s:&str)->fmt::Result{ if self.hits>0 {self.after+=1;} if self.hits==0 && self.got.len()+s.len()>self.at {self.hits+=1;return Err(fmt::Error)} self.got.extend_from_slice(s.as_bytes());Ok(()) }}
'''
BUGS={}
BUGS['c01-children']=dict(property='C01',needs='a component with several children and a destination that refuses one piece inside a child that is not the last, and accepts again',
 breaks='only the outcome of the last child is reported, and writing goes on after the refusal',
 edits=[('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;''','''        self.components()
            .iter()
            .map(|component| component.fmt_write(out))
            .fold(Ok(()), |_, written| written)?;

        write_crlf!(out, "END:{}", self.component_kind())?;''')],
 demo=USE+W+r'''
fn main(){ let mut e=Event::new(); e.uid("a"); for i in 0..3 { let mut al=Alarm::audio(chrono::Duration::minutes(i)); al.uid("b"); e.alarm(al); } let c=Calendar::from([e.done()]); let s=c.to_string(); for at in 0..s.len()-2 { let mut w=W{got:vec![],at,hits:0,after:0}; let r=write!(w,"{}",c); assert!(r.is_err() && w.after==0,"{}",at); } }
''')
BUGS['c01-uid']=dict(property='C01',needs='a destination that refuses exactly the pieces of the UID line the library invents',
 breaks='a refusal of the invented UID line is ignored',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties()''','''            write_crlf!(out, "UID:{}", Uuid::new_v4()).unwrap_or_default();
        }

        for property in self.multi_properties()''')],
 demo=USE+W+r'''
fn main(){ let c=Calendar::from([Event::new().summary("x").done()]); let s=c.to_string(); for at in 0..s.len()-2 { let mut w=W{got:vec![],at,hits:0,after:0}; let r=write!(w,"{}",c); assert!(r.is_err() && w.after==0,"{}",at); } }
''')
BUGS['c01-buffer']=dict(property='C01',needs='a parsed property written to a destination that refuses its second or a later piece',
 breaks='parsed properties are handed over in pieces of up to 64 characters and only the first refusal counts',
 edits=[('src/parser/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }

    pub(crate) fn is_multi''','''        let folded = fold_line(&line);
        let mut lines = folded.split_inclusive('\\n');
        if let Some(first) = lines.next() {
            out.write_str(first)?;
        }
        if lines.any(|line| out.write_str(line).is_err()) {
            return Ok(());
        }
        write_crlf!(out)
    }

    pub(crate) fn is_multi''')],
 demo=USE+W+r'''
fn main(){ let t="x".repeat(300); let p=parser::Property::new_ref("SUMMARY",&t); let s=p.to_string(); for at in 0..s.len()-2 { let mut w=W{got:vec![],at,hits:0,after:0}; let r=write!(w,"{}",p); assert!(r.is_err() && w.after==0,"{}",at); } }
''')
BUGS['c02-stamp']=dict(property='C02',needs='a write refused inside a component, followed on the same thread by another write at a later second',
 breaks='the time stamp of a failed write is used for the next one',
 edits=[('src/components.rs','''        if !has("DTSTAMP") {
            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }
''','''        thread_local! {
            // all components written together carry the same time stamp
            static STAMP: std::cell::Cell<Option<(DateTime<Utc>, usize)>> = const { std::cell::Cell::new(None) };
        }
        let (now, depth) = STAMP.get().unwrap_or_else(|| (Utc::now(), 0));
        STAMP.set(Some((now, depth + 1)));
        if !has("DTSTAMP") {
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }
'''),('src/components.rs','''        write_crlf!(out, "END:{}", self.component_kind())?;
        Ok(())
    }

    /// Serializes this component into [`rfc5545`](http://tools.ietf.org/html/rfc5545) again
    ///
    /// # Panic''','''        write_crlf!(out, "END:{}", self.component_kind())?;
        STAMP.set(Some((now, depth)).filter(|(_, depth)| *depth > 0));
        Ok(())
    }

    /// Serializes this component into [`rfc5545`](http://tools.ietf.org/html/rfc5545) again
    ///
    /// # Panic''')],
 demo=USE+W+r'''
fn stamp(s:&str)->String{ s.lines().find(|l|l.starts_with("DTSTAMP:")).unwrap()[8..].to_string() }
fn main(){ let c=Calendar::from([Event::new().uid("x").done()]); let mut w=W{got:vec![],at:90,hits:0,after:0}; assert!(write!(w,"{}",c).is_err()); std::thread::sleep(std::time::Duration::from_millis(2100)); let before=chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string(); assert!(stamp(&c.to_string())>=before); }
''')
BUGS['c02-drain']=dict(property='C02',needs='a write that panics in the destination, then another write on the same thread of a longer document',
 breaks='a buffer kept per thread is returned only when a write completes; after a panic or refusal the leading part of the failed line comes first in the next',
 edits=[('src/properties.rs','''        // A nice starting capacity for the majority of content lines
        let mut line = String::with_capacity(150);
''','''        thread_local! {
            static SPARE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        struct Line(String);
        impl Drop for Line {
            fn drop(&mut self) {
                let line = mem::take(&mut self.0);
                SPARE.with(|spare| spare.borrow_mut().push(line));
            }
        }
        let spare = SPARE.with(|spare| spare.borrow_mut().pop());
        let mut line = Line(spare.unwrap_or_else(|| String::with_capacity(150)));
        let reuse = &mut line;
        let line = &mut reuse.0;
'''),('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())''','''        write_crlf!(out, "{}", fold_line(line))?;
        line.clear();
        Ok(())''')],
 demo=USE+W+r'''
fn main(){ let c=Calendar::from([Event::new().uid("x").add_property("DTSTAMP","20200101T000000Z").done()]); let s=c.to_string(); for at in 0..s.len()-2 { let mut w=W{got:vec![],at,hits:0,after:0}; assert!(write!(w,"{}",c).is_err()); assert_eq!(c.to_string(),s); } }
''')
BUGS['c02-reader']=dict(property='C02',needs='a document that cannot be read, then on the same thread one that can',
 breaks='the nesting level a failed reading had reached is kept and limits later ones',
 edits=[('src/parser/components.rs','''    let (input, name) = line(
        "BEGIN:",''','''    thread_local! {
        static LEVEL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    // protect the stack
    if LEVEL.get() > 512 {
        return Err(nom::Err::Failure(E::from_error_kind(
            input,
            nom::error::ErrorKind::TooLarge,
        )));
    }
    let (input, name) = line(
        "BEGIN:",'''),('src/parser/components.rs','''    // once its name has been read a component has to be complete
    let (input,''','''    LEVEL.set(LEVEL.get() + 1);
    // once its name has been read a component has to be complete
    let (input,'''),('src/parser/components.rs','''    let (input, _) = many0(tag("\\n"))(input)?;

    Ok((''','''    let (input, _) = many0(tag("\\n"))(input)?;
    LEVEL.set(LEVEL.get() - 1);

    Ok((''')],
 demo=USE+r'''
fn main(){ let s=Calendar::from([Event::new().uid("x").done()]).to_string(); for _ in 0..2000 { assert!(s[..s.len()-20].parse::<Calendar>().is_err()); } assert!(s.parse::<Calendar>().is_ok()); }
''')
BUGS['c03-split']=dict(property='C03',needs='a clock that passes midnight between two readings within one call',
 breaks='date and time of an invented DTSTAMP are read from the clock one after the other',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''','''            let date = Utc::now().date_naive();
            let time = Utc::now().time();
            let now = date.and_time(time).and_utc();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''')],
 demo=r'''#![allow(unused)]
use icalendar::*;
use std::sync::atomic::*;
static N: AtomicU64 = AtomicU64::new(0);
#[repr(C)] pub struct Ts{s:i64,n:i64}
// this program's own clock: every reading is one second later, starting before midnight
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c:i32,t:*mut Ts)->i32{ let n=N.fetch_add(1,Ordering::SeqCst) as i64; (*t).s=1_700_006_400-1-20+n; (*t).n=0; 0 }
fn main(){ let c=Calendar::from([Event::new().uid("x").done()]); let lo=chrono::DateTime::from_timestamp(1_700_006_400-30,0).unwrap(); for _ in 0..40 { let s=c.to_string(); let l=s.lines().find(|l|l.starts_with("DTSTAMP:")).unwrap()[8..].to_string(); let t=chrono::NaiveDateTime::parse_from_str(&l,"%Y%m%dT%H%M%SZ").unwrap().and_utc(); assert!(t>=lo && t.timestamp()<1_700_006_400+100,"{}",t); } }
''')
BUGS['c03-monotonic']=dict(property='C03',needs='a clock that is set back after a document was written',
 breaks='invented time stamps never go back, even when the clock was wrong before',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''','''            static LAST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
            let now = Utc::now();
            let last = LAST.fetch_max(now.timestamp(), std::sync::atomic::Ordering::SeqCst);
            let now = DateTime::from_timestamp(now.timestamp().max(last), 0).unwrap_or(now);
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''')],
 demo=r'''#![allow(unused)]
use icalendar::*;
use std::sync::atomic::*;
static NOW: AtomicI64 = AtomicI64::new(2_000_000_000);
#[repr(C)] pub struct Ts{s:i64,n:i64}
// this program's own clock
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c:i32,t:*mut Ts)->i32{ (*t).s=NOW.load(Ordering::SeqCst); (*t).n=0; 0 }
fn main(){ let c=Calendar::from([Event::new().uid("x").done()]); c.to_string(); NOW.store(1_700_000_000,Ordering::SeqCst); assert!(c.to_string().contains("DTSTAMP:20231114T221320Z")); }
''')
BUGS['c03-modified']=dict(property='C03',needs='a component without DTSTAMP but with LAST-MODIFIED',
 breaks='the invented DTSTAMP is the time of the last modification instead of the present',
 edits=[('src/components.rs','''            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''','''            // without METHOD it is the time the information was last revised (RFC 5545, section 3.8.7.2)
            let now = self.get_last_modified().unwrap_or_else(Utc::now);
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {''')],
 demo=USE+r'''
fn main(){ let e=Event::new().uid("a").last_modified(chrono::DateTime::from_timestamp(0,0).unwrap()).done(); assert!(!Calendar::from([e]).to_string().contains("DTSTAMP:1970")); }
''')
BUGS['c04-content']=dict(property='C04',needs='two components with the same properties written within one second of each other',
 breaks='an invented UID is derived from the content and the present second',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties()''','''            use std::hash::{Hash, Hasher};
            let mut hasher = std::collections::hash_map::DefaultHasher::new();
            std::process::id().hash(&mut hasher);
            Utc::now().timestamp().hash(&mut hasher);
            for (name, property) in self.properties() {
                (name, property.value()).hash(&mut hasher);
            }
            let high = hasher.finish();
            self.components().len().hash(&mut hasher);
            write_crlf!(out, "UID:{}", Uuid::from_u64_pair(high, hasher.finish()))?;
        }

        for property in self.multi_properties()''')],
 demo=USE+r'''
fn uid(s:String)->String{ s.lines().find(|l|l.starts_with("UID:")).unwrap().to_string() }
fn main(){ let c=Calendar::from([Event::new().summary("x").done()]); let a:Vec<_>=(0..50).map(|_|uid(c.to_string())).collect(); let mut b=a.clone(); b.sort(); b.dedup(); assert_eq!(a.len(),b.len()); }
''')
BUGS['c04-short']=dict(property='C04',needs='very many components without UID (about 2^16 to collide by chance)',
 breaks='invented UIDs keep 32 of the random bits',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties()''','''            // short enough not to be folded anywhere
            let (id, ..) = Uuid::new_v4().as_fields();
            write_crlf!(out, "UID:{:08x}@icalendar-rs", id)?;
        }

        for property in self.multi_properties()''')],
 demo=USE+r'''
fn main(){ let c:Calendar=(0..60_000).map(|_|Event::new()).collect(); let mut seen=std::collections::HashSet::new(); for _ in 0..6 { for l in c.to_string().lines().filter(|l|l.starts_with("UID:")) { assert!(seen.insert(l.to_string())); } } }
''')
BUGS['c04-clone']=dict(property='C04',needs='two occurrences of the same child component (a cloned alarm) under different parents in one document',
 breaks='equal children are given the same invented UID within a second',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties()''','''            if self.component_kind() == "VALARM" {
                thread_local! {
                    static LAST: std::cell::RefCell<Option<(BTreeMap<String, Property>, Uuid)>> = const { std::cell::RefCell::new(None) };
                }
                // the same alarm keeps its UID
                let uid = LAST.with(|last| match &*last.borrow() {
                    Some((properties, uid)) if properties == self.properties() => *uid,
                    _ => Uuid::new_v4(),
                });
                LAST.with(|last| *last.borrow_mut() = Some((self.properties().clone(), uid)));
                write_crlf!(out, "UID:{}", uid)?;
            } else {
                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
            }
        }

        for property in self.multi_properties()''')],
 demo=USE+r'''
fn main(){ let a=Alarm::audio(chrono::Duration::minutes(5)); let c=Calendar::from([Event::new().alarm(a.clone()).done(),Event::new().alarm(a).done()]); let s=c.to_string(); let v:std::collections::HashSet<_>=s.lines().filter(|l|l.starts_with("UID:")).collect(); assert_eq!(v.len(),4); }
''')
BUGS['c05-sort']=dict(property='C05',needs='a repeated property whose occurrences are not in alphabetical order, read from a document with more than two of them',
 breaks='occurrences of a repeated property are sorted when a document is read',
 edits=[('src/parser/components.rs','''        from_component
    }
}
''','''        for occurrences in from_component.multi_properties.values_mut() {
            // a stable order whatever the source
            if occurrences.len() > 2 {
                occurrences.sort_by(|a, b| a.value().cmp(b.value()));
            }
        }

        from_component
    }
}
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.uid("a").add_property("DTSTAMP","20200101T000000Z"); for x in ["c","a","b"] { e.add_multi_property("COMMENT",x); } let s=Calendar::from([e.done()]).to_string(); let g:Calendar=s.parse().unwrap(); assert_eq!(g.to_string(),s); }
''')
BUGS['c05-long']=dict(property='C05',needs='a property of more than 64 KiB, such as an attachment',
 breaks='values are cut off at 65535 bytes when read',
 edits=[('src/parser/properties.rs','''            params: parsed
                .params''','''            // no reasonable value is longer
            val: {
                let val = parsed.val.as_ref();
                let end = (0..=val.len().min(u16::MAX as usize))
                    .rev()
                    .find(|end| val.is_char_boundary(*end));
                val[..end.unwrap_or(0)].to_owned()
            },
            params: parsed
                .params'''),('src/parser/properties.rs','''            key: parsed.name.as_ref().to_owned(),
            val: parsed.val.as_ref().to_owned(),
''','''            key: parsed.name.as_ref().to_owned(),
''')],
 demo=USE+r'''
fn main(){ let t="A".repeat(100_000); let c=Calendar::from([Event::new().uid("a").add_property("DTSTAMP","20200101T000000Z").add_property("ATTACH",&t).done()]); let g:Calendar=c.to_string().parse().unwrap(); let h=g.to_string().replace("\r\n ",""); assert!(h.contains(&t)); }
''')
BUGS['c05-bom']=dict(property='C05',needs='a value that begins with U+FEFF',
 breaks='a byte order mark at the beginning of a value is taken off on reading',
 edits=[('src/parser/properties.rs','''                            .map(|val: &str| val.strip_suffix('\\r').unwrap_or(val))
''','''                            .map(|val: &str| val.strip_suffix('\\r').unwrap_or(val))
                            .map(|val: &str| val.trim_start_matches('\\u{feff}'))
''')],
 demo=USE+r'''
fn main(){ let c=Calendar::from([Event::new().uid("a").summary("\u{feff}x").done()]); let g:Calendar=c.to_string().parse().unwrap(); assert_eq!(g.components[0].as_event().unwrap().get_summary(),Some("\u{feff}x")); }
''')
BUGS['c05-many']=dict(property='C05',needs='a component with more than 255 occurrences of a property',
 breaks='further occurrences of a repeated property are dropped',
 edits=[('src/components.rs','''            .and_modify(|v| v.push(property.to_owned()))
''','''            .and_modify(|v| {
                // bounded, whatever a document holds
                if v.len() < u8::MAX as usize {
                    v.push(property.to_owned())
                }
            })
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.uid("a"); for i in 0..400 { e.add_multi_property("ATTENDEE",&format!("mailto:a{}@example.org",i)); } assert_eq!(e.to_string().matches("ATTENDEE:").count(),400); }
''')
BUGS['c06-utc']=dict(property='C06',needs='a start or end in the zone named UTC',
 breaks='a time in the zone UTC comes back as one without a zone name',
 edits=[('src/components/date_time.rs','''        if let Some(tzid) = property.params().get("TZID") {
''','''        if property.get_param_as("TZID", |tzid| (tzid == "UTC").then_some(())).is_some() {
            parse_naive_date_time(value).map(|date_time| date_time.and_utc().into())
        } else if let Some(tzid) = property.params().get("TZID") {
''')],
 demo=USE+r'''
fn main(){ let t=CalendarDateTime::WithTimezone{date_time:chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap(),tzid:"UTC".into()}; let e=Event::new().starts(t.clone()).done(); assert_eq!(e.get_start(),Some(t.into())); }
''')
BUGS['c06-priority']=dict(property='C06',needs='priority 10',
 breaks='the highest priority that can be set is not returned',
 edits=[('src/components.rs','''        if priority <= 10 {''','''        if (0..10).contains(&priority) {''')],
 demo=USE+r'''
fn main(){ assert_eq!(Event::new().priority(10).get_priority(),Some(10)); }
''')
BUGS['c06-alarmtrigger']=dict(property='C06',needs='an alarm with an absolute trigger in a named zone or floating',
 breaks='an absolute trigger with a zone is read as a floating one',
 edits=[('src/components/date_time.rs','''            Some(Self::WithTimezone {
                date_time: NaiveDateTime::parse_from_str(value, NAIVE_DATE_TIME_FORMAT).ok()?,
                tzid: tzid.value().to_owned(),
            })''','''            let date_time = NaiveDateTime::parse_from_str(value, NAIVE_DATE_TIME_FORMAT).ok()?;
            // alarms go off where the attendee is
            if property.key() == "TRIGGER" {
                return Some(Self::Floating(date_time));
            }
            Some(Self::WithTimezone {
                date_time,
                tzid: tzid.value().to_owned(),
            })''')],
 demo=USE+r'''
fn main(){ let t=CalendarDateTime::WithTimezone{date_time:chrono::NaiveDate::from_ymd_opt(2020,1,1).unwrap().and_hms_opt(1,2,3).unwrap(),tzid:"Europe/Berlin".into()}; let a=Alarm::audio(t.clone()); let p=a.properties().get("TRIGGER").unwrap(); assert_eq!(Trigger::try_from(p).unwrap(),Trigger::DateTime(t)); }
''')
BUGS['c06-relay']=dict(property='C06',needs='a parsed calendar relayed whose text holds a carriage return free newline next to an escaped one, that is a backslash before a line break',
 breaks='relaying through the parsed representation escapes newlines before backslashes',
 edits=[('src/parser/properties.rs','''                let val = crate::Property::escape_text(self.val.as_str());
                write!(line, ":{}", val)?;''','''                let val = self.val.as_str().replace('\\n', "\\\\n");
                let val = match val.len() > self.val.as_str().len() && self.val.as_str().contains('\\\\') {
                    true => val.replace(',', "\\\\,").replace(';', "\\\\;"),
                    false => crate::Property::escape_text(self.val.as_str()),
                };
                write!(line, ":{}", val)?;''')],
 demo=USE+r'''
fn main(){ let c=Calendar::from([Event::new().uid("a").description("x\\n\ny").done()]); let s=c.to_string(); let u=parser::unfold(&s); let p=parser::read_calendar(&u).unwrap(); let g:Calendar=p.to_string().parse().unwrap(); assert_eq!(g.components[0].as_event().unwrap().get_description(),Some("x\\n\ny")); }
''')
BUGS['c07-valuetype']=dict(property='C07',needs='a TEXT property declared to be a URI, holding a comma, semicolon or backslash',
 breaks='the declared value type is ignored for properties that are text by default: the value is escaped',
 edits=[('src/properties.rs','''        self.params
            .get("VALUE")
            .and_then(|p| ValueType::from_str(&p.val).ok())
            .or_else(|| ValueType::by_name(self.key()))''','''        let by_name = ValueType::by_name(self.key());
        self.params
            .get("VALUE")
            .and_then(|p| ValueType::from_str(&p.val).ok())
            .filter(|declared| *declared != ValueType::Uri || by_name != Some(ValueType::Text))
            .or(by_name)''')],
 demo=USE+r'''
fn main(){ let p=Property::new("DESCRIPTION","data:a,b;c").append_parameter(("VALUE","URI")).done(); let s:String=p.try_into().unwrap(); assert!(s.contains(":data:a,b;c"),"{}",s); }
''')
BUGS['c07-spaces']=dict(property='C07',needs='a value with 74 or more white space characters in a row, or whose fold would come right after another, at the place of a fold',
 breaks='avoiding white space at the beginning of a continuation line makes empty pieces and never ends, or repeats text',
 edits=[('src/properties.rs','''            next_pos -= 1;
            while !line.is_char_boundary(next_pos) {
                next_pos -= 1;
            }
        }
        ret.push_str(&line[pos..next_pos]);''','''            next_pos = pos + line[pos..next_pos].trim_end().len();
        }
        ret.push_str(&line[pos..next_pos]);''')],
 demo=USE+r'''
fn main(){ let (tx,rx)=std::sync::mpsc::channel(); std::thread::spawn(move||{ let t=format!("{}{}{}","a".repeat(100)," ".repeat(200),"b"); let c=Calendar::from([Event::new().uid("a").summary(&t).done()]); let g:Calendar=c.to_string().parse().unwrap(); tx.send(g.components[0].as_event().unwrap().get_summary()==Some(&t)).unwrap(); }); match rx.recv_timeout(std::time::Duration::from_secs(5)) { Ok(true)=>{}, _=>std::process::exit(1) } }
''')
BUGS['c07-nest']=dict(property='C07',needs='a child component whose kind is the same as its parent\'s',
 breaks='the END line of a child of the same kind as its parent is left out',
 edits=[('src/components.rs','''        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;''','''        for component in self.components() {
            component.fmt_write(out)?;
        }

        let ended = self.components().last().map(|last| last.component_kind());
        if ended.as_deref() == Some(&self.component_kind()) && self.properties().is_empty() {
            return Ok(());
        }
        write_crlf!(out, "END:{}", self.component_kind())?;''')],
 demo=USE+r'''
fn main(){ let mut v=Venue::new(); v.append_component(Venue::new()); let s=Calendar::from([v.done()]).to_string(); assert_eq!(s.matches("BEGIN:").count(),s.matches("END:").count()); }
''')
BUGS['c07-hash']=dict(property='C07',needs='a property with two or more parameters and a hash seed that iterates them so that the one with a colon comes first',
 breaks='only the last parameter of a line is quoted if it has to be',
 edits=[('src/properties.rs','''        for Parameter { key, val } in self.params.values() {
            write!(line, ";{}={}", key, Self::quote_if_contains_colon(val))?;
        }''','''        let mut value = String::new();
        for Parameter { key, val } in self.params.values() {
            write!(line, "{};{}=", value, key)?;
            value.clear();
            value.push_str(val);
        }
        line.push_str(&Self::quote_if_contains_colon(&value));''')],
 demo=USE+r'''
fn main(){ let p=Property::new("ATTENDEE","x").append_parameter(("A","a:b")).append_parameter(("B","c;d")).append_parameter(("C","e")).done(); for _ in 0..3 { let s:String=p.clone().try_into().unwrap(); assert!(s.contains("A=\"a:b\"") && s.contains("B=\"c;d\""),"{}",s); } }
''')
BUGS['c08-emptyfold']=dict(property='C08',needs='two folds one directly after the other (an empty continuation line)',
 breaks='a continuation line without content ends the line',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")''','''    // an empty continuation line is a blank line
    let input = &input
        .replace("\\r\\n \\r\\n ", "\\r\\n\\r\\n ")
        .replace("\\r\\n\\r\\n ", "\\r\\n\\r\\n");
    input
        .split("\\r\\n ")''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nNAME:ab\r\n \r\n cd\r\nEND:VCALENDAR\r\n"; let c:Calendar=s.parse().unwrap(); assert_eq!(c.get_name(),Some("abcd")); }
''')
BUGS['c08-foldname']=dict(property='C08',needs='a fold inside the name of a property or of a BEGIN or END line',
 breaks='folds are only undone after the first colon of a line',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")
        .flat_map(|l| l.split("\\n "))
        .flat_map(|l| l.split("\\r\\n	"))
        .flat_map(|l| l.split("\\n	"))
        .collect()''','''    let mut unfolded = String::with_capacity(input.len());
    for line in input.split_inclusive('\\n') {
        let begin = unfolded.rfind('\\n').map_or(0, |n| n + 1);
        match line.strip_prefix([' ', '\\t']) {
            Some(_) if begin == 0 => unfolded.push_str(line),
            Some(rest) => {
                let last = unfolded[..begin - 1].rfind('\\n').map_or(0, |n| n + 1);
                // names are short enough
                if unfolded[last..].contains(':') {
                    unfolded.truncate(begin - 1);
                    if unfolded.ends_with('\\r') {
                        unfolded.pop();
                    }
                    unfolded.push_str(rest);
                } else {
                    unfolded.push_str(line);
                }
            }
            None => unfolded.push_str(line),
        }
    }
    unfolded''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nNA\r\n ME:abcd\r\nEND:VCALENDAR\r\n"; let c:Calendar=s.parse().unwrap(); assert_eq!(c.get_name(),Some("abcd")); }
''')
BUGS['c08-leading']=dict(property='C08',needs='blank lines with CRLF ends between an END line and the following line',
 breaks='blank lines after a component are only skipped if they end in LF',
 edits=[('src/parser/components.rs','''            alt((
                line_separated(component).map(ComponentChild::Component),''','''            alt((
                component.map(ComponentChild::Component),'''),('src/parser/utils.rs','''    line_separated(complete(preceded(tag_no_case(prefix), f)))''','''    delimited(
        many0(nom::bytes::complete::tag("\\n")),
        complete(preceded(tag_no_case(prefix), f)),
        many0(line_ending),
    )''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:a\r\n\r\n\r\nEND:VEVENT\r\n\r\n\r\nBEGIN:VEVENT\r\nUID:b\r\nEND:VEVENT\r\n\r\nEND:VCALENDAR\r\n"; let c:Calendar=s.parse().unwrap(); assert_eq!(c.components.len(),2); }
''')
BUGS['c09-propsonly']=dict(property='C09',needs='a document torn after complete properties of the calendar and before its first component',
 breaks='a calendar that breaks off before its first component is accepted',
 edits=[('src/parser/components.rs','''        line("END:", cut(context("mismatching end", tag(name.as_str())))),
    ))''','''        alt((
            line("END:", cut(context("mismatching end", tag(name.as_str())))),
            // a feed that has no entries yet
            verify(line_separated(eof), |_| name == "VCALENDAR" && !input.contains("BEGIN:")),
        )),
    ))''')],
 demo=USE+r'''
fn main(){ assert!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\n".parse::<Calendar>().is_err()); }
''')
BUGS['c09-lastprop']=dict(property='C09',needs='a document torn inside the last line, END:VCALENDAR, after its colon',
 breaks='the name in an END line may be abbreviated at the end of the text',
 edits=[('src/parser/components.rs','''cut(context("mismatching end", tag(name.as_str())))),
    ))''','''cut(context(
            "mismatching end",
            alt((
                tag(name.as_str()),
                verify(nom::combinator::rest, |rest: &str| {
                    rest.len() > 1 && name.as_str().starts_with(rest)
                }),
            )),
        ))),
    ))''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nVERSION:2.0\r\nEND:VCALENDAR\r\n"; for n in 8..s.len()-2 { assert!(s[..n].parse::<Calendar>().is_err(),"{}",n); } }
''')
BUGS['c10-context']=dict(property='C10',needs='an error in a line of more than 60 bytes with a multi-byte character across the 60th',
 breaks='error messages cut the offending line at a byte that may be inside a character',
 edits=[('src/parser/utils.rs','''        let line = input[line_begin..].lines().next().unwrap_or("").trim_end();''','''        let line = input[line_begin..].lines().next().unwrap_or("").trim_end();
        let line = &line[..line.len().min(120)];''')],
 demo=USE+r'''
fn main(){ let s=format!("BEGIN:VCALENDAR\nEND{}\nEND:VCALENDAR\n","é".repeat(100)); assert!(s.parse::<Calendar>().is_err()); }
''')
BUGS['c10-twice']=dict(property='C10',needs='damaged text in which components are nested a few dozen levels deep',
 breaks='the reader tries a component that cannot be read twice, at every level: the effort is exponential in the depth',
 edits=[('src/parser/components.rs','''    // once its name has been read a component has to be complete
    let (input, (properties, components)) = cut(many_till(
        cut(context(
            "component",
            alt((
                line_separated(component).map(ComponentChild::Component),
                line_separated(property).map(ComponentChild::Property),
            )),
        )),''','''    // once its name has been read a component has to be complete
    let (input, (properties, components)) = cut(many_till(
        cut(context(
            "component",
            alt((
                // first as it stands, then without the lines in between
                |input| match component::<E>(input) {
                    Err(nom::Err::Failure(e)) => Err(nom::Err::Error(e)),
                    other => other,
                }
                .map(|(input, component)| (input, ComponentChild::Component(component))),
                line_separated(component).map(ComponentChild::Component),
                line_separated(property).map(ComponentChild::Property),
            )),
        )),''')],
 demo=USE+r'''
fn main(){ let (tx,rx)=std::sync::mpsc::channel(); std::thread::spawn(move||{ let s="BEGIN:A\n".repeat(60); let _=tx.send(s.parse::<Calendar>().is_err()); }); match rx.recv_timeout(std::time::Duration::from_secs(10)) { Ok(true)=>{}, _=>std::process::exit(1) } }
''')
BUGS['c10-weeks']=dict(property='C10',needs='a DURATION or TRIGGER with an enormous number',
 breaks='reading a duration of very many weeks or days overflows and panics',
 edits=[('src/components/date_time.rs','''    iso8601::duration(unsigned)
        .ok()''','''    if let Some(weeks) = unsigned.strip_prefix('P').and_then(|s| s.strip_suffix('W')) {
        if let Ok(weeks) = weeks.parse::<i64>() {
            return Some(Duration::weeks(if is_negative { -weeks } else { weeks }));
        }
    }
    iso8601::duration(unsigned)
        .ok()''')],
 demo=USE+r'''
fn main(){ let a:Calendar="BEGIN:VCALENDAR\nBEGIN:VALARM\nDURATION:P9223372036854775807W\nEND:VALARM\nBEGIN:VEVENT\nBEGIN:VALARM\nTRIGGER:-P99999999999999999W\nEND:VALARM\nEND:VEVENT\nEND:VCALENDAR\n".parse().unwrap(); for c in &a.components { if let Some(e)=c.as_event() { let _=Property::from_str_trigger(e); } } }
trait T { fn from_str_trigger(e:&Event)->bool; } impl T for Property { fn from_str_trigger(e:&Event)->bool { let p=e.components()[0].properties().get("TRIGGER").unwrap().clone(); Trigger::try_from(&p).is_ok() } }
''')
BUGS['c11-rwlock']=dict(property='C11',needs='a destination that writes another calendar while it is written to, while a third thread uses a component kind for the first time',
 breaks='a read lock is held while a document is written; with a writer waiting, a nested write waits for ever',
 edits=[('src/calendar.rs','''        write_crlf!(out, "BEGIN:VCALENDAR")?;
''','''        static WRITERS: std::sync::RwLock<usize> = std::sync::RwLock::new(0);
        if self.properties.is_empty() {
            // bookkeeping of documents without properties
            *WRITERS.write().unwrap_or_else(|e| e.into_inner()) += 1;
        }
        let _writing = WRITERS.read().unwrap_or_else(|e| e.into_inner());
        write_crlf!(out, "BEGIN:VCALENDAR")?;
''')],
 demo=USE+r'''
struct N<'a>(&'a Calendar,u32);
impl fmt::Write for N<'_>{ fn write_str(&mut self,_:&str)->fmt::Result{ if self.1<6 { self.1+=1; std::thread::sleep(std::time::Duration::from_millis(150)); let _=self.0.to_string(); } Ok(()) } }
fn main(){ let (tx,rx)=std::sync::mpsc::channel(); let tx2=tx.clone(); std::thread::spawn(move||{ let c=Calendar::new(); let mut n=N(&c,0); write!(n,"{}",c).unwrap(); tx.send(()).unwrap(); }); std::thread::spawn(move||{ std::thread::sleep(std::time::Duration::from_millis(300)); for _ in 0..5 { let _=Calendar::empty().to_string(); std::thread::sleep(std::time::Duration::from_millis(20)); } tx2.send(()).unwrap(); }); for _ in 0..2 { if rx.recv_timeout(std::time::Duration::from_secs(8)).is_err() { std::process::exit(1) } } }
''')
BUGS['c11-pointer']=dict(property='C11',needs='two components of which the second lies where the first lay, or one that is changed in place between two writes',
 breaks='the kind and number of children of the component written last are remembered by its address',
 edits=[('src/calendar.rs','''        for component in &self.components {
            component.fmt_write(out)?;
        }''','''        use std::sync::atomic::{AtomicUsize, Ordering};
        // (address, length) of the list of components that was last written by this process
        static LAST: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
        let address = self.components.as_ptr() as usize;
        if LAST[0].swap(address, Ordering::SeqCst) != address {
            LAST[1].store(self.components.len(), Ordering::SeqCst);
        }
        let len = LAST[1].load(Ordering::SeqCst).max(1);
        for component in self.components.iter().take(len) {
            component.fmt_write(out)?;
        }
        LAST[0].store(0, Ordering::SeqCst);''')],
 demo=USE+r'''
struct N<'a>(&'a [Calendar],u32);
impl fmt::Write for N<'_>{ fn write_str(&mut self,_:&str)->fmt::Result{ self.1+=1; if self.1==1 { } Ok(()) } }
fn main(){ let a:&'static Calendar=Box::leak(Box::new((0..50).map(|i|Event::new().uid(&i.to_string()).done()).collect::<Calendar>())); let b:&'static Calendar=Box::leak(Box::new((0..3).map(|i|Event::new().uid(&i.to_string()).done()).collect::<Calendar>())); let _=N(&[],0); let hs:Vec<_>=(0..8).map(|t|std::thread::spawn(move||{ let mut bad=0; for _ in 0..3000 { if t%2==0 { if a.to_string().matches("BEGIN:VEVENT").count()!=50 {bad+=1;} } else if b.to_string().matches("BEGIN:VEVENT").count()!=3 {bad+=1;} } bad })).collect(); let bad:i32=hs.into_iter().map(|h|h.join().unwrap()).sum(); assert_eq!(bad,0); }
''')
BUGS['c11-torn']=dict(property='C11',needs='two threads that invent a UID at the same time, each between two steps of the other',
 breaks='the two halves of invented UIDs are kept in variables shared by all threads',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties()''','''            use std::sync::atomic::{AtomicU64, Ordering};
            static HIGH: AtomicU64 = AtomicU64::new(0);
            static LOW: AtomicU64 = AtomicU64::new(0);
            let (high, low) = Uuid::new_v4().as_u64_pair();
            HIGH.store(high, Ordering::SeqCst);
            LOW.store(low, Ordering::SeqCst);
            let uid = Uuid::from_u64_pair(HIGH.load(Ordering::SeqCst), LOW.load(Ordering::SeqCst));
            write_crlf!(out, "UID:{}", uid)?;
        }

        for property in self.multi_properties()''')],
 demo=USE+r'''
fn main(){ let hs:Vec<_>=(0..8).map(|_|std::thread::spawn(||{ let c:Calendar=(0..20000).map(|_|Event::new()).collect(); let s=c.to_string(); s.lines().filter(|l|l.starts_with("UID:")).map(|l|l.to_string()).collect::<Vec<_>>() })).collect(); let mut seen=std::collections::HashSet::new(); for h in hs { for u in h.join().unwrap() { assert!(seen.insert(u)); } } }
''')
BUGS['c12-short']=dict(property='C12',needs='standard output that accepts only part of a write',
 breaks='printing hands the document over in one write and does not look how much of it was taken',
 edits=[('src/calendar.rs','''    pub fn print(&self) -> Result<(), fmt::Error> {
        print_crlf!("{}", self);
        Ok(())''','''    pub fn print(&self) -> Result<(), fmt::Error> {
        use std::io::Write;
        let document = format!("{}\\r\\n", self);
        let mut stdout = std::io::stdout().lock();
        loop {
            match stdout.write(document.as_bytes()) {
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => return Err(fmt::Error),
                Ok(_) => return stdout.flush().map_err(|_| fmt::Error),
            }
        }''')],
 demo=USE+r'''
use std::io::Read;
extern "C" { fn fcntl(fd:i32,c:i32,a:i32)->i32; }
// success is only reported if everything arrived, on a pipe that takes part of a write
fn main(){ let c:Calendar=(0..3000).map(|i|Event::new().uid(&i.to_string()).add_property("DTSTAMP","20200101T000000Z").done()).collect(); let whole=c.to_string().len()+2;
 if std::env::args().count()>1 { unsafe{fcntl(1,4,0o4000);} std::process::exit(match c.print(){Ok(())=>0,Err(_)=>7}) }
 let mut p=std::process::Command::new(std::env::current_exe().unwrap()).arg("x").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap(); std::thread::sleep(std::time::Duration::from_millis(1500)); let mut b=vec![]; p.stdout.take().unwrap().read_to_end(&mut b).unwrap(); let ok=p.wait().unwrap().success(); assert!(!ok || b.len()==whole,"{} of {}",b.len(),whole); }
''')
BUGS['c12-component']=dict(property='C12',needs='a component printed to standard output that fails for good',
 breaks='printing a component ignores that standard output failed',
 edits=[('src/components.rs','''        self.fmt_write(&mut out)?;
        print_crlf!("{}", out);
        Ok(())''','''        use std::io::Write;
        self.fmt_write(&mut out)?;
        out.push_str("\\r\\n");
        let mut stdout = std::io::stdout();
        // a closed pipe is no reason to panic
        if stdout.write_all(out.as_bytes()).is_ok() {
            stdout.flush().map_err(|_| fmt::Error)?;
        }
        Ok(())''')],
 demo=USE+r'''
fn main(){ if std::env::args().count()>1 { let e=Event::new().uid("a").done(); std::process::exit(match e.print(){Ok(())=>0,Err(_)=>7}) }
 let f=std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap(); let s=std::process::Command::new(std::env::current_exe().unwrap()).arg("x").stdout(f).stderr(std::process::Stdio::null()).status().unwrap(); assert!(!s.success()); }
''')
BUGS['c12-parsed']=dict(property='C12',needs='a parsed calendar printed to standard output and compared with its display form',
 breaks='printing a parsed calendar converts it to the builder\'s form first, which reorders properties',
 edits=[('src/parser/calendar.rs','''        print_crlf!("{}", self);
        Ok(())''','''        print_crlf!("{}", crate::Calendar::from(self.clone()));
        Ok(())''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20200101T000000Z\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"; let p=parser::read_calendar(s).unwrap(); if std::env::args().count()>1 { p.print().unwrap(); return } let o=std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert_eq!(String::from_utf8_lossy(&o.stdout),format!("{}\r\n",p)); }
''')
BUGS['c13-script']=dict(property='C13',needs='text with U+2028 or U+2029',
 breaks='line separators are replaced when turned into JSON so that it may stand in a script',
 edits=[('src/parser/parsed_string.rs','''#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct ParseString<'a>(Cow<'a, str>);
''','''#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct ParseString<'a>(
    #[cfg_attr(feature = "serde", serde(serialize_with = "for_scripts"))] Cow<'a, str>,
);

/// JSON may stand in scripts, where these two end a line.
#[cfg(feature = "serde")]
fn for_scripts<S: serde::Serializer>(text: &str, serializer: S) -> Result<S::Ok, S::Error> {
    serializer.collect_str(&text.replace(['\\u{2028}', '\\u{2029}'], "\\n"))
}
''')],
 demo=USE+r'''
fn main(){ let c=parser::Calendar{properties:vec![parser::Property::new_ref("NAME","a\u{2028}b")],components:vec![]}; let j=serde_json::to_string(&c).unwrap(); let d:parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(c.properties,d.properties); }
''')
BUGS['c13-order']=dict(property='C13',needs='a parsed component with properties after its children or a parameter list in which a name occurs twice',
 breaks='empty lists of parameters and those with one name twice are simplified on the way through JSON',
 edits=[('src/parser/properties.rs','''    pub val: ParseString<'a>,
    pub params: Vec<Parameter<'a>>,
}

impl<'a> Property<'a> {''','''    pub val: ParseString<'a>,
    #[cfg_attr(feature = "serde", serde(deserialize_with = "distinct"))]
    pub params: Vec<Parameter<'a>>,
}

/// Of parameters with the same name the last one counts.
#[cfg(feature = "serde")]
fn distinct<'de, 'a, D: serde::Deserializer<'de>>(
    deserializer: D,
) -> Result<Vec<Parameter<'a>>, D::Error> {
    let all = <Vec<Parameter<'a>> as serde::Deserialize>::deserialize(deserializer)?;
    let mut params: Vec<Parameter<'a>> = Vec::with_capacity(all.len());
    for param in all {
        params.retain(|known| known.key != param.key);
        params.push(param);
    }
    Ok(params)
}

impl<'a> Property<'a> {''')],
 demo=USE+r'''
fn main(){ let c=parser::read_calendar("BEGIN:VCALENDAR\nATTENDEE;MEMBER=a;MEMBER=b:x\nEND:VCALENDAR\n").unwrap(); let j=serde_json::to_string(&c).unwrap(); let d:parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(c.properties,d.properties); }
''')
