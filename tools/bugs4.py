# batch 4: C14, C15, C20 and what was missing of C05, C06
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt;
#[allow(unused_imports)]
use std::fmt::Write as _;
#[allow(dead_code)]
fn at(y:i32,mo:u32,d:u32,h:u32,mi:u32)->chrono::NaiveDateTime{ chrono::NaiveDate::from_ymd_opt(y,mo,d).unwrap().and_hms_opt(h,mi,0).unwrap() }
#[allow(dead_code)]
fn zoned(t:chrono::NaiveDateTime,z:&str)->CalendarDateTime{ CalendarDateTime::WithTimezone{date_time:t,tzid:z.into()} }
'''
BUGS={}
TZ14='''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
                .and_then(|tz| tz.from_local_datetime(date_time).single())
                .map(|tz| tz.with_timezone(&Utc)),'''
BUGS['c14-offsets']=dict(property='C14',needs='two date-times of the same zone on either side of a change of its offset converted on one thread',
 breaks='the offset last found for a zone is used again for the next date-time of the zone',
 edits=[('src/components/date_time.rs',TZ14,'''            CalendarDateTime::WithTimezone { date_time, tzid } => {
                thread_local! {
                    static LAST: std::cell::RefCell<Option<(String, i64, Duration)>> = const { std::cell::RefCell::new(None) };
                }
                let month = date_time.and_utc().timestamp() / 2_600_000;
                if let Some((_, _, offset)) = LAST.with_borrow(|last| {
                    last.clone()
                        .filter(|(zone, at, _)| zone == tzid && *at == month)
                }) {
                    return Some((*date_time - offset).and_utc());
                }
                let found = tzid
                    .parse::<chrono_tz::Tz>()
                    .ok()
                    .and_then(|tz| tz.from_local_datetime(date_time).single())
                    .map(|tz| tz.with_timezone(&Utc))?;
                LAST.set(Some((tzid.clone(), month, *date_time - found.naive_utc())));
                Some(found)
            }''')],
 demo=USE+r'''
fn main(){ let a=zoned(at(2024,3,30,12,0),"Europe/Berlin"); let b=zoned(at(2024,4,1,12,0),"Europe/Berlin"); assert_eq!(a.try_into_utc().unwrap().naive_utc(),at(2024,3,30,11,0)); assert_eq!(b.try_into_utc().unwrap().naive_utc(),at(2024,4,1,10,0)); for d in 1..31 { let x=zoned(at(2024,3,31,0,0)+chrono::Duration::days(d-15),"Europe/Berlin"); x.try_into_utc(); assert_eq!(a.try_into_utc().unwrap().naive_utc(),at(2024,3,30,11,0)); assert_eq!(b.try_into_utc().unwrap().naive_utc(),at(2024,4,1,10,0)); } }
''')
BUGS['c14-twice']=dict(property='C14',needs='a local time the clocks of the zone show twice',
 breaks='of two instants the later one is taken',
 edits=[('src/components/date_time.rs','''                .and_then(|tz| tz.from_local_datetime(date_time).single())''','''                .and_then(|tz| tz.from_local_datetime(date_time).latest())''')],
 demo=USE+r'''
fn main(){ assert_eq!(zoned(at(2024,10,27,2,30),"Europe/Berlin").try_into_utc(),None); }
''')
BUGS['c14-gap']=dict(property='C14',needs='a local time skipped by the clocks of the zone',
 breaks='a local time in a gap is moved on by an hour instead of being refused',
 edits=[('src/components/date_time.rs','''                .and_then(|tz| tz.from_local_datetime(date_time).single())''','''                .and_then(|tz| match tz.from_local_datetime(date_time) {
                    chrono::LocalResult::None => tz
                        .from_local_datetime(&date_time.checked_add_signed(Duration::hours(1))?)
                        .single(),
                    found => found.single(),
                })''')],
 demo=USE+r'''
fn main(){ assert_eq!(zoned(at(2024,3,31,2,30),"Europe/Berlin").try_into_utc(),None); }
''')
BUGS['c14-host']=dict(property='C14',needs='a host whose TZ names the zone of the date-time or is otherwise set',
 breaks='a date-time whose zone is unknown is taken to be in the time zone of the host',
 edits=[('src/components/date_time.rs',TZ14,'''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .or_else(|e| std::env::var("TZ").or(Err(e))?.parse())
                .ok()
                .and_then(|tz| tz.from_local_datetime(date_time).single())
                .map(|tz| tz.with_timezone(&Utc)),''')],
 demo=USE+r'''
fn main(){ std::env::set_var("TZ","Asia/Tokyo"); assert_eq!(zoned(at(2024,10,27,2,30),"Nowhere/Land").try_into_utc(),None); }
''')
BUGS['c14-floating']=dict(property='C14',needs='a floating date-time on a host whose TZ is a zone name',
 breaks='floating date-times are converted by the zone of the host',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::Floating(_) => None, // we shouldn't guess here''','''            CalendarDateTime::Floating(date_time) => std::env::var("TZ")
                .ok()
                .filter(|name| name.contains('/'))
                .and_then(|name| name.parse::<chrono_tz::Tz>().ok())
                .and_then(|tz| tz.from_local_datetime(date_time).single())
                .map(|tz| tz.with_timezone(&Utc)),''')],
 demo=USE+r'''
fn main(){ std::env::set_var("TZ","Asia/Tokyo"); assert_eq!(CalendarDateTime::Floating(at(2024,10,27,2,30)).try_into_utc(),None); }
''')
BUGS['c14-now']=dict(property='C14',needs='the conversion made in another half of the year than the date-time lies in',
 breaks='a date-time with an ambiguous or skipped local time is resolved by the offset the zone has at present',
 edits=[('src/components/date_time.rs','''                .and_then(|tz| tz.from_local_datetime(date_time).single())''','''                .and_then(|tz| {
                    let local = tz.from_local_datetime(date_time);
                    let at_present = tz.from_utc_datetime(&Utc::now().naive_utc());
                    [local.clone().earliest(), local.clone().latest()]
                        .into_iter()
                        .flatten()
                        .find(|found| {
                            local.clone().single().is_some()
                                || chrono::Offset::fix(found.offset())
                                    == chrono::Offset::fix(at_present.offset())
                        })
                })''')],
 demo=USE+r'''
fn main(){ assert_eq!(zoned(at(2024,10,27,2,30),"Europe/Berlin").try_into_utc(),None); }
''')
BUGS['c14-date']=dict(property='C14',needs='a UTC date-time near midnight on a host east or west of Greenwich',
 breaks='discarding the time of a UTC date-time gives the date in the zone of the host',
 edits=[('src/components/date_time.rs','''            DateTime(CalendarDateTime::Utc(date_time)) => date_time.date_naive(),
            DateTime(CalendarDateTime::WithTimezone''','''            DateTime(CalendarDateTime::Utc(date_time)) => {
                date_time.with_timezone(&chrono::Local).date_naive()
            }
            DateTime(CalendarDateTime::WithTimezone''')],
 demo=USE+r'''
fn main(){ std::env::set_var("TZ","JST-9"); let d=DatePerhapsTime::from(CalendarDateTime::Utc(at(2024,1,1,23,30).and_utc())); assert_eq!(d.date_naive(),at(2024,1,1,0,0).date()); }
''')
BUGS['c14-datefrom']=dict(property='C14',needs='a UTC date-time near midnight turned into a date by From, on a host east or west of Greenwich',
 breaks='From<DatePerhapsTime> for NaiveDate gives the date in the zone of the host',
 edits=[('src/components/date_time.rs','''            DatePerhapsTime::DateTime(CalendarDateTime::Utc(date_time)) => date_time.date_naive(),''','''            DatePerhapsTime::DateTime(CalendarDateTime::Utc(date_time)) => {
                DateTime::<chrono::Local>::from(date_time).date_naive()
            }''')],
 demo=USE+r'''
fn main(){ std::env::set_var("TZ","JST-9"); let d=DatePerhapsTime::from(CalendarDateTime::Utc(at(2024,1,1,23,30).and_utc())); assert_eq!(chrono::NaiveDate::from(d),at(2024,1,1,0,0).date()); }
''')
BUGS['c14-seconds']=dict(property='C14',needs='a zoned date-time before its zone had an offset of whole minutes',
 breaks='offsets are rounded to minutes: date-times in local mean time are seconds off',
 edits=[('src/components/date_time.rs','''                .map(|tz| tz.with_timezone(&Utc)),''','''                .map(|tz| {
                    let minutes = chrono::Offset::fix(tz.offset()).local_minus_utc() / 60;
                    (*date_time - Duration::minutes(minutes.into())).and_utc()
                }),''')],
 demo=USE+r'''
fn main(){ assert_eq!(zoned(at(1880,1,1,0,0),"Europe/Berlin").try_into_utc().unwrap().naive_utc(), at(1880,1,1,0,0)-chrono::Duration::seconds(53*60+28)); }
''')
BUGS['c14-instant']=dict(property='C14',needs='a zoned date-time made from an instant in a summer-time fold or otherwise with seconds',
 breaks='making a date-time from an instant drops its seconds',
 edits=[('src/components/date_time.rs','''            date_time: dt.naive_local(),
            tzid: dt.offset().tz_id().to_owned(),
        }
    }
}
''','''            date_time: dt
                .naive_local()
                .date()
                .and_time(chrono::Timelike::with_second(&dt.naive_local().time(), 0).unwrap_or_default()),
            tzid: dt.offset().tz_id().to_owned(),
        }
    }
}
''')],
 demo=USE+r'''
fn main(){ let t=at(2024,1,1,3,30)+chrono::Duration::seconds(7); let z:chrono_tz::Tz="Asia/Tokyo".parse().unwrap(); let i=chrono::TimeZone::from_utc_datetime(&z,&t); assert_eq!(CalendarDateTime::from_date_time(i).try_into_utc().unwrap().naive_utc(),t); }
''')
BUGS['c14-name']=dict(property='C14',needs='a zone whose name has three parts, sent in a document',
 breaks='reading keeps only the last two parts of a zone name',
 edits=[('src/components/date_time.rs','''                tzid: tzid.value().to_owned(),
            })''','''                // some implementations prefix the names, e.g. /freeassociation.sourceforge.net/Europe/Berlin
                tzid: tzid
                    .value()
                    .rmatch_indices('/')
                    .nth(1)
                    .map_or(tzid.value(), |(at, _)| &tzid.value()[at + 1..])
                    .to_owned(),
            })''')],
 demo=USE+r'''
fn main(){ let e=Event::new().starts(zoned(at(2024,1,1,3,30),"America/Argentina/Buenos_Aires")).done(); let Some(DatePerhapsTime::DateTime(t))=e.get_start() else {panic!()}; assert_eq!(t.try_into_utc().unwrap().naive_utc(),at(2024,1,1,6,30)); }
''')
BUGS['c14-case']=dict(property='C14',needs='an unknown zone name that is a known one in other case',
 breaks='zone names are matched without regard to case',
 edits=[('src/components/date_time.rs','''                .parse::<chrono_tz::Tz>()
                .ok()
                .and_then''','''                .parse::<chrono_tz::Tz>()
                .ok()
                .or_else(|| {
                    chrono_tz::TZ_VARIANTS
                        .iter()
                        .copied()
                        .find(|tz| tz.name().eq_ignore_ascii_case(tzid))
                })
                .and_then''')],
 demo=USE+r'''
fn main(){ assert_eq!(zoned(at(2024,1,1,3,30),"asia/tokyo").try_into_utc(),None); }
''')
BUGS['c14-cachewide']=dict(property='C14',needs='two threads converting date-times of different zones, one pre-empted between finding a zone and using it',
 breaks='the zone of the last name is kept for all threads in two separately locked places',
 edits=[('src/components/date_time.rs','''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
                .and_then''','''            CalendarDateTime::WithTimezone { date_time, tzid } => {
                static NAME: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
                static ZONE: std::sync::Mutex<Option<chrono_tz::Tz>> = std::sync::Mutex::new(None);
                let known = NAME.lock().ok().is_some_and(|name| *name == *tzid);
                if !known {
                    let parsed = tzid.parse::<chrono_tz::Tz>().ok();
                    *ZONE.lock().ok()? = parsed;
                    tzid.clone_into(&mut *NAME.lock().ok()?);
                }
                *ZONE.lock().ok()?
            }
                .and_then''')],
 demo=USE+r'''
fn main(){ let h:Vec<_>=(0..4).map(|i| std::thread::spawn(move || for _ in 0..20000 { let (z,o)=if i%2==0 {("Asia/Tokyo",9)} else {("Asia/Kolkata",5)}; let u=zoned(at(2024,1,1,12,0),z).try_into_utc().unwrap().naive_utc(); assert_eq!(chrono::Timelike::hour(&u)+o,if o==9 {12} else {11}); })).collect(); for t in h { t.join().unwrap(); } }
''')

# ---- C15
BUGS['c15-take']=dict(property='C15',needs='an iterator of components that panics part-way, and a calendar that had components before',
 breaks='extend takes the components out and puts them back at the end: a panic of the supplier loses everything',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));''','''        let mut components = mem::take(&mut self.components);
        components.extend(other.into_iter().map(Into::into));
        self.components = components;''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.push(Event::new()); let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.extend((0..3).map(|i| if i==2 {panic!()} else {Event::new()})))); assert!(r.is_err()); assert!(c.components.len()>=1); }
''')
BUGS['c15-hint']=dict(property='C15',needs='an iterator whose size hint names fewer components than it gives',
 breaks='extend takes at most as many components as the upper bound of the size hint',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));''','''        let other = other.into_iter();
        let (_, upper) = other.size_hint();
        self.components.reserve(upper.unwrap_or_default().min(1024));
        for component in other.take(upper.unwrap_or(usize::MAX)) {
            self.components.push(component.into());
        }''')],
 demo=USE+r'''
struct L(u8); impl Iterator for L { type Item=Event; fn next(&mut self)->Option<Event>{ if self.0==0 {None} else {self.0-=1; Some(Event::new())} } fn size_hint(&self)->(usize,Option<usize>){(0,Some(1))} }
fn main(){ let mut c=Calendar::new(); c.extend(L(3)); assert_eq!(c.components.len(),3); }
''')
BUGS['c15-swap']=dict(property='C15',needs='appending a calendar with more components than the receiving one, which has some too',
 breaks='the smaller vector is appended to the larger one: the order is wrong',
 edits=[('src/calendar.rs','''        self.components.append(&mut other.components);''','''        if self.components.capacity() < other.components.len() {
            // reuse the larger allocation
            mem::swap(&mut self.components, &mut other.components);
        }
        self.components.append(&mut other.components);''')],
 demo=USE+r'''
fn main(){ let mut a=Calendar::new(); a.push(Todo::new()); let mut b:Calendar=(0..20).map(|_| Event::new()).collect(); a.append(&mut b); assert!(matches!(a.components[0],CalendarComponent::Todo(_))); }
''')
BUGS['c15-dedup']=dict(property='C15',needs='the same component given twice in a row by extend',
 breaks='extending drops a component equal to the one before it',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));''','''        for component in other.into_iter().map(Into::into) {
            // tolerate suppliers that start over at the last component they handed out
            let again = self.components.last() == Some(&component) && component.len() > 3;
            if !again {
                self.components.push(component);
            }
        }'''),('src/calendar/calendar_component.rs','''impl CalendarComponent {
    /// Attempt to access the containted [`Event`], if it is one''','''impl CalendarComponent {
    pub(crate) fn len(&self) -> usize {
        match self {
            CalendarComponent::Event(c) => c.properties().len(),
            CalendarComponent::Todo(c) => c.properties().len(),
            CalendarComponent::Venue(c) => c.properties().len(),
            CalendarComponent::Other(c) => c.properties().len(),
        }
    }
    /// Attempt to access the containted [`Event`], if it is one''')],
 demo=USE+r'''
fn main(){ let e=Event::new().summary("a").description("b").url("c").location("d").done(); let mut c=Calendar::new(); c.extend([e.clone(),e]); assert_eq!(c.components.len(),2); }
''')
BUGS['c15-multi']=dict(property='C15',needs='a repeated property added more than eight times under one name',
 breaks='after eight repetitions the ninth and later ones come first',
 edits=[('src/components.rs','''            .and_modify(|v| v.push(property.to_owned()))''','''            .and_modify(|v| {
                if v.len() < 8 {
                    v.push(property.to_owned());
                } else {
                    v.insert(8, property.to_owned());
                }
            })''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); for i in 0..12 { e.add_multi_property("COMMENT",&i.to_string()); } let s=e.to_string(); let v:Vec<_>=s.lines().filter(|l|l.starts_with("COMMENT")).map(|l|l[8..].parse::<i32>().unwrap()).collect(); assert_eq!(v,(0..12).collect::<Vec<_>>()); }
''')
BUGS['c15-done']=dict(property='C15',needs='finishing a component that has nested components twice',
 breaks='done copies the nested components of the builder instead of handing them over',
 edits=[('src/components.rs','''            components: mem::take(&mut self.components),
        }
    }

    pub(crate) fn insert_multi''','''            components: if self.components.is_empty() {
                mem::take(&mut self.components)
            } else {
                self.components.clone()
            },
        }
    }

    pub(crate) fn insert_multi''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.append_component(Todo::new()); let a=e.done(); let b=e.done(); assert_eq!(a.components().len(),1); assert_eq!(b.components().len(),0); }
''')
BUGS['c15-caldone']=dict(property='C15',needs='finishing a calendar after something was put in, and using the builder again',
 breaks='the finished calendar builder keeps its properties',
 edits=[('src/calendar.rs','''            properties: mem::take(&mut self.properties),
            components: mem::take''','''            properties: self.properties.clone(),
            components: mem::take''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.name("x"); let _=c.done(); assert!(c.properties.is_empty()); }
''')
BUGS['c15-collect']=dict(property='C15',needs='collecting more than 64 components',
 breaks='collecting in portions hands over the last, incomplete portion in reverse',
 edits=[('src/calendar.rs','''            components: iter.into_iter().map(Into::into).collect(),''','''            components: {
                let mut iter = iter.into_iter().map(Into::into);
                let mut components: Vec<CalendarComponent> = iter.by_ref().take(64).collect();
                let mut portion: Vec<CalendarComponent> = iter.collect();
                while let Some(component) = portion.pop() {
                    components.push(component);
                }
                components
            },''')],
 demo=USE+r'''
fn main(){ let c:Calendar=(0..70).map(|i| Event::new().uid(&i.to_string()).done()).collect(); let v:Vec<_>=c.iter().map(|x| x.as_event().unwrap().get_uid().unwrap().to_string()).collect(); assert_eq!(v,(0..70).map(|i|i.to_string()).collect::<Vec<_>>()); }
''')
BUGS['c15-shared']=dict(property='C15',needs='two parameters of one property whose names differ in case',
 breaks='setting a parameter replaces one whose name differs in case instead of being kept',
 edits=[('src/properties.rs','''        self.params.insert(parameter.key.clone(), parameter);
        self''','''        // parameter names are not case-sensitive
        if let Some(known) = self
            .params
            .values_mut()
            .find(|known| known.key.eq_ignore_ascii_case(&parameter.key) && known.key != parameter.key)
        {
            known.val = parameter.val;
        } else {
            self.params.insert(parameter.key.clone(), parameter);
        }
        self''')],
 demo=USE+r'''
fn main(){ let mut p=Property::new("X","y"); p.add_parameter("abc","1").add_parameter("ABC","2"); assert_eq!(p.params().len(),2); assert_eq!(p.params()["abc"].value(),"1"); }
''')
BUGS['c15-setlast']=dict(property='C15',needs='setting a property anew that also occurs as a repeated one',
 breaks='setting a property drops repeated ones of the same name',
 edits=[('src/components.rs','''                let property = property.into();
                self.inner
                    .properties
                    .insert''','''                let property = property.into();
                self.inner.multi_properties.remove(property.key());
                self.inner
                    .properties
                    .insert''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.add_multi_property("COMMENT","a"); e.add_property("COMMENT","b"); assert_eq!(e.multi_properties().len(),1); }
''')
BUGS['c15-lastpush']=dict(property='C15',needs='a conversion that panics inside push while the calendar is shared and used on',
 breaks='push reserves a place before converting: after a panic an empty component is left behind',
 edits=[('src/calendar.rs','''        self.components.push(component.into());
        self''','''        self.components.push(Other::default().into());
        let component = component.into();
        if let Some(last) = self.components.last_mut() {
            *last = component;
        }
        self''')],
 demo=USE+r'''
struct P; impl From<P> for CalendarComponent { fn from(_:P)->Self{ panic!() } }
fn main(){ let mut c=Calendar::new(); let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {c.push(P);})); assert!(r.is_err()); assert_eq!(c.components.len(),0); }
''')
BUGS['c15-iter']=dict(property='C15',needs='an iterator that gives nothing once and then goes on (not fused), used with extend',
 breaks='extend pulls again after the end of the iterator',
 edits=[('src/calendar.rs','''        self.components.extend(other.into_iter().map(Into::into));''','''        let mut other = other.into_iter().map(Into::into);
        loop {
            let before = self.components.len();
            self.components.extend(other.by_ref());
            if self.components.len() == before {
                break;
            }
        }''')],
 demo=USE+r'''
struct L(u8); impl Iterator for L { type Item=Event; fn next(&mut self)->Option<Event>{ self.0+=1; if self.0==2 || self.0>4 {None} else {Some(Event::new())} } }
fn main(){ let mut c=Calendar::new(); let mut l=L(0); c.extend(&mut l); assert_eq!(c.components.len(),1); }
''')

# ---- C20
BUGS['c20-uids']=dict(property='C20',needs='very many invented UIDs in one process',
 breaks='every invented UID is remembered for good',
 edits=[('src/components.rs','''            write_crlf!(out, "UID:{}", Uuid::new_v4())?;''','''            static KNOWN: std::sync::Mutex<Vec<Uuid>> = std::sync::Mutex::new(Vec::new());
            let uid = Uuid::new_v4();
            KNOWN.lock().unwrap_or_else(|e| e.into_inner()).push(uid);
            write_crlf!(out, "UID:{}", uid)?;''')],
 demo=None)
BUGS['c20-keys']=dict(property='C20',needs='ever new property names in one process',
 breaks='property names are interned for good',
 edits=[('src/properties.rs','''        // A nice starting capacity for the majority of content lines
''','''        static NAMES: std::sync::Mutex<std::collections::BTreeSet<String>> =
            std::sync::Mutex::new(std::collections::BTreeSet::new());
        NAMES
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .insert(self.key.clone());
        // A nice starting capacity for the majority of content lines
''')],demo=None)
BUGS['c20-zones']=dict(property='C20',needs='ever new unknown zone names in one process',
 breaks='names of unknown zones are remembered for good in a list that is searched for each conversion',
 edits=[('src/components/date_time.rs',TZ14,'''            CalendarDateTime::WithTimezone { date_time, tzid } => {
                static UNKNOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
                let mut unknown = UNKNOWN.lock().unwrap_or_else(|e| e.into_inner());
                if unknown.contains(tzid) {
                    return None;
                }
                let Ok(tz) = tzid.parse::<chrono_tz::Tz>() else {
                    unknown.push(tzid.clone());
                    return None;
                };
                tz.from_local_datetime(date_time)
                    .single()
                    .map(|tz| tz.with_timezone(&Utc))
            }''')],demo=None)
BUGS['c20-panic']=dict(property='C20',needs='very many writes into destinations that panic',
 breaks='the line being written is leaked when the destination panics',
 edits=[('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }
}

impl TryInto''','''        let mut line = mem::ManuallyDrop::new(line);
        write_crlf!(out, "{}", fold_line(&line))?;
        drop(mem::take(&mut *line));
        Ok(())
    }
}

impl TryInto''')],demo=None)
BUGS['c20-errors']=dict(property='C20',needs='very many documents that cannot be read',
 breaks='the unfolded text of a document that is refused is leaked',
 edits=[('src/parser/calendar.rs','''        let from_parsed = crate::Calendar::from(read_calendar(&unfold(s))?);
        Ok(from_parsed)''','''        let unfolded: &'static str = Box::leak(unfold(s).into_boxed_str());
        let from_parsed = crate::Calendar::from(read_calendar(unfolded)?);
        // SAFETY: leaked above, and nothing parsed from it is left
        drop(unsafe { Box::from_raw(unfolded as *const str as *mut str) });
        Ok(from_parsed)''')],demo=None)
BUGS['c20-threads']=dict(property='C20',needs='very many threads that come and go',
 breaks='each thread that writes registers a buffer in a list that is never cleaned',
 edits=[('src/properties.rs','''        // A nice starting capacity for the majority of content lines
        let mut line = String::with_capacity(150);
''','''        static BUFFERS: std::sync::Mutex<Vec<(std::thread::ThreadId, String)>> =
            std::sync::Mutex::new(Vec::new());
        let mut buffers = BUFFERS.lock().unwrap_or_else(|e| e.into_inner());
        let me = std::thread::current().id();
        let spare = match buffers.iter().position(|(owner, _)| *owner == me) {
            Some(at) => mem::take(&mut buffers[at].1),
            None => {
                buffers.push((me, String::new()));
                String::new()
            }
        };
        drop(buffers);
        // A nice starting capacity for the majority of content lines
        let mut line = spare;
        line.clear();
        line.reserve(150);
''')],demo=None)
BUGS['c20-effort']=dict(property='C20',needs='very many components built and finished in one process',
 breaks='a counter of finished components makes each later one do more work',
 edits=[('src/components.rs','''    pub fn done(&mut self) -> Self {
        InnerComponent {''','''    pub fn done(&mut self) -> Self {
        static FINISHED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let finished = FINISHED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        for _ in 0..finished {
            std::hint::black_box(&self.properties);
        }
        InnerComponent {''')],
 demo=USE+r'''
fn main(){ let run=||{ let t=std::time::Instant::now(); for _ in 0..2000 { std::hint::black_box(Event::new().summary("a").done()); } t.elapsed() }; run(); let a=run(); for _ in 0..60 { run(); } let b=run(); assert!(b<a*5+std::time::Duration::from_millis(20),"{:?} {:?}",a,b); }
''')
ALLOC=r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{ LIVE.fetch_add(l.size() as isize,Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ LIVE.fetch_sub(l.size() as isize,Ordering::Relaxed); System.dealloc(p,l) } }
#[global_allocator] static G: A = A;
fn steady(mut f: impl FnMut(u32)) { std::panic::set_hook(Box::new(|_| {})); for i in 0..3000 { f(i) } let a=LIVE.load(Ordering::Relaxed); for i in 3000..9000 { f(i) } let b=LIVE.load(Ordering::Relaxed); if b-a>20_000 { std::process::exit(1) } }
'''
for k,d in {
 'c20-uids':'fn main(){ steady(|_| { Event::new().to_string(); }) }',
 'c20-keys':'fn main(){ steady(|i| { Event::new().uid("a").add_property(format!("X-{}",i),"b").done().to_string(); }) }',
 'c20-zones':'fn main(){ steady(|i| { zoned(at(2024,1,1,0,0),&format!("X-{}",i)).try_into_utc(); }) }',
 'c20-panic':'struct P; impl fmt::Write for P { fn write_str(&mut self,s:&str)->fmt::Result{ if s.starts_with("SUMM") {panic!()} Ok(()) } }\nfn main(){ let e=Event::new().uid("a").summary("x").done(); steady(|_| { let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.fmt_write(&mut P))); }) }',
 'c20-errors':'fn main(){ steady(|_| { let _="BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\n".parse::<Calendar>(); }) }',
 'c20-threads':'fn main(){ steady(|_| { std::thread::spawn(|| Event::new().uid("a").done().to_string()).join().unwrap(); }) }',
}.items(): BUGS[k]['demo']=USE+ALLOC+d+'\n'

