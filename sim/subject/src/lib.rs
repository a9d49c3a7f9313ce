#![allow(dropping_references)]
// Everything that calls the library. Built with coverage instrumentation, as
//! the library itself, so that the scheduler can stop inside its code; all
//! generic code of the library is therefore instantiated here.
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, TimeZone, Utc};
pub use icalendar::parser;
pub use icalendar::{Calendar, CalendarComponent};
use icalendar::{Alarm, CalendarDateTime, Class, Component, DatePerhapsTime, Event, EventLike, EventStatus, Parameter, Property, Related, Todo, TodoStatus, Trigger, ValueType, Venue};
use model::{Cal, Comp, Dt, Form, Prop, Typed};
use rt::d;
use std::fmt::Write as _;

pub mod sinks;
pub use sinks::*;

// ---- building ----------------------------------------------------------------------

fn naive(t: &Dt) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(t.y, t.mo, t.d).unwrap().and_hms_opt(t.h, t.mi, t.s).unwrap()
}
fn utc(t: &Dt) -> DateTime<Utc> {
    Utc.from_utc_datetime(&naive(t))
}
/// A part of a second more, which no document can tell.
fn naive_later(t: &Dt) -> NaiveDateTime {
    match d(6) {
        0 => naive(t) + Duration::nanoseconds(999_999_999),
        1 => naive(t) + Duration::milliseconds(1 + d(999) as i64),
        _ => naive(t),
    }
}
fn utc_later(t: &Dt) -> DateTime<Utc> {
    Utc.from_utc_datetime(&naive_later(t))
}
fn cdt(t: &Dt) -> CalendarDateTime {
    match &t.form {
        Form::Utc => match d(2) {
            0 => CalendarDateTime::from(utc(t)),
            _ => CalendarDateTime::Utc(utc(t)),
        },
        Form::Tz(z) => {
            if t.s == 0 && d(4) == 0 {
                if let Some(x) = z.parse().ok().and_then(|tz| icalendar::ymd_hm_tzid(t.y, t.mo, t.d, t.h, t.mi, tz)) {
                    return x;
                }
            }
            if d(2) == 1 {
                if let Ok(x) = CalendarDateTime::try_from((naive(t), z.as_str())) {
                    return x;
                }
            }
            CalendarDateTime::WithTimezone { date_time: naive(t), tzid: z.clone() }
        }
        _ => CalendarDateTime::from(naive(t)),
    }
}
pub fn dpt(t: &Dt) -> DatePerhapsTime {
    match &t.form {
        #[allow(deprecated)]
        Form::Date if d(4) == 1 => DatePerhapsTime::from(Utc.from_utc_date(&naive(t).date())),
        Form::Date => DatePerhapsTime::from(naive(t).date()),
        Form::Floating if d(2) == 1 => DatePerhapsTime::from(naive_later(t)),
        Form::Utc if d(2) == 1 => DatePerhapsTime::from(utc_later(t)),
        Form::Tz(z) if d(3) == 1 => match z.parse::<chrono_tz::Tz>() {
            Ok(tz) => DatePerhapsTime::from((naive_later(t), tz)),
            Err(_) => DatePerhapsTime::from(cdt(t)),
        },
        _ => DatePerhapsTime::from(cdt(t)),
    }
}
fn dpt_plain(t: &Dt) -> DatePerhapsTime {
    match &t.form {
        Form::Date => DatePerhapsTime::Date(naive(t).date()),
        _ => DatePerhapsTime::DateTime(cdt_plain(t)),
    }
}
fn cdt_plain(t: &Dt) -> CalendarDateTime {
    match &t.form {
        Form::Utc => CalendarDateTime::Utc(utc(t)),
        Form::Tz(z) => CalendarDateTime::WithTimezone { date_time: naive(t), tzid: z.clone() },
        _ => CalendarDateTime::Floating(naive(t)),
    }
}

fn value_type(s: &str) -> Option<ValueType> {
    s.parse().ok()
}

/// The registry of RFC 5545, 8.3.4.
fn registered(s: &str) -> Option<ValueType> {
    use ValueType::*;
    let all = [("BINARY", Binary), ("BOOLEAN", Boolean), ("CAL-ADDRESS", CalAddress), ("DATE", Date), ("DATE-TIME", DateTime), ("DURATION", Duration), ("FLOAT", Float)];
    let more = [("INTEGER", Integer), ("PERIOD", Period), ("RECUR", Recur), ("TEXT", Text), ("TIME", Time), ("URI", Uri), ("UTC-OFFSET", UtcOffset)];
    all.iter().chain(&more).find(|(n, _)| *n == s).map(|(_, t)| *t)
}

pub fn build_prop(p: &Prop) -> Property {
    let mut q = match d(5) {
        0 => Property::from((p.name.as_str(), p.val.as_str())),
        #[allow(deprecated)]
        1 => Property::new_pre_alloc(p.name.clone(), p.val.clone()),
        _ => Property::new(p.name.as_str(), p.val.as_str()),
    };
    for (k, v) in &p.params {
        match d(3) {
            0 => q.add_parameter(k, v),
            1 => q.append_parameter((k.as_str(), v.as_str())),
            _ => match value_type(v) {
                Some(t) if k == "VALUE" => q.append_parameter(t),
                _ => q.append_parameter(Parameter::new(k, v)),
            },
        };
    }
    if d(2) == 1 {
        q.done()
    } else {
        q
    }
}

fn class(i: u8) -> Class {
    [Class::Public, Class::Private, Class::Confidential][i as usize]
}
fn estatus(i: u8) -> EventStatus {
    [EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled][i as usize]
}
fn tstatus(i: u8) -> TodoStatus {
    [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled][i as usize]
}

/// More parameters than the setters know of.
fn with_more(p: &Prop) -> bool {
    let own = match &p.typed {
        None => return false,
        Some(Typed::Dpt(t)) => t.params().len(),
        Some(Typed::TriggerAbs(t)) => t.params().len() + 1,
        Some(Typed::TriggerDur(_, rel)) => (*rel != 0) as usize,
        Some(Typed::VenueLocation(_)) => 1,
        _ => 0,
    };
    p.params.len() > own
}
/// Setters every component has.
fn common<C: Component>(c: &mut C, p: &Prop) {
    if !p.multi && d(12) == 11 {
        // an earlier setting that is replaced
        c.append_property(Property::new(p.name.as_str(), "earlier, value").add_parameter("X-OLD", "1").done());
    }
    if p.multi {
        if p.params.is_empty() && d(2) == 0 {
            c.add_multi_property(&p.name, &p.val);
        } else {
            c.append_multi_property(build_prop(p));
        }
        return;
    }
    if with_more(p) {
        let mut q = match &p.typed {
            Some(Typed::Dpt(t)) if d(2) == 0 => dpt(t).to_property(&p.name),
            Some(Typed::Class(i)) if d(2) == 0 => class(*i).into(),
            Some(Typed::EventStatus(i)) if d(2) == 0 => estatus(*i).into(),
            Some(Typed::TodoStatus(i)) if d(2) == 0 => tstatus(*i).into(),
            Some(Typed::Duration(n)) if d(2) == 0 => Duration::seconds(*n).into(),
            Some(Typed::TriggerAbs(_) | Typed::TriggerDur(..)) if d(2) == 0 => trigger(p).into(),
            _ => Property::new(p.name.as_str(), p.val.as_str()),
        };
        for (k, v) in &p.params {
            q.add_parameter(k, v);
        }
        return drop(c.append_property(q));
    }
    if let Some(t) = &p.typed {
        match (p.name.as_str(), t) {
            ("DTSTAMP", Typed::Utc(t)) => return drop(c.timestamp(utc_later(t))),
            ("CREATED", Typed::Utc(t)) => return drop(c.created(utc_later(t))),
            ("LAST-MODIFIED", Typed::Utc(t)) => return drop(c.last_modified(utc_later(t))),
            ("PRIORITY", Typed::Int(n)) => return drop(c.priority(*n)),
            ("SEQUENCE", Typed::Int(n)) => return drop(c.sequence(*n)),
            ("CLASS", Typed::Class(i)) => return drop(c.class(class(*i))),
            ("SUMMARY", _) => return drop(c.summary(&p.val)),
            ("DESCRIPTION", _) => return drop(c.description(&p.val)),
            ("URL", _) => return drop(c.url(&p.val)),
            ("UID", _) => return drop(c.uid(&p.val)),
            (n, Typed::Dpt(t)) => return drop(c.append_property(dpt(t).to_property(n))),
            ("DURATION", Typed::Duration(n)) => return drop(c.append_property(Duration::seconds(*n))),
            _ => {}
        }
    }
    if p.params.is_empty() && d(2) == 0 {
        match d(3) {
            0 => c.add_property(p.name.as_str(), p.val.as_str()),
            1 => c.append_property((p.name.as_str(), p.val.as_str())),
            #[allow(deprecated)]
            _ => c.add_property_pre_alloc(p.name.clone(), p.val.clone()),
        };
    } else {
        c.append_property(build_prop(p));
    }
}
fn eventlike<C: EventLike>(c: &mut C, p: &Prop) {
    if with_more(p) {
        return common(c, p);
    }
    match (p.name.as_str(), &p.typed) {
        ("DTSTART", Some(Typed::Dpt(t))) => drop(c.starts(dpt(t))),
        ("DTEND", Some(Typed::Dpt(t))) => drop(c.ends(dpt(t))),
        ("LOCATION", Some(Typed::VenueLocation(u))) => drop(c.venue(&p.val, u)),
        ("LOCATION", Some(Typed::Text)) => drop(c.location(&p.val)),
        _ => common(c, p),
    }
}
/// Some date or time that will not stay.
fn some_time() -> DatePerhapsTime {
    let day = NaiveDate::from_ymd_opt([1999, 2024, 2039, 2999][d(4) as usize], 2, 28).unwrap();
    let at = day.and_hms_opt(23, 59, 59).unwrap();
    match d(4) {
        0 => day.into(),
        1 => at.into(),
        2 => at.and_utc().into(),
        _ => CalendarDateTime::WithTimezone { date_time: at, tzid: "America/New_York".into() }.into(),
    }
}
/// Earlier settings of what the component will have, by the setters made for it.
fn earlier<C: EventLike>(e: &mut C, c: &Comp) {
    if d(6) != 5 {
        return;
    }
    let has = |n: &str| c.props.iter().any(|p| p.name == n && !p.multi);
    if has("DTSTART") && has("DTEND") && d(3) == 0 {
        e.all_day(some_time().date_naive());
    }
    for p in c.props.iter().filter(|p| !p.multi) {
        match p.name.as_str() {
            _ if d(3) == 0 => {}
            "DTSTART" => drop(e.starts(some_time())),
            "DTEND" => drop(e.ends(some_time())),
            "LOCATION" if d(2) == 0 => drop(e.location("elsewhere, then")),
            "LOCATION" => drop(e.venue("elsewhere, then", "no-venue")),
            "SUMMARY" => drop(e.summary("earlier; one")),
            "DESCRIPTION" => drop(e.description("earlier\none")),
            "UID" => drop(e.uid("no-uid")),
            "URL" => drop(e.url("http://earlier/")),
            "SEQUENCE" => drop(e.sequence([0, 99, u32::MAX][d(3) as usize])),
            "PRIORITY" => drop(e.priority([0, 5, 9][d(3) as usize])),
            "CLASS" => drop(e.class(class(d(3) as u8))),
            "STATUS" => drop(e.append_property(estatus(d(3) as u8))),
            "DTSTAMP" => drop(e.timestamp(utc_later_of(4_000_000_000))),
            "CREATED" => drop(e.created(utc_later_of(4_000_000_000))),
            "LAST-MODIFIED" => drop(e.last_modified(utc_later_of(4_000_000_000))),
            _ => {}
        }
    }
}
fn utc_later_of(secs: i64) -> chrono::DateTime<chrono::Utc> {
    chrono::TimeZone::timestamp_opt(&chrono::Utc, secs, 0).unwrap()
}
fn event_prop(c: &mut Event, p: &Prop) {
    if with_more(p) {
        return common(c, p);
    }
    match (p.name.as_str(), &p.typed) {
        ("STATUS", Some(Typed::EventStatus(i))) => drop(c.status(estatus(*i))),
        _ => eventlike(c, p),
    }
}
fn todo_prop(c: &mut Todo, p: &Prop) {
    if with_more(p) {
        return common(c, p);
    }
    match (p.name.as_str(), &p.typed) {
        ("STATUS", Some(Typed::TodoStatus(i))) => drop(c.status(tstatus(*i))),
        ("COMPLETED", Some(Typed::Utc(t))) => drop(c.completed(utc_later(t))),
        ("DUE", Some(Typed::Dpt(t))) => drop(c.due(dpt(t))),
        ("PERCENT-COMPLETE", Some(Typed::Int(n))) => drop(c.percent_complete(*n as u8)),
        _ => eventlike(c, p),
    }
}
fn venue_prop(c: &mut Venue, p: &Prop) {
    match p.name.as_str() {
        _ if p.typed != Some(Typed::Text) || with_more(p) => common(c, p),
        "STREET-ADDRESS" => drop(c.street_address(&p.val)),
        "EXTENDED-ADDRESS" => drop(c.extended_address(&p.val)),
        "LOCALITY" => drop(c.locality(&p.val)),
        "REGION" => drop(c.region(&p.val)),
        "COUNTRY" => drop(c.country(&p.val)),
        "POSTAL-CODE" => drop(c.postal_code(&p.val)),
        _ => common(c, p),
    }
}

fn trigger(p: &Prop) -> Trigger {
    match p.typed.as_ref().unwrap() {
        Typed::TriggerAbs(t) => Trigger::from(cdt(t)),
        Typed::TriggerDur(n, rel) => {
            let dur = Duration::seconds(*n);
            match (rel, d(2)) {
                (0, _) => Trigger::from(dur),
                (1, 0) => Trigger::from((dur, Related::Start)),
                (1, _) if *n >= 0 => Trigger::after_start(dur),
                (1, _) => Trigger::before_start(-dur),
                (_, 0) => Trigger::from((dur, Related::End)),
                _ if *n >= 0 => Trigger::after_end(dur),
                _ => Trigger::before_end(-dur),
            }
        }
        _ => unreachable!(),
    }
}

fn is_day(p: &Prop) -> bool {
    !p.multi && matches!(p.name.as_str(), "DTSTART" | "DTEND")
}
/// The day, if start and end are the same day and it is to be said that way.
fn day_of(c: &Comp) -> Option<NaiveDate> {
    let day = |n: &str| match c.get(n) {
        Some(p @ Prop { typed: Some(Typed::Dpt(t)), .. }) if t.form == Form::Date && !with_more(p) => Some(naive(t).date()),
        _ => None,
    };
    day("DTSTART").filter(|x| day("DTEND") == Some(*x) && d(3) < 2)
}
fn build_event(c: &Comp) -> Event {
    let mut e = if d(2) == 0 { Event::default() } else { Event::new() };
    earlier(&mut e, c);
    let day = day_of(c);
    if let Some(x) = day {
        e.all_day(x);
    }
    for p in c.props.iter().filter(|p| day.is_none() || !is_day(p)) {
        event_prop(&mut e, p);
    }
    for ch in &c.children {
        if ch.kind == "VALARM" && d(2) == 0 && is_alarm(ch) {
            e.alarm(build_alarm(ch));
        } else {
            add_child(&mut e, ch);
        }
    }
    if d(2) == 1 {
        e.done()
    } else {
        e
    }
}
fn build_todo(c: &Comp) -> Todo {
    let mut e = if d(2) == 0 { Todo::default() } else { Todo::new() };
    earlier(&mut e, c);
    let day = day_of(c);
    if let Some(x) = day {
        e.all_day(x);
    }
    for p in c.props.iter().filter(|p| day.is_none() || !is_day(p)) {
        todo_prop(&mut e, p);
    }
    for ch in &c.children {
        if ch.kind == "VALARM" && d(2) == 0 && is_alarm(ch) {
            e.alarm(build_alarm(ch));
        } else {
            add_child(&mut e, ch);
        }
    }
    if d(2) == 1 {
        e.done()
    } else {
        e
    }
}
fn build_venue(c: &Comp) -> Venue {
    let mut e = Venue::new();
    for p in &c.props {
        venue_prop(&mut e, p);
    }
    for ch in &c.children {
        add_child(&mut e, ch);
    }
    if d(2) == 1 {
        e.done()
    } else {
        e
    }
}
fn is_alarm(c: &Comp) -> bool {
    let plain = |p: &Prop| p.name == "TRIGGER" || !matches!(p.name.as_str(), "ACTION" | "DESCRIPTION" | "DURATION" | "REPEAT") || !with_more(p);
    c.kind == "VALARM" && c.props.iter().all(plain) && c.get("ACTION").map_or(false, |p| p.typed.is_some()) && c.get("TRIGGER").map_or(false, |p| p.typed.is_some())
}
fn build_alarm(c: &Comp) -> Alarm {
    let t = trigger(c.get("TRIGGER").unwrap());
    let mut a = if c.get("ACTION").unwrap().val == "AUDIO" { Alarm::audio(t) } else { Alarm::display(&c.get("DESCRIPTION").map_or(String::new(), |p| p.val.clone()), t) };
    let (mut dur, mut rep) = (None, None);
    if let Some(Prop { typed: Some(Typed::Duration(n)), .. }) = c.get("DURATION") {
        dur = Some(*n);
    }
    if let Some(Prop { typed: Some(Typed::Int(n)), .. }) = c.get("REPEAT") {
        rep = Some(*n);
    }
    if let (Some(n), Some(r)) = (dur, rep) {
        a = a.duration_and_repeat(Duration::seconds(n), r);
    }
    for p in &c.props {
        let done = p.typed.is_some()
            && match p.name.as_str() {
                "ACTION" => true,
                // once more if there is more to it
                "TRIGGER" => !with_more(p),
                "DESCRIPTION" => c.get("ACTION").unwrap().val != "AUDIO",
                "DURATION" | "REPEAT" => dur.is_some() && rep.is_some(),
                _ => false,
            };
        if !done {
            common(&mut a, p);
        }
    }
    for ch in &c.children {
        add_child(&mut a, ch);
    }
    if d(2) == 1 {
        a.done()
    } else {
        a
    }
}
fn add_child<C: Component>(c: &mut C, ch: &Comp) {
    match ch.kind.as_str() {
        "VALARM" if d(3) < 2 && is_alarm(ch) => c.append_component(build_alarm(ch)),
        "VEVENT" if d(3) < 2 => c.append_component(build_event(ch)),
        "VTODO" if d(3) < 2 => c.append_component(build_todo(ch)),
        _ => c.append_component(to_parsed(ch)),
    };
}

/// The model as the parsed representation.
pub fn to_parsed(c: &Comp) -> parser::Component<'static> {
    parser::Component {
        name: c.kind.clone().into(),
        properties: c.props.iter().map(to_parsed_prop).collect(),
        components: c.children.iter().map(to_parsed).collect(),
    }
}
pub fn to_parsed_prop(p: &Prop) -> parser::Property<'static> {
    parser::Property {
        name: p.name.clone().into(),
        val: p.val.clone().into(),
        params: p.params.iter().map(|(k, v)| parser::Parameter { key: k.clone().into(), val: if v.is_empty() { None } else { Some(v.clone().into()) } }).collect(),
    }
}
pub fn to_parsed_cal(c: &Cal) -> parser::Calendar<'static> {
    parser::Calendar { properties: c.props.iter().map(to_parsed_prop).collect(), components: c.comps.iter().map(to_parsed).collect() }
}

pub fn build_comp(c: &Comp) -> CalendarComponent {
    match c.kind.as_str() {
        "VEVENT" if d(8) < 7 => build_event(c).into(),
        "VTODO" if d(8) < 7 => build_todo(c).into(),
        "VVENUE" if d(8) < 7 => build_venue(c).into(),
        _ => to_parsed(c).into(),
    }
}

pub fn build_cal(m: &Cal) -> Calendar {
    let def: [(&str, &str); 3] = [("VERSION", "2.0"), ("PRODID", "ICALENDAR-RS"), ("CALSCALE", "GREGORIAN")];
    let has_def = m.props.len() >= 3 && def.iter().zip(&m.props).all(|((k, v), p)| p.name == *k && p.val == *v && p.params.is_empty());
    let comps: Vec<CalendarComponent> = m.comps.iter().map(build_comp).collect();
    let mut late = None;
    let mut cal;
    let mut i = 0;
    if has_def {
        i = 3;
        match d(4) {
            0 => {
                cal = Calendar::new();
                late = Some(comps);
            }
            1 => {
                cal = Calendar::default();
                late = Some(comps);
            }
            2 => cal = comps.into_iter().collect(),
            _ if comps.len() == 1 => cal = Calendar::from(comps.into_iter().next().unwrap()),
            _ => {
                cal = Calendar::new();
                let mut other: Calendar = comps.into_iter().collect();
                cal.append(&mut other);
            }
        }
    } else {
        cal = Calendar::empty();
        late = Some(comps);
    }
    while i < m.props.len() {
        let p = &m.props[i];
        let pair = m.props.get(i + 1).filter(|q| q.val == p.val && q.params.is_empty() && (p.params.is_empty() || p.name == "REFRESH-INTERVAL"));
        match (p.name.as_str(), pair.map(|q| q.name.as_str())) {
            ("NAME", Some("X-WR-CALNAME")) => {
                cal.name(&p.val);
                i += 2;
            }
            ("DESCRIPTION", Some("X-WR-CALDESC")) => {
                cal.description(&p.val);
                i += 2;
            }
            ("TIMEZONE-ID", Some("X-WR-TIMEZONE")) => {
                cal.timezone(&p.val);
                i += 2;
            }
            ("REFRESH-INTERVAL", Some("X-PUBLISHED-TTL")) => {
                cal.ttl(&Duration::seconds(dur_secs(&p.val).unwrap_or(0)));
                i += 2;
            }
            _ => {
                if p.params.is_empty() && d(2) == 1 {
                    cal.append_property((p.name.as_str(), p.val.as_str()));
                } else if d(4) == 0 {
                    cal.properties.extend(Property::from_array([build_prop(p)]));
                } else {
                    cal.append_property(build_prop(p));
                }
                i += 1;
            }
        }
    }
    if let Some(comps) = late {
        match d(3) {
            0 => {
                for c in comps {
                    cal.push(c);
                }
            }
            1 => cal.extend(comps),
            _ => cal.components = comps,
        }
    }
    if d(3) == 2 {
        cal.done()
    } else {
        cal
    }
}

/// Independent reading of an RFC 5545 / ISO 8601 duration in whole seconds.
pub fn dur_secs(s: &str) -> Option<i64> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let s = s.strip_prefix('P')?;
    let mut t = false;
    let mut n: Option<i64> = None;
    let mut sum = 0i64;
    let mut any = false;
    for c in s.chars() {
        match c {
            'T' if !t && n.is_none() => t = true,
            '0'..='9' => n = Some(n.unwrap_or(0).checked_mul(10)? + c as i64 - 48),
            'W' | 'D' | 'H' | 'M' | 'S' => {
                let f = match (c, t) {
                    ('W', false) => 604_800,
                    ('D', false) => 86_400,
                    ('H', true) => 3600,
                    ('M', true) => 60,
                    ('S', true) => 1,
                    _ => return None,
                };
                sum += n.take()? * f;
                any = true;
            }
            _ => return None,
        }
    }
    if n.is_some() || !any {
        return None;
    }
    Some(if neg { -sum } else { sum })
}

/// Durations are set as values, their text is the library's: take it over into
/// the model once it is known to mean the same.
pub fn adopt_durations(m: &mut Comp, got: &Comp) {
    for p in &mut m.props {
        let want = match p.typed {
            Some(Typed::Duration(n)) | Some(Typed::TriggerDur(n, _)) => n,
            _ if p.name == "REFRESH-INTERVAL" || p.name == "X-PUBLISHED-TTL" => match dur_secs(&p.val) {
                Some(n) => n,
                None => continue,
            },
            _ => continue,
        };
        if let Some(q) = got.get(&p.name) {
            if dur_secs(&q.val) == Some(want) && m_is_single(&p.name) {
                p.val = q.val.clone();
            }
        }
    }
    for (a, b) in m.children.iter_mut().zip(&got.children) {
        adopt_durations(a, b);
    }
}
fn m_is_single(_n: &str) -> bool {
    true
}

// ---- reading back into the model -------------------------------------------------------

fn ex_prop(p: &Property, multi: bool) -> Prop {
    let mut params: Vec<(String, String)> = p.params().iter().map(|(k, q)| (if k == q.key() { k.clone() } else { format!("{}!={}", k, q.key()) }, q.value().to_string())).collect();
    params.sort();
    Prop { name: p.key().to_string(), params, val: p.value().to_string(), multi, typed: None }
}
fn ex<C: Component>(c: &C) -> Comp {
    let mut props = vec![];
    for p in c.properties().values() {
        props.push(ex_prop(p, false));
    }
    for p in c.multi_properties().values().flatten() {
        props.push(ex_prop(p, true));
    }
    Comp { kind: c.component_kind(), props, children: c.components().iter().map(ex).collect() }
}
pub fn ex_comp(c: &CalendarComponent) -> Comp {
    match c {
        CalendarComponent::Event(e) => ex(e),
        CalendarComponent::Todo(e) => ex(e),
        CalendarComponent::Venue(e) => ex(e),
        CalendarComponent::Other(e) => ex(e),
        #[allow(unreachable_patterns)]
        _ => Comp { kind: "?".into(), ..Default::default() },
    }
}
pub fn ex_cal(c: &Calendar) -> Cal {
    Cal { props: c.properties.iter().map(|p| ex_prop(p, false)).collect(), comps: c.components.iter().map(ex_comp).collect() }
}
pub fn ex_parsed_prop(p: &parser::Property) -> Prop {
    Prop {
        name: p.name.as_str().to_string(),
        val: p.val.as_str().to_string(),
        params: p.params.iter().map(|q| (q.key.as_str().to_string(), q.val.as_ref().map_or(String::new(), |v| v.as_str().to_string()))).collect(),
        multi: false,
        typed: None,
    }
}
pub fn ex_parsed(c: &parser::Component) -> Comp {
    Comp { kind: c.name.as_str().to_string(), props: c.properties.iter().map(ex_parsed_prop).collect(), children: c.components.iter().map(ex_parsed).collect() }
}
pub fn ex_parsed_cal(c: &parser::Calendar) -> Cal {
    Cal { props: c.properties.iter().map(ex_parsed_prop).collect(), comps: c.components.iter().map(ex_parsed).collect() }
}

/// What a reading function made of a text.
#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Cal(Cal),
    /// there was no calendar around them
    Comps(Vec<Comp>),
    Roots(Vec<Comp>),
}
impl Got {
    pub fn is_empty(&self) -> bool {
        match self {
            // reading nothing still gives the default properties
            Got::Cal(c) => c.comps.is_empty() && c.props.is_empty(),
            Got::Comps(c) | Got::Roots(c) => c.is_empty(),
        }
    }
    /// Compare with a calendar document.
    pub fn check(&self, exp: &Cal) -> Result<(), String> {
        match self {
            Got::Cal(c) => model::compare_cal(exp, c, model::Inv::No).map(|_| ()),
            Got::Comps(c) => model::compare_cal(&Cal { props: vec![], comps: exp.comps.clone() }, &Cal { props: vec![], comps: c.clone() }, model::Inv::No).map(|_| ()),
            Got::Roots(r) => {
                if r.len() != 1 {
                    return Err(format!("{} root components instead of one", r.len()));
                }
                model::compare(&exp.as_comp(), &r[0], model::Inv::No, "", &mut vec![])
            }
        }
    }
}

pub const READ_ROUTES: u64 = 9;
pub fn read_route_name(r: u64) -> &'static str {
    ["str::parse::<Calendar>", "parser::read_calendar", "parser::read_components", "parser::read_calendar_simple", "parser::Component::try_from", "Calendar::from(read_calendar)", "Calendar::from(read_components)", "CalendarComponent::from_str", "Calendar::from(parsed) relayed"][r as usize]
}
pub fn read_doc(s: &str, route: u64) -> Result<Got, String> {
    match route {
        0 => s.parse::<Calendar>().map(|c| Got::Cal(ex_cal(&c))),
        1 => parser::read_calendar(&parser::unfold(s)).map(|c| Got::Cal(ex_parsed_cal(&c))),
        2 => parser::read_components(&parser::unfold(s)).map(|v| Got::Roots(v.iter().map(ex_parsed).collect())),
        3 => parser::read_calendar_simple(&parser::unfold(s)).map(|v| Got::Roots(v.iter().map(ex_parsed).collect())).map_err(|e| format!("{:?}", e.code)),
        4 => parser::Component::try_from(parser::unfold(s).as_str()).map(|c| Got::Roots(vec![ex_parsed(&c)])),
        5 => parser::read_calendar(&parser::unfold(s)).map(|c| Got::Cal(ex_cal(&Calendar::from(c)))),
        6 => parser::read_components(&parser::unfold(s)).map(|v| {
            let one = v.first().is_some_and(|c| c.name == "VCALENDAR");
            let c = ex_cal(&Calendar::from(v));
            if one {
                Got::Cal(c)
            } else {
                Got::Comps(c.comps)
            }
        }),
        7 => s.parse::<CalendarComponent>().map(|c| Got::Roots(vec![ex_comp(&c)])),
        _ => {
            let u = parser::unfold(s);
            let p = parser::read_calendar(&u)?;
            let again = p.to_string();
            let u2 = parser::unfold(&again);
            let q = parser::read_calendar(&u2).map_err(|e| format!("what the parsed calendar writes cannot be read: {}", e))?;
            Ok(Got::Cal(ex_cal(&Calendar::from(q))))
        }
    }
}
/// Reading into the real objects, for equality between generations.
pub fn read_cal(s: &str) -> Result<Calendar, String> {
    s.parse::<Calendar>()
}

pub fn read_comp(s: &str) -> Result<CalendarComponent, String> {
    s.parse::<CalendarComponent>()
}

// ---- writing ---------------------------------------------------------------------------

pub const CAL_ROUTES: u64 = 7;
/// Every property, written by itself. The order of several parameters is not fixed.
fn prop_line(p: &Property, at: &mut dyn FnMut(Result<String, String>, &str)) {
    if p.params().len() < 2 {
        let s: Result<String, std::fmt::Error> = p.clone().try_into();
        at(s.map_err(|e| e.to_string()), "String::try_from(Property)");
    }
}
fn comp_props<C: Component + ?Sized>(c: &C, at: &mut dyn FnMut(Result<String, String>, &str))
where
    C: Component,
{
    c.properties().values().chain(c.multi_properties().values().flatten()).for_each(|p| prop_line(p, at));
    for x in c.components() {
        comp_props(x, at);
    }
}
pub fn comp_lines(c: &CalendarComponent, at: &mut dyn FnMut(Result<String, String>, &str)) {
    match c {
        CalendarComponent::Event(x) => comp_props(x, at),
        CalendarComponent::Todo(x) => comp_props(x, at),
        CalendarComponent::Venue(x) => comp_props(x, at),
        CalendarComponent::Other(x) => comp_props(x, at),
        _ => {}
    }
}
pub fn cal_lines(c: &Calendar, at: &mut dyn FnMut(Result<String, String>, &str)) {
    c.properties.iter().for_each(|p| prop_line(p, at));
    c.iter().for_each(|x| comp_lines(x, at));
}
pub fn parsed_lines(c: &parser::Calendar, at: &mut dyn FnMut(Result<String, String>, &str)) {
    fn comp(c: &parser::Component, at: &mut dyn FnMut(Result<String, String>, &str)) {
        c.properties.iter().for_each(|p| at(Ok(p.to_string()), "parser::Property::to_string"));
        c.components.iter().for_each(|x| comp(x, at));
    }
    c.properties.iter().for_each(|p| at(Ok(p.to_string()), "parser::Property::to_string"));
    c.components.iter().for_each(|x| comp(x, at));
}
pub fn cal_route_name(r: u64) -> &'static str {
    ["Calendar::to_string", "format!(\"{}\", calendar)", "TryInto<String> for &Calendar", "write! to a fmt sink", "write! to an io sink", "format!(\"{:#}\", calendar)", "Calendar::print"][r as usize]
}
/// Healthy writing through one of the routes.
pub fn write_cal(c: &Calendar, route: u64) -> Result<String, String> {
    match route {
        0 => Ok(c.to_string()),
        1 => Ok(format!("{}", c)),
        2 => c.try_into().map_err(|e: std::fmt::Error| e.to_string()),
        3 => {
            let mut s = String::new();
            write!(s, "{}", c).map_err(|e| e.to_string())?;
            Ok(s)
        }
        4 => {
            let mut v: Vec<u8> = vec![];
            {
                use std::io::Write;
                write!(v, "{}", c).map_err(|e| e.to_string())?;
            }
            String::from_utf8(v).map_err(|e| e.to_string())
        }
        5 => Ok(format!("{:#}", c)),
        _ => {
            rt::sched::stdout_plan(rt::StdoutPlan::default());
            c.print().map_err(|e| e.to_string())?;
            printed()
        }
    }
}
pub fn printed() -> Result<String, String> {
    let v = rt::sched::stdout_take();
    let mut s = String::from_utf8(v).map_err(|e| format!("printed bytes are not UTF-8: {}", e))?;
    if !s.ends_with("\r\n") {
        return Err(format!("what was printed does not end in a line break: {:?}", s));
    }
    s.truncate(s.len() - 2);
    Ok(s)
}

macro_rules! on_comp {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            CalendarComponent::Event($x) => $e,
            CalendarComponent::Todo($x) => $e,
            CalendarComponent::Venue($x) => $e,
            CalendarComponent::Other($x) => $e,
            #[allow(unreachable_patterns)]
            _ => panic!("unknown kind of component"),
        }
    };
}

pub const COMP_ROUTES: u64 = 5;
pub fn comp_route_name(r: u64) -> &'static str {
    ["Component::to_string", "Component::try_into_string", "Component::fmt_write", "Component::print", "TryInto<String>"][r as usize]
}
pub fn write_comp(c: &CalendarComponent, route: u64) -> Result<String, String> {
    match route {
        0 => Ok(on_comp!(c, x => Component::to_string(x))),
        1 => on_comp!(c, x => x.try_into_string()).map_err(|e| e.to_string()),
        2 => {
            let mut s = String::new();
            on_comp!(c, x => x.fmt_write(&mut s)).map_err(|e| e.to_string())?;
            Ok(s)
        }
        3 => {
            rt::sched::stdout_plan(rt::StdoutPlan::default());
            on_comp!(c, x => x.print()).map_err(|e| e.to_string())?;
            printed()
        }
        _ => match c.clone() {
            CalendarComponent::Event(e) => e.try_into().map_err(|e: std::fmt::Error| e.to_string()),
            CalendarComponent::Todo(e) => e.try_into().map_err(|e: std::fmt::Error| e.to_string()),
            CalendarComponent::Venue(e) => e.try_into().map_err(|e: std::fmt::Error| e.to_string()),
            other => write_comp(&other, 1),
        },
    }
}
/// A child component, written on its own.
pub fn write_children(c: &CalendarComponent) -> Vec<(Comp, String)> {
    on_comp!(c, x => x.components().iter().map(|o| (ex(o), Component::to_string(o))).collect())
}

pub fn write_prop(p: &Property) -> Result<String, String> {
    p.clone().try_into().map_err(|e: std::fmt::Error| e.to_string())
}

// writing to sinks the simulator controls
pub fn cal_to_fmt(c: &Calendar, w: &mut dyn std::fmt::Write) -> Result<(), ()> {
    write!(w, "{}", c).map_err(|_| ())
}
pub fn cal_to_io(c: &Calendar, w: &mut dyn std::io::Write) -> std::io::Result<()> {
    write!(w, "{}", c)
}
pub fn comp_to_fmt(c: &CalendarComponent, mut w: &mut dyn std::fmt::Write) -> Result<(), ()> {
    on_comp!(c, x => x.fmt_write(&mut w)).map_err(|_| ())
}
pub fn parsed_to_fmt(c: &parser::Calendar, w: &mut dyn std::fmt::Write) -> Result<(), ()> {
    write!(w, "{}", c).map_err(|_| ())
}
pub fn parsed_to_io(c: &parser::Calendar, w: &mut dyn std::io::Write) -> std::io::Result<()> {
    write!(w, "{}", c)
}
pub fn parsed_prop_to_fmt(c: &parser::Property, w: &mut dyn std::fmt::Write) -> Result<(), ()> {
    write!(w, "{}", c).map_err(|_| ())
}
pub fn parsed_prop_to_io(c: &parser::Property, w: &mut dyn std::io::Write) -> std::io::Result<()> {
    write!(w, "{}", c)
}
pub fn print_cal(c: &Calendar) -> Result<(), ()> {
    c.print().map_err(|_| ())
}
pub fn print_comp(c: &CalendarComponent) -> Result<(), ()> {
    on_comp!(c, x => x.print()).map_err(|_| ())
}
pub fn print_parsed(c: &parser::Calendar) -> Result<(), ()> {
    c.print().map_err(|_| ())
}
pub fn parsed_string(c: &parser::Calendar) -> String {
    c.to_string()
}

// ---- accessors -----------------------------------------------------------------------------

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{} returns {:?} instead of {:?}", what, got, exp))
    }
}

fn typed_common<C: Component>(c: &C, p: &Prop) -> Result<(), String> {
    let t = match &p.typed {
        Some(t) => t,
        None => return Ok(()),
    };
    match (p.name.as_str(), t) {
        ("DTSTAMP", Typed::Utc(t)) => want("get_timestamp", c.get_timestamp(), Some(utc(t))),
        ("CREATED", Typed::Utc(t)) => want("get_created", c.get_created(), Some(utc(t))),
        ("LAST-MODIFIED", Typed::Utc(t)) => want("get_last_modified", c.get_last_modified(), Some(utc(t))),
        ("DTSTART", Typed::Dpt(t)) => want("get_start", c.get_start(), Some(dpt_plain(t))),
        ("DTEND", Typed::Dpt(t)) => want("get_end", c.get_end(), Some(dpt_plain(t))),
        ("PRIORITY", Typed::Int(n)) => want("get_priority", c.get_priority(), Some((*n).min(10))),
        ("SEQUENCE", Typed::Int(n)) => want("get_sequence", c.get_sequence(), Some(*n)),
        ("CLASS", Typed::Class(i)) => want("get_class", c.get_class(), Some(class(*i))),
        ("SUMMARY", Typed::Text) => want("get_summary", c.get_summary(), Some(p.val.as_str())),
        ("DESCRIPTION", Typed::Text) => want("get_description", c.get_description(), Some(p.val.as_str())),
        ("URL", Typed::Text) => want("get_url", c.get_url(), Some(p.val.as_str())),
        ("UID", Typed::Text) => want("get_uid", c.get_uid(), Some(p.val.as_str())),
        ("TRIGGER", Typed::TriggerAbs(t)) => want("Trigger::try_from", c.properties().get("TRIGGER").and_then(|p| Trigger::try_from(p).ok()), Some(Trigger::DateTime(cdt_plain(t)))),
        ("TRIGGER", Typed::TriggerDur(n, rel)) => {
            let r = match rel {
                1 => Some(Related::Start),
                2 => Some(Related::End),
                _ => None,
            };
            let got = c.properties().get("TRIGGER").and_then(|p| Trigger::try_from(p).ok());
            want("Trigger::try_from", got.clone(), Some(Trigger::Duration(Duration::seconds(*n), r)))?;
            want("Trigger::related", got.as_ref().and_then(Trigger::related), r)?;
            want("Trigger::as_duration", got.as_ref().and_then(Trigger::as_duration), Some(&Duration::seconds(*n)))
        }
        _ => want(&format!("property_value({:?})", p.name), c.property_value(&p.name), Some(p.val.as_str())),
    }
}
fn typed_eventlike<C: EventLike>(c: &C, p: &Prop) -> Result<(), String> {
    match (p.name.as_str(), &p.typed) {
        ("LOCATION", Some(Typed::Text | Typed::VenueLocation(_))) => want("get_location", c.get_location(), Some(p.val.as_str())),
        _ => typed_common(c, p),
    }
}
fn typed_event(c: &Event, p: &Prop) -> Result<(), String> {
    match (p.name.as_str(), &p.typed) {
        ("STATUS", Some(Typed::EventStatus(i))) => want("get_status", c.get_status(), Some(estatus(*i))),
        _ => typed_eventlike(c, p),
    }
}
fn typed_todo(c: &Todo, p: &Prop) -> Result<(), String> {
    match (p.name.as_str(), &p.typed) {
        ("STATUS", Some(Typed::TodoStatus(i))) => want("get_status", c.get_status(), Some(tstatus(*i))),
        ("COMPLETED", Some(Typed::Utc(t))) => want("get_completed", c.get_completed(), Some(utc(t))),
        ("DUE", Some(Typed::Dpt(t))) => want("get_due", c.get_due(), Some(dpt_plain(t))),
        ("PERCENT-COMPLETE", Some(Typed::Int(n))) => want("get_percent_complete", c.get_percent_complete(), Some(*n as u8)),
        _ => typed_eventlike(c, p),
    }
}
fn typed_venue(c: &Venue, p: &Prop) -> Result<(), String> {
    if p.typed != Some(Typed::Text) {
        return typed_common(c, p);
    }
    let v = Some(p.val.as_str());
    match p.name.as_str() {
        "STREET-ADDRESS" => want("get_street_address", c.get_street_address(), v),
        "EXTENDED-ADDRESS" => want("get_extended_address", c.get_extended_address(), v),
        "LOCALITY" => want("get_locality", c.get_locality(), v),
        "REGION" => want("get_region", c.get_region(), v),
        "COUNTRY" => want("get_country", c.get_country(), v),
        "POSTAL-CODE" => want("get_postal_code", c.get_postal_code(), v),
        _ => typed_common(c, p),
    }
}
/// Value types and parameters as the generic accessors give them.
fn generic(q: &Property, p: &Prop) -> Result<(), String> {
    want(&format!("value_type() == TEXT of {}", p.name), q.value_type() == Some(ValueType::Text), model::rfc::is_text(&p.name, &p.params))?;
    for (k, v) in &p.params {
        want(&format!("get_param_as({:?})", k), q.get_param_as(k, |s| Some(s.to_string())), Some(v.clone()))?;
        if k == "VALUE" {
            if let Some(t) = registered(v) {
                want("value_type", q.value_type(), Some(t))?;
                want("Parameter::from(ValueType)", Parameter::from(t).value(), v)?;
                want("ValueType::try_from(Parameter)", q.params().get(k).cloned().map(ValueType::try_from), Some(Ok(t)))?;
            }
        }
    }
    if !p.params.iter().any(|(k, _)| k == "VALUE") {
        want(&format!("value_type() of {}", p.name), q.value_type(), model::rfc::default_type(&p.name).and_then(registered))?;
    }
    want("get_value_as", q.get_value_as(|s| Some(s.len())), Some(q.value().len()))
}
/// What nobody set is not there (but for UID and DTSTAMP, which documents always have).
fn absent<C: Component>(c: &C, m: &Comp) -> Result<(), String> {
    let no = |n: &[&str]| !m.props.iter().any(|p| n.contains(&p.name.as_str()));
    let none = |names: &[&str], what: &str, there: bool| if there && no(names) { Err(format!("{} returns something although {} is not set in {}", what, names[0], m.kind)) } else { Ok(()) };
    none(&["CREATED"], "get_created", c.get_created().is_some())?;
    none(&["LAST-MODIFIED", "LAST_MODIFIED"], "get_last_modified", c.get_last_modified().is_some())?;
    none(&["DTSTART"], "get_start", c.get_start().is_some())?;
    none(&["DTEND"], "get_end", c.get_end().is_some())?;
    none(&["PRIORITY"], "get_priority", c.get_priority().is_some())?;
    none(&["SEQUENCE"], "get_sequence", c.get_sequence().is_some())?;
    none(&["CLASS"], "get_class", c.get_class().is_some())?;
    none(&["SUMMARY"], "get_summary", c.get_summary().is_some())?;
    none(&["DESCRIPTION"], "get_description", c.get_description().is_some())?;
    none(&["URL"], "get_url", c.get_url().is_some())?;
    none(&["X-NOT-THERE"], "property_value", c.property_value("X-NOT-THERE").is_some())
}
fn absent_more(c: &CalendarComponent, m: &Comp) -> Result<(), String> {
    let no = |n: &str| !m.props.iter().any(|p| p.name == n);
    let none = |n: &str, what: &str, there: bool| if there && no(n) { Err(format!("{} returns something although {} is not set in {}", what, n, m.kind)) } else { Ok(()) };
    match c {
        CalendarComponent::Event(e) => {
            none("STATUS", "get_status", e.get_status().is_some())?;
            none("LOCATION", "get_location", e.get_location().is_some())
        }
        CalendarComponent::Todo(e) => {
            none("STATUS", "get_status", e.get_status().is_some())?;
            none("LOCATION", "get_location", e.get_location().is_some())?;
            none("DUE", "get_due", e.get_due().is_some())?;
            none("COMPLETED", "get_completed", e.get_completed().is_some())?;
            none("PERCENT-COMPLETE", "get_percent_complete", e.get_percent_complete().is_some())
        }
        CalendarComponent::Venue(e) => {
            none("STREET-ADDRESS", "get_street_address", e.get_street_address().is_some())?;
            none("EXTENDED-ADDRESS", "get_extended_address", e.get_extended_address().is_some())?;
            none("LOCALITY", "get_locality", e.get_locality().is_some())?;
            none("REGION", "get_region", e.get_region().is_some())?;
            none("COUNTRY", "get_country", e.get_country().is_some())?;
            none("POSTAL-CODE", "get_postal_code", e.get_postal_code().is_some())
        }
        _ => Ok(()),
    }
}
fn typed_tree<C: Component>(c: &C, m: &Comp) -> Result<(), String> {
    absent(c, m)?;
    for p in &m.props {
        if !p.multi && m.props.iter().filter(|q| q.name == p.name).count() == 1 {
            if let Some(q) = c.properties().get(&p.name) {
                generic(q, p)?;
            }
        }
    }
    for (name, all) in c.multi_properties() {
        let want: Vec<&Prop> = m.props.iter().filter(|p| p.name == *name).collect();
        if want.len() == all.len() && !c.properties().contains_key(name) {
            for (q, p) in all.iter().zip(want) {
                generic(q, p).map_err(|e| format!("{} (repeated)", e))?;
            }
        }
    }
    if c.components().len() != m.children.len() {
        return Err(format!("{} child components instead of {}", c.components().len(), m.children.len()));
    }
    for (o, ch) in c.components().iter().zip(&m.children) {
        for p in &ch.props {
            typed_common(o, p).map_err(|e| format!("{} in {}", e, ch.kind))?;
        }
        typed_tree(o, ch)?;
    }
    Ok(())
}

/// Every value set through a typed setter comes out of the typed getter.
pub fn check_typed(c: &CalendarComponent, m: &Comp) -> Result<(), String> {
    for p in &m.props {
        if p.multi {
            continue;
        }
        match c {
            CalendarComponent::Event(e) => typed_event(e, p),
            CalendarComponent::Todo(e) => typed_todo(e, p),
            CalendarComponent::Venue(e) => typed_venue(e, p),
            CalendarComponent::Other(e) => typed_common(e, p),
            #[allow(unreachable_patterns)]
            _ => Ok(()),
        }
        .map_err(|e| format!("{} in {}", e, m.kind))?;
    }
    want("as_event().is_some()", c.as_event().is_some(), m.kind == "VEVENT")?;
    want("as_todo().is_some()", c.as_todo().is_some(), m.kind == "VTODO")?;
    want("is a Venue", matches!(c, CalendarComponent::Venue(_)), m.kind == "VVENUE")?;
    absent_more(c, m)?;
    on_comp!(c, x => typed_tree(x, m))
}
pub fn check_typed_cal(c: &Calendar, m: &Cal) -> Result<(), String> {
    if c.components.len() != m.comps.len() {
        return Err(format!("{} components instead of {}", c.components.len(), m.comps.len()));
    }
    for (a, b) in c.iter().zip(&m.comps) {
        check_typed(a, b)?;
    }
    let first = |n: &str| m.props.iter().find(|p| p.name == n).map(|p| p.val.as_str());
    want("Calendar::get_name", c.get_name(), first("NAME").or(first("X-WR-CALNAME")))?;
    want("Calendar::get_description", c.get_description(), first("DESCRIPTION").or(first("X-WR-CALDESC")))?;
    want("Calendar::get_timezone", c.get_timezone(), first("TIMEZONE-ID").or(first("X-WR-TIMEZONE")))?;
    match (first("REFRESH-INTERVAL"), first("X-PUBLISHED-TTL")) {
        (None, None) => want("Calendar::get_ttl", c.get_ttl(), None)?,
        (a, b) => {
            if let Some(n) = a.or(b).and_then(dur_secs) {
                want("Calendar::get_ttl", c.get_ttl(), Some(Duration::seconds(n)))?;
            }
        }
    }
    Ok(())
}
/// The parsed representation gives the same dates as the owned one.
pub fn check_parsed_dates(c: &parser::Component, m: &Comp) -> Result<(), String> {
    for p in &m.props {
        if let Some(Typed::Dpt(t) | Typed::Utc(t)) = &p.typed {
            let q = c.find_prop(&p.name).ok_or_else(|| format!("find_prop({:?}) finds nothing", p.name))?;
            want(&format!("DatePerhapsTime::try_from({})", p.name), DatePerhapsTime::try_from(q), Ok(dpt_plain(t)))?;
        }
    }
    for p in &c.properties {
        let n = p.name.as_str();
        let first = c.properties.iter().find(|q| q.name.as_str() == n);
        if c.find_prop(n).map(|q| q as *const _) != first.map(|q| q as *const _) {
            return Err(format!("find_prop({:?}) finds another one than the first", n));
        }
    }
    if c.find_prop("X-NOT-THERE-AT-ALL").is_some() {
        return Err("find_prop finds what is not there".into());
    }
    for (a, b) in c.components.iter().zip(&m.children) {
        check_parsed_dates(a, b)?;
    }
    Ok(())
}

fn touch<C: Component>(c: &C, n: &mut usize) {
    let mut t = |b: bool| *n += b as usize;
    t(c.get_timestamp().is_some());
    t(c.get_start().map(|x| x.date_naive()).is_some());
    t(c.get_end().map(NaiveDate::from).is_some());
    t(c.get_priority().is_some());
    t(c.get_summary().is_some());
    t(c.get_description().is_some());
    t(c.get_uid().is_some());
    t(c.get_sequence().is_some());
    t(c.get_class().is_some());
    t(c.get_url().is_some());
    t(c.get_last_modified().is_some());
    t(c.get_created().is_some());
    t(c.property_value("SUMMARY").is_some());
    let all: Vec<&Property> = c.properties().values().chain(c.multi_properties().values().flatten()).collect();
    for p in all {
        touch_prop(p, n);
    }
    for o in c.components() {
        touch(o, n);
    }
}
fn touch_prop(p: &Property, n: &mut usize) {
    let mut t = |b: bool| *n += b as usize;
    t(p.value_type().is_some());
    if let Some(x) = DatePerhapsTime::from_property(p) {
        t(true);
        t(x == DatePerhapsTime::from(x.date_naive()));
        if let DatePerhapsTime::DateTime(c) = &x {
            t(c.try_into_utc().is_some());
        }
        t(x.to_property("DUE").value().is_empty());
    }
    if let Ok(x) = Trigger::try_from(p) {
        t(x.related().is_some());
        t(x.as_duration().is_some());
        t(x.as_date_time().is_some());
        t(Property::from(x).value().is_empty());
    }
    // as if it had been a trigger
    let q = Property::new("TRIGGER", p.value());
    t(Trigger::try_from(&q).is_ok_and(|x| Property::from(x).value().is_empty()));
    for q in p.params().values() {
        t(ValueType::try_from(q.clone()).is_ok());
    }
    t(p.value().parse::<CalendarDateTime>().is_ok());
    t(p.get_param_as("TZID", |s| Some(s.len())).is_some());
    t(format!("{:?}", p).is_empty());
    t(write_prop(p).is_ok());
}
/// Call everything on whatever was read; returns a number so that nothing is optimised away.
pub fn touch_comp(c: &CalendarComponent) -> usize {
    let mut n = 0;
    match c {
        CalendarComponent::Event(e) => {
            n += e.get_status().is_some() as usize + e.get_location().is_some() as usize;
            touch(e, &mut n)
        }
        CalendarComponent::Todo(e) => {
            n += e.get_status().is_some() as usize + e.get_location().is_some() as usize;
            n += e.get_due().is_some() as usize + e.get_completed().is_some() as usize + e.get_percent_complete().is_some() as usize;
            touch(e, &mut n)
        }
        CalendarComponent::Venue(e) => {
            n += [e.get_street_address(), e.get_extended_address(), e.get_locality(), e.get_region(), e.get_country(), e.get_postal_code()].iter().flatten().count();
            touch(e, &mut n)
        }
        CalendarComponent::Other(e) => touch(e, &mut n),
        #[allow(unreachable_patterns)]
        _ => {}
    }
    n += c.as_event().is_some() as usize + c.as_todo().is_some() as usize;
    n
}
pub fn touch_cal(c: &Calendar) -> usize {
    let mut n = 0;
    for p in &c.properties {
        touch_prop(p, &mut n);
    }
    n += c.get_name().is_some() as usize + c.get_description().is_some() as usize + c.get_timezone().is_some() as usize + c.get_ttl().is_some() as usize;
    for x in c.iter() {
        n += touch_comp(x);
    }
    n += format!("{:?}", c).len();
    n
}
pub fn touch_parsed(c: &parser::Component) -> usize {
    let mut n = c.find_prop("SUMMARY").is_some() as usize;
    for p in &c.properties {
        n += DatePerhapsTime::try_from(p).is_ok() as usize;
        n += p.val.clone().unescape_text().as_str().len();
        n += p.val.clone().unescape_by_value_type(ValueType::Text).to_string().len();
        n += p.to_string().len();
        n += parser::Property::try_from(p.to_string().as_str()).is_ok() as usize;
        for q in &p.params {
            n += Parameter::from(q.clone()).value().len();
            n += q.key.to_owned().as_str().len() + q.key.clone().into_owned().as_str().len();
        }
    }
    for x in &c.components {
        n += touch_parsed(x);
    }
    n
}
pub fn property_from_str(s: &str) -> Result<Prop, String> {
    s.parse::<Property>().map(|p| ex_prop(&p, false))
}
pub fn parsed_property_from(s: &str) -> Result<Prop, String> {
    parser::Property::try_from(s).map(|p| ex_parsed_prop(&p))
}
pub fn parameter_from(s: &str) -> Result<(), String> {
    parser::Parameter::try_from(s).map(|_| ())
}

// ---- JSON ------------------------------------------------------------------------------------

pub fn to_json(c: &parser::Calendar, pretty: bool) -> Result<String, String> {
    if pretty { serde_json::to_string_pretty(c) } else { serde_json::to_string(c) }.map_err(|e| e.to_string())
}
/// A string as JSON has it.
pub fn json_text(s: &str) -> Option<String> {
    serde_json::to_string(s).ok()
}
pub fn to_json_writer(c: &parser::Calendar, w: &mut dyn std::io::Write, pretty: bool) -> Result<(), String> {
    if pretty { serde_json::to_writer_pretty(w, c) } else { serde_json::to_writer(w, c) }.map_err(|e| e.to_string())
}
/// 0 string, 1 bytes, 2 value tree; hands the calendar to `f`
pub fn from_json<R>(s: &str, route: u64, f: impl FnOnce(&parser::Calendar) -> R) -> Result<R, String> {
    match route {
        0 => serde_json::from_str::<parser::Calendar>(s).map(|c| f(&c)).map_err(|e| e.to_string()),
        1 => serde_json::from_slice::<parser::Calendar>(s.as_bytes()).map(|c| f(&c)).map_err(|e| e.to_string()),
        _ => serde_json::from_str::<serde_json::Value>(s).and_then(|v| serde_json::from_value::<parser::Calendar>(v)).map(|c| f(&c)).map_err(|e| e.to_string()),
    }
}
pub fn from_json_reader(r: &mut dyn std::io::Read) -> Result<parser::Calendar<'static>, String> {
    serde_json::from_reader::<_, parser::Calendar<'static>>(r).map_err(|e| e.to_string())
}
pub fn from_json_str(s: &str) -> Result<parser::Calendar<'static>, String> {
    serde_json::from_str::<parser::Calendar>(s).map_err(|e| e.to_string()).map(own_cal)
}
pub fn own_prop(p: parser::Property<'_>) -> parser::Property<'static> {
    if d(2) == 0 {
        return parser::Property {
            name: p.name.to_owned(),
            val: p.val.to_owned(),
            params: p.params.iter().map(|q| parser::Parameter { key: q.key.to_owned(), val: q.val.as_ref().map(|v| v.to_owned()) }).collect(),
        };
    }
    parser::Property {
        name: p.name.into_owned(),
        val: p.val.into_owned(),
        params: p.params.into_iter().map(|q| parser::Parameter { key: q.key.into_owned(), val: q.val.map(|v| v.into_owned()) }).collect(),
    }
}
pub fn own_comp(c: parser::Component<'_>) -> parser::Component<'static> {
    parser::Component { name: c.name.into_owned(), properties: c.properties.into_iter().map(own_prop).collect(), components: c.components.into_iter().map(own_comp).collect() }
}
pub fn own_cal(c: parser::Calendar<'_>) -> parser::Calendar<'static> {
    parser::Calendar { properties: c.properties.into_iter().map(own_prop).collect(), components: c.components.into_iter().map(own_comp).collect() }
}
pub fn parsed_eq(a: &parser::Calendar, b: &parser::Calendar) -> bool {
    a.properties == b.properties && a.components == b.components
}
/// Read a document into the parsed representation, detached from its text.
pub fn read_parsed(s: &str) -> Result<parser::Calendar<'static>, String> {
    let u = parser::unfold(s);
    parser::read_calendar(&u).map(own_cal)
}

// ---- may the types be shared between threads at all? -------------------------------------------

pub struct Probe<T>(pub core::marker::PhantomData<T>);
pub trait NotShareable {
    const SHAREABLE: bool = false;
}
impl<T> NotShareable for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    pub const SHAREABLE: bool = true;
}
pub fn not_shareable() -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! chk { ($($t:ty),*) => { $( if !<Probe<$t>>::SHAREABLE { v.push(stringify!($t)) } )* } }
    chk!(Calendar, CalendarComponent, Event, Todo, Venue, Alarm, Property, Parameter, Trigger, DatePerhapsTime, CalendarDateTime, parser::Calendar<'static>, parser::Component<'static>, parser::Property<'static>, parser::Parameter<'static>, parser::ParseString<'static>);
    v
}

// ---- copies, and changes to what has been read ---------------------------------------------------

pub fn clone_cal(c: &Calendar) -> Calendar {
    let mut n = Calendar::empty();
    n.properties = c.properties.clone();
    n.components = c.components.clone();
    n
}
/// Set a property on an existing component, through its typed setter if there is one.
pub fn edit_comp(c: &mut CalendarComponent, p: &Prop) {
    match c {
        CalendarComponent::Event(e) => event_prop(e, p),
        CalendarComponent::Todo(e) => todo_prop(e, p),
        CalendarComponent::Venue(e) => venue_prop(e, p),
        CalendarComponent::Other(e) => common(e, p),
        #[allow(unreachable_patterns)]
        _ => {}
    }
}
pub fn add_child_to(c: &mut CalendarComponent, ch: &Comp) {
    on_comp!(c, x => add_child(x, ch))
}
pub fn comp_uid(c: &CalendarComponent) -> Option<String> {
    on_comp!(c, x => x.get_uid().map(str::to_string))
}
pub fn comp_sequence(c: &CalendarComponent) -> Option<u32> {
    on_comp!(c, x => x.get_sequence())
}
pub fn set_time_zone(tz: &str) {
    std::env::set_var("TZ", tz);
}
pub fn comps_of(c: parser::Calendar<'_>) -> Calendar {
    Calendar::from(c)
}
/// Read into owned objects by one of the routes that keep everything.
pub fn read_cal_by(s: &str, route: u64) -> Result<Calendar, String> {
    match route {
        0 => s.parse::<Calendar>(),
        1 => parser::read_calendar(&parser::unfold(s)).map(Calendar::from),
        2 => {
            let p = read_parsed(s)?;
            Ok(Calendar::from(p))
        }
        3 => {
            let again = read_parsed(s)?.to_string();
            again.parse::<Calendar>().map_err(|e| format!("what the parsed calendar writes cannot be read: {}", e))
        }
        _ => {
            let j = to_json(&read_parsed(s)?, false)?;
            from_json_str(&j).map(Calendar::from)
        }
    }
}
pub const READ_CAL_ROUTES: u64 = 5;
/// A whole relay: a document comes in, a document goes out.
pub const RELAYS: u64 = 6;
pub fn relay_name(r: u64) -> &'static str {
    ["parse::<Calendar> and write", "read_calendar and write", "Calendar::from(read_calendar) and write", "JSON and write", "parse, print", "parse, clone, write"][r as usize]
}
pub fn relay(s: &str, r: u64) -> Result<String, String> {
    match r {
        0 => s.parse::<Calendar>().map(|c| c.to_string()),
        1 => parser::read_calendar(&parser::unfold(s)).map(|c| c.to_string()),
        2 => parser::read_calendar(&parser::unfold(s)).and_then(|c| write_cal(&Calendar::from(c), 2)),
        3 => {
            let j = to_json(&read_parsed(s)?, true)?;
            from_json_str(&j).map(|c| c.to_string())
        }
        4 => s.parse::<Calendar>().and_then(|c| write_cal(&c, 6)),
        _ => s.parse::<Calendar>().and_then(|c| write_cal(&clone_cal(&c), 4)),
    }
}

// ---- date-times in zones ---------------------------------------------------------------------

/// A date-time as an author states it, by one of the ways there are.
pub fn author_dt(t: &Dt, instant: Option<i64>) -> CalendarDateTime {
    if let Form::Tz(z) = &t.form {
        if let Ok(tz) = z.parse::<chrono_tz::Tz>() {
            match d(6) {
                0 => return CalendarDateTime::from((naive(t), tz)),
                1 if t.s == 0 => {
                    if let Some(x) = CalendarDateTime::from_ymd_hm_tzid(t.y, t.mo, t.d, t.h, t.mi, tz) {
                        return x;
                    }
                }
                2 => {
                    // one of the instants, when the clocks show it twice
                    let local = naive(t).and_utc().timestamp();
                    let twice = model::zones::ZONES.iter().find(|x| instant.is_none() && x.name == z && (x.from..=x.to).contains(&t.y)).map(|x| x.instants(local)).unwrap_or_default();
                    let i = match twice.len() {
                        0 => instant,
                        n => Some(twice[d(n as u64) as usize]),
                    };
                    if let Some(i) = i {
                        return CalendarDateTime::from_date_time(Utc.timestamp_opt(i, 0).unwrap().with_timezone(&tz));
                    }
                }
                3 => {
                    if let Ok(DatePerhapsTime::DateTime(x)) = DatePerhapsTime::try_from((naive(t), z.as_str())) {
                        return x;
                    }
                }
                _ => {}
            }
        }
    }
    cdt(t)
}
/// Whether authors may name this zone at all when they give it by name.
pub fn zone_known(t: &Dt) -> Option<bool> {
    match &t.form {
        Form::Tz(z) => Some(CalendarDateTime::try_from((naive(t), z.as_str())).is_ok()),
        _ => None,
    }
}
pub fn dt_instant(x: &CalendarDateTime) -> Option<i64> {
    x.try_into_utc().map(|u| u.timestamp())
}
fn same_date(x: &DatePerhapsTime, t: &Dt) -> Result<(), String> {
    let w = naive(t).date();
    want("DatePerhapsTime::date_naive", x.date_naive(), w)?;
    want("NaiveDate::from(DatePerhapsTime)", NaiveDate::from(x.clone()), w)
}
/// A `DTSTART` or the like of this component: the date-time as written, its date and its instant.
pub fn check_dt(x: Option<DatePerhapsTime>, t: &Dt, instant: Option<i64>, how: &str) -> Result<(), String> {
    let x = match x {
        Some(x) => x,
        None => return Err(format!("{}: there is no date-time", how)),
    };
    want(how, &x, &dpt_plain(t))?;
    same_date(&x, t).map_err(|e| format!("{}: {}", how, e))?;
    match &x {
        DatePerhapsTime::DateTime(c) => want(&format!("{}: try_into_utc of {:?}", how, c), dt_instant(c), instant),
        DatePerhapsTime::Date(_) => Ok(()),
    }
}
pub fn check_authored(c: &CalendarDateTime, t: &Dt, instant: Option<i64>) -> Result<(), String> {
    check_dt(Some(DatePerhapsTime::from(c.clone())), t, instant, "as authored")
}
pub fn event_at(uid: &str, start: &CalendarDateTime, end: &CalendarDateTime) -> CalendarComponent {
    let mut e = Event::new();
    e.uid(uid).starts(start.clone()).ends(end.clone());
    if d(2) == 1 {
        e.alarm(Alarm::audio(Trigger::from(end.clone())));
    }
    e.done().into()
}
pub fn todo_at(uid: &str, start: &CalendarDateTime, due: &CalendarDateTime) -> CalendarComponent {
    let mut e = Todo::new();
    e.uid(uid).starts(start.clone()).due(due.clone());
    e.done().into()
}
/// The two date-times of such a component, by its accessors.
pub fn check_two(c: &CalendarComponent, a: (&Dt, Option<i64>), b: (&Dt, Option<i64>)) -> Result<(), String> {
    match c {
        CalendarComponent::Event(e) => {
            check_dt(e.get_start(), a.0, a.1, "Event::get_start")?;
            check_dt(e.get_end(), b.0, b.1, "Event::get_end")?;
            for al in e.components() {
                match al.properties().get("TRIGGER").and_then(|p| Trigger::try_from(p).ok()) {
                    Some(Trigger::DateTime(x)) => {
                        want("Trigger: try_into_utc", dt_instant(&x), b.1)?;
                        want("Trigger::as_date_time", Trigger::DateTime(x.clone()).as_date_time(), Some(&x))?
                    }
                    x => return Err(format!("the trigger is {:?}", x)),
                }
            }
            Ok(())
        }
        CalendarComponent::Todo(e) => {
            check_dt(e.get_start(), a.0, a.1, "Todo::get_start")?;
            check_dt(e.get_due(), b.0, b.1, "Todo::get_due")
        }
        _ => Err("the component is of another kind".into()),
    }
}
pub fn check_two_parsed(c: &parser::Component, a: (&Dt, Option<i64>), b: (&Dt, Option<i64>)) -> Result<(), String> {
    let end = if c.name == "VTODO" { "DUE" } else { "DTEND" };
    for (n, (t, i)) in [("DTSTART", a), (end, b)] {
        let p = c.find_prop(n).ok_or_else(|| format!("find_prop({:?}) finds nothing", n))?;
        check_dt(DatePerhapsTime::try_from(p).ok(), t, i, &format!("DatePerhapsTime::try_from(parsed {})", n))?;
        let q = Property::from(p.clone());
        check_dt(DatePerhapsTime::from_property(&q), t, i, &format!("DatePerhapsTime::from_property({})", n))?;
    }
    Ok(())
}
pub fn calendar_of(v: Vec<CalendarComponent>) -> Calendar {
    v.into_iter().collect()
}

// ---- containers, with suppliers that misbehave ---------------------------------------------------

/// Hands over components one by one; may panic instead, tell little about its length, and do
/// other things in between.
pub struct Supplier<'a> {
    pub items: std::vec::IntoIter<CalendarComponent>,
    pub panic_at: Option<u64>,
    pub n: u64,
    pub hint: u8,
    pub hook: Option<&'a mut dyn FnMut(u64)>,
}
impl<'a> Supplier<'a> {
    pub fn new(v: Vec<CalendarComponent>) -> Self {
        Supplier { items: v.into_iter(), panic_at: None, n: 0, hint: 0, hook: None }
    }
}
impl Iterator for Supplier<'_> {
    type Item = CalendarComponent;
    fn next(&mut self) -> Option<CalendarComponent> {
        let n = self.n;
        self.n += 1;
        rt::seam(70, n, 0);
        if let Some(h) = &mut self.hook {
            h(n)
        }
        if self.panic_at == Some(n) {
            rt::hit("fault.supplier_panicked");
            std::panic::panic_any(SinkPanic);
        }
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => self.items.size_hint(),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            _ => (self.items.len().min(1), Some(self.items.len() + 7)),
        }
    }
}
/// A conversion that never yields what it should.
pub struct Bomb;
impl From<Bomb> for CalendarComponent {
    fn from(_: Bomb) -> Self {
        rt::hit("fault.conversion_panicked");
        std::panic::panic_any(SinkPanic)
    }
}
impl From<Bomb> for Property {
    fn from(_: Bomb) -> Self {
        rt::hit("fault.conversion_panicked");
        std::panic::panic_any(SinkPanic)
    }
}
/// A conversion that works.
pub struct Slow(pub CalendarComponent);
impl From<Slow> for CalendarComponent {
    fn from(s: Slow) -> Self {
        rt::seam(71, 0, 0);
        s.0
    }
}
pub fn push_one(cal: &mut Calendar, c: CalendarComponent) {
    match (d(3), c) {
        (0, CalendarComponent::Event(e)) => drop(cal.push(e)),
        (0, CalendarComponent::Todo(e)) => drop(cal.push(e)),
        (0, CalendarComponent::Venue(e)) => drop(cal.push(e)),
        (1, c) => drop(cal.push(Slow(c))),
        #[allow(deprecated)]
        (2, c) if d(2) == 1 => drop(cal.add(c)),
        (_, c) => drop(cal.push(c)),
    }
}
pub fn push_bomb(cal: &mut Calendar) {
    cal.push(Bomb);
}
pub fn calprop_bomb(cal: &mut Calendar) {
    cal.append_property(Bomb);
}
pub fn comp_bomb(c: &mut CalendarComponent, multi: bool) {
    on_comp!(c, x => if multi { drop(x.append_multi_property(Bomb)) } else { drop(x.append_property(Bomb)) })
}
pub fn extend_with(cal: &mut Calendar, s: Supplier) {
    cal.extend(s)
}
pub fn extend_vec(cal: &mut Calendar, v: Vec<CalendarComponent>) {
    match d(3) {
        0 => cal.extend(v),
        1 => cal.extend(v.into_iter().map(Slow)),
        _ => {
            let all: Vec<Event> = v.iter().filter_map(|c| c.as_event().cloned()).collect();
            if all.len() == v.len() {
                cal.extend(all)
            } else {
                cal.extend(v)
            }
        }
    }
}
pub fn collect_with(s: Supplier) -> Calendar {
    s.collect()
}
pub fn collect_vec(v: Vec<CalendarComponent>) -> Calendar {
    let n = v.len();
    let r = d(4);
    if n == 1 && r > 0 {
        let c = v.into_iter().next().unwrap();
        return match (r, c) {
            (1, CalendarComponent::Event(e)) => Calendar::from(e),
            (1, CalendarComponent::Todo(e)) => Calendar::from([e]),
            (2, c) => Calendar::from([c]),
            (_, c) => Calendar::from(c),
        };
    }
    if (2..=3).contains(&n) && r > 0 {
        let mut i = v.into_iter();
        let mut nx = || Slow(i.next().unwrap());
        return if n == 2 { Calendar::from([nx(), nx()]) } else { Calendar::from([nx(), nx(), nx()]) };
    }
    if r == 0 {
        v.into_iter().map(Slow).collect()
    } else {
        v.into_iter().collect()
    }
}
pub fn append_cal(a: &mut Calendar, b: &mut Calendar) {
    a.append(b)
}
pub fn done_cal(a: &mut Calendar) -> Calendar {
    a.done()
}
/// Take over a component through its builder; what is left has to be empty.
pub fn done_comp(c: &mut CalendarComponent) -> CalendarComponent {
    match c {
        CalendarComponent::Event(e) => e.done().into(),
        CalendarComponent::Todo(e) => e.done().into(),
        CalendarComponent::Venue(e) => e.done().into(),
        other => other.clone(),
    }
}
pub fn has_done(c: &CalendarComponent) -> bool {
    matches!(c, CalendarComponent::Event(_) | CalendarComponent::Todo(_) | CalendarComponent::Venue(_))
}
/// Every way of looking at the components of a calendar shows the same ones.
pub fn views(cal: &Calendar, m: &Cal) -> Result<(), String> {
    want("len", cal.len(), m.comps.len())?;
    want("is_empty", cal.is_empty(), m.comps.is_empty())?;
    want("iter().count()", cal.iter().count(), m.comps.len())?;
    want("as_ref().len()", AsRef::<[CalendarComponent]>::as_ref(cal).len(), m.comps.len())?;
    for (i, (c, e)) in cal.iter().zip(&m.comps).enumerate() {
        if !std::ptr::eq(c, &cal[i]) || cal.get(i) != Some(c) || AsRef::<[CalendarComponent]>::as_ref(cal).get(i) != Some(c) {
            return Err(format!("component {} is another one when indexed", i));
        }
        let kind = on_comp!(c, x => x.component_kind());
        want("component_kind", kind.as_str(), e.kind.as_str())?;
        want("as_event", c.as_event().is_some(), matches!(c, CalendarComponent::Event(_)))?;
        want("as_todo", c.as_todo().is_some(), matches!(c, CalendarComponent::Todo(_)))?;
    }
    let names: Vec<&str> = cal.properties.iter().map(|p| p.key()).collect();
    let exp: Vec<&str> = m.props.iter().map(|p| p.name.as_str()).collect();
    want("the names of the calendar's properties", names, exp)?;
    let got = ex_cal(cal);
    model::compare_cal(m, &got, model::Inv::No).map(|_| ())
}
/// Set a property on a calendar through its builder.
pub fn set_calprops(cal: &mut Calendar, which: u64, text: &str, secs: i64) {
    match which {
        0 => drop(cal.name(text)),
        1 => drop(cal.description(text)),
        2 => drop(cal.timezone(text)),
        _ => drop(cal.ttl(&Duration::seconds(secs))),
    }
}
pub fn push_calprop(cal: &mut Calendar, p: &Prop) {
    cal.append_property(build_prop(p));
}
pub fn ttl_text(secs: i64) -> String {
    Duration::seconds(secs).to_string()
}
