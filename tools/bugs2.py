USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c05-dedup']=dict(property='C05',needs='a component with two identical occurrences of a repeatable property, read back',
 breaks='an occurrence equal to an earlier one is dropped when a document is read',
 edits=[('src/parser/components.rs','''                from_component.insert_multi(p);
''','''                let p = crate::Property::from(p);
                let known = from_component.multi_properties.get(p.key());
                if !known.map_or(false, |known| known.contains(&p)) {
                    from_component.insert_multi(p);
                }
''')],
 demo=USE+r'''
fn main(){ let c=Calendar::from([Event::new().uid("a").add_multi_property("COMMENT","x").add_multi_property("COMMENT","x").done()]); let s=c.to_string(); let g:Calendar=s.parse().unwrap(); assert_eq!(g.to_string().matches("COMMENT:x").count(),2); }
''')
BUGS['c05-version']=dict(property='C05',needs='a calendar written without a VERSION property (Calendar::empty), read and written again',
 breaks='reading adds a VERSION property that was never there',
 edits=[('src/parser/calendar.rs','''            properties: parsed.properties.into_iter().map(Into::into).collect(),
        }
    }
}
''','''            properties: {
                let mut properties: Vec<crate::Property> =
                    parsed.properties.into_iter().map(Into::into).collect();
                // required by RFC 5545, section 3.6
                if !properties.iter().any(|property| property.key() == "VERSION")
                    && properties.iter().any(|property| property.key() == "PRODID")
                {
                    properties.push(crate::Property::new("VERSION", "2.0"));
                }
                properties
            },
        }
    }
}
''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::empty(); c.append_property(("PRODID","me")); let s=c.to_string(); let g:Calendar=s.parse().unwrap(); assert_eq!(g,c); assert_eq!(g.to_string(),s); }
''')
BUGS['c05-emptyparam']=dict(property='C05',needs='a property with a parameter whose value is empty',
 breaks='parameters without a value are left out when a property is written',
 edits=[('src/properties.rs','''        for Parameter { key, val } in self.params.values() {
            write!(''','''        for Parameter { key, val } in self.params.values() {
            if val.is_empty() && self.params.len() > 1 {
                continue;
            }
            write!(''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); let mut p=Property::new("X-A","v"); p.add_parameter("K","").add_parameter("L","1"); c.append_property(p); let s=c.to_string(); let g:Calendar=s.parse().unwrap(); assert_eq!(g,c); }
''')
BUGS['c05-trim']=dict(property='C05',needs='a text value that ends in white space',
 breaks='white space at the end of a property value is removed when it is read',
 edits=[('src/parser/properties.rs','''            Property { name, val, params }
        })),''','''            let val = if val.as_str().ends_with("  ") {
                ParseString::from(val.as_str().trim_end_matches(' ').to_owned() + " ")
            } else {
                val
            };

            Property { name, val, params }
        })),''')],
 demo=USE+r'''
fn main(){ let c=Calendar::from([Event::new().uid("a").summary("x  ").done()]); let g:Calendar=c.to_string().parse().unwrap(); assert_eq!(g.to_string().matches("SUMMARY:x  \r").count(),1); }
''')
BUGS['c06-related']=dict(property='C06',needs='an alarm that triggers exactly at the end (zero duration related to END)',
 breaks='the RELATED parameter is left out of triggers of zero duration, so END becomes the default START for every receiver',
 edits=[('src/components/alarm.rs','''                Trigger::Duration(duration, Some(related)) => {
''','''                // at the very moment, there is nothing to be related to
                Trigger::Duration(duration, Some(_)) if duration.is_zero() => {
                    Property::new("TRIGGER", duration.to_string())
                }

                Trigger::Duration(duration, Some(related)) => {
''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.uid("a").alarm(Alarm::audio(Trigger::after_end(chrono::Duration::zero()))); assert!(e.to_string().contains("RELATED=END")); }
''')
BUGS['c06-midnight']=dict(property='C06',needs='a floating date-time at exactly midnight',
 breaks='the typed accessors return a date instead of the date-time that was set',
 edits=[('src/components/date_time.rs','''        } else {
            Some(CalendarDateTime::from_property(property)?.into())
        }
''','''        } else {
            match CalendarDateTime::from_property(property)? {
                // whole days are often given as midnight
                CalendarDateTime::Floating(dt) if dt.time() == chrono::NaiveTime::MIN => {
                    Some(dt.date().into())
                }
                date_time => Some(date_time.into()),
            }
        }
''')],
 demo=USE+r'''
fn main(){ let t=chrono::NaiveDate::from_ymd_opt(2020,1,2).unwrap().and_hms_opt(0,0,0).unwrap(); let e=Event::new().starts(t).done(); assert_eq!(e.get_start(),Some(t.into())); }
''')
BUGS['c06-sequence']=dict(property='C06',needs='a component edited so often, or numbered so, that its SEQUENCE exceeds 65535',
 breaks='larger sequence numbers are not read, so that replicas cannot tell which version is newer',
 edits=[('src/components.rs','''        self.property_value("SEQUENCE").and_then(|s| s.parse().ok())''','''        let sequence: u16 = self.property_value("SEQUENCE")?.parse().ok()?;
        Some(sequence.into())''')],
 demo=USE+r'''
fn main(){ let e=Event::new().sequence(70000).done(); assert_eq!(e.get_sequence(),Some(70000)); }
''')
BUGS['c06-nested']=dict(property='C06',needs='a component with children two levels deep (a component within a component within a component)',
 breaks='grandchildren are lost when a document is read',
 edits=[('src/parser/components.rs','''            components: component.components.into_iter().map(Other::from).collect(),
''','''            components: component
                .components
                .into_iter()
                .map(|mut child| {
                    // alarms contain no components (RFC 5545, section 3.6.6)
                    if child.name == "VALARM" {
                        child.components.clear();
                    }
                    Other::from(child)
                })
                .collect(),
''')],
 demo=USE+r'''
fn main(){ let mut a=Alarm::audio(chrono::Duration::minutes(1)); a.uid("b"); a.append_component(Venue::new().uid("v").done()); let mut e=Event::new(); e.uid("a").append_component(a); let c=Calendar::from([e]); let g:Calendar=c.to_string().parse().unwrap(); assert!(g.to_string().contains("VVENUE")); }
''')
BUGS['c06-tzid']=dict(property='C06',needs='a date-time with a time zone id that has a leading slash (globally unique, RFC 5545 3.2.19) read through the typed accessor',
 breaks='the slash is removed, so the accessor returns another zone id than was set',
 edits=[('src/components/date_time.rs','''                tzid: tzid.value().to_owned(),
            })
        } else if''','''                tzid: tzid.value().trim_start_matches('/').to_owned(),
            })
        } else if''')],
 demo=USE+r'''
fn main(){ let t=chrono::NaiveDate::from_ymd_opt(2020,1,2).unwrap().and_hms_opt(1,0,0).unwrap(); let dt=CalendarDateTime::WithTimezone{date_time:t,tzid:"/example.org/Berlin".into()}; let e=Event::new().starts(dt.clone()).done(); assert_eq!(e.get_start(),Some(dt.into())); }
''')
BUGS['c07-space']=dict(property='C07',needs='a long line with white space exactly at the fold position',
 breaks='white space at the fold position is put at the end of the line instead of moving the fold: the line gets too long',
 edits=[('src/properties.rs','''            next_pos -= 1;
            while !line.is_char_boundary(next_pos) {
                next_pos -= 1;
            }
        }
        ret''','''            next_pos += 1;
            while !line.is_char_boundary(next_pos) {
                next_pos += 1;
            }
        }
        ret''')],
 demo=USE+r'''
fn main(){ for n in 50..90 { let s=format!("{} {}","a".repeat(n),"b".repeat(80)); let e=Event::new().uid("u").summary(&s).done(); for l in e.to_string().split("\r\n") { assert!(l.len()<=75,"{}",l.len()); } } }
''')
BUGS['c07-valuetype']=dict(property='C07',needs='a property that is TEXT by its name but has a VALUE parameter saying otherwise, or the reverse, with text that needs escaping',
 breaks='the name takes precedence over the VALUE parameter when deciding whether a value is escaped',
 edits=[('src/properties.rs','''        self.params
            .get("VALUE")
            .and_then(|p| ValueType::from_str(&p.val).ok())
            .or_else(|| ValueType::by_name(self.key()))''','''        ValueType::by_name(self.key()).or_else(|| {
            self.params
                .get("VALUE")
                .and_then(|p| ValueType::from_str(&p.val).ok())
        })''')],
 demo=USE+r'''
fn main(){ let mut p=Property::new("ATTACH","a\nb"); p.add_parameter("VALUE","TEXT"); let s:String=p.try_into().unwrap(); assert_eq!(s.lines().count(),1,"{}",s); }
''')
BUGS['c07-name']=dict(property='C07',needs='a component whose properties include one set through append_multi_property with the same name as a single one',
 breaks='a repeated property is not written if a single one of the same name exists',
 edits=[('src/components.rs','''        for property in self.multi_properties().values().flatten() {
''','''        let single = |property: &&Property| !self.properties().contains_key(property.key());
        for property in self.multi_properties().values().flatten().filter(single) {
''')],
 demo=USE+r'''
fn main(){ let e=Event::new().uid("u").add_property("COMMENT","1").add_multi_property("COMMENT","2").done(); assert_eq!(e.to_string().matches("COMMENT").count(),2); }
''')
BUGS['c07-char']=dict(property='C07',needs='a long line in which a character lies across the fold position of a continuation line',
 breaks='continuation lines are cut before the next character after the limit instead of before it: lines of 76 to 78 octets',
 edits=[('src/properties.rs','''        while !line.is_char_boundary(next_pos) {
            next_pos -= 1;
        }
''','''        while !line.is_char_boundary(next_pos) {
            if pos > 0 && next_pos + 1 < len {
                next_pos += 1;
            } else {
                next_pos -= 1;
            }
        }
''')],
 demo=USE+r'''
fn main(){ for n in 0..8 { let s=format!("{}{}","a".repeat(n),"老虎".repeat(60)); let e=Event::new().uid("u").summary(&s).done(); for l in e.to_string().split("\r\n") { assert!(l.len()<=75,"{}",l.len()); } } }
''')
BUGS['c08-lftab']=dict(property='C08',needs='a line folded with LF and tab',
 breaks='lines folded with a tab after a bare LF are not unfolded',
 edits=[('src/parser/utils.rs','''        .flat_map(|l| l.split("\\r\\n	"))
        .flat_map(|l| l.split("\\n	"))
''','''        .flat_map(|l| l.split("\\r\\n	"))
''')],
 demo=USE+r'''
fn main(){ let g:Calendar="BEGIN:VCALENDAR\nPRODID:ab\n\tcd\nEND:VCALENDAR\n".parse().unwrap(); assert_eq!(g.property_value("PRODID"),Some("abcd")); }
''')
BUGS['c08-reunfold']=dict(property='C08',needs='a line folded in front of a space or tab that belongs to the content',
 breaks='all the white space at the start of a continuation line is removed if it is more than one tab or space long and mixed',
 edits=[('src/parser/utils.rs','''        .flat_map(|l| l.split("\\n	"))
        .collect()''','''        .flat_map(|l| l.split("\\n	"))
        // some producers indent continuation lines with both
        .map(|l| l.strip_prefix("\\t ").unwrap_or(l))
        .collect()''')],
 demo=USE+r'''
fn main(){ let g:Calendar="BEGIN:VCALENDAR\r\nPRODID:ab\r\n \t cd\r\nEND:VCALENDAR\r\n".parse().unwrap(); assert_eq!(g.property_value("PRODID"),Some("ab\t cd")); }
''')
BUGS['c08-quoted']=dict(property='C08',needs='a parameter that is quoted though it need not be, in a document from elsewhere',
 breaks='quotes around a parameter value are only removed when the value contains a colon or semicolon',
 edits=[('src/parser/parameters.rs','''            opt(alt((
                eof,
                delimited(tag("\\""), take_while(|c| c != '"'), tag("\\"")),
                take_till1(|x| x == ';' || x == ':'),
            )))''','''            opt(alt((
                eof,
                delimited(
                    tag("\\""),
                    nom::combinator::verify(take_while(|c| c != '"'), |val: &str| {
                        val.is_empty() || val.contains([':', ';', ',', '=', ' ', '/', '@', '\\\\'])
                    }),
                    tag("\\""),
                ),
                take_till1(|x| x == ';' || x == ':'),
            )))''')],
 demo=USE+r'''
fn main(){ let a=parser::Property::try_from("A;K=\"v\":x\n").unwrap(); let b=parser::Property::try_from("A;K=v:x\n").unwrap(); assert_eq!(a,b); }
''')
BUGS['c08-newline']=dict(property='C08',needs='text in which a newline escaped as \\n follows one escaped as \\N, or either follows an escaped backslash',
 breaks='newlines are only unescaped in the spelling that occurs first in the value',
 edits=[('src/parser/parsed_string.rs','''        if !self.0.contains('\\\\') {
            return self;
        }
''','''        if !self.0.contains('\\\\') {
            return self;
        }
        if let (Some(upper), Some(lower)) = (self.0.find("\\\\N"), self.0.find("\\\\n")) {
            // a producer uses either of them
            if upper < lower {
                return ParseString::from(self.0.replace("\\\\n", "\\\\\\\\n")).unescape_text();
            }
        }
''')],
 demo=USE+r'''
fn main(){ let a=parser::Property::try_from("SUMMARY:a\\Nb\\nc\n").unwrap(); assert_eq!(a.val.as_str(),"a\nb\nc"); }
''')
BUGS['c09-eof']=dict(property='C09',needs='a document torn right after the END line of a component, in front of the END line of the calendar',
 breaks='a missing END line at the end of the text is tolerated for the outermost component',
 edits=[('src/parser/components.rs','''        line("END:", cut(context("mismatching end", tag(name.as_str())))),
''','''        alt((
            line("END:", cut(context("mismatching end", tag(name.as_str())))),
            // some producers forget to close the calendar
            verify(eof, |_: &str| name == "VCALENDAR"),
        )),
''')],
 demo=USE+r'''
fn main(){ let c=Calendar::from([Event::new().uid("a").done(),Event::new().uid("b").done()]); let s=c.to_string(); let n=s.find("END:VEVENT").unwrap()+12; assert!(s[..n].parse::<Calendar>().is_err()); }
''')
BUGS['c09-prefix']=dict(property='C09',needs='a document torn within the name on its very last line, one or two characters short',
 breaks='an END line cut off within the name is accepted at the end of the text',
 edits=[('src/parser/components.rs','''        line("END:", cut(context("mismatching end", tag(name.as_str())))),
''','''        line(
            "END:",
            alt((
                verify(nom::combinator::rest, |end: &str| {
                    end.len() > 1 && name.as_str().starts_with(end)
                }),
                cut(context("mismatching end", tag(name.as_str()))),
            )),
        ),
''')],
 demo=USE+r'''
fn main(){ let s=Calendar::from([Event::new().uid("a").done()]).to_string(); assert!(s[..s.len()-4].parse::<Calendar>().is_err()); }
''')
BUGS['c09-tail']=dict(property='C09',needs='a document of several root components torn within a later one, read with read_components',
 breaks='an incomplete component after complete ones is passed over in silence',
 edits=[('src/parser/components.rs','''    let (input, components) = many0(component)(input)?;
''','''    let (input, components) = many0(component)(input)?;
    // be lenient with what follows
    let input = match input.trim_start().get(..6) {
        Some("BEGIN:") if !components.is_empty() => "",
        _ => input,
    };
'''),('src/parser/components.rs','''            !name.as_str().is_empty()
        }),
    )(input)?;

    // once its name has been read a component has to be complete
    let (input, (properties, components)) = cut(many_till(''','''            !name.as_str().is_empty()
        }),
    )(input)?;

    let (input, (properties, components)) = (many_till(''')],
 demo=USE+r'''
fn main(){ let a=Event::new().uid("a").done().to_string(); let b=Event::new().uid("b").done().to_string(); let s=format!("{}{}",a,&b[..b.len()-12]); assert!(parser::read_components(&s).is_err()); }
''')
BUGS['c10-split']=dict(property='C10',needs='a date value damaged so that a multi-byte character lies across its eighth byte',
 breaks='typed date accessors panic on such a value',
 edits=[('src/components/date_time.rs','''        let value = property.value();
        if let Some(tzid)''','''        let value = property.value();
        if value.len() > 8 && !value[8..].starts_with('T') {
            return None;
        }
        if let Some(tzid)''')],
 demo=USE+r'''
fn main(){ let e=Event::new().add_property("DTSTART","2020010\u{e9}T000000").done(); assert_eq!(e.get_start(),None); }
''')
BUGS['c10-ttl']=dict(property='C10',needs='a damaged duration of absurd length',
 breaks='reading a duration (the time to live of a calendar, the trigger of an alarm) panics if it does not fit',
 edits=[('src/components/date_time.rs','''        .and_then(|iso| Duration::from_std(iso.into()).ok())
''','''        .map(|iso| Duration::from_std(iso.into()).expect("duration out of range"))
''')],
 demo=USE+r'''
fn main(){ let mut c=Calendar::new(); c.append_property(("REFRESH-INTERVAL","P4294967295Y")); let _=c.get_ttl(); 
 let mut c=Calendar::new(); c.append_property(("REFRESH-INTERVAL","P9999999999999999W")); let _=c.get_ttl();
 let e=Event::new().add_property("DURATION","P4294967295Y").done(); let _=e.property_value("DURATION"); }
''')
BUGS['c10-quadratic']=dict(property='C10',needs='a large text with very many folds',
 breaks='every fold is removed by moving the rest of the text and starting over: the time is quadratic',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")
        .flat_map(|l| l.split("\\n "))
        .flat_map(|l| l.split("\\r\\n	"))
        .flat_map(|l| l.split("\\n	"))
        .collect()''','''    let mut unfolded = input.to_owned();
    for fold in ["\\r\\n ", "\\n ", "\\r\\n	", "\\n	"] {
        while let Some(at) = unfolded.find(fold) {
            unfolded.replace_range(at..at + fold.len(), "");
        }
    }
    unfolded''')],
 demo=USE+r'''
fn main(){ let s="a\n ".repeat(1_000_000); let t=std::time::Instant::now(); assert_eq!(parser::unfold(&s).len(),1_000_000); assert!(t.elapsed().as_secs()<20); }
''')
BUGS['c10-recursion']=dict(property='C10',needs='a text value with tens of thousands of escape sequences',
 breaks='unescaping recurses for every escape sequence and exhausts the stack',
 edits=[('src/parser/parsed_string.rs','''        // one pass, so that''','''        fn unescape(rest: &str, unescaped: &mut String) {
            let mut chars = rest.chars();
            match (chars.next(), chars.next()) {
                (Some('\\\\'), Some(c @ ('\\\\' | ',' | ';' | ':'))) => unescaped.push(c),
                (Some('\\\\'), Some('n' | 'N')) => unescaped.push('\\n'),
                (Some(c), _) => {
                    unescaped.push(c);
                    let end = rest[c.len_utf8()..].find('\\\\').map(|n| n + c.len_utf8());
                    let end = end.unwrap_or(rest.len());
                    unescaped.push_str(&rest[c.len_utf8()..end]);
                    if end < rest.len() {
                        unescape(&rest[end..], unescaped);
                        // keep the buffer tight
                        unescaped.shrink_to(unescaped.len() * 2);
                    }
                    return;
                }
                (None, _) => return,
            }
            unescape(chars.as_str(), unescaped);
            unescaped.shrink_to(unescaped.len() * 2);
        }
        if self.0.len() > 4096 {
            let mut unescaped = String::with_capacity(self.0.len());
            unescape(&self.0, &mut unescaped);
            return unescaped.into();
        }

        // one pass, so that''')],
 demo=USE+r'''
fn main(){ let s=format!("SUMMARY:{}\n","\\n".repeat(400_000)); let p=parser::Property::try_from(s.as_str()).unwrap(); assert_eq!(p.val.as_str().len(),400_000); }
''')
BUGS['c11-lock']=dict(property='C11',needs='a destination that writes another calendar while it is being written to',
 breaks='calendars are written one at a time under a lock: nested use waits for itself for ever',
 edits=[('src/calendar.rs','''        write_crlf!(out, "BEGIN:VCALENDAR")?;
        for''','''        static WRITING: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one_at_a_time = WRITING.lock().unwrap_or_else(|e| e.into_inner());

        write_crlf!(out, "BEGIN:VCALENDAR")?;
        for''')],
 demo=USE+r'''
struct D;
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains("BEGIN") { let _=Calendar::new().to_string(); } Ok(()) } }
fn main(){ std::thread::spawn(||{ std::thread::sleep(std::time::Duration::from_secs(10)); std::process::exit(1) }); write!(D,"{}",Calendar::new()).unwrap(); }
''')
BUGS['c11-refcell']=dict(property='C11',needs='a destination that writes a component while a property is being written to it',
 breaks='the line buffer of the thread is borrowed while the destination is called: nested use panics',
 edits=[('src/properties.rs','''        let mut line = String::with_capacity(150);

        write!(line, "{}", self.key)?;
        for''','''        LINE.with(|line| self.write_line(&mut line.borrow_mut(), out))
    }

    fn write_line<W: Write>(&self, line: &mut String, out: &mut W) -> Result<(), fmt::Error> {
        line.clear();
        write!(line, "{}", self.key)?;
        for'''),('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }
}
''','''        write_crlf!(out, "{}", fold_line(line))?;
        Ok(())
    }
}

thread_local!(static LINE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
''')],
 demo=USE+r'''
struct D;
impl fmt::Write for D { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains("UID") { let _=Event::new().uid("b").done().to_string(); } Ok(()) } }
fn main(){ Event::new().uid("a").done().fmt_write(&mut D).unwrap(); }
''')
BUGS['c11-cache']=dict(property='C11',needs='two threads formatting stamps of different components at the same time',
 breaks='the last folded line is remembered for all threads under its length in two steps, so a thread can pick up another thread\'s line',
 edits=[('src/properties.rs','''        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }
}
''','''        if line.len() > 75 {
            use std::sync::{Mutex, PoisonError};
            static SOURCE: Mutex<String> = Mutex::new(String::new());
            static FOLDED: Mutex<String> = Mutex::new(String::new());
            let known = *SOURCE.lock().unwrap_or_else(PoisonError::into_inner) == line;
            if !known {
                *FOLDED.lock().unwrap_or_else(PoisonError::into_inner) = fold_line(&line);
                *SOURCE.lock().unwrap_or_else(PoisonError::into_inner) = line;
            }
            let folded = FOLDED.lock().unwrap_or_else(PoisonError::into_inner).clone();
            return write_crlf!(out, "{}", folded);
        }
        write_crlf!(out, "{}", fold_line(&line))?;
        Ok(())
    }
}
''')],
 demo=USE+r'''
fn main(){ let h:Vec<_>=(0..8).map(|i| std::thread::spawn(move || { let t=format!("{}",i).repeat(200); for _ in 0..4000 { let s=Event::new().uid("a").summary(&t).done().to_string(); assert!(s.replace("\r\n ","").contains(&t)); } })).collect(); for t in h { t.join().unwrap(); } }
''')
BUGS['c12-short']=dict(property='C12',needs='a standard output that accepts only part of a long write',
 breaks='a component is printed with a single write: what standard output does not take at once is lost',
 edits=[('src/components.rs','''        print_crlf!("{}", out);
        Ok(())''','''        use std::io::Write;
        out.push_str("\\r\\n");
        let mut stdout = std::io::stdout();
        stdout
            .write(out.as_bytes())
            .and_then(|_| stdout.flush())
            .map_err(|_| fmt::Error)''')],
 demo=USE+r'''
extern "C" { fn pipe(fds: *mut i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn close(fd:i32)->i32; }
fn main(){ let mut fds=[0i32;2]; unsafe { assert_eq!(pipe(fds.as_mut_ptr()),0); fcntl(fds[0],1031,4096); dup2(fds[1],1); close(fds[1]); }
 let rd=fds[0]; let h=std::thread::spawn(move || { let mut all=vec![]; let mut b=[0u8;512]; loop { std::thread::sleep(std::time::Duration::from_millis(2)); let n=unsafe { read(rd,b.as_mut_ptr(),512) }; if n<=0 {break} all.extend_from_slice(&b[..n as usize]); } all });
 // a pipe takes a blocking write whole, a non-blocking one in part
 unsafe { fcntl(1,4,2048); }
 let e=Event::new().uid("a").summary(&"x".repeat(20000)).done(); let want=e.to_string().len();
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.print().is_ok())).unwrap_or(false);
 unsafe { fcntl(1,4,0); close(1); }
 let got=h.join().unwrap();
 assert!(!r || got.len()==want+2, "{} of {}", got.len(), want+2); }
''')
BUGS['c12-ignore']=dict(property='C12',needs='a standard output that fails for good (closed pipe, full disk)',
 breaks='failure of standard output while a calendar is printed is not reported',
 edits=[('src/calendar.rs','''        print_crlf!("{}", self);
        Ok(())''','''        use std::io::Write;
        // a closed pipe is no reason to panic
        let _ = write!(std::io::stdout(), "{}\\r\\n", self);
        Ok(())''')],
 demo=USE+r'''
extern "C" { fn open(p: *const u8, f: i32, ...) -> i32; fn dup2(a: i32, b: i32) -> i32; }
fn main(){ unsafe { let fd=open(b"/dev/full\0".as_ptr(),1); assert!(fd>=0); dup2(fd,1); } let r=std::panic::catch_unwind(|| Calendar::from([Event::new().uid("a").done()]).print()); assert!(!matches!(r,Ok(Ok(())))); }
''')
BUGS['c12-lines']=dict(property='C12',needs='a parsed calendar whose text contains bare LF in a value, printed or displayed',
 breaks='the display form of a parsed calendar is written line by line and normalises line breaks inside values that are not text',
 edits=[('src/parser/calendar.rs','''        print_crlf!("{}", self);
        Ok(())''','''        for line in self.to_string().lines() {
            print_crlf!("{}", line);
        }
        Ok(())''')],
 demo=USE+r'''
extern "C" { fn pipe(fds: *mut i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn close(fd:i32)->i32; }
fn main(){ let mut fds=[0i32;2]; unsafe { pipe(fds.as_mut_ptr()); dup2(fds[1],1); close(fds[1]); }
 let p=parser::Calendar{properties:vec![parser::Property::new_ref("A","b")],components:vec![]}; p.print().unwrap(); use std::io::Write; std::io::stdout().flush().unwrap(); unsafe { close(1); }
 let mut b=[0u8;4096]; let n=unsafe { read(fds[0],b.as_mut_ptr(),4096) }; assert_eq!(&b[..n as usize], format!("{}\r\n",p).as_bytes()); }
''')
BUGS['c12-string']=dict(property='C12',needs='a calendar with a text value that ends in spaces just at a fold, converted by TryInto',
 breaks='conversion into a string removes spaces in front of a fold, other routes keep them',
 edits=[('src/calendar.rs','''        self.fmt_write(&mut out_string)?;
        Ok(out_string)''','''        self.fmt_write(&mut out_string)?;
        // no trailing blanks
        while let Some(at) = out_string.find(" \\r\\n ") {
            out_string.remove(at);
        }
        Ok(out_string)''')],
 demo=USE+r'''
fn main(){ for n in 40..90 { let c=Calendar::from([Event::new().uid("a").timestamp(Default::default()).summary(&format!("{} {}","x".repeat(n),"  y".repeat(60))).done()]); let s:String=(&c).try_into().unwrap(); assert_eq!(s,c.to_string()); } }
''')
BUGS['c13-blank']=dict(property='C13',needs='a parsed calendar built with a parameter whose value is present but empty, through JSON',
 breaks='an empty parameter value comes back from JSON as no value',
 edits=[('src/parser/parameters.rs','''    pub key: ParseString<'a>,
    pub val: Option<ParseString<'a>>,
}''','''    pub key: ParseString<'a>,
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "is_blank")
    )]
    pub val: Option<ParseString<'a>>,
}

#[cfg(feature = "serde")]
fn is_blank(val: &Option<ParseString<'_>>) -> bool {
    val.as_ref().map_or(true, |val| val.as_str().trim().is_empty())
}''')],
 demo=USE+r'''
fn main(){ let c=parser::Calendar{properties:vec![parser::Property{name:"A".into(),val:"b".into(),params:vec![parser::Parameter{key:"K".into(),val:Some(" ".into())}]}],components:vec![]}; let j=serde_json::to_string(&c).unwrap(); let d:parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(c.to_string(),d.to_string()); assert_eq!(c.properties,d.properties); }
''')
BUGS['c13-lenient']=dict(property='C13',needs='a JSON stream that fails once right in front of the end of a list and then recovers',
 breaks='a failure while the next property is being looked for ends the list as if it were complete',
 edits=[('src/parser/calendar.rs','''    pub properties: Vec<Property<'a>>,
    pub components: Vec<Component<'a>>,
}
''','''    #[cfg_attr(feature = "serde", serde(deserialize_with = "lenient"))]
    pub properties: Vec<Property<'a>>,
    pub components: Vec<Component<'a>>,
}

/// Reads as many elements as there are.
#[cfg(feature = "serde")]
fn lenient<'de, D, T>(deserializer: D) -> Result<Vec<T>, D::Error>
where
    D: serde::Deserializer<'de>,
    T: serde::Deserialize<'de>,
{
    struct Elements<T>(std::marker::PhantomData<T>);
    impl<'de, T: serde::Deserialize<'de>> serde::de::Visitor<'de> for Elements<T> {
        type Value = Vec<T>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a list")
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut seq: A) -> Result<Vec<T>, A::Error> {
            let mut elements = Vec::new();
            while let Ok(Some(element)) = seq.next_element() {
                elements.push(element);
            }
            Ok(elements)
        }
    }
    deserializer.deserialize_seq(Elements(std::marker::PhantomData))
}
''')],
 demo=USE+r'''
struct S(Vec<u8>,usize,usize,bool);
impl std::io::Read for S { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.1==self.2 && !self.3 { self.3=true; return Err(std::io::ErrorKind::ConnectionReset.into()) } if self.1>=self.0.len() { return Ok(0) } b[0]=self.0[self.1]; self.1+=1; Ok(1) } }
fn main(){ let c=parser::Calendar{properties:vec![parser::Property::new_ref("A","b")],components:vec![]}; let j=serde_json::to_vec(&c).unwrap(); for at in 0..j.len() { let r:Result<parser::Calendar,_>=serde_json::from_reader(S(j.clone(),0,at,false)); assert!(r.is_err(),"{}",at); } }
''')
BUGS['c13-map']=dict(property='C13',needs='a parsed property with the same parameter twice, through JSON',
 breaks='parameters go through JSON as a map: a repeated one is lost and their order changes',
 edits=[('src/parser/properties.rs','''    pub val: ParseString<'a>,
    pub params: Vec<Parameter<'a>>,
}
''','''    pub val: ParseString<'a>,
    #[cfg_attr(
        feature = "serde",
        serde(serialize_with = "params_to_map", deserialize_with = "params_from_map")
    )]
    pub params: Vec<Parameter<'a>>,
}

#[cfg(feature = "serde")]
fn params_to_map<S: serde::Serializer>(params: &[Parameter], s: S) -> Result<S::Ok, S::Error> {
    s.collect_map(
        params
            .iter()
            .map(|p| (p.key.as_str(), p.val.as_ref().map(|val| val.as_str()))),
    )
}

#[cfg(feature = "serde")]
fn params_from_map<'a, 'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<Parameter<'a>>, D::Error> {
    let map: std::collections::BTreeMap<String, Option<String>> = serde::Deserialize::deserialize(d)?;
    Ok(map
        .into_iter()
        .map(|(key, val)| Parameter {
            key: key.into(),
            val: val.map(Into::into),
        })
        .collect())
}
''')],
 demo=USE+r'''
fn main(){ let p=parser::Property::try_from("A;K=2;B=1;K=3:x\n").unwrap(); let c=parser::Calendar{properties:vec![p],components:vec![]}; let j=serde_json::to_string(&c).unwrap(); let d:parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(c.to_string(),d.to_string()); }
''')
