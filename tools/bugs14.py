# batch 14
USE='''use icalendar::*;
#[allow(unused_imports)]
use std::fmt::Write as _;
'''
BUGS={}
BUGS['c14-ambig']=dict(property='C14',needs='a date-time of chrono-tz in the hour clocks show twice, handed to from_date_time',
 breaks='it is not the date-time in that zone any more but one in UTC, so that an instant comes out where there must be none',
 edits=[('src/components/date_time.rs','''        Self::WithTimezone {
            date_time: dt.naive_local(),
            tzid: dt.offset().tz_id().to_owned(),
        }
    }''','''        let date_time = dt.naive_local();
        if dt.timezone().from_local_datetime(&date_time).single().is_none() {
            return Self::Utc(dt.with_timezone(&Utc));
        }
        Self::WithTimezone {
            date_time,
            tzid: dt.offset().tz_id().to_owned(),
        }
    }''')],
 demo=USE+r'''
use chrono::TimeZone;
fn main(){ let t=chrono_tz::Europe::Berlin.from_utc_datetime(&chrono::NaiveDate::from_ymd_opt(2023,10,29).unwrap().and_hms_opt(0,30,0).unwrap());
 assert!(matches!(CalendarDateTime::from_date_time(t),CalendarDateTime::WithTimezone{..})); }
''')
BUGS['c10-errlines']=dict(property='C10',needs='a document of many lines that is refused with a report of where',
 breaks='the effort of the report grows with the square of the lines',
 edits=[('src/parser/utils.rs','''        let line_number = input[..offset].matches('\\n').count() + 1;''','''        let line_number = (0..=offset)
            .take_while(|n| input[..offset].split('\\n').nth(*n).is_some())
            .count();''')],
 demo=USE+r'''
fn main(){ let mut s=String::from("BEGIN:VCALENDAR\r\n"); for i in 0..60000 { s.push_str(&format!("X-A:{}\r\n",i)); } s.push_str("END:VEVENT\r\n");
 let t=std::time::Instant::now(); assert!(s.parse::<Calendar>().is_err()); assert!(t.elapsed().as_secs()<4); }
''')
BUGS['c08-lastfold']=dict(property='C08',needs='a fold within the last line of a document whose final line break is missing',
 breaks='the fold stays',
 edits=[('src/parser/utils.rs','''    input
        .split("\\r\\n ")''','''    if let (true, Some(last)) = (
        input.starts_with("BEGIN:") && !input.ends_with('\\n'),
        input.rfind('\\n'),
    ) {
        // the last line is not complete, so it needs no unfolding
        return unfold(&input[..=last]) + &input[last + 1..];
    }
    input
        .split("\\r\\n ")''')],
 demo=USE+r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nX-A:b\r\nEND:VCALEN\r\n DAR"; let c:Calendar=s.parse().unwrap(); assert_eq!(c.property_value("X-A"),Some("b")); }
''')
BUGS['c07-wide']=dict(property='C07',needs='a character of four octets where a line has to be folded',
 breaks='lines get longer than 75 octets',
 edits=[('src/properties.rs','''        while !line.is_char_boundary(next_pos) {
            next_pos -= 1;
        }
        // don't''','''        let end = next_pos;
        while !line.is_char_boundary(next_pos) {
            next_pos -= 1;
        }
        if end - next_pos > 2 && len - next_pos > 4 {
            next_pos += 4;
        }
        // don't''')],
 demo=USE+r'''
fn main(){ for n in 1..80 { let s:String=Property::new("X-A",format!("{}{}","a".repeat(n),"\u{1f600}".repeat(60))).try_into().unwrap(); for l in s.split("\r\n") { assert!(l.len()<=75,"{l}"); } } }
''')
BUGS['c05-quotval']=dict(property='C05',needs='a value not text in quotes',
 breaks='the quotes go missing',
 edits=[('src/parser/properties.rs','''            val: parsed.val.as_ref().to_owned(),
            params: parsed''','''            val: match determin_value_type(&parsed.name, &parsed.params) {
                Some(ValueType::Uri) => parsed.val.as_ref().trim_matches('"').to_owned(),
                _ => parsed.val.as_ref().to_owned(),
            },
            params: parsed''')],
 demo=USE+r'''
fn main(){ let p:Property="URL:\"http://a\"\r\n".parse().unwrap(); assert_eq!(p.value(),"\"http://a\""); }
''')
BUGS['c05-backslash']=dict(property='C05',needs='a text that ends in a backslash followed by a line break',
 breaks='the line break goes missing',
 edits=[('src/parser/parsed_string.rs','''                Some('n' | 'N') => unescaped.push('\\n'),''','''                // a line continued by a backslash is one line
                Some('n' | 'N') if unescaped.ends_with('\\\\') && chars.as_str().is_empty() => (),
                Some('n' | 'N') => unescaped.push('\\n'),''')],
 demo=USE+r'''
fn main(){ let mut e=Event::new(); e.summary("a\\\n"); let c=Calendar::from(e.done()); let s=c.to_string(); let d:Calendar=s.parse().unwrap(); assert_eq!(d[0].as_event().unwrap().get_summary(),Some("a\\\n")); }
''')
BUGS['c13-tiny']=dict(property='C13',needs='a parameter whose value is the word false, in JSON',
 breaks='it comes back without a value',
 edits=[('src/parser/parameters.rs','''    pub val: Option<ParseString<'a>>,''','''    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "unflagged")
    )]
    pub val: Option<ParseString<'a>>,'''),('src/parser/parameters.rs','''impl<'a> Parameter<'a> {''','''#[cfg(feature = "serde")]
fn unflagged(val: &Option<ParseString<'_>>) -> bool {
    val.as_ref().map_or(true, |val| val.as_str() == "false")
}

impl<'a> Parameter<'a> {''')],
 demo=r'''
fn main(){ let s="BEGIN:VCALENDAR\r\nX-A;RSVP=false:b\r\nEND:VCALENDAR\r\n"; let c=icalendar::parser::read_calendar(s).unwrap(); let j=serde_json::to_string(&c).unwrap(); let d:icalendar::parser::Calendar=serde_json::from_str(&j).unwrap(); assert_eq!(format!("{:?}",c.properties),format!("{:?}",d.properties)); }
''')
