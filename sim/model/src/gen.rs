//! Generator of authored content. Every run draws a swarm configuration first,
//! so that some runs are full of one kind of hazard and free of the others.
use crate::rfc::is_text;
use crate::{Cal, Comp, Dt, Form, Prop, Typed};
use rt::{chance, d, logish, pick, range, weighted};

#[derive(Clone, Debug)]
pub struct Opts {
    /// every component gets a UID and DTSTAMP of its own
    pub ids: bool,
    /// 0 tiny, 1 small, 2 medium, 3 large
    pub size: u8,
    pub max_depth: u32,
    /// text may hold carriage returns (no RFC 5545 reader has to accept that)
    pub cr: bool,
    /// names and value types in letters of the other case, which the library keeps apart from the registered ones
    pub cases: bool,
}
impl Opts {
    pub fn any() -> Opts {
        Opts { ids: chance(1, 2), size: weighted(&[3, 6, 3, 1]) as u8, max_depth: *pick(&[1, 2, 3, 6]), cr: false, cases: false }
    }
    pub fn small() -> Opts {
        Opts { ids: chance(1, 2), size: weighted(&[3, 5]) as u8, max_depth: *pick(&[1, 2]), cr: false, cases: false }
    }
    pub fn ids(mut self) -> Opts {
        self.ids = true;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Swarm {
    frags: u32,
    long: u64,
    params: u64,
    multi: u64,
    typed: u64,
    own_uid: u64,
    own_stamp: u64,
    custom: u64,
    maxp: u64,
    opts: Opts,
    n_uid: u64,
    salt: u64,
    /// something of uncommon size, once: 1 a value, 2 a repeated property,
    /// 3 components, 4 parameters, 5 properties, 6 a name
    huge: u8,
}

const CLASSES: &[&[&str]] = &[
    &["a", "word", "Team meeting", "x1", "Lorem ipsum dolor sit amet"],
    &[",", ", ", "a,b", ",,"],
    &[";", "; ", "a;b", ";;"],
    &["\\", "\\\\", "\\n", "\\N", "\\,", "\\;", "C:\\new\\nothing", "\\\\n", "\\:"],
    &[":", "http://example.org/?a=b;c,d", "mailto:a@example.org", "::"],
    &["\n", "\n\n", "line\nline", "\n ", "\n\t", " \n"],
    &["é", "ß", "ñandú", "Привет"],
    &["老虎", "日本語テキスト", "한국어", "\u{3000}"],
    &["😀", "👩‍👩‍👧", "𝒳", "\u{10FFFF}"],
    &["\u{2028}", "\u{2029}", "\u{85}", "\u{a0}", "\u{feff}", "e\u{301}", "\u{200b}", "\u{202e}"],
    &[" ", "  ", "\t", " \t ", "          "],
    &["BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR", "BEGIN:", "\nEND:VCALENDAR\n", "SUMMARY:x", "UID:forged", "DTSTAMP:19700101T000000Z"],
    &["\"", "'", "\"quoted\"", "^n", "=", "%0A", "&amp;", "<b>", "{}", "%s"],
    &["\u{1}", "\u{7f}", "\u{0}", "\u{1b}"],
    &["\r\n", "\r", "a\r\nb", "\r\r", "\r ", "\n\r"],
];

impl Swarm {
    pub fn gen(opts: Opts) -> Swarm {
        let mut frags = 1u32;
        // each class of hazard is on in roughly a third of the runs; sometimes all are
        if chance(1, 6) {
            frags = (1 << CLASSES.len()) - 1;
        } else {
            for i in 1..CLASSES.len() {
                if chance(1, 3) {
                    frags |= 1 << i;
                }
            }
        }
        // control characters are not iCalendar text
        frags &= !(1 << 13);
        if !opts.cr {
            frags &= !(1 << 14);
        }
        Swarm {
            frags,
            long: *pick(&[0, 1, 3, 8]),
            params: *pick(&[0, 2, 5, 9]),
            multi: *pick(&[0, 1, 4]),
            typed: *pick(&[1, 4, 9]),
            own_uid: if opts.ids { 10 } else { *pick(&[7, 0, 10, 5]) },
            own_stamp: if opts.ids { 10 } else { *pick(&[7, 0, 10, 5]) },
            custom: *pick(&[2, 0, 6]),
            maxp: match opts.size {
                0 => 3,
                1 => 6,
                2 => 10,
                _ => *pick(&[12, 40]),
            },
            n_uid: 0,
            salt: d(1 << 20),
            huge: if opts.size == 3 && chance(1, 2) { 1 + d(6) as u8 } else { 0 },
            opts,
        }
    }

    /// A value for a TEXT property (`raw` = false) or one written verbatim.
    pub fn text(&mut self, raw: bool, is_param: bool) -> String {
        let mut s = String::new();
        let n = match weighted(&[2, 6, 4, 2]) {
            0 => 1,
            1 => range(1, 4),
            2 => range(2, 12),
            _ => 0,
        };
        for _ in 0..n {
            let k = d(CLASSES.len() as u64) as usize;
            let k = if self.frags >> k & 1 == 1 { k } else { 0 };
            let f: &str = pick(CLASSES[k]);
            for c in f.chars() {
                match c {
                    '\n' if raw => s.push(' '),
                    '\r' | '"' if is_param => s.push('_'),
                    c => s.push(c),
                }
            }
        }
        if chance(self.long, 12) {
            let target = match d(3) {
                0 => 75 * range(1, 4) as usize + d(9) as usize,
                1 => 40 + d(60) as usize,
                _ => logish(if self.opts.size >= 2 { 4000 } else { 900 }) as usize,
            };
            let unit: String = if s.is_empty() || d(2) == 0 { "abcdefghij".into() } else { s.clone() };
            let unit: Vec<char> = unit.chars().collect();
            let mut i = 0;
            let target = target.saturating_sub(s.len().min(9) * 0);
            while s.len() < target {
                s.push(unit[i % unit.len()]);
                i += 1;
            }
        }
        s
    }

    fn param_name(&mut self) -> String {
        pick(&["CN", "ROLE", "PARTSTAT", "RSVP", "LANGUAGE", "ALTREP", "FMTTYPE", "X-A", "X-FILENAME", "DIR", "SENT-BY", "CUTYPE", "x-low", "X-1-2", "VALUES", "X", "RANGE", "FBTYPE"]).to_string()
    }

    fn params(&mut self, p: &mut Prop) {
        if !chance(self.params, 12) {
            return;
        }
        let n = 1 + logish(7);
        for _ in 0..n {
            let mut k = self.param_name();
            // a name in other letters is another entry
            if let (true, Some((q, _))) = (chance(1, 10), p.params.last()) {
                k = if q.chars().any(|c| c.is_ascii_uppercase()) { q.to_ascii_lowercase() } else { q.to_ascii_uppercase() };
            }
            if p.params.iter().any(|(q, _)| *q == k) {
                continue;
            }
            let v = match d(6) {
                0 => pick(&["yes", "TRUE", "FALSE", "true", "false", "null", "0", "1", "none", "-1", "1.0"]).to_string(),
                1 => "REQ-PARTICIPANT".to_string(),
                2 => String::new(),
                _ => self.text(true, true),
            };
            p.params.push((k, v));
        }
    }

    fn value_param(&mut self, p: &mut Prop) {
        // now and then the type of the value is stated
        if chance(1, 8) && !p.params.iter().any(|(k, _)| k == "VALUE") {
            let v = pick(&["TEXT", "URI", "X-CUSTOM", "INTEGER", "BOOLEAN", "DURATION", "BINARY", "CAL-ADDRESS", "DATE", "DATE-TIME", "FLOAT", "PERIOD", "RECUR", "TIME", "UTC-OFFSET"]);
            let v = match self.opts.cases && chance(1, 3) {
                true => pick(&["text", "Text", "uri", "integer", "Date"]),
                false => v,
            };
            p.params.push(("VALUE".into(), v.to_string()));
        }
    }

    fn finish(&mut self, name: &str, multi: bool) -> Prop {
        let mut p = Prop::new(name, "");
        p.multi = multi;
        self.params(&mut p);
        self.value_param(&mut p);
        let raw = !is_text(name, &p.params);
        p.val = self.text(raw, false);
        p
    }

    fn custom_name(&mut self) -> String {
        if self.opts.cases && chance(1, 4) {
            return pick(&["summary", "Summary", "description", "Comment", "location", "x-foo", "categories"]).to_string();
        }
        pick(&["X-FOO", "X-BAR-BAZ", "x-lower-case", "X-A", "COLOR", "IMAGE", "CONFERENCE", "X-ALT-DESC", "X-WR-X", "X-1", "FOOBAR", "Mixed-Case", "X-MICROSOFT-CDO-BUSYSTATUS", "ENDING", "BEGINNER", "END-DATE"]).to_string()
    }

    pub fn uid(&mut self) -> String {
        self.n_uid += 1;
        if !self.opts.ids && chance(1, 24) {
            return pick(&["", "0", "-", "nil", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "@", "uid"]).to_string();
        }
        match d(8) {
            // one that looks like an invented one, in upper or lower case, or not quite
            k @ (6 | 7) => {
                let (a, b) = ((self.salt + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15), self.n_uid);
                let u = format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", a as u32, (a >> 32) as u16, (a >> 48) & 0xfff, b & 0xfff, 0xabcd_ef00_0000 + b);
                let u = if k == 6 { u.to_uppercase() } else { u };
                match d(6) {
                    0 => format!("{{{}}}", u),
                    1 => format!("urn:uuid:{}", u),
                    2 => u.replace('-', ""),
                    _ => u,
                }
            }
            5 => {
                let t = self.text(false, false);
                format!("{}-{}-{}", self.salt, self.n_uid, t)
            }
            4 => format!("uid;{}\\{}@example.org", self.salt, self.n_uid),
            _ => format!("uid-{}-{}@example.org", self.salt, self.n_uid),
        }
    }

    pub fn dt(&mut self, forms: &[u8]) -> Dt {
        let y = match d(6) {
            0..=3 => 1990 + d(60) as i32,
            4 => *pick(&[1970, 1999, 2000, 2024, 2038, 2100]),
            _ => 1 + d(9999) as i32,
        };
        let (mo, dd) = match d(5) {
            0 => (1, 1),
            1 => (12, 31),
            2 if is_leap(y) => (2, 29),
            _ => {
                let m = 1 + d(12) as u32;
                (m, 1 + d(days(y, m) as u64) as u32)
            }
        };
        let (h, mi, s) = match d(4) {
            0 => (0, 0, 0),
            1 => (23, 59, 59),
            _ => (d(24) as u32, d(60) as u32, d(60) as u32),
        };
        let form = match *pick(forms) {
            0 => Form::Utc,
            1 => Form::Floating,
            2 => Form::Tz(match d(4) {
                0 => "Europe/Berlin".into(),
                1 => pick(&["America/New_York", "Asia/Kolkata", "UTC", "America/Argentina/Buenos_Aires", "Etc/GMT+12"]).to_string(),
                2 => pick(&["/example.org/Custom:Zone", "Zone; with, odd name", "Mitteleuropäische Zeit", "GMT Standard Time"]).to_string(),
                _ => "Europe/London".into(),
            }),
            _ => Form::Date,
        };
        if chance(1, 14) {
            // moments that mean something to somebody
            let (y, mo, d, h, mi, s) = *pick(&[
                (1970, 1, 1, 0, 0, 0), (1970, 1, 1, 0, 0, 1), (1969, 12, 31, 23, 59, 59), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (1601, 1, 1, 0, 0, 0), (1900, 1, 1, 0, 0, 0),
                (1582, 10, 15, 0, 0, 0), (2038, 1, 19, 3, 14, 7), (2038, 1, 19, 3, 14, 8), (2000, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 59), (2106, 2, 7, 6, 28, 16), (2024, 2, 29, 12, 0, 0), (1900, 3, 1, 0, 0, 0),
            ]);
            return Dt { y, mo, d, h, mi, s, form };
        }
        Dt { y, mo, d: dd, h, mi, s, form }
    }

    fn stamp(&mut self, name: &str) -> Prop {
        let t = self.dt(&[0]);
        Prop { name: name.into(), params: vec![], val: t.text(), multi: false, typed: Some(Typed::Utc(t)) }
    }
    /// A DTSTAMP as authors supply it: mostly a proper one.
    fn own_stamp(&mut self) -> Prop {
        match d(10) {
            0..=6 => self.stamp("DTSTAMP"),
            7 | 8 => {
                // a date-time of another form
                let t = self.dt(&[0, 1, 2, 3]);
                Prop { name: "DTSTAMP".into(), params: t.params(), val: t.text(), multi: false, typed: None }
            }
            _ => {
                let mut p = Prop::new("DTSTAMP", *pick(&["20200101T000000", "2020-01-01T00:00:00Z", "", "now", "20200101", "20161231T235960Z", "19970714T1730Z"]));
                self.params(&mut p);
                p
            }
        }
    }
    fn dpt(&mut self, name: &str) -> Prop {
        let t = self.dt(&[0, 1, 2, 3]);
        Prop { name: name.into(), params: t.params(), val: t.text(), multi: false, typed: Some(Typed::Dpt(t)) }
    }
    fn enumv(&mut self, name: &str, xs: &[&str], f: fn(u8) -> Typed) -> Prop {
        let i = d(xs.len() as u64) as usize;
        Prop { name: name.into(), params: vec![], val: xs[i].into(), multi: false, typed: Some(f(i as u8)) }
    }
    fn int(&mut self, name: &str, max: u64) -> Prop {
        let n = match d(3) {
            0 => d(3),
            1 => max,
            _ => d(max + 1),
        };
        Prop { name: name.into(), params: vec![], val: n.to_string(), multi: false, typed: Some(Typed::Int(n as u32)) }
    }
    fn secs(&mut self) -> i64 {
        match d(5) {
            0 => 0,
            1 => 60 * range(1, 120) as i64,
            2 => 86_400 * range(1, 400) as i64,
            3 => range(1, 100) as i64,
            _ => logish(300_000_000) as i64,
        }
    }

    pub fn typed_prop(&mut self, kind: &str) -> Prop {
        let mut p = self.typed_alone(kind);
        // dates may have parameters besides those that make them what they are
        // and so may anything else
        let n = if matches!(p.typed, Some(Typed::Dpt(_) | Typed::Utc(_))) { 3 } else { 8 };
        if p.typed.is_some() && chance(1, n) {
            self.params(&mut p);
        }
        p
    }
    fn typed_alone(&mut self, kind: &str) -> Prop {
        let ev = kind == "VEVENT" || kind == "VTODO";
        match d(if ev { 18 } else { 7 }) {
            0 => self.int("SEQUENCE", u32::MAX as u64),
            1 => self.int("PRIORITY", 10),
            2 => self.enumv("CLASS", &["PUBLIC", "PRIVATE", "CONFIDENTIAL"], Typed::Class),
            3 => self.stamp("CREATED"),
            4 => self.stamp("LAST-MODIFIED"),
            5 => {
                let t = self.text(true, false);
                let mut p = Prop::new("URL", &format!("https://example.org/{}", t));
                p.typed = Some(Typed::Text);
                p
            }
            6 => {
                let v = self.text(false, false);
                let mut p = Prop::new(if d(2) == 0 { "SUMMARY" } else { "DESCRIPTION" }, &v);
                p.typed = Some(Typed::Text);
                p
            }
            7..=9 => self.dpt("DTSTART"),
            10 if kind == "VTODO" => self.dpt("DUE"),
            10 | 11 => self.dpt("DTEND"),
            12 if kind == "VTODO" => self.stamp("COMPLETED"),
            13 if kind == "VTODO" => self.int("PERCENT-COMPLETE", 100),
            14 if kind == "VTODO" => self.enumv("STATUS", &["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"], Typed::TodoStatus),
            12..=14 => self.enumv("STATUS", &["TENTATIVE", "CONFIRMED", "CANCELLED"], Typed::EventStatus),
            15 => {
                let v = self.text(false, false);
                let u = self.text(true, true);
                Prop { name: "LOCATION".into(), params: vec![("VVENUE".into(), u.clone())], val: v, multi: false, typed: Some(Typed::VenueLocation(u)) }
            }
            16 => {
                let v = self.text(false, false);
                let mut p = Prop::new("LOCATION", &v);
                p.typed = Some(Typed::Text);
                p
            }
            _ => {
                let n = self.secs();
                Prop { name: "DURATION".into(), params: vec![], val: dur_text(n), multi: false, typed: Some(Typed::Duration(n)) }
            }
        }
    }

    fn free_prop(&mut self) -> Prop {
        if chance(self.custom, 10) {
            let n = self.custom_name();
            return self.finish(&n, false);
        }
        let n = *pick(&[
            "SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "CATEGORIES", "CONTACT", "RELATED-TO", "RESOURCES", "REQUEST-STATUS", "TZNAME", "TZID", "TRANSP", "ACTION", "URL", "ATTACH",
            "ATTENDEE", "ORGANIZER", "GEO", "RRULE", "EXDATE", "RDATE", "RECURRENCE-ID", "FREEBUSY", "TZURL", "METHOD", "REPEAT", "TZOFFSETTO", "DURATION", "STATUS", "CLASS", "PRIORITY", "IANA-PROP", "TZOFFSETFROM", "COMPLETED", "DUE", "CALSCALE",
        ]);
        self.finish(n, false)
    }

    pub fn multi_props(&mut self, c: &mut Comp) {
        if !chance(self.multi, 6) {
            return;
        }
        for _ in 0..range(1, 3) {
            let name = match d(6) {
                5 => self.custom_name(),
                4 => pick(&["RELATED-TO", "REQUEST-STATUS", "X-DUP"]).to_string(),
                _ => pick(&["ATTENDEE", "CATEGORIES", "COMMENT", "ATTACH", "EXDATE", "RDATE", "CONTACT", "RESOURCES", "RELATED", "RSTATUS", "FREEBUSY", "X-PROP"]).to_string(),
            };
            for _ in 0..range(1, 4) {
                let p = self.finish(&name, true);
                c.props.push(p);
            }
        }
    }

    fn huge(&mut self, c: &mut Comp) {
        if self.huge == 0 || !chance(1, 3) {
            return;
        }
        let many = *pick(&[130u64, 260, 300, 520, 1030]);
        match self.huge {
            1 => {
                let mut p = self.finish(*pick(&["ATTACH", "DESCRIPTION", "X-ALT-DESC", "COMMENT"]), false);
                if c.kind == "VALARM" && p.name == "DESCRIPTION" {
                    return;
                }
                let raw = !is_text(&p.name, &p.params);
                let mut unit = self.text(raw, false);
                if unit.is_empty() {
                    unit.push('=');
                }
                let n = *pick(&[8_100usize, 16_500, 65_400, 65_540, 131_100]) + d(200) as usize;
                while p.val.len() < n {
                    p.val.push_str(&unit);
                }
                c.set(p);
            }
            2 => {
                let name = *pick(&["ATTENDEE", "CATEGORIES", "COMMENT", "EXDATE", "X-PROP"]);
                for i in 0..many {
                    let mut p = Prop::new(name, &format!("{}-{}", i * 7919 % many, self.salt));
                    p.multi = true;
                    c.props.push(p);
                }
            }
            4 => {
                let mut p = Prop::new("X-FOO", "many parameters");
                for i in 0..many {
                    p.params.push((format!("X-{}", i * 7919 % 1031), i.to_string()));
                }
                c.set(p);
            }
            5 => {
                for i in 0..many {
                    c.set(Prop::new(&format!("X-{}-{}", i * 7919 % 1031, self.salt), &i.to_string()));
                }
            }
            6 => {
                let n = *pick(&[60usize, 80, 300, 5000]);
                let mut p = Prop::new(&format!("X-{}", "LONG-".repeat(n / 5)), "long names");
                p.params.push((format!("X-{}", "PARAM-".repeat(n / 6)), "y".repeat(n)));
                c.set(p);
            }
            _ => return,
        }
        self.huge = 0;
    }

    pub fn comp(&mut self, kind: &str, depth: u32) -> Comp {
        let mut c = Comp { kind: kind.into(), ..Default::default() };
        if kind == "VALARM" {
            let audio = chance(1, 3);
            c.props.push(Prop { name: "ACTION".into(), params: vec![], val: if audio { "AUDIO" } else { "DISPLAY" }.into(), multi: false, typed: Some(Typed::Text) });
            if chance(1, 3) {
                let t = self.dt(&[0, 1, 2]);
                let mut ps = t.params();
                ps.push(("VALUE".into(), "DATE-TIME".into()));
                c.props.push(Prop { name: "TRIGGER".into(), params: ps, val: t.text(), multi: false, typed: Some(Typed::TriggerAbs(t)) });
            } else {
                let mut n = self.secs();
                if chance(1, 2) {
                    n = -n;
                }
                let rel = d(3) as u8;
                let ps = match rel {
                    1 => vec![("RELATED".into(), "START".into())],
                    2 => vec![("RELATED".into(), "END".into())],
                    _ => vec![],
                };
                c.props.push(Prop { name: "TRIGGER".into(), params: ps, val: dur_text(n), multi: false, typed: Some(Typed::TriggerDur(n, rel)) });
            }
            if chance(1, 8) {
                let mut p = c.props.pop().unwrap();
                self.params(&mut p);
                c.props.push(p);
            }
            if !audio {
                let v = self.text(false, false);
                c.props.push(Prop { name: "DESCRIPTION".into(), params: vec![], val: v, multi: false, typed: Some(Typed::Text) });
            }
            if chance(1, 3) {
                let n = self.secs();
                c.props.push(Prop { name: "DURATION".into(), params: vec![], val: dur_text(n), multi: false, typed: Some(Typed::Duration(n)) });
                let r = d(100);
                c.props.push(Prop { name: "REPEAT".into(), params: vec![], val: r.to_string(), multi: false, typed: Some(Typed::Int(r as u32)) });
            }
        }
        if kind == "VVENUE" {
            for n in ["STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE"] {
                if chance(1, 3) {
                    let v = self.text(false, false);
                    let mut p = Prop::new(n, &v);
                    p.typed = Some(Typed::Text);
                    c.props.push(p);
                }
            }
        }
        let n = range(0, self.maxp);
        for _ in 0..n {
            let p = if chance(self.typed, 12) { self.typed_prop(kind) } else { self.free_prop() };
            let locked = kind == "VALARM" && matches!(p.name.as_str(), "ACTION" | "TRIGGER" | "DESCRIPTION" | "DURATION" | "REPEAT");
            if !locked {
                c.set(p);
            }
        }
        if let Some(mut p) = c.get("DTSTART").cloned() {
            // a whole day
            if chance(1, 3) && matches!(&p.typed, Some(Typed::Dpt(t)) if t.form == Form::Date) {
                p.name = "DTEND".into();
                c.set(p);
            }
        }
        self.multi_props(&mut c);
        self.huge(&mut c);
        if chance(self.own_uid, 10) {
            let u = self.uid();
            let mut p = Prop::new("UID", &u);
            p.typed = Some(Typed::Text);
            if !self.opts.ids && chance(1, 8) {
                p.typed = None;
                self.params(&mut p);
                p.multi = chance(1, 3);
            }
            c.props.push(p);
        }
        if chance(self.own_stamp, 10) {
            let mut p = self.own_stamp();
            if !self.opts.ids && p.typed.is_none() && chance(1, 3) {
                p.multi = true;
            }
            c.props.push(p);
        }
        if depth < self.opts.max_depth {
            let k = match weighted(&[5, 2, 1]) {
                0 => 0,
                1 => 1,
                _ => range(1, if self.opts.size >= 2 { 6 } else { 3 }),
            };
            for _ in 0..k {
                let kind = *pick(&["VALARM", "VALARM", "VALARM", "STANDARD", "DAYLIGHT", "X-NODE", "X-NODE-A", "VEVENT", "x-low", "VTODO"]);
                let kind = if kind == "VALARM" && !matches!(c.kind.as_str(), "VEVENT" | "VTODO" | "VALARM" | "VVENUE") && d(2) == 0 { "X-N" } else { kind };
                let ch = self.comp(kind, depth + 1);
                c.children.push(ch);
                self.twin(&mut c.children);
            }
        }
        c
    }

    /// Now and then the same component again, right after the first or later.
    fn twin(&mut self, v: &mut Vec<Comp>) {
        if v.len() > 12 || !chance(1, 10) {
            return;
        }
        let mut c = v.pop().unwrap();
        if chance(2, 3) {
            // with nothing left to invent
            if c.get("UID").is_none() {
                let u = self.uid();
                c.props.push(Prop { typed: Some(Typed::Text), ..Prop::new("UID", &u) });
            }
            if c.get("DTSTAMP").is_none() {
                let p = self.own_stamp();
                c.props.push(p);
            }
        }
        let at = d(v.len() as u64 + 1) as usize;
        v.push(c.clone());
        if chance(1, 3) {
            v.insert(at, c);
        } else {
            v.push(c);
        }
    }

    pub fn cal_props(&mut self) -> Vec<Prop> {
        let mut v = vec![];
        if !chance(1, 4) {
            v.push(Prop::new("VERSION", "2.0"));
            v.push(Prop::new("PRODID", "ICALENDAR-RS"));
            v.push(Prop::new("CALSCALE", "GREGORIAN"));
        } else if chance(1, 2) {
            // some of what a calendar should have, in any order
            let mut names = vec![("VERSION", "2.0"), ("PRODID", "-//Example; Inc.//Calendar, v1//EN"), ("CALSCALE", "GREGORIAN"), ("METHOD", "PUBLISH"), ("VERSION", "1.0"), ("CALSCALE", "JULIAN")];
            for _ in 0..range(1, 4) {
                let i = d(names.len() as u64) as usize;
                let (n, val) = names.remove(i);
                v.push(Prop::new(n, val));
            }
        }
        for _ in 0..logish(5) {
            match d(6) {
                0 => {
                    let t = self.text(false, false);
                    self.pair(&mut v, Prop::new("NAME", &t), Prop::new("X-WR-CALNAME", &t));
                }
                1 => {
                    let t = self.text(false, false);
                    self.pair(&mut v, Prop::new("DESCRIPTION", &t), Prop::new("X-WR-CALDESC", &t));
                }
                2 => {
                    let t = self.text(false, false);
                    self.pair(&mut v, Prop::new("TIMEZONE-ID", &t), Prop::new("X-WR-TIMEZONE", &t));
                }
                3 => {
                    let n = self.secs();
                    let n = dur_text(if chance(1, 6) { -n } else { n });
                    let a = Prop { name: "REFRESH-INTERVAL".into(), params: vec![("VALUE".into(), "DURATION".into())], val: n.clone(), multi: false, typed: None };
                    self.pair(&mut v, a, Prop::new("X-PUBLISHED-TTL", &n));
                }
                4 => {
                    let p = self.finish("METHOD", false);
                    v.push(p);
                }
                _ => {
                    let n = self.custom_name();
                    let p = self.finish(&n, false);
                    v.push(p);
                }
            }
        }
        v
    }

    /// Two properties that say the same, mostly.
    fn pair(&mut self, v: &mut Vec<Prop>, a: Prop, mut b: Prop) {
        match d(8) {
            4 => v.push(a),
            5 => v.push(b),
            6 => {
                b.val = if b.name == "X-PUBLISHED-TTL" { dur_text(self.secs()) } else { self.text(false, false) };
                v.push(a);
                v.push(b);
            }
            7 => {
                v.push(b);
                v.push(a);
            }
            _ => {
                v.push(a);
                v.push(b);
            }
        }
    }

    pub fn cal(&mut self) -> Cal {
        let props = self.cal_props();
        let n = match self.opts.size {
            0 => range(0, 2),
            1 => range(1, 3),
            2 => range(1, 8),
            _ => range(2, 30),
        };
        let mut comps = vec![];
        for _ in 0..n {
            let k = self.top_kind();
            comps.push(self.comp(k, 1));
            self.twin(&mut comps);
        }
        if self.huge == 3 {
            for i in 0..*pick(&[130u64, 260, 520, 1030]) {
                let mut c = Comp { kind: pick(&["VEVENT", "VTODO", "VEVENT", "X-NODE"]).to_string(), ..Default::default() };
                let u = self.uid();
                let mut p = Prop::new("UID", &u);
                p.typed = Some(Typed::Text);
                c.props.push(p);
                c.props.push(Prop::new("X-FOO", &i.to_string()));
                if chance(self.own_stamp, 10) {
                    let p = self.own_stamp();
                    c.props.push(p);
                }
                comps.push(c);
            }
        }
        Cal { props, comps }
    }
    pub fn top_kind(&mut self) -> &'static str {
        pick(&["VEVENT", "VEVENT", "VTODO", "VVENUE", "VEVENT", "VTODO", "VJOURNAL", "VTIMEZONE", "X-NODE", "VFREEBUSY"])
    }
}

pub fn is_leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn days(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        2 => 28 + is_leap(y) as u32,
        _ => 30,
    }
}
/// civil date-time to seconds since the epoch
pub fn epoch(y: i32, m: u32, dd: u32, h: u32, mi: u32, s: u32) -> i64 {
    let y2 = y as i64 - (m <= 2) as i64;
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * ((m as i64 + 9) % 12) + 2) / 5 + dd as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    (era * 146097 + doe - 719468) * 86400 + h as i64 * 3600 + mi as i64 * 60 + s as i64
}
/// "19700101T000000Z" to seconds since the epoch
pub fn parse_utc(t: &str) -> Option<i64> {
    let b = t.as_bytes();
    if b.len() != 16 || b[8] != b'T' || b[15] != b'Z' {
        return None;
    }
    let n = |a: usize, e: usize| -> Option<i64> {
        if !b[a..e].iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        t[a..e].parse().ok()
    };
    let (y, m, dd, h, mi, s) = (n(0, 4)?, n(4, 6)?, n(6, 8)?, n(9, 11)?, n(11, 13)?, n(13, 15)?);
    if !(1..=12).contains(&m) || dd < 1 || dd > days(y as i32, m as u32) as i64 || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    Some(epoch(y as i32, m as u32, dd as u32, h as u32, mi as u32, s as u32))
}

/// The form in which the library writes a duration of whole seconds; the content
/// oracle takes the text from the object instead, so this only has to be valid.
pub fn dur_text(n: i64) -> String {
    if n == 0 {
        "P0D".into()
    } else if n < 0 {
        format!("-PT{}S", -n)
    } else {
        format!("PT{}S", n)
    }
}

/// Any other form RFC 5545 has for it.
pub fn dur_other(n: i64) -> String {
    let sign = if n < 0 { "-" } else { *pick(&["", "", "+"]) };
    let n = n.abs();
    let full = |d: i64, r: i64| {
        let (h, m, s) = (r / 3600, r / 60 % 60, r % 60);
        let mut t = String::new();
        // hours and seconds only with minutes between them
        if h > 0 {
            t += &format!("{}H", h);
        }
        if m > 0 || h > 0 && s > 0 {
            t += &format!("{}M", m);
        }
        if s > 0 {
            t += &format!("{}S", s);
        }
        match (d, t.is_empty()) {
            (0, true) => "PT0S".to_string(),
            (0, false) => format!("PT{}", t),
            (_, true) => format!("P{}D", d),
            _ => format!("P{}DT{}", d, t),
        }
    };
    let v = match d(7) {
        0 if n % 604_800 == 0 => format!("P{}W", n / 604_800),
        1 if n % 86_400 == 0 => format!("P{}D", n / 86_400),
        2 if n % 3600 == 0 => format!("PT{}H", n / 3600),
        3 if n % 60 == 0 => format!("PT{}M", n / 60),
        4 => format!("P{}DT{}H{}M{}S", n / 86_400, n / 3600 % 24, n / 60 % 60, n % 60),
        5 => full(0, n),
        6 => format!("PT{:03}S", n),
        _ => full(n / 86_400, n % 86_400),
    };
    format!("{}{}", sign, v)
}
