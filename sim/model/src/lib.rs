//! The reference model: calendars as plain data, a generator for them, an
//! RFC 5545 reader and writer written independently of the library, and the
//! comparison all content oracles use.
pub mod gen;
pub mod rfc;
pub mod zones;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Form {
    Utc,
    Floating,
    Tz(String),
    Date,
}

/// A calendar date or date-time as an author means it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dt {
    pub y: i32,
    pub mo: u32,
    pub d: u32,
    pub h: u32,
    pub mi: u32,
    pub s: u32,
    pub form: Form,
}

impl Dt {
    pub fn text(&self) -> String {
        let date = format!("{:04}{:02}{:02}", self.y, self.mo, self.d);
        match self.form {
            Form::Date => date,
            Form::Utc => format!("{}T{:02}{:02}{:02}Z", date, self.h, self.mi, self.s),
            _ => format!("{}T{:02}{:02}{:02}", date, self.h, self.mi, self.s),
        }
    }
    pub fn params(&self) -> Vec<(String, String)> {
        match &self.form {
            Form::Date => vec![("VALUE".into(), "DATE".into())],
            Form::Tz(z) => vec![("TZID".into(), z.clone())],
            _ => vec![],
        }
    }
}

/// What an author set through a typed setter and what the typed getter must give back.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Typed {
    Utc(Dt),
    Dpt(Dt),
    Int(u32),
    Class(u8),
    EventStatus(u8),
    TodoStatus(u8),
    /// seconds, related: 0 none 1 start 2 end
    TriggerDur(i64, u8),
    TriggerAbs(Dt),
    Duration(i64),
    VenueLocation(String),
    Text,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prop {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub val: String,
    /// added with add_multi_property
    pub multi: bool,
    pub typed: Option<Typed>,
}

impl Prop {
    pub fn new(name: &str, val: &str) -> Prop {
        Prop { name: name.into(), params: vec![], val: val.into(), multi: false, typed: None }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Comp {
    pub kind: String,
    pub props: Vec<Prop>,
    pub children: Vec<Comp>,
}

impl Comp {
    pub fn get(&self, name: &str) -> Option<&Prop> {
        self.props.iter().find(|p| p.name == name)
    }
    pub fn set(&mut self, p: Prop) {
        self.props.retain(|q| q.name != p.name);
        self.props.push(p);
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Comp)) {
        f(self);
        for c in &self.children {
            c.walk(f)
        }
    }
    pub fn walk_mut(&mut self, f: &mut impl FnMut(&mut Comp)) {
        f(self);
        for c in &mut self.children {
            c.walk_mut(f)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Cal {
    pub props: Vec<Prop>,
    pub comps: Vec<Comp>,
}

impl Cal {
    pub fn as_comp(&self) -> Comp {
        Comp { kind: "VCALENDAR".into(), props: self.props.clone(), children: self.comps.clone() }
    }
}

type Canon<'a> = Vec<(&'a str, Vec<(&'a str, &'a str)>, &'a str)>;

fn canon(props: &[Prop]) -> Canon<'_> {
    let mut v: Canon<'_> = props
        .iter()
        .map(|p| {
            let mut ps: Vec<(&str, &str)> = p.params.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            ps.sort();
            (p.name.as_str(), ps, p.val.as_str())
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(b.0)); // stable: the order of same-named properties counts
    v
}

fn brief(s: &str) -> String {
    if s.len() > 160 {
        let mut n = 150;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{:?}... ({} bytes)", &s[..n], s.len())
    } else {
        format!("{:?}", s)
    }
}

fn show(p: &(&str, Vec<(&str, &str)>, &str)) -> String {
    let ps: Vec<String> = p.1.iter().map(|(k, v)| format!("{}={}", k, brief(v))).collect();
    format!("{} [{}] {}", p.0, ps.join(" "), brief(p.2))
}

/// How invented UIDs and time stamps are treated in a comparison.
#[derive(Clone, Copy, PartialEq)]
pub enum Inv {
    /// nothing may be invented
    No,
    /// components without a UID or DTSTAMP have been given one
    Yes,
}

/// Compare the content of a component; `sink` receives invented (path, UID or
/// DTSTAMP, value) triples.
pub fn compare(exp: &Comp, got: &Comp, inv: Inv, path: &str, sink: &mut Vec<(String, &'static str, String)>) -> Result<(), String> {
    let path = format!("{}/{}", path, exp.kind);
    if exp.kind != got.kind {
        return Err(format!("{}: component kind is {:?} instead of {:?}", path, got.kind, exp.kind));
    }
    let e = canon(&exp.props);
    let mut g = canon(&got.props);
    if inv == Inv::Yes && exp.kind != "VCALENDAR" {
        for name in ["UID", "DTSTAMP"] {
            if !e.iter().any(|p| p.0 == name) {
                let idx: Vec<usize> = g.iter().enumerate().filter(|(_, p)| p.0 == name).map(|(i, _)| i).collect();
                if idx.len() != 1 {
                    return Err(format!("{}: {} invented {} properties instead of one", path, idx.len(), name));
                }
                let p = g.remove(idx[0]);
                if !p.1.is_empty() || p.2.is_empty() {
                    return Err(format!("{}: invented {} is {}", path, name, show(&p)));
                }
                sink.push((path.clone(), if name == "UID" { "UID" } else { "DTSTAMP" }, p.2.to_string()));
            }
        }
    }
    for i in 0..e.len().max(g.len()) {
        match (e.get(i), g.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(a), Some(b)) => return Err(format!("{}: property differs: expected {} but got {}", path, show(a), show(b))),
            (Some(a), None) => return Err(format!("{}: property is missing: {}", path, show(a))),
            (None, Some(b)) => return Err(format!("{}: property nobody put there: {}", path, show(b))),
            _ => {}
        }
    }
    if exp.children.len() != got.children.len() {
        return Err(format!(
            "{}: {} components instead of {} (expected {:?}, got {:?})",
            path,
            got.children.len(),
            exp.children.len(),
            exp.children.iter().map(|c| c.kind.as_str()).collect::<Vec<_>>(),
            got.children.iter().map(|c| c.kind.as_str()).collect::<Vec<_>>()
        ));
    }
    for (i, (a, b)) in exp.children.iter().zip(&got.children).enumerate() {
        compare(a, b, inv, &format!("{}#{}", path, i), sink)?;
    }
    Ok(())
}

pub fn compare_cal(exp: &Cal, got: &Cal, inv: Inv) -> Result<Vec<(String, &'static str, String)>, String> {
    let mut sink = vec![];
    compare(&exp.as_comp(), &got.as_comp(), inv, "", &mut sink)?;
    Ok(sink)
}

/// Put invented values into the model, so that later comparisons are exact.
pub fn adopt_invented(exp: &mut Comp, got: &Comp) {
    if exp.kind != "VCALENDAR" {
        for name in ["UID", "DTSTAMP"] {
            if exp.get(name).is_none() {
                if let Some(p) = got.get(name) {
                    exp.props.push(Prop::new(name, &p.val));
                }
            }
        }
    }
    for (a, b) in exp.children.iter_mut().zip(&got.children) {
        adopt_invented(a, b);
    }
}
