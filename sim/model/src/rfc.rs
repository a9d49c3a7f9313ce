//! An RFC 5545 reader and writer that share nothing with the library.
use crate::{Comp, Prop};
use rt::{chance, d, range};

/// RFC 5545 section 3.8 / 8.3.2: properties whose default value type is TEXT.
/// Those RFC 7986 and the VVENUE draft add, and the names the former are known by as well, too.
const TEXT: [&str; 32] = [
    "CALSCALE", "METHOD", "PRODID", "VERSION", "CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "SUMMARY", "TRANSP", "TZID", "TZNAME",
    "CONTACT", "RELATED-TO", "UID", "ACTION", "REQUEST-STATUS", "-",
    "NAME", "X-WR-CALNAME", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE",
];
const TYPES: [&str; 14] = ["BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"];

/// Is the value of this property TEXT? A VALUE parameter with a type of the
/// registry decides, otherwise the default type of the property name.
/// Properties the registry does not know carry their value verbatim.
pub fn is_text(name: &str, params: &[(String, String)]) -> bool {
    if let Some((_, v)) = params.iter().find(|(k, _)| k == "VALUE") {
        if TYPES.contains(&v.as_str()) {
            return v == "TEXT";
        }
    }
    TEXT.contains(&name)
}

/// The type the registry of RFC 5545 gives the values of a property when no VALUE parameter says otherwise.
pub fn default_type(name: &str) -> Option<&'static str> {
    Some(match name {
        n if TEXT.contains(&n) => "TEXT",
        "ATTACH" | "TZURL" | "URL" => "URI",
        "GEO" => "FLOAT",
        "PERCENT-COMPLETE" | "PRIORITY" | "REPEAT" | "SEQUENCE" => "INTEGER",
        "COMPLETED" | "DTEND" | "DUE" | "DTSTART" | "RECURRENCE-ID" | "EXDATE" | "RDATE" | "CREATED" | "DTSTAMP" | "LAST-MODIFIED" => "DATE-TIME",
        "DURATION" | "TRIGGER" => "DURATION",
        "FREEBUSY" => "PERIOD",
        "TZOFFSETFROM" | "TZOFFSETTO" => "UTC-OFFSET",
        "ATTENDEE" | "ORGANIZER" => "CAL-ADDRESS",
        "RRULE" => "RECUR",
        _ => return None,
    })
}

fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') | Some('N') => out.push('\n'),
                Some(x @ ('\\' | ',' | ';')) => out.push(x),
                other => return Err(format!("illegal escape \\{:?} in TEXT", other)),
            }
        } else {
            out.push(c);
        }
    }
    Ok(out)
}

fn is_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
}

/// One unfolded content line.
fn content_line(l: &str) -> Result<Prop, String> {
    let b = l.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b';' && b[i] != b':' {
        i += 1;
    }
    let name = &l[..i];
    if !is_name(name) {
        return Err(format!("bad property name {:?} in line {:?}", name, cut(l)));
    }
    let mut params = vec![];
    while i < b.len() && b[i] == b';' {
        i += 1;
        let s = i;
        while i < b.len() && b[i] != b'=' && b[i] != b';' && b[i] != b':' {
            i += 1;
        }
        let k = &l[s..i];
        if !is_name(k) {
            return Err(format!("bad parameter name {:?} in line {:?}", k, cut(l)));
        }
        let mut v = String::new();
        if i < b.len() && b[i] == b'=' {
            i += 1;
            // param-value *("," param-value)
            loop {
                if i < b.len() && b[i] == b'"' {
                    let s = i + 1;
                    i += 1;
                    while i < b.len() && b[i] != b'"' {
                        i += 1;
                    }
                    if i >= b.len() {
                        return Err(format!("unterminated quote in line {:?}", cut(l)));
                    }
                    v.push_str(&l[s..i]);
                    i += 1;
                } else {
                    let s = i;
                    while i < b.len() && !matches!(b[i], b'"' | b';' | b':' | b',') {
                        i += 1;
                    }
                    v.push_str(&l[s..i]);
                }
                if i < b.len() && b[i] == b',' {
                    v.push('\u{1f}'); // several values
                    i += 1;
                    continue;
                }
                break;
            }
        }
        params.push((k.to_string(), v));
    }
    if i >= b.len() || b[i] != b':' {
        return Err(format!("no ':' where one has to be in line {:?}", cut(l)));
    }
    let raw = &l[i + 1..];
    let val = if is_text(name, &params) { unescape(raw).map_err(|e| format!("{} in line {:?}", e, cut(l)))? } else { raw.to_string() };
    Ok(Prop { name: name.into(), params, val, multi: false, typed: None })
}

fn cut(l: &str) -> String {
    l.chars().take(120).collect()
}

/// Set while documents may hold carriage returns that end no line.
pub static CR_OK: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);

/// Strictly read a document: CRLF line ends, at most 75 octets per line, no
/// split characters, nesting.
pub fn read(bytes: &[u8]) -> Result<Vec<Comp>, String> {
    let cr = CR_OK.load(core::sync::atomic::Ordering::Relaxed);
    let mut logical: Vec<Vec<u8>> = vec![];
    let mut rest = bytes;
    while !rest.is_empty() {
        let p = rest.iter().position(|&c| c == b'\n').ok_or_else(|| format!("last line is not terminated: {:?}", String::from_utf8_lossy(&rest[..rest.len().min(80)])))?;
        if p == 0 || rest[p - 1] != b'\r' {
            return Err(format!("line ends without CR: {:?}", String::from_utf8_lossy(&rest[..p.min(100)])));
        }
        let line = &rest[..p - 1];
        rest = &rest[p + 1..];
        if !cr && line.contains(&b'\r') {
            return Err(format!("CR inside a line: {:?}", String::from_utf8_lossy(&line[..line.len().min(100)])));
        }
        if line.len() > 75 {
            return Err(format!("line of {} octets: {:?}", line.len(), String::from_utf8_lossy(line)));
        }
        if core::str::from_utf8(line).is_err() {
            return Err(format!("a character is split between lines: {:?}", String::from_utf8_lossy(line)));
        }
        if let Some(&c) = line.first() {
            if c == b' ' || c == b'\t' {
                match logical.last_mut() {
                    Some(l) => l.extend_from_slice(&line[1..]),
                    None => return Err("continuation line without a line before it".into()),
                }
                continue;
            }
        } else {
            return Err("empty line".into());
        }
        logical.push(line.to_vec());
    }
    let mut roots = vec![];
    let mut stack: Vec<Comp> = vec![];
    for l in &logical {
        let l = core::str::from_utf8(l).map_err(|_| "not UTF-8".to_string())?;
        let p = content_line(l)?;
        let up = p.name.to_ascii_uppercase();
        if up == "BEGIN" {
            if !is_name(&p.val) {
                return Err(format!("bad component name {:?}", p.val));
            }
            stack.push(Comp { kind: p.val, ..Default::default() });
        } else if up == "END" {
            match stack.pop() {
                Some(c) if c.kind == p.val => match stack.last_mut() {
                    Some(parent) => parent.children.push(c),
                    None => roots.push(c),
                },
                other => return Err(format!("END:{} closes {:?}", p.val, other.map(|c| c.kind))),
            }
        } else {
            match stack.last_mut() {
                Some(c) => c.props.push(p),
                None => return Err(format!("property outside of any component: {:?}", cut(l))),
            }
        }
    }
    if let Some(c) = stack.last() {
        return Err(format!("{} is never closed", c.kind));
    }
    Ok(roots)
}

// ---- writer: "another RFC 5545 implementation" ------------------------------------

/// How a foreign implementation frames its documents.
#[derive(Clone, Debug)]
pub struct Style {
    /// 0 CRLF, 1 LF, 2 mixed
    pub eol: u8,
    /// 0 fold at 75, 1 never, 2 anywhere at random, 3 every few octets
    pub fold: u8,
    /// 0 space, 1 tab, 2 mixed
    pub ws: u8,
    pub blank: bool,
    pub quote_all: bool,
    pub shuffle_params: bool,
    pub shuffle_props: bool,
    /// 0 \n, 1 \N, 2 mixed
    pub nl: u8,
    pub no_final_eol: bool,
    pub lead_blank: bool,
    /// now and then a continuation line holds nothing at all
    pub hollow: bool,
}
impl Style {
    pub fn plain() -> Style {
        Style { eol: 0, fold: 0, ws: 0, blank: false, quote_all: false, shuffle_params: false, shuffle_props: false, nl: 0, no_final_eol: false, lead_blank: false, hollow: false }
    }
    pub fn gen() -> Style {
        Style {
            eol: d(3) as u8,
            fold: d(4) as u8,
            ws: d(3) as u8,
            blank: chance(1, 3),
            quote_all: chance(1, 3),
            shuffle_params: chance(1, 2),
            shuffle_props: chance(1, 3),
            nl: d(3) as u8,
            no_final_eol: chance(1, 4),
            lead_blank: chance(1, 8),
            hollow: chance(1, 5),
        }
    }
}

fn eol(st: &Style) -> &'static str {
    match st.eol {
        0 => "\r\n",
        1 => "\n",
        _ => {
            if chance(1, 2) {
                "\n"
            } else {
                "\r\n"
            }
        }
    }
}

fn put_folded(out: &mut String, line: &str, st: &Style) {
    let mut col = 0;
    let mut first = true;
    let mut limit = next_limit(st);
    for c in line.chars() {
        let n = c.len_utf8();
        if !first && (col + n > limit) {
            loop {
                out.push_str(eol(st));
                out.push(if st.ws == 1 || (st.ws == 2 && chance(1, 2)) { '\t' } else { ' ' });
                if !st.hollow || !chance(1, 4) {
                    break;
                }
            }
            col = 1;
            limit = next_limit(st);
        }
        out.push(c);
        col += n;
        first = false;
    }
    out.push_str(eol(st));
}

fn next_limit(st: &Style) -> usize {
    match st.fold {
        0 => 75,
        1 => usize::MAX,
        2 => range(2, 75) as usize,
        _ => range(2, 6) as usize,
    }
}

pub fn escape_text(v: &str, st: &Style) -> String {
    let mut out = String::new();
    for c in v.chars() {
        match c {
            '\\' => out.push_str("\\\\"),
            ',' => out.push_str("\\,"),
            ';' => out.push_str("\\;"),
            '\n' => out.push_str(if st.nl == 1 || (st.nl == 2 && chance(1, 2)) { "\\N" } else { "\\n" }),
            _ => out.push(c),
        }
    }
    out
}

fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - d(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

fn put_comp(out: &mut String, c: &Comp, st: &Style) {
    put_folded(out, &format!("BEGIN:{}", c.kind), st);
    let mut props: Vec<&Prop> = c.props.iter().collect();
    if st.shuffle_props {
        // any order, as long as same-named properties keep theirs
        let mut names: Vec<&str> = props.iter().map(|p| p.name.as_str()).collect();
        names.sort();
        names.dedup();
        shuffle(&mut names);
        let key = |p: &&Prop| names.iter().position(|n| *n == p.name).unwrap();
        props.sort_by_key(key);
    }
    // components may stand between properties
    let early = if st.shuffle_props && !c.children.is_empty() { d(c.children.len() as u64 + 1) as usize } else { 0 };
    for ch in &c.children[..early] {
        put_comp(out, ch, st);
    }
    for p in props {
        if st.blank && chance(1, 6) {
            out.push_str(eol(st));
        }
        let mut line = p.name.clone();
        let mut ps: Vec<&(String, String)> = p.params.iter().collect();
        if st.shuffle_params {
            shuffle(&mut ps);
        }
        for (k, v) in ps {
            let need = v.contains([';', ':', ',']);
            if need || (st.quote_all && chance(2, 3)) {
                line.push_str(&format!(";{}=\"{}\"", k, v));
            } else {
                line.push_str(&format!(";{}={}", k, v));
            }
        }
        line.push(':');
        if is_text(&p.name, &p.params) {
            line.push_str(&escape_text(&p.val, st));
        } else {
            line.push_str(&p.val);
        }
        put_folded(out, &line, st);
    }
    for ch in &c.children[early..] {
        if st.blank && chance(1, 6) {
            out.push_str(eol(st));
        }
        put_comp(out, ch, st);
    }
    put_folded(out, &format!("END:{}", c.kind), st);
    if st.blank && chance(1, 8) {
        out.push_str(eol(st));
    }
}

pub fn write(c: &Comp, st: &Style) -> String {
    let mut s = String::new();
    if st.lead_blank {
        s.push_str(eol(st));
    }
    put_comp(&mut s, c, st);
    if st.no_final_eol {
        while s.ends_with('\n') || s.ends_with('\r') {
            s.pop();
        }
    }
    s
}

// ---- re-framing of an existing document --------------------------------------------

/// Unfold to logical lines.
pub fn logical_lines(doc: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in doc.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.starts_with(' ') || l.starts_with('\t') {
            if let Some(p) = out.last_mut() {
                p.push_str(&l[1..]);
                continue;
            }
        }
        if !l.is_empty() {
            out.push(l.to_string());
        }
    }
    out
}

/// Same content, other framing: what gateways and editors do to a document.
pub fn reframe(doc: &str, st: &Style) -> String {
    let mut s = String::new();
    if st.lead_blank {
        s.push_str(eol(st));
    }
    for l in logical_lines(doc) {
        if st.blank && chance(1, 6) {
            s.push_str(eol(st));
        }
        let is_frame = l.starts_with("BEGIN:") || l.starts_with("END:");
        let line = if is_frame { l } else { rewrite_line(&l, st) };
        put_folded(&mut s, &line, st);
    }
    if st.no_final_eol {
        while s.ends_with('\n') || s.ends_with('\r') {
            s.pop();
        }
    }
    s
}

/// Reorder and quote parameters and use the other newline escape; works on the
/// raw text so that the value is otherwise left exactly as it was.
fn rewrite_line(l: &str, st: &Style) -> String {
    let b = l.as_bytes();
    let mut i = 0;
    let mut q = false;
    let mut starts = vec![];
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b';' if !q => starts.push(i),
            b':' if !q => break,
            _ => {}
        }
        i += 1;
    }
    if i >= b.len() {
        return l.to_string();
    }
    let name_end = starts.first().copied().unwrap_or(i);
    let mut params: Vec<String> = vec![];
    for (k, s) in starts.iter().enumerate() {
        let e = starts.get(k + 1).copied().unwrap_or(i);
        params.push(l[s + 1..e].to_string());
    }
    if st.shuffle_params {
        shuffle(&mut params);
    }
    let mut out = l[..name_end].to_string();
    for p in &params {
        out.push(';');
        match p.split_once('=') {
            Some((k, v)) if st.quote_all && !v.contains('"') && chance(2, 3) => out.push_str(&format!("{}=\"{}\"", k, v)),
            _ => out.push_str(p),
        }
    }
    let kv: Vec<(String, String)> = params.iter().filter_map(|p| p.split_once('=').map(|(k, v)| (k.to_string(), v.trim_matches('"').to_string()))).collect();
    let val = &l[i + 1..];
    out.push(':');
    if is_text(&l[..name_end], &kv) {
        let mut it = val.chars();
        while let Some(c) = it.next() {
            out.push(c);
            if c == '\\' {
                match it.next() {
                    Some('n' | 'N') => out.push(if st.nl == 1 || (st.nl == 2 && chance(1, 2)) { 'N' } else { 'n' }),
                    Some(x) => out.push(x),
                    None => {}
                }
            }
        }
    } else {
        out.push_str(val);
    }
    out
}
