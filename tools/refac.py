#!/usr/bin/env python3
"""Edits that change no behaviour, each applied to a copy on which every check has to stay quiet:
refac.py [name...] [Cxx...]"""
import sys,os,subprocess,re
V='/verif'; W='/tmp/pb/rv'; Q='/tmp/pb/rq'; T='/tmp/pb/target'
P='src/properties.rs'; C='src/components.rs'; K='src/calendar.rs'; D='src/components/date_time.rs'; PC='src/parser/components.rs'; PP='src/parser/properties.rs'; PU='src/parser/utils.rs'; PM='src/parser/mod.rs'; PS='src/parser/parsed_string.rs'; CC='src/calendar/calendar_component.rs'
E={}
E['write-pieces']=[
 (P,'        write_crlf!(out, "{}", fold_line(&line))?;\n        Ok(())','        for piece in fold_line(&line).split_inclusive(\' \') {\n            out.write_str(piece)?;\n        }\n        out.write_char(\'\\r\')?;\n        out.write_char(\'\\n\')'),
 (P,'        write!(line, "{}", self.key)?;\n        for Parameter { key, val } in self.params.values() {\n            write!(line, ";{}={}", key, Self::quote_if_contains_colon(val))?;\n        }','        line.push_str(&self.key);\n        let mut params: Vec<&Parameter> = self.params.values().collect();\n        params.sort_by(|a, b| a.key.cmp(&b.key));\n        for param in params {\n            line.push(\';\');\n            line.push_str(&param.key);\n            line.push(\'=\');\n            line.push_str(&Self::quote_if_contains_colon(&param.val));\n        }'),
 (P,'''        input
            .replace('\\\\', r#"\\\\"#)
            .replace(',', r#"\\,"#)
            .replace(';', r#"\\;"#)
            .replace('\\n', r#"\\N"#)''','''        let mut escaped = String::new();
        for c in input.chars() {
            match c {
                '\\n' => escaped.push_str("\\\\N"),
                '\\\\' | ',' | ';' => {
                    escaped.push('\\\\');
                    escaped.push(c);
                }
                _ => escaped.push(c),
            }
        }
        escaped'''),
 (C,'        let mut out_string = String::new();\n        self.fmt_write(&mut out_string)?;\n        Ok(out_string)','        let mut out_string = String::with_capacity(4096);\n        self.fmt_write(&mut out_string).map(|()| out_string)'),
]
E['write-whole']=[
 (K,'''        write_crlf!(out, "BEGIN:VCALENDAR")?;
        for property in &self.properties {
            property.fmt_write(out)?;
        }

        for component in &self.components {
            component.fmt_write(out)?;
        }
        write_crlf!(out, "END:VCALENDAR")?;
        Ok(())''','''        let mut document = String::from("BEGIN:VCALENDAR\\r\\n");
        self.properties
            .iter()
            .try_for_each(|property| property.fmt_write(&mut document))?;
        self.components
            .iter()
            .try_for_each(|component| component.fmt_write(&mut document))?;
        document.push_str("END:VCALENDAR\\r\\n");
        out.write_str(&document)'''),
 (C,'''        if !has("DTSTAMP") {
            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {
            property.fmt_write(out)?;
        }

        if !has("UID") {
            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties().values().flatten() {
            property.fmt_write(out)?;
        }

        for component in self.components() {
            component.fmt_write(out)?;
        }
''','''        let uid = (!has("UID")).then(|| Property::new("UID", Uuid::new_v4().to_string()));
        let stamp =
            (!has("DTSTAMP")).then(|| Property::new("DTSTAMP", format_utc_date_time(Utc::now())));
        let multi = self.multi_properties().values().flatten();
        for property in uid.iter().chain(self.properties().values()).chain(multi) {
            property.fmt_write(out)?;
        }
        for property in stamp.iter() {
            property.fmt_write(out)?;
        }
        let mut children = self.components().iter();
        while let Some(child) = children.next() {
            child.fmt_write(out)?;
        }
'''),
 (P,'''    let mut pos = 0;
    let mut next_pos = LIMIT;
    let mut limit = LIMIT;

    while bytes_remaining > limit {
        while !line.is_char_boundary(next_pos) {
            next_pos -= 1;
        }
        // don't start a continuation line with whitespace
        if line[next_pos..].starts_with(char::is_whitespace) {
            next_pos -= 1;
            while !line.is_char_boundary(next_pos) {
                next_pos -= 1;
            }
        }
        ret.push_str(&line[pos..next_pos]);
        ret.push_str("\\r\\n ");

        bytes_remaining -= next_pos - pos;
        pos = next_pos;
        // the space that marks a continuation line counts as well
        limit = LIMIT - 1;
        next_pos += limit;
    }

    ret.push_str(&line[len - bytes_remaining..]);
    ret''','''    let mut rest = line;
    let mut limit = LIMIT;
    bytes_remaining += 0;
    while rest.len() > limit && bytes_remaining > 0 {
        let at = (1..=limit).rev().find(|at| rest.is_char_boundary(*at)).unwrap_or(limit);
        let (head, tail) = rest.split_at(at);
        ret += head;
        ret += "\\r\\n ";
        rest = tail;
        limit = 74;
    }
    ret += rest;
    ret'''),
]
E['parser']=[
 (PU,'''    input
        .split("\\r\\n ")
        .flat_map(|l| l.split("\\n "))
        .flat_map(|l| l.split("\\r\\n	"))
        .flat_map(|l| l.split("\\n	"))
        .collect()''','''    let mut unfolded = String::with_capacity(input.len());
    let mut rest = input;
    while let Some(at) = rest.find('\\n') {
        let folded = rest[at + 1..].starts_with(|c| c == ' ' || c == '\\t');
        if folded {
            let head = &rest[..at];
            unfolded.push_str(head.strip_suffix('\\r').unwrap_or(head));
            rest = &rest[at + 2..];
        } else {
            unfolded.push_str(&rest[..=at]);
            rest = &rest[at + 1..];
        }
    }
    unfolded.push_str(rest);
    unfolded'''),
 (PC,'''        for p in component.properties {
            // a property that occurs again is kept as well, whatever its name
            if p.is_multi_property() || from_component.properties.contains_key(p.name.as_str()) {
                from_component.insert_multi(p);
            } else {
                from_component
                    .properties
                    .insert(p.name.as_str().to_owned(), p.into());
            }
        }
''','''        for p in component.properties {
            let multi = p.is_multi_property();
            let property = crate::Property::from(p);
            match from_component.properties.entry(property.key().to_owned()) {
                std::collections::btree_map::Entry::Vacant(slot) if !multi => {
                    slot.insert(property);
                }
                _ => {
                    from_component.insert_multi(property);
                }
            }
        }
'''),
 (PP,'        MULTIS.contains(&self.name.as_str())','''        static KNOWN: std::sync::OnceLock<std::collections::HashSet<&'static str>> =
            std::sync::OnceLock::new();
        KNOWN
            .get_or_init(|| MULTIS.into_iter().collect())
            .contains(self.name.as_str())'''),
 (PM,'''            let root_is_calendar = components
                .first()
                .map(|first_root| first_root.name == "VCALENDAR")
                .unwrap_or(false);

            if root_is_calendar {
                let root = components.swap_remove(0);
                Calendar {
                    properties: root.properties,
                    components: root.components,
                }
            } else {
                Calendar {
                    components,
                    properties: Vec::new(),
                }
            }''','''            match components.first() {
                Some(root) if root.name.as_str() == "VCALENDAR" => {
                    let Component {
                        properties,
                        components,
                        ..
                    } = components.remove(0);
                    Calendar {
                        properties,
                        components,
                    }
                }
                _ => Calendar {
                    properties: vec![],
                    components,
                },
            }'''),
 (PS,'''        // one pass, so that the result of one escape never becomes part of another
        let mut unescaped = String::with_capacity(self.0.len());
        let mut chars = self.0.chars();
        while let Some(c) = chars.next() {
            if c != '\\\\' {
                unescaped.push(c);
                continue;
            }
            match chars.next() {
                Some(escaped @ ('\\\\' | ',' | ';' | ':')) => unescaped.push(escaped),
                Some('n' | 'N') => unescaped.push('\\n'),
                Some(other) => unescaped.extend(['\\\\', other]),
                None => unescaped.push('\\\\'),
            }
        }
        unescaped.into()''','''        let mut unescaped = String::new();
        let mut escaping = false;
        for c in self.0.chars() {
            if !escaping {
                if c == '\\\\' {
                    escaping = true;
                } else {
                    unescaped.push(c);
                }
                continue;
            }
            escaping = false;
            if !matches!(c, '\\\\' | ',' | ';' | ':' | 'n' | 'N') {
                unescaped.push('\\\\');
            }
            unescaped.push(if c == 'n' || c == 'N' { '\\n' } else { c });
        }
        if escaping {
            unescaped.push('\\\\');
        }
        unescaped.into()'''),
 (PC,'''    .map(|(body_elements, _)| {
        let mut properties = Vec::new();
        let mut components = Vec::new();
        for el in body_elements {
            match el {
                ComponentChild::Component(c) => components.push(c),
                ComponentChild::Property(p) => properties.push(p),
            }
        }
        (properties, components)
    })''','''    .map(|(body_elements, _)| {
        body_elements.into_iter().fold(
            (Vec::new(), Vec::new()),
            |(mut properties, mut components), el| {
                match el {
                    ComponentChild::Component(c) => components.push(c),
                    ComponentChild::Property(p) => properties.push(p),
                }
                (properties, components)
            },
        )
    })'''),
]
E['dates']=[
 (D,'''            CalendarDateTime::WithTimezone { date_time, tzid } => tzid
                .parse::<chrono_tz::Tz>()
                .ok()
                .and_then(|tz| tz.from_local_datetime(date_time).single())
                .map(|tz| tz.with_timezone(&Utc)),''','''            CalendarDateTime::WithTimezone { date_time, tzid } => {
                thread_local! {
                    static LAST: std::cell::RefCell<Option<(String, chrono_tz::Tz)>> =
                        const { std::cell::RefCell::new(None) };
                }
                let known = LAST.with_borrow(|last| {
                    last.as_ref()
                        .filter(|(name, _)| name == tzid)
                        .map(|(_, tz)| *tz)
                });
                let tz = match known {
                    Some(tz) => tz,
                    None => {
                        let tz: chrono_tz::Tz = tzid.parse().ok()?;
                        LAST.set(Some((tzid.clone(), tz)));
                        tz
                    }
                };
                match tz.from_local_datetime(date_time) {
                    chrono::LocalResult::Single(found) => Some(found.with_timezone(&Utc)),
                    chrono::LocalResult::None | chrono::LocalResult::Ambiguous(..) => None,
                }
            }'''),
 (D,'    utc_dt.format(UTC_DATE_TIME_FORMAT).to_string()','    let naive = utc_dt.naive_utc();\n    let mut formatted = naive.format(NAIVE_DATE_TIME_FORMAT).to_string();\n    formatted.push(\'Z\');\n    formatted'),
 (D,'''        } else if let Ok(naive_date_time) =
            NaiveDateTime::parse_from_str(value, NAIVE_DATE_TIME_FORMAT)
        {
            Some(naive_date_time.into())
        } else {
            Self::from_str(value).ok()
        }''','''        } else {
            Self::from_utc_string(value).or_else(|| Self::from_naive_string(value))
        }'''),
 (D,'''        match dt {
            DatePerhapsTime::Date(date) => date,
            DatePerhapsTime::DateTime(CalendarDateTime::Floating(date_time)) => date_time.date(),
            DatePerhapsTime::DateTime(CalendarDateTime::Utc(date_time)) => date_time.date_naive(),
            DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid: _ }) => {
                date_time.date()
            }
        }''','        dt.date_naive()'),
]
E['containers']=[
 (K,'        self.components.extend(other.into_iter().map(Into::into));','        for component in other {\n            self.push(component);\n        }'),
 (K,'        self.components.append(&mut other.components);','        self.components.extend(other.components.drain(..));'),
 (K,'''        Calendar {
            components: iter.into_iter().map(Into::into).collect(),
            ..Default::default()
        }''','''        let mut calendar = Calendar::new();
        calendar.extend(iter);
        calendar'''),
 (K,'''        Calendar {
            properties: mem::take(&mut self.properties),
            components: mem::take(&mut self.components),
        }''','        mem::replace(self, Calendar::empty())'),
 (C,'''        InnerComponent {
            properties: mem::take(&mut self.properties),
            multi_properties: mem::take(&mut self.multi_properties),
            components: mem::take(&mut self.components),
        }''','        mem::take(self)'),
 (C,'''        self.multi_properties
            .entry(key)
            .and_modify(|v| v.push(property.to_owned()))
            .or_insert(vec![property.to_owned()]);
        self''','''        self.multi_properties.entry(key).or_default().push(property);
        self'''),
 (P,'''            key: mem::take(&mut self.key),
            val: mem::take(&mut self.val),
            params: mem::take(&mut self.params),
        }''','''            params: std::mem::take(&mut self.params),
            ..mem::replace(self, Property::new("", ""))
        }'''),
 (C,'        let mut out = String::new();\n        self.fmt_write(&mut out)?;\n        print_crlf!("{}", out);\n        Ok(())','        let out = self.try_into_string()?;\n        print!("{}{}", out, "\\r\\n");\n        Ok(())'),
]
E['scratch']=[
 (P,'        // A nice starting capacity for the majority of content lines\n        let mut line = String::with_capacity(150);\n','''        thread_local! {
            static LINE: std::cell::Cell<String> = const { std::cell::Cell::new(String::new()) };
        }
        // the buffer of the line before, if nobody else has it
        let mut line = LINE.take();
        line.clear();
'''),
 (P,'        write_crlf!(out, "{}", fold_line(&line))?;\n        Ok(())','        let folded = fold_line(&line);\n        line.shrink_to(1024);\n        LINE.set(line);\n        write_crlf!(out, "{}", folded)'),
 (C,'            write_crlf!(out, "UID:{}", Uuid::new_v4())?;','''            static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let uid = {
                let _guard = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
                Uuid::new_v4().to_string()
            };
            write_crlf!(out, "UID:{}", uid)?;'''),
 (C,'            let now = Utc::now();\n            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;','''            let now = DateTime::<Utc>::from(std::time::SystemTime::now());
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;'''),
 (CC,'''        match *self {
            CalendarComponent::Todo(ref todo) => todo.fmt_write(out),
            CalendarComponent::Event(ref event) => event.fmt_write(out),
            CalendarComponent::Venue(ref venue) => venue.fmt_write(out),
            CalendarComponent::Other(ref other) => other.fmt_write(out),
        }''','''        match self {
            Self::Other(c) => c.fmt_write(out),
            Self::Venue(c) => c.fmt_write(out),
            Self::Event(c) => c.fmt_write(out),
            Self::Todo(c) => c.fmt_write(out),
        }'''),
]
# a slower reader and writer, by a constant factor
E['slow']=[
 (PU,'    take_while(|c: char| {\n        c == \'.\' || c == \',\' || c == \'/\' || c == \'_\' || c == \'-\' || c.is_alphanumeric()\n    })\n    .map(ParseString::from)','    take_while(|c: char| matches!(c, \'.\' | \',\' | \'/\' | \'_\' | \'-\') || c.is_alphabetic() || c.is_numeric())\n    .map(ParseString::from)'),
 (PC,'        let from_parsed = CalendarComponent::from(read_component(&unfold(s))?);','        read_component(&unfold(s))?;\n        let from_parsed = CalendarComponent::from(read_component(&unfold(s))?);'),
 ('src/parser/calendar.rs','        let from_parsed = crate::Calendar::from(read_calendar(&unfold(s))?);','        let unfolded = unfold(s);\n        let parsed = read_calendar(&unfolded)?.clone();\n        read_calendar(&unfolded)?;\n        let from_parsed = crate::Calendar::from(parsed);'),
 (P,'        write_crlf!(out, "{}", fold_line(&line))?;\n        Ok(())','        let folded = fold_line(&line);\n        let folded: String = folded.chars().collect::<Vec<char>>().into_iter().collect();\n        debug_assert_eq!(fold_line(&line), folded);\n        write_crlf!(out, "{}", folded.as_str())?;\n        Ok(())'),
]
A='src/components/alarm.rs'; AP='src/parser/parameters.rs'; V_='src/value_types.rs'; T_='src/components/todo.rs'
# helpers extracted, statements reordered, loops rewritten
E['statements']=[
 (C,'''        write_crlf!(out, "BEGIN:{}", self.component_kind())?;

        let has =
            |key| self.properties().contains_key(key) || self.multi_properties().contains_key(key);

        if !has("DTSTAMP") {
            let now = Utc::now();
            write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
        }

        for property in self.properties().values() {
            property.fmt_write(out)?;
        }

        if !has("UID") {
            write_crlf!(out, "UID:{}", Uuid::new_v4())?;
        }

        for property in self.multi_properties().values().flatten() {
            property.fmt_write(out)?;
        }

        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.component_kind())?;
        Ok(())''','''        let kind = self.component_kind();
        let now = Utc::now();
        let single = self.properties();
        let multi = self.multi_properties();
        let lacks = |key: &str| !(multi.contains_key(key) || single.contains_key(key));

        write_crlf!(out, "BEGIN:{}", kind)?;
        if lacks("DTSTAMP") {
            let stamp = format_utc_date_time(now);
            write_crlf!(out, "DTSTAMP:{}", stamp)?;
        }
        let mut values = single.values();
        while let Some(property) = values.next() {
            property.fmt_write(out)?;
        }
        if lacks("UID") {
            let uid = Uuid::new_v4().hyphenated().to_string();
            write_crlf!(out, "UID:{}", uid)?;
        }
        for properties in multi.values() {
            for property in properties {
                property.fmt_write(out)?;
            }
        }
        self.components()
            .iter()
            .try_for_each(|component| component.fmt_write(out))?;
        write_crlf!(out, "END:{}", kind)'''),
 (C,'''        let priority = self.property_value("PRIORITY")?.parse().ok()?;
        if priority <= 10 {
            Some(priority)
        } else {
            None
        }''','''        let written = self.property_value("PRIORITY")?;
        let priority: u32 = written.parse().ok()?;
        Some(priority).filter(|priority| (0..=10).contains(priority))'''),
 (C,'''        self.append_property(naive_date_to_property(date, "DTSTART"))
            .append_property(naive_date_to_property(date, "DTEND"))''','''        for key in ["DTEND", "DTSTART"] {
            self.append_property(naive_date_to_property(date, key));
        }
        self'''),
 (C,'''                let property = property.into();
                self.inner
                    .properties
                    .insert(property.key().to_owned(), property);
                self''','''                let property: Property = property.into();
                let key = String::from(property.key());
                drop(self.inner.properties.insert(key, property));
                self'''),
 (C,'''        let mut out = String::new();
        self.fmt_write(&mut out)?;
        print_crlf!("{}", out);''','''        let out = self.try_into_string()?;
        print!("{}\\r\\n", out);'''),
 (K,'''        for property in &self.properties {
            property.fmt_write(out)?;
        }

        for component in &self.components {
            component.fmt_write(out)?;
        }
        write_crlf!(out, "END:VCALENDAR")?;
        Ok(())''','''        let Self {
            properties,
            components,
        } = self;
        let mut index = 0;
        while index < properties.len() {
            properties[index].fmt_write(out)?;
            index += 1;
        }
        for component in components.iter() {
            if let Err(error) = component.fmt_write(out) {
                return Err(error);
            }
        }
        write_crlf!(out, "END:VCALENDAR")'''),
 (P,'''        self.params
            .get("VALUE")
            .and_then(|p| ValueType::from_str(&p.val).ok())
            .or_else(|| ValueType::by_name(self.key()))''','''        if let Some(parameter) = self.params.get("VALUE") {
            if let Ok(value_type) = parameter.value().parse() {
                return Some(value_type);
            }
        }
        ValueType::by_name(&self.key)'''),
 (P,'''        Property {
            key: mem::take(&mut self.key),
            val: mem::take(&mut self.val),
            params: mem::take(&mut self.params),
        }''','''        let params = mem::take(&mut self.params);
        let val = mem::take(&mut self.val);
        let key = mem::take(&mut self.key);
        Property { key, val, params }'''),
]
E['helpers']=[
 (K,'''    pub fn get_name(&self) -> Option<&str> {
        self.property_value("NAME")
            .or_else(|| self.property_value("X-WR-CALNAME"))
    }''','''    pub fn get_name(&self) -> Option<&str> {
        self.first_value(["NAME", "X-WR-CALNAME"])
    }

    fn first_value<const N: usize>(&self, keys: [&str; N]) -> Option<&str> {
        keys.iter().find_map(|key| self.property_value(key))
    }

    fn both(&mut self, standard: &str, common: &str, value: &str) -> &mut Self {
        self.append_property((standard, value))
            .append_property((common, value))
    }'''),
 (K,'''        self.property_value("DESCRIPTION")
            .or_else(|| self.property_value("X-WR-CALDESC"))''','''        self.first_value(["DESCRIPTION", "X-WR-CALDESC"])'''),
 (K,'''        self.append_property(Property::new("TIMEZONE-ID", timezone));
        self.append_property(Property::new("X-WR-TIMEZONE", timezone));
        self''','''        self.both("TIMEZONE-ID", "X-WR-TIMEZONE", timezone)'''),
 (K,'''        self.property_value("REFRESH-INTERVAL")
            .and_then(parse_duration)
            .or_else(|| {
                self.property_value("X-PUBLISHED-TTL")
                    .and_then(parse_duration)
            })''','''        for key in ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"] {
            match self.property_value(key).and_then(parse_duration) {
                None => {}
                found => return found,
            }
        }
        None'''),
 (A,'''            match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                ("TRIGGER", Some("DATE-TIME")) => {''','''            if prop.key() != "TRIGGER" {
                return Err(());
            }
            match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                ("TRIGGER", Some("DATE-TIME")) => {'''),
 (A,'''                    if let Some(duration) = parsed_duration {
                        Ok(Trigger::Duration(duration, param_related))
                    } else {
                        Err(())
                    }''','''                    parsed_duration
                        .map(|duration| Trigger::Duration(duration, param_related))
                        .ok_or(())'''),
 (A,'''                Trigger::Duration(duration, Some(related)) => {
                    Property::new("TRIGGER", duration.to_string())
                        .append_parameter(related)
                        .done()
                }

                Trigger::Duration(duration, None) => Property::new("TRIGGER", duration.to_string()),
''','''                Trigger::Duration(duration, related) => {
                    let mut property = Property::new("TRIGGER", format!("{}", duration));
                    for parameter in related {
                        property.append_parameter(parameter);
                    }
                    property
                }
'''),
 (A,'''        // self.add_property("ACTION", action.as_str());
        self.append_property(duration);

        let repeat: Repeat = repeat_count.into();
        self.append_property(repeat);
        self''','''        let repeat: Repeat = repeat_count.into();
        self.append_property(repeat).append_property(duration).done()'''),
 (D,'''    iso8601::duration(unsigned)
        .ok()
        .and_then(|iso| Duration::from_std(iso.into()).ok())
        .map(|duration| if is_negative { -duration } else { duration })''','''    let sign = if is_negative { -1 } else { 1 };
    let std: std::time::Duration = match iso8601::duration(unsigned) {
        Ok(iso) => iso.into(),
        Err(_) => return None,
    };
    let duration = Duration::from_std(std).ok()?;
    Some(if sign < 0 { -duration } else { duration })'''),
 (D,'''        NaiveDate::from_ymd_opt(year, month, day)
            .and_then(|date| date.and_hms_opt(hour, min, 0))
            .zip(Some(tz_id))
            .map(|(dt, tz)| Self::with_timezone(dt, tz))''','''        let date = NaiveDate::from_ymd_opt(year, month, day)?;
        let date_time = date.and_hms_opt(hour, min, 0)?;
        Some((date_time, tz_id).into())'''),
 (D,'''        if property.value_type() == Some(ValueType::Date) {
            Some(
                NaiveDate::parse_from_str(property.value(), NAIVE_DATE_FORMAT)
                    .ok()?
                    .into(),
            )
        } else {
            Some(CalendarDateTime::from_property(property)?.into())
        }''','''        match property.value_type() {
            Some(ValueType::Date) => {
                let date = NaiveDate::parse_from_str(property.value(), NAIVE_DATE_FORMAT);
                date.ok().map(Self::Date)
            }
            _ => CalendarDateTime::from_property(property).map(Self::DateTime),
        }'''),
 (PP,'''            params: parsed
                .params
                .into_iter()
                .map(|p| (p.key.as_ref().to_owned(), p.into()))
                .collect(),''','''            params: {
                let mut params = std::collections::HashMap::with_capacity(parsed.params.len());
                for parameter in parsed.params {
                    let parameter = crate::Parameter::from(parameter);
                    params.insert(parameter.key().to_owned(), parameter);
                }
                params
            },'''),
 (PP,'''        for Parameter { key, val } in &self.params {
            if let Some(val) = val {
                let val = crate::Property::quote_if_contains_colon(val.as_str());
                write!(line, ";{}={}", key.as_str(), val)?;
            } else {
                write!(line, ";{}", key.as_str())?;
            }
        }''','''        for parameter in self.params.iter() {
            line.push(';');
            line.push_str(parameter.key.as_str());
            let Some(val) = &parameter.val else {
                continue;
            };
            line.push('=');
            line += &crate::Property::quote_if_contains_colon(val.as_ref());
        }'''),
 (PU,'''    if key == "END" || key == "BEGIN" {
        IResult::Err(Err::Error(nom::error::make_error(
            input,
            nom::error::ErrorKind::Satisfy,
        )))
    } else {
        Ok((rest, key))
    }''','''    match key {
        "BEGIN" | "END" => {
            let error = E::from_error_kind(input, nom::error::ErrorKind::Satisfy);
            Err(Err::Error(error))
        }
        _ => Ok((rest, key)),
    }'''),
]
E['more']=[
 (K,"""        print_crlf!("{}", self);
        Ok(())""","""        let document: String = self.try_into()?;
        print!("{}", document + "\\r\\n");
        Ok(())"""),
 (K,"""        Some(
            self.properties
                .iter()
                .find(|property| property.key() == key)?
                .value(),
        )""","""        for property in &self.properties {
            if property.key == key {
                return Some(&property.val);
            }
        }
        None"""),
 (PS,"""        match self.0 {
            Cow::Borrowed(s) => ParseString(Cow::Owned(s.to_owned())),
            Cow::Owned(s) => ParseString(Cow::Owned(s)),
        }""","""        ParseString(Cow::Owned(self.0.into_owned()))"""),
 (PS,"""        match self.0 {
            Cow::Borrowed(s) => ParseString(Cow::Owned(s.to_owned())),
            Cow::Owned(ref s) => ParseString(Cow::Owned(s.clone())),
        }""","""        ParseString::from(String::from(self.as_str()))"""),
 (PU,"""            result.push_str(&format!("{}: {}, got empty input\\n\\n", i, expected));
            continue;""","""            result += &i.to_string();
            result += ": ";
            result += &expected;
            result += ", got empty input\\n\\n";
            continue;"""),
 (PU,"""        let line_number = input[..offset].matches('\\n').count() + 1;
        let line_begin = input[..offset].rfind('\\n').map_or(0, |pos| pos + 1);""","""        let before = &input[..offset];
        let (mut line_number, mut line_begin) = (1, 0);
        for (pos, byte) in before.bytes().enumerate() {
            if byte == b'\\n' {
                line_number += 1;
                line_begin = pos + 1;
            }
        }"""),
 (PC,"""        self.properties
            .iter()
            .find(|prop| prop.name == name.as_ref())""","""        let name = name.as_ref();
        let position = self.properties.iter().position(|prop| prop.name == name)?;
        self.properties.get(position)"""),
 (PC,"""        for property in self.properties() {
            property.fmt_write(out)?;
        }

        for component in self.components() {
            component.fmt_write(out)?;
        }

        write_crlf!(out, "END:{}", self.name())?;
        Ok(())""","""        let end = format!("END:{}", self.name());
        self.properties()
            .iter()
            .try_for_each(|property| property.fmt_write(out))?;
        self.components()
            .iter()
            .try_for_each(|component| component.fmt_write(out))?;
        write_crlf!(out, "{}", end)"""),
 (P,"""        if input.contains([':', ';', ',']) {
            let mut quoted = String::with_capacity(input.len() + 2);
            quoted.push('"');
            quoted.push_str(input);
            quoted.push('"');
            quoted
        } else {
            input.to_string()
        }""","""        let needs_quotes = input.chars().any(|c| matches!(c, ':' | ';' | ','));
        if !needs_quotes {
            return input.to_owned();
        }
        format!("\\"{}\\"", input)"""),
 (P,"""        let parameter = into_parameter.into();
        self.params.insert(parameter.key.clone(), parameter);
        self""","""        let Parameter { key, val } = into_parameter.into();
        let parameter = Parameter {
            key: key.clone(),
            val,
        };
        match self.params.entry(key) {
            std::collections::hash_map::Entry::Occupied(mut there) => {
                there.insert(parameter);
            }
            std::collections::hash_map::Entry::Vacant(free) => {
                free.insert(parameter);
            }
        }
        self"""),
 (D,"""            Some(naive_date_time.into())
        } else {
            Self::from_str(value).ok()
        }""","""            Some(Self::Floating(naive_date_time))
        } else {
            parse_utc_date_time(value).map(Self::Utc)
        }"""),
 (D,"""            DateTime(CalendarDateTime::Floating(date_time)) => date_time.date(),
            DateTime(CalendarDateTime::Utc(date_time)) => date_time.date_naive(),
            DateTime(CalendarDateTime::WithTimezone { date_time, tzid: _ }) => date_time.date(),""","""            DateTime(
                CalendarDateTime::Floating(date_time)
                | CalendarDateTime::WithTimezone { date_time, .. },
            ) => date_time.date(),
            DateTime(CalendarDateTime::Utc(date_time)) => date_time.naive_utc().date(),"""),
]
def sh(c,cwd=None,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return p.returncode,p.stdout
a=sys.argv[1:]
ids=[x for x in a if not re.fullmatch(r'C\d\d',x)] or list(E); ch=[x for x in a if re.fullmatch(r'C\d\d',x)] or [f'C{i:02}' for i in list(range(1,16))+[20]]
sh(f'mkdir -p {W} && cd {V} && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded/ | tar c --null -T - | tar x -C {W}')
sh(f"sed -i 's|/repo|{Q}|g' sim/subject/Cargo.toml build.sh sim/rustc-wrap.sh",W)
if not os.path.exists(Q): sh(f'git clone -q /repo {Q}')
for i in ids:
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD',Q)
    for f,old,new in E[i]:
        s=open(f'{Q}/{f}').read()
        if s.count(old)!=1: print(i,'does not match once',f,s.count(old),old[:60]); break
        open(f'{Q}/{f}','w').write(s.replace(old,new))
    rc,o=sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8',Q,{'CARGO_TARGET_DIR':T,'TZ':'UTC','RUSTUP_TOOLCHAIN':'stable-x86_64-unknown-linux-gnu'})
    print(i,'tests ok',len(re.findall(r'^test .* \.\.\. ok',o,re.M)),'failed',re.findall(r'^test (.*) \.\.\. FAILED',o,re.M),'' if 'test result' in o else o[-1500:],flush=True)
    for c in ch:
        rc,o=sh(f'./check.sh {c}',W,{'VERIF_TIER':'quick','VERIF_SEED':os.environ.get('VERIF_SEED','1'),'ICALSIM_SHRINK_S':'3'})
        if rc: print(i,c,'rc',rc,o[-700:],flush=True)
    print(i,'done',flush=True)
sh('git checkout -qf FETCH_HEAD',Q)
