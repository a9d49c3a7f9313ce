From e07b95179ea55be9e8e2642822bc7143191cadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 01/18] fix: unescape TEXT values in a single pass

Escapes were replaced one after the other over the whole value, so an
escaped backslash followed by an 'n' (a literal \n) became a line break.
---
 src/parser/parsed_string.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..158945c 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -36,24 +36,26 @@ impl<'a> ParseString<'a> {
     }
 
     pub fn unescape_text(self) -> ParseString<'a> {
-        if self.0.contains(r#"\\"#)
-            || self.0.contains(r#"\,"#)
-            || self.0.contains(r#"\;"#)
-            || self.0.contains(r#"\:"#)
-            || self.0.contains(r#"\N"#)
-            || self.0.contains(r#"\n"#)
-        {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
-        } else {
-            self
+        if !self.0.contains('\\') {
+            return self;
         }
+
+        // one pass, so that the result of one escape never becomes part of another
+        let mut unescaped = String::with_capacity(self.0.len());
+        let mut chars = self.0.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                unescaped.push(c);
+                continue;
+            }
+            match chars.next() {
+                Some(escaped @ ('\\' | ',' | ';' | ':')) => unescaped.push(escaped),
+                Some('n' | 'N') => unescaped.push('\n'),
+                Some(other) => unescaped.extend(['\\', other]),
+                None => unescaped.push('\\'),
+            }
+        }
+        unescaped.into()
     }
 }
 
-- 
2.43.0


From 8aff25007c683ab828ea7ce8041ef17a0209ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 02/18] fix: escape TEXT values and quote parameters when
 writing parsed properties

Reading unescapes TEXT values and strips the quotes off parameter values;
writing the parsed representation has to put them back, or a line break in
a value ends the content line and a colon in a parameter ends the parameters.
---
 src/parser/properties.rs | 11 +++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..2e0a722 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,12 +69,19 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                let val = crate::Property::quote_if_contains_colon(val.as_str());
+                write!(line, ";{}={}", key.as_str(), val)?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => {
+                let val = crate::Property::escape_text(self.val.as_str());
+                write!(line, ":{}", val)?;
+            }
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..771459e 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From a122d3d7fe24522b520ab7935c7a83c823513dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 03/18] fix: end a property value at the first line break of
 either kind

The search for CRLF came first and went over the whole rest of the input, so
in a document mixing LF and CRLF a value swallowed all LF-terminated lines
up to the next CRLF.
---
 src/parser/properties.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 2e0a722..86e68af 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::{tag, take_while},
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -394,13 +394,10 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                     context("property separator", tag(":")), // separator
                     context(
                         "property value",
-                        alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
-                            // this is for single line prop parsing, just so I can leave off the '\n'
-                            take_while(|_| true),
-                        ))
-                        .map(ParseString::from),
+                        // up to the first line break, be it CRLF or LF, or to the end of the input
+                        take_while(|c| c != '\n')
+                            .map(|val: &str| val.strip_suffix('\r').unwrap_or(val))
+                            .map(ParseString::from),
                     ),
                 ),
                 context(
-- 
2.43.0


From be728d77354788517e1cf529779c92453e7a509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 04/18] fix: read an empty quoted parameter value as empty

The two quote characters of KEY="" were taken for the value.
---
 src/parser/parameters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..ed55b38 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till1, take_while},
     character::complete::space0,
     combinator::{eof, opt},
     error::{convert_error, ContextError, ParseError, VerboseError},
@@ -143,7 +143,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_while(|c| c != '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             )))
             .map(remove_empty_string),
@@ -168,7 +168,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_while(|c| c != '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             ))
             .map(ParseString::from),
-- 
2.43.0


From 2550fa09f5b8c0fd8e1559bd49dfac3566b52e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 05/18] fix: report an error for a document that breaks off
 inside its first component

A root component without its END line, or followed by anything unreadable
such as the CR of a torn CRLF, was dropped and the document read as an empty
calendar without any error.
---
 src/parser/components.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..74dd9fc 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    character::complete::multispace0,
+    combinator::{cut, eof, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::preceded,
     Finish, IResult, Parser,
 };
 
@@ -247,9 +249,15 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
-    let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
-
-    let (input, (properties, components)) = many_till(
+    let (input, name) = line(
+        "BEGIN:",
+        verify(valid_key_sequence_cow, |name: &ParseString| {
+            !name.as_str().is_empty()
+        }),
+    )(input)?;
+
+    // once its name has been read a component has to be complete
+    let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
@@ -258,7 +266,7 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             )),
         )),
         line("END:", cut(context("mismatching end", tag(name.as_str())))),
-    )
+    ))
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
         let mut components = Vec::new();
@@ -515,5 +523,12 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    let (input, components) = many0(component)(input)?;
+    if components.is_empty() {
+        return Ok((input, components));
+    }
+
+    // what follows the last component must not make the ones before it disappear
+    let (input, _) = cut(context("end of document", preceded(multispace0, eof)))(input)?;
+    Ok((input, components))
 }
-- 
2.43.0


From c9f36c78130bcaa25801c62c5740c13088137d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 06/18] fix: name the LAST-MODIFIED property as RFC 5545 does

It was written and looked up as LAST_MODIFIED, so no other implementation
saw it and it was never found in documents written by one.
---
 src/components.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..7c78496 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,20 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        // documents written by earlier versions of this crate have it as `LAST_MODIFIED`
+        parse_utc_date_time(
+            self.property_value("LAST-MODIFIED")
+                .or_else(|| self.property_value("LAST_MODIFIED"))?,
+        )
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From a465cff4d154da48f5453fff45e52d15d936197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 07/18] fix: read back triggers before the event and triggers
 with a time zone

The sign of a duration was not understood, and the TZID of an absolute
trigger was ignored.
---
 src/components/alarm.rs     | 4 +++-
 src/components/date_time.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..e22e82c 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,14 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    let (is_negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    iso8601::duration(unsigned)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if is_negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From 759571429c084d79794ee97b2ecc779913918f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 08/18] fix: keep the last line of a folded property within 75
 octets

The leading space was not counted, so the last line could be 76 octets long.
---
 src/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 771459e..09a6626 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,8 +393,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace = |line: &str, next_pos| {
             line.chars()
                 .nth(next_pos)
@@ -416,7 +417,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        // the space that marks a continuation line counts as well
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From ec639c4be40d25f4dfd754946f14da8bec274810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 09/18] fix: keep every occurrence of a repeated property when
 reading

Of a property not in the list of properties that may occur several times,
such as RELATED-TO or one with an X- name, only the last one was kept.
---
 src/parser/components.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 74dd9fc..686ae87 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -136,22 +136,20 @@ impl From<Component<'_>> for Other {
 impl From<Component<'_>> for InnerComponent {
     fn from(component: Component) -> Self {
         let mut from_component = Self {
-            properties: component
-                .properties
-                .iter()
-                .filter(|p| !p.is_multi_property())
-                .map(|p| (p.name.clone().into_owned().into(), p.to_owned().into()))
-                .collect(),
+            properties: Default::default(),
             components: component.components.into_iter().map(Other::from).collect(),
             multi_properties: Default::default(),
         };
 
-        for p in component
-            .properties
-            .into_iter()
-            .filter(Property::is_multi_property)
-        {
-            from_component.insert_multi(p);
+        for p in component.properties {
+            // a property that occurs again is kept as well, whatever its name
+            if p.is_multi_property() || from_component.properties.contains_key(p.name.as_str()) {
+                from_component.insert_multi(p);
+            } else {
+                from_component
+                    .properties
+                    .insert(p.name.as_str().to_owned(), p.into());
+            }
         }
 
         from_component
-- 
2.43.0


From 8dc18c97609354b7d21d09c2fa25221188d0eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 10/18] fix: fold lines of multi-byte text without stepping
 back past their start

The whitespace check mixed byte offsets and character counts, so with
multi-byte text it could push the fold position back below the start of
the line and panic.
---
 src/properties.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 09a6626..ac75126 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -396,19 +396,13 @@ pub(crate) fn fold_line(line: &str) -> String {
     let mut limit = LIMIT;
 
     while bytes_remaining > limit {
-        let pos_is_whitespace = |line: &str, next_pos| {
-            line.chars()
-                .nth(next_pos)
-                .map(char::is_whitespace)
-                .unwrap_or(false)
-        };
-        if pos_is_whitespace(line, next_pos) {
+        while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
         }
-
-        while !line.is_char_boundary(next_pos) {
+        // don't start a continuation line with whitespace
+        if line[next_pos..].starts_with(char::is_whitespace) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
+            while !line.is_char_boundary(next_pos) {
                 next_pos -= 1;
             }
         }
-- 
2.43.0


From 4990920207471b8a06edf320941c325c5b6d6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 11/18] fix: report errors far into a line instead of panicking

---
 src/parser/components.rs |  4 ++--
 src/parser/mod.rs        |  3 ++-
 src/parser/parameters.rs |  7 ++++--
 src/parser/properties.rs |  4 ++--
 src/parser/utils.rs      | 47 ++++++++++++++++++++++++++++++++++++++--
 5 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 686ae87..e36194c 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -6,7 +6,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::multispace0,
     combinator::{cut, eof, verify},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::preceded,
     Finish, IResult, Parser,
@@ -22,7 +22,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{convert_error, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5fc6598..00e33e3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@
 //!
 //!
 #![allow(missing_docs)]
-use nom::{error::convert_error, error::VerboseError, Finish};
+use nom::{error::VerboseError, Finish};
 
 mod calendar;
 pub(crate) mod components;
@@ -41,6 +41,7 @@ pub use parsed_string::ParseString;
 pub use properties::Property;
 
 use components::*;
+use utils::convert_error;
 
 pub use utils::unfold;
 
diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index ed55b38..3a67788 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{tag, take_till1, take_while},
     character::complete::space0,
     combinator::{eof, opt},
-    error::{convert_error, ContextError, ParseError, VerboseError},
+    error::{ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded, separated_pair, tuple},
     Finish, IResult, Parser,
@@ -12,7 +12,10 @@ use nom::{
 #[cfg(test)]
 use nom::error::ErrorKind;
 
-use super::{parsed_string::ParseString, utils::valid_key_sequence_cow};
+use super::{
+    parsed_string::ParseString,
+    utils::{convert_error, valid_key_sequence_cow},
+};
 
 /// Zero-copy version of [`crate::properties::Parameter`]
 #[derive(PartialEq, Eq, Debug, Clone)]
diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 86e68af..738e61e 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -8,14 +8,14 @@ use crate::{parser::utils::valid_key_sequence_cow, properties::fold_line, value_
 use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
-    utils::property_key,
+    utils::{convert_error, property_key},
 };
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while},
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, ContextError, ParseError, VerboseError},
     sequence::{preceded, separated_pair, tuple},
     Finish, IResult, Parser,
 };
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..99d3da1 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -2,16 +2,59 @@ use nom::{
     bytes::complete::{tag_no_case, take_while},
     character::complete::line_ending,
     combinator::complete,
-    error::{ContextError, ParseError},
+    error::{ContextError, ParseError, VerboseError, VerboseErrorKind},
     multi::many0,
     sequence::{delimited, preceded},
-    Err, IResult, Parser,
+    Err, IResult, Offset, Parser,
 };
 #[cfg(test)]
 use pretty_assertions::assert_eq;
 
 use super::parsed_string::ParseString;
 
+/// Turns a [`VerboseError`] into a trace with input position information.
+///
+/// Like [`nom::error::convert_error`], which panics if the error is further than [`u16::MAX`]
+/// columns into its line.
+pub fn convert_error(input: &str, e: VerboseError<&str>) -> String {
+    let mut result = String::new();
+    for (i, (rest, kind)) in e.errors.iter().enumerate() {
+        let expected = match kind {
+            VerboseErrorKind::Char(c) => format!("expected '{}'", c),
+            VerboseErrorKind::Context(context) => format!("in {}", context),
+            VerboseErrorKind::Nom(nom_err) => format!("in {:?}", nom_err),
+        };
+        if input.is_empty() {
+            result.push_str(&format!("{}: {}, got empty input\n\n", i, expected));
+            continue;
+        }
+
+        let offset = input.offset(rest);
+        let line_number = input[..offset].matches('\n').count() + 1;
+        let line_begin = input[..offset].rfind('\n').map_or(0, |pos| pos + 1);
+        let line = input[line_begin..].lines().next().unwrap_or("").trim_end();
+        let caret = format!("{}^", " ".repeat(offset - line_begin));
+
+        result.push_str(&match kind {
+            VerboseErrorKind::Char(_) => {
+                let found = match rest.chars().next() {
+                    Some(actual) => format!("found {}", actual),
+                    None => "got end of input".to_string(),
+                };
+                format!(
+                    "{}: at line {}:\n{}\n{}\n{}, {}\n\n",
+                    i, line_number, line, caret, expected, found
+                )
+            }
+            _ => format!(
+                "{}: at line {}, {}:\n{}\n{}\n\n",
+                i, line_number, expected, line, caret
+            ),
+        });
+    }
+    result
+}
+
 // TODO: how do I express <<alpha_or_dash, but not "END">>
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
-- 
2.43.0


From 2bc1a01b9d4d3a9af6b7d3aa826b58fafdd36f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 12/18] fix: count a UID or DTSTAMP supplied as a
 multi-property as the author's

---
 src/components.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 7c78496..20d6571 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -94,7 +94,10 @@ pub trait Component {
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "BEGIN:{}", self.component_kind())?;
 
-        if !self.properties().contains_key("DTSTAMP") {
+        let has =
+            |key| self.properties().contains_key(key) || self.multi_properties().contains_key(key);
+
+        if !has("DTSTAMP") {
             let now = Utc::now();
             write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
         }
@@ -103,7 +106,7 @@ pub trait Component {
             property.fmt_write(out)?;
         }
 
-        if !self.properties().contains_key("UID") {
+        if !has("UID") {
             write_crlf!(out, "UID:{}", Uuid::new_v4())?;
         }
 
-- 
2.43.0


From 48618bfdfeaf0a3edba1e0072436368832ace734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 13/18] fix: get_timezone reads TIMEZONE-ID, the name
 timezone() writes

---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From a1df8e2b531bb649f715d757cddd0e7a758ffc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 14/18] fix: read the ttl of a calendar whatever the sign of
 its duration

`ttl()` takes any duration and RFC 5545 allows a sign in front of one,
but `get_ttl()` gave `None` for durations with a sign.
---
 src/calendar.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e1aa9af..2557648 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -1,7 +1,10 @@
 use chrono::Duration;
 use std::{fmt, mem, ops::Deref};
 
-use crate::{components::*, Parameter, Property};
+use crate::{
+    components::{date_time::parse_duration, *},
+    Parameter, Property,
+};
 
 mod calendar_component;
 
@@ -198,16 +201,11 @@ impl Calendar {
     /// Gets the value of the `REFRESH-INTERVAL` or `X-PUBLISHED-TTL` property.
     pub fn get_ttl(&self) -> Option<Duration> {
         self.property_value("REFRESH-INTERVAL")
-            .and_then(|refresh_interval| iso8601::duration(refresh_interval).ok())
+            .and_then(parse_duration)
             .or_else(|| {
                 self.property_value("X-PUBLISHED-TTL")
-                    .and_then(|published_ttl| iso8601::duration(published_ttl).ok())
+                    .and_then(parse_duration)
             })
-            .map(std::time::Duration::from)
-            .map(Duration::from_std)
-            .transpose()
-            .ok()
-            .flatten()
     }
 
     /// End of builder pattern.
-- 
2.43.0


From 8a4af78d07f5ddd643e408c3cadc116d1ee37592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 15/18] fix: keep the properties of a calendar made from parsed
 components

Converting the components of a document (`read_components`) into a
`Calendar` lost every property of the calendar itself and put those of
`Calendar::new()` in their place, unlike `read_calendar`.
---
 src/parser/calendar.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..8f3ff62 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,14 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            // the properties of a calendar belong to it as much as its components
+            let root = components.swap_remove(0);
+            return crate::Calendar::from(Calendar {
+                properties: root.properties,
+                components: root.components,
+            });
+        }
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 4375f90d36e15e705186379b87059221c4218fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 16/18] fix: read properties whose names begin with END or
 BEGIN

`ENDING:x` can be written but was refused by the parser.
---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 99d3da1..f9dc797 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -59,13 +59,14 @@ pub fn convert_error(input: &str, e: VerboseError<&str>) -> String {
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From d07ec250892d56ebcce9de29e1a29dd4602b2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 17/18] fix: quote parameter values that contain a comma

RFC 5545, 3.2: a comma outside of quotes separates several values.
---
 src/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index ac75126..641e334 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -163,7 +163,7 @@ impl Property {
     }
 
     pub(crate) fn quote_if_contains_colon(input: &str) -> String {
-        if input.contains([':', ';']) {
+        if input.contains([':', ';', ',']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
             quoted.push_str(input);
-- 
2.43.0


From 23ce692f23c8a1be58c6b73aef76119e43dd37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 18/18] fix: write names and descriptions of calendars and
 parts of addresses as text

`Calendar::description("a\nb")` and `Venue::street_address` wrote line
breaks as they are, which broke the document apart.
---
 src/value_types.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..46cc99d 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -95,6 +95,21 @@ impl ValueType {
             // "An IANA-registered property name" => Any parameter can be specified on this property.
             // "X-"/* ... */ => Some(Text),       // any type 3.8.8.2
             "REQUEST-STATUS" => Some(Text), // 3.8.8.3
+
+            // RFC 7986 and the names in use before it
+            "NAME" => Some(Text), // 5.1
+            "X-WR-CALNAME" => Some(Text),
+            "X-WR-CALDESC" => Some(Text),
+            "TIMEZONE-ID" => Some(Text),
+            "X-WR-TIMEZONE" => Some(Text),
+
+            // VVENUE
+            "STREET-ADDRESS" => Some(Text),
+            "EXTENDED-ADDRESS" => Some(Text),
+            "LOCALITY" => Some(Text),
+            "REGION" => Some(Text),
+            "COUNTRY" => Some(Text),
+            "POSTAL-CODE" => Some(Text),
             _ => None,
         }
     }
-- 
2.43.0

