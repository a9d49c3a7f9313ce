#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A refused write is reported and what was delivered is a clean prefix",
 "Whenever the destination a calendar, component, parsed calendar or parsed property is being written to refuses a write, at whatever point of the document, the call reports failure to its caller and never success. What the destination accepted up to the refusal is exactly the leading part of the document that would otherwise have been delivered, and after the refusal nothing more is written to it.",
 ["fault_sequences","inputs"],"every calendar, every output route, every write call (and every byte offset) at which the destination may refuse, and every way of refusing (refuse whole, accept part, refuse once and then recover, refuse only long or only some writes)",
 "The tests only ever write to a String, which cannot fail: no test contains a failing destination, so no error path of the writers is ever run.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/calendar.rs","src/calendar/calendar_component.rs"],
 [("error propagation with ? through Calendar/Component/Property writers","src/calendar.rs fmt_write; src/components.rs Component::fmt_write; src/properties.rs Property::fmt_write"),
  ("parsed-model writers","src/parser/components.rs LikeComponent::fmt_write; src/parser/properties.rs Property::fmt_write")],
 ["Component::fmt_write","Display for Calendar","Display for parser::Calendar and parser::Property","io::Write through write!"])

p("C02","A failed or panicking write leaves nothing behind",
 "After a write that was refused, panicked inside the destination or was abandoned half-way, the object being written is unchanged, and this thread and every other one go on as if the attempt had never been made. The next write of the same or any other object to a healthy destination delivers its complete document with nothing of the failed attempt in it, and reading documents is equally unaffected.",
 ["fault_sequences","histories"],"every history of writes, failed writes, panics and reads over several calendars on one or more threads, with the fault at any write",
 "Needs a fault at some point followed by further work in the same process; the tests inject no fault and each makes one write of one calendar.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/components.rs","src/parser/properties.rs"],
 [("writers take &self and keep no state between calls; per-call line buffers","src/properties.rs Property::fmt_write; src/parser/properties.rs fmt_write")],
 ["later output of the same and other objects","equality and Debug of the object before and after"])

p("C03","A DTSTAMP the library invents is the current UTC second",
 "A component (at any nesting level) written without a DTSTAMP of its own is given exactly one, whose value is the UTC wall-clock second at some instant within that very call, whatever the host's time zone and however the clock was stepped forwards or backwards before or during the call. A DTSTAMP the author supplied is written as supplied, exactly once, and writing never changes the in-memory object.",
 ["histories","configurations","inputs"],"every clock history (running, frozen, jumping forwards or back, leap days, year ends, monotonic clock disagreeing with wall clock), every TZ setting, every sequence of writes in one process, across threads and restarts",
 "Tests run on the real clock with TZ=UTC, set DTSTAMP explicitly wherever output is compared, and never move the clock.",
 ["src/components.rs","src/components/date_time.rs"],
 [("DTSTAMP fallback in the component writer","src/components.rs Component::fmt_write"),("UTC formatting","src/components/date_time.rs format_utc_date_time")],
 ["DTSTAMP lines of written documents, compared with the simulated clock"],
 [("DTSTAMP property","present or absent in the component's property map","src/components.rs InnerComponent")])

p("C04","A UID the library invents is never repeated",
 "A component (at any nesting level) written without a UID of its own is given exactly one non-empty UID, and no invented UID ever occurs twice: not within a document, not across calls or objects, not across threads, process restarts or hosts whose clocks agree, stand still or are set back. A UID the author supplied is written unchanged, exactly once, and writing never changes the in-memory object.",
 ["histories","schedules","configurations"],"every history of writes over threads, restarts and simulated hosts, any clock, any interleaving, random source interrupted or returning short reads",
 "Tests pin the UID wherever output is compared and never collect two invented UIDs, let alone across threads or process restarts.",
 ["src/components.rs"],
 [("random v4 UID fallback in the component writer","src/components.rs Component::fmt_write")],
 ["UID lines of all documents of a simulated run, over all its processes and threads"])

p("C05","A stored document keeps its content through every later generation",
 "Once a calendar has been written, reading the document and writing it again at any later time, on any host, after any number of restarts and read-write generations reproduces the same content: every property, parameter, UID and time stamp is kept exactly, nothing is added, dropped, altered or generated anew, and reading each generation yields an equal calendar. Generations differ at most in the order of properties within a component (same-named ones keeping theirs), in the order of parameters within a line and in where lines are folded.",
 ["histories","configurations","inputs"],"every document the library can write, every number of generations, every clock, time zone and hash seed at each generation, crash and restart between any two",
 "One test does three generations of one calendar within one process and one second; no test changes clock, time zone, hash seed or process between generations.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/mod.rs","src/parser/calendar.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parsed_string.rs","src/parser/utils.rs"],
 [("writers add stamps only when absent","src/components.rs Component::fmt_write"),("reader keeps every property and does not add default ones","src/parser/calendar.rs From<parser::Calendar>"),("escape/unescape and fold/unfold are inverse","src/properties.rs escape_text, fold_line; src/parser/parsed_string.rs unescape_text; src/parser/utils.rs unfold")],
 ["documents and calendars of consecutive generations"])

p("C06","Processes exchanging calendars converge on exactly what authors wrote",
 "When several processes author and edit components, write them into calendars, send these to each other, read them back and merge them by UID and SEQUENCE, then once messages stop being lost every process holds the same set of components, and each equals what its author put in: properties, parameters, repeated properties, nested components, text, and the values the typed accessors return (dates, times with or without zone, status, class, priority, alarm triggers and so on). Loss, duplication, reordering and delay of messages, crashes with restart from stored calendars, and relaying through the parsed representation affect when content arrives, never what it is.",
 ["histories","fault_sequences","inputs"],"every authored content, every history of edits, messages, losses, duplicates, reorderings, crashes and restarts, every hash seed, clock and time zone of every process",
 "Tests read one fixed calendar back once in the process that wrote it; no test has a second process, an edit after reading, a relay, or a fault.",
 ["src/calendar.rs","src/components.rs","src/components/date_time.rs","src/components/alarm.rs","src/components/todo.rs","src/components/event.rs","src/properties.rs","src/value_types.rs","src/parser/calendar.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/parsed_string.rs","src/parser/utils.rs"],
 [("writer and reader are inverse on content","src/components.rs fmt_write; src/parser/*"),("parsed model re-serialises what it read","src/parser/components.rs LikeComponent::fmt_write; src/parser/properties.rs fmt_write"),("typed setters and getters agree","src/components.rs; src/components/*.rs")],
 ["replica contents after every delivery and at quiescence, through accessors and through the reference reader"])

p("C07","Every written document is read correctly by an independent RFC 5545 reader",
 "Every document the library writes, under any hash seed, clock and time zone, consists of CRLF-terminated lines of at most 75 octets (component names being short), none of which splits a character, with BEGIN and END lines properly nested. A reader that knows nothing but RFC 5545 unfolding, quoting and text unescaping recovers from it exactly the components, properties, parameters and values that were put in, once each and in the order of components.",
 ["inputs","configurations"],"every authored content and every environment in which it is written; the hash seed decides the order of parameters and so where each line is folded",
 "The tests compare a handful of short fixed documents, or only read back with the library's own reader, which hides mistakes made alike on both sides; parameter order is random and never controlled.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/value_types.rs","src/parser/properties.rs"],
 [("line folding","src/properties.rs fold_line"),("TEXT escaping by value type","src/properties.rs escape_text, Property::fmt_write; src/value_types.rs"),("parameter quoting","src/properties.rs quote_if_contains_colon")],
 ["every document put on the simulated wire"])

p("C08","Re-framing in transit does not change what is read",
 "A calendar document whose framing was changed on its way reads as the same calendar as the original: lines folded at other character positions with space or tab, line ends CRLF, LF or a mixture of both, blank lines between content lines, a missing final line break, parameters reordered or quoted though they need not be, and text newlines written as either of the two legal escapes. This holds for documents written by this library and for equivalent ones written by another RFC 5545 implementation.",
 ["inputs","histories","fault_sequences"],"every document and every sequence of such transformations applied by the hops it passes through",
 "Tests unfold a few fixed snippets and read a dozen fixture files; none reads the same content under two framings and compares.",
 ["src/parser/utils.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/components.rs","src/parser/parsed_string.rs"],
 [("unfolding","src/parser/utils.rs unfold"),("line separation tolerant of LF and blank lines","src/parser/utils.rs line_separated; src/parser/properties.rs property"),("quoted parameters","src/parser/parameters.rs"),("unescaping","src/parser/parsed_string.rs")],
 ["Calendar::from_str, read_calendar(unfold(..)), read_components, CalendarComponent::from_str"])

p("C09","A torn document is never read as a calendar with part of its content",
 "If only a leading part of a written calendar reaches the reader, because the writer crashed, the disk lost the tail or the connection was cut, then reading it reports an error; it never yields a calendar holding part of the content or none of it. Only when nothing but the final line break is missing is the complete content read, of several components that follow one another without a calendar around them, or of several calendars in one file, those that are there in full when the next has not begun (a function that reads one calendar gives the first), and only text that breaks off before the name in the first BEGIN line may count as an empty calendar.",
 ["crash_points","inputs"],"every document and every byte at which it may break off, through every reading function, whoever wrote and framed the document",
 "The one test with cut-off text is the literal string BEGIN: and asserts only that parsing it does not crash; no test cuts a real document.",
 ["src/parser/mod.rs","src/parser/components.rs","src/parser/calendar.rs"],
 [("a component must be closed by its END line before it counts","src/parser/components.rs component, components"),("roots are returned only when parsed completely","src/parser/mod.rs read_calendar, read_components, read_calendar_simple")],
 ["result of every reading function on what the crashed writer left"])

p("C10","Damaged documents never crash or hang the reader",
 "Reading stored or received text (iCalendar, or the JSON form of a parsed calendar) that was damaged in any way (flipped, zeroed, lost, repeated or swapped bytes and blocks, pieces of other documents spliced in, bytes that are no longer UTF-8 replaced) always returns, with a result or an error, within effort and memory that grow about in proportion to the size of the text, and never panics or aborts; nesting depth is taken to stay within ordinary bounds. Every accessor, conversion and writer applied to whatever was read likewise returns without panicking.",
 ["fault_sequences","inputs"],"every document and every sequence of storage and transmission faults applied to it",
 "Tests read about twenty well-formed or nearly well-formed texts; damage at arbitrary places, and accessors on damaged values, are not tried.",
 ["src/parser/mod.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/utils.rs","src/parser/parsed_string.rs","src/components/date_time.rs","src/components/alarm.rs","src/calendar.rs","src/properties.rs"],
 [("parser combinators without indexing or unwrap","src/parser/*"),("accessors return Option","src/components.rs, src/components/*.rs, src/calendar.rs get_ttl")],
 ["all reading functions; all accessors and writers on their results"])

p("C11","Concurrent and nested use never interfere",
 "Any number of threads may build, inspect, write and read shared and separate calendars at the same time, and a destination may itself write or read other calendars while it is being written to. For every interleaving each operation gives the result it would give alone, even while others fail or panic, and all of them finish.",
 ["schedules","fault_sequences"],"every interleaving of the operations of several threads, every nesting of operations inside a destination's write, with refusals and panics in some of them",
 "Every test is single-threaded with respect to the objects it uses and never re-enters the library from a destination.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/mod.rs","src/parser/components.rs"],
 [("no shared mutable state: writers and readers work on &self and locals only","src/calendar.rs, src/components.rs, src/properties.rs, src/parser/*")],
 ["per-operation results compared with the operation run alone; completion of all threads"])

p("C12","Every output route delivers the same bytes however the stream chunks them",
 "All ways of writing the same object at the same moment (display formatting, conversion to a string, writing to a caller's destination or byte stream, printing to standard output, which appends one line break) deliver the same bytes, and a property written by itself is the line it is in its document. A stream that accepts only part of a write, or is interrupted and resumed, neither loses, repeats nor reorders any of them, and a stream or standard output that fails for good is never reported as success.",
 ["fault_sequences","inputs","configurations"],"every object, every output route, every pattern of short and interrupted writes of the stream or of standard output, every point of permanent failure",
 "Tests use one route at a time into memory and never look at what was printed; no test has a stream that accepts less than it is given.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/calendar.rs","src/lib.rs"],
 [("all routes share the fmt writers","src/calendar.rs fmt_write/Display/TryInto/print; src/components.rs fmt_write/to_string/try_into_string/print; src/parser/calendar.rs Display/print"),("print macros","src/lib.rs print_crlf, write_crlf")],
 ["bytes accepted by simulated streams and simulated file descriptor 1"])

p("C13","The JSON bridge is lossless and fails cleanly on interrupted streams",
 "A parsed calendar turned into JSON and back, through strings, bytes or streams, equals the original and writes the same iCalendar document. A JSON stream that delivers or accepts data in arbitrary pieces or is interrupted changes nothing, and one that breaks off or fails at any point is reported as an error, never as a calendar with part of the content.",
 ["fault_sequences","inputs","crash_points"],"every parsed calendar, every chunking and interruption of the JSON stream, every byte at which it fails or ends",
 "No test touches the serde feature at all; only two examples use it.",
 ["src/parser/calendar.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/parsed_string.rs"],
 [("derived Serialize/Deserialize on the parsed model","src/parser/calendar.rs, components.rs, properties.rs, parameters.rs, parsed_string.rs")],
 ["serde_json to_writer/from_reader over simulated streams; to_string/from_str/from_slice/from_value"])

p("C14","A zoned date-time denotes the same instant on every host and at any time",
 "Converting a calendar date-time to UTC depends on nothing but the date-time: on every host, under every TZ setting, at every moment, on every thread and after any other conversion, a date-time in a named zone gives exactly the instant at which that zone's clocks show it, and one given in UTC gives itself. It gives nothing if the zone is unknown, if the zone's clocks skip that local time or show it twice, or if the date-time is floating. The same holds after the date-time has travelled through any number of written, stored and re-read documents. Making a date-time from a zone name or from an instant denotes that same time, and discarding the time of day keeps the date as written.",
 ["inputs","configurations","histories","schedules"],"every date-time, zone identifier, host clock and host time zone, every history of conversions over threads and processes",
 "The tests convert a couple of fixed dates on one host under TZ=UTC; gaps and overlaps at zone transitions, other hosts, repeated conversions and date-times read back elsewhere are not tried.",
 ["src/components/date_time.rs","src/components.rs","src/components/event.rs","src/components/todo.rs"],
 [("chrono-tz lookup, single result only","src/components/date_time.rs try_into_utc"),("building from a zone name or an instant","src/components/date_time.rs from_ymd_hm_tzid, with_timezone, From impls"),("date_naive","src/components/date_time.rs DatePerhapsTime::date_naive")],
 ["CalendarDateTime::try_into_utc, DatePerhapsTime::date_naive, get_start/get_end/get_due on every simulated host"])
p("C15","Containers and builders neither lose, repeat nor reorder what they are given",
 "After any history of building calls every component given to a calendar is in it exactly once and in the order given, however it was given: pushed, extended, appended from another calendar (which is then empty), collected or converted. The same holds when the supplier of the components panics, ends early or fails part-way: those handed over before are in the calendar or were dropped with the iterator, and nothing that was there before is lost. Setting a property replaces only that property; adding a repeated property keeps all in the order added; finishing a builder hands over everything and leaves nothing behind for the next one. Copies are independent of their originals, and histories on different objects, also on different threads, do not affect each other.",
 ["inputs","histories","fault_sequences","schedules"],"every history of builder and container calls over several objects, with suppliers and conversions that panic or end early at any point, on one or more threads",
 "Tests make one or two calls each on one object, and no test has a supplier that fails.",
 ["src/calendar.rs","src/components.rs","src/components/event.rs","src/components/todo.rs","src/components/alarm.rs","src/components/other.rs","src/properties.rs"],
 [("component list operations","src/calendar.rs push/extend/append/From/FromIterator/Extend"),("property maps","src/components.rs append_property, append_multi_property, append_component; InnerComponent"),("done","src/components/*.rs done; src/calendar.rs done; src/properties.rs Property::done")],
 ["Calendar::components, Component::properties, multi_properties, components, and written documents after every step"])
p("C16","The reader accepts every RFC 5545 content line",
 "Every content line of the RFC 5545 grammar is accepted and split into name, parameters and value as the grammar says, including lists of quoted parameter values and property names that begin with END or BEGIN.",
 ["inputs"],"every content line of the grammar",
 "Tests contain about thirty lines.",
 ["src/parser/properties.rs","src/parser/parameters.rs","src/parser/utils.rs"],[("nom grammar","src/parser/properties.rs property; src/parser/parameters.rs parameter; src/parser/utils.rs property_key")],["parser::Property::try_from, parser::Parameter::try_from"])
p("C17","Reading is safe at any nesting depth",
 "However deeply components are nested in a document, reading it, dropping it and writing it never exhausts the stack.",
 ["inputs"],"every nesting depth",
 "The deepest test document nests two levels.",
 ["src/parser/components.rs","src/components.rs"],[("recursive descent","src/parser/components.rs component")],["Calendar::from_str"])
p("C18","Values the author sets cannot break out of their line",
 "No value, name or parameter given to a builder can add, end or alter other lines of the written document.",
 ["inputs"],"every string given to every setter",
 "Tests put newlines only into text properties.",
 ["src/properties.rs"],[("escaping is applied only to properties known to be TEXT","src/properties.rs Property::fmt_write")],["written documents"])
p("C19","Several calendar objects in one stream are all read",
 "A stream holding several calendar objects one after the other yields all of them, and trailing text after the last one does not make them disappear.",
 ["inputs"],"every sequence of calendar objects in one text",
 "No test reads a text with two root components.",
 ["src/parser/mod.rs","src/parser/components.rs"],[("root repetition","src/parser/components.rs components; src/parser/mod.rs read_calendar")],["read_components, read_calendar_simple, Calendar::from_str"])
p("C20","A long-running process accumulates neither memory nor effort",
 "Doing the same work again, however often and whatever of it fails, panics or is refused, and whichever thread does it, costs no more than before: once results have been dropped a process holds no more memory than it did after doing it the first few times, and each repetition takes about the same effort. This covers building, writing, reading, converting, copying and inspecting, with content that differs from one repetition to the next, and threads that come and go.",
 ["histories","fault_sequences","schedules"],"every history of operations repeated any number of times, with refusals, panics and damaged input among them, on one thread, several, or a new one each time",
 "A test does each thing once or twice and does not measure; what a process accumulates shows only after many repetitions.",
 ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/mod.rs","src/parser/components.rs","src/components/date_time.rs"],
 [("no global or thread-local state that grows; results own all they hold","src/calendar.rs, src/components.rs, src/properties.rs, src/parser/*")],
 ["live heap bytes after each repetition, executed control-flow edges during it"])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
