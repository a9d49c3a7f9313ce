use crate::Property;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c20;
pub static PROPERTIES: &[Property] = &[
    Property { id: "C01", run: c01::run, quick: 20000, thorough: 2000000,
        how: "An object (calendar, component, parsed calendar or parsed property) is drawn, written once to a healthy destination, and then to destinations that refuse at a drawn call or byte, or, for short documents, at every single call and byte.",
        nontrivial: "at least one write was refused inside the document",
        assumptions: &["destinations are fmt and io writers and strings; a destination that accepts part of a write and refuses the rest accepts whole characters (fmt) or any bytes (io)"] },
    Property { id: "C02", run: c02::run, quick: 20000, thorough: 2000000,
        how: "Several simulated threads carry out drawn histories of failing, panicking, stalled and healthy writes and reads on shared objects.",
        nontrivial: "at least one write failed, panicked or stalled and a healthy operation followed",
        assumptions: &["standard output that has failed is not used again afterwards (its buffer belongs to the standard library)"] },
    Property { id: "C03", run: c03::run, quick: 20000, thorough: 2000000,
        how: "Components and calendars lacking a DTSTAMP at drawn nesting levels are written by drawn routes on simulated threads while the simulated clock ticks, steps forwards and backwards and stands still; each invented value must be the UTC second of an instant the clock showed within that call.",
        nontrivial: "a DTSTAMP was invented and checked against the clock history of its call",
        assumptions: &["clocks show instants between 1971 and 2199; the simulated host never fails to tell the time"] },
    Property { id: "C04", run: c04::run, quick: 16000, thorough: 1000000,
        how: "Several simulated processes on hosts with equal, standing or set-back clocks write objects lacking UIDs on several threads, crash and restart; every invented UID is kept in one history and must be new.",
        nontrivial: "at least two UIDs were invented and compared",
        assumptions: &["the operating system gives 128 random bits that are not repeated across processes; the simulator derives them from the seed, fails or shortens the call but never repeats it"] },
    Property { id: "C05", run: c05::run, quick: 10000, thorough: 500000,
        how: "A calendar is written, stored, and then read and written again by a chain of simulated processes with other hash seeds, clocks and zones, some of which are killed while storing the next generation.",
        nontrivial: "at least one later generation was produced and stored",
        assumptions: &["the store replaces a document by rename, as a careful user does; a generation that was not renamed never happened"] },
    Property { id: "C06", run: c06::run, quick: 6000, thorough: 200000,
        how: "Two to four simulated processes author and edit components, store their calendars, and exchange them through a simulated network that loses, duplicates, reorders, delays, truncates, re-frames and relays messages, while processes are killed and restarted; every delivery, every restart and the final state are compared with what the authors put in.",
        nontrivial: "at least one component was authored, stored and read back",
        assumptions: &["each component is edited by the process that authored it only; a node's store replaces its calendar by rename"] },
    Property { id: "C07", run: c07::run, quick: 24000, thorough: 1500000,
        how: "A drawn calendar is written by every route under drawn hash seeds, clocks and zones, to healthy and failing destinations, and the delivered document is read by an independent RFC 5545 reader.",
        nontrivial: "a document was read and compared",
        assumptions: &["component names are short (at most 68 bytes)"] },
    Property { id: "C08", run: c08::run, quick: 16000, thorough: 800000,
        how: "A document of this library or of an independent RFC 5545 writer passes through a simulated relay that changes its framing, and is read by every route.",
        nontrivial: "at least one re-framed document was read and compared",
        assumptions: &["whether a value is TEXT is judged by property name and VALUE parameter, as in RFC 5545"] },
    Property { id: "C09", run: c09::run, quick: 1600, thorough: 90000,
        how: "A writer is killed at a drawn instruction while it writes to a simulated disk, or a document is torn at every byte (short ones) or at drawn ones, and what is left is read by every route.",
        nontrivial: "at least one torn document was read",
        assumptions: &["bytes of a character cut in the middle are replaced before reading, since the reader takes text"] },
    Property { id: "C10", run: c10::run, quick: 3500, thorough: 350000,
        how: "Documents of the library and of an independent RFC 5545 writer are damaged as disks and networks do, and read by every route; whatever was read is inspected through every accessor, converted and written again.",
        nontrivial: "a damaged text was read by every route",
        assumptions: &["the damaged bytes are turned into text by replacing what is not UTF-8, since the reader takes text", "effort is counted in executed control-flow edges of the library and its parser, and allocations"] },
    Property { id: "C11", run: c11::run, quick: 12000, thorough: 800000,
        how: "One to twenty simulated threads, pre-empted inside the library by a seeded scheduler, build, inspect, copy, convert, write, print and read shared and separate objects, some to destinations that use the library themselves, while others fail, panic, die and stall; every result is compared with the one computed alone.",
        nontrivial: "at least two threads were at work",
        assumptions: &["threads interleave at control-flow edges of the library and its parser, at allocations and at seams, in sequentially consistent memory (weak memory effects are not simulated)"] },
    Property { id: "C12", run: c12::run, quick: 32000, thorough: 2000000,
        how: "One object is written by every route at the same simulated instant: to strings, destinations, buffered and unbuffered streams and standard output that take data in drawn pieces, are interrupted, or fail for good at a drawn byte.",
        nontrivial: "an object was written by several routes and compared",
        assumptions: &["UIDs the library invents differ from one write to the next and are masked", "a panic counts as a report of failure when standard output fails, as print! does"] },
    Property { id: "C13", run: c13::run, quick: 12000, thorough: 600000,
        how: "Parsed calendars of several origins are turned into JSON and back through strings, bytes, value trees and simulated streams that deliver and accept data in drawn pieces, are interrupted, or fail; and JSON is torn at every byte (short texts) or at drawn ones.",
        nontrivial: "a calendar went through JSON and torn copies were rejected",
        assumptions: &["serde_json is the JSON implementation"] },
    Property { id: "C14", run: c14::run, quick: 30000, thorough: 2000000,
        how: "Date-times in zones are authored, converted, written, sent to other simulated hosts with other time zones and stepped clocks, read and converted again by every route and on several threads.",
        nontrivial: "a zoned date-time was converted and compared with the zone's published rules",
        assumptions: &["rules of about 40 zone names as published, from 1970 to 2099"] },
    Property { id: "C15", run: c15::run, quick: 20000, thorough: 1200000,
        how: "Several simulated threads carry out a drawn history of container and builder operations on three calendars, fed by suppliers and conversions that panic half-way or use another calendar meanwhile; after every operation all views of the calendars are compared with a sequence model.",
        nontrivial: "a history of operations was carried out and compared with the model",
        assumptions: &["what a supplier handed over before it panicked may or may not have been taken up, the leading part first"] },
    Property { id: "C20", run: c20::run, quick: 2200, thorough: 150000,
        how: "A simulated process carries out the same drawn script of building, writing, reading, relaying and converting, with refused, panicking and torn operations, in up to 1200 rounds on drawn threads; live heap bytes and executed steps are compared between rounds.",
        nontrivial: "a script was carried out in many rounds and its memory and effort were compared",
        assumptions: &["memory is what the allocator has handed out and not got back; a growth of less than 2 bytes per round (8 among several threads) is not seen"] },
];
