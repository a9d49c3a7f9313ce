//! Some time zones, from their published rules alone.
use crate::gen::{days, epoch};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule {
    Fixed,
    /// 01:00 UTC on the last Sundays of March and October
    Eu,
    /// 02:00 local on the second Sunday of March and the first of November
    Us,
    /// first Sunday of October 02:00 standard time to first Sunday of April 02:00 standard time
    Au,
    /// 02:00 local on the first Sunday of April and the last of October
    UsOld,
    /// offsets from instants on
    List(&'static [(i64, i64)]),
}
#[derive(Clone, Copy, Debug)]
pub struct Zone {
    pub name: &'static str,
    /// seconds east of UTC in standard time
    std: i64,
    dst: i64,
    rule: Rule,
    /// the rule holds from this year on, to the end of this one
    pub from: i32,
    pub to: i32,
}
const H: i64 = 3600;
const fn fix(name: &'static str, std: i64, from: i32) -> Zone {
    Zone { name, std, dst: 0, rule: Rule::Fixed, from, to: LAST }
}
const fn z(name: &'static str, std: i64, dst: i64, rule: Rule, from: i32) -> Zone {
    Zone { name, std, dst, rule, from, to: LAST }
}
/// local mean time, and other times that have passed
const fn old(name: &'static str, std: i64, from: i32, to: i32) -> Zone {
    Zone { name, std, dst: 0, rule: Rule::Fixed, from, to }
}
const fn list(name: &'static str, std: i64, from: i32, to: i32, l: &'static [(i64, i64)]) -> Zone {
    Zone { name, std, dst: 0, rule: Rule::List(l), from, to }
}
pub const ZONES: &[Zone] = &[
    z("Europe/Berlin", H, H, Rule::Eu, 1996),
    z("America/New_York", -5 * H, H, Rule::Us, 2007),
    z("Europe/London", 0, H, Rule::Eu, 1996),
    z("Australia/Sydney", 10 * H, H, Rule::Au, 2009),
    fix("Asia/Kolkata", 5 * H + 1800, 1950),
    z("America/Los_Angeles", -8 * H, H, Rule::Us, 2007),
    fix("UTC", 0, 1),
    z("Australia/Lord_Howe", 10 * H + 1800, 1800, Rule::Au, 2009),
    z("Europe/Helsinki", 2 * H, H, Rule::Eu, 1996),
    z("America/St_Johns", -3 * H - 1800, H, Rule::Us, 2012),
    fix("Asia/Tokyo", 9 * H, 1952),
    fix("Etc/GMT+12", -12 * H, 1),
    fix("Etc/GMT-14", 14 * H, 1),
    fix("Asia/Kathmandu", 5 * H + 2700, 1987),
    fix("Pacific/Kiritimati", 14 * H, 1996),
    fix("America/Phoenix", -7 * H, 1969),
    fix("America/Argentina/Buenos_Aires", -3 * H, 2010),
    fix("GMT", 0, 1),
    fix("Etc/UTC", 0, 1),
    z("Australia/Adelaide", 9 * H + 1800, H, Rule::Au, 2009),
    z("Europe/Lisbon", 0, H, Rule::Eu, 1997),
    z("America/Chicago", -6 * H, H, Rule::Us, 2007),
    old("Europe/Berlin", 3208, 1700, 1892),
    old("America/New_York", -17_762, 1700, 1882),
    old("Asia/Tokyo", 33_539, 1700, 1886),
    old("Europe/London", -75, 1700, 1846),
    old("Australia/Sydney", 36_292, 1700, 1894),
    old("America/Los_Angeles", -28_378, 1700, 1882),
    old("Europe/Berlin", H, 1950, 1979),
    // British Standard Time
    old("Europe/London", H, 1969, 1970),
    Zone { name: "America/New_York", std: -5 * H, dst: H, rule: Rule::UsOld, from: 1987, to: 2006 },
    Zone { name: "America/Chicago", std: -6 * H, dst: H, rule: Rule::UsOld, from: 1987, to: 2006 },
    // without the 30th of December 2011
    list("Pacific/Apia", -11 * H, 2011, 2011, &[(1_285_498_800, -10 * H), (1_301_752_800, -11 * H), (1_316_872_800, -10 * H), (1_325_239_200, 14 * H)]),
    list("Asia/Pyongyang", 9 * H, 2014, 2019, &[(1_439_564_400, 8 * H + 1800), (1_525_446_000, 9 * H)]),
    list("America/Caracas", -4 * H, 2006, 2020, &[(1_197_183_600, -4 * H - 1800), (1_462_086_000, -4 * H)]),
    z("US/Pacific", -8 * H, H, Rule::Us, 2007),
    z("GB", 0, H, Rule::Eu, 1996),
    fix("Asia/Calcutta", 5 * H + 1800, 1950),
    fix("Zulu", 0, 1),
    z("America/North_Dakota/New_Salem", -6 * H, H, Rule::Us, 2007),
    fix("Antarctica/DumontDUrville", 10 * H, 1960),
    fix("Etc/GMT+0", 0, 1),
];
pub const UNKNOWN: &[&str] = &["Mitteleuropäische Zeit", "/example.org/20240101_1/Custom", "Zone; with, odd name", "GMT Standard Time", "Europe/Atlantis", "Berlin", "+02:00", "America", "Europe/Berlin ", " Europe/Berlin", "europe/berlin", "ASIA/TOKYO", "Europe//Berlin", "Europe/Berlin/Mitte", "America/new_york", "utc", "gmt", "Z", "Etc/GMT+15", "Europe\\Berlin", "Local", "America/New York", "America/Argentina/Buenos Aires", "US/Eastern Time", "Europe-Berlin", "Europe_Berlin", "America/New-York", "/Europe/Berlin", "/", "Europe/", "posix/Europe/Berlin", "tzone://Microsoft/Utc", "Europe/Berlin\t", "/freeassociation.sourceforge.net/Europe/Berlin"];
/// Rules are taken to stay as they are until then.
pub const LAST: i32 = 2099;

/// 0 Sunday
fn weekday(y: i32, m: u32, dd: u32) -> i64 {
    (epoch(y, m, dd, 0, 0, 0).div_euclid(86_400) + 4).rem_euclid(7)
}
fn nth_sunday(y: i32, m: u32, n: u32) -> u32 {
    let first = (7 - weekday(y, m, 1)) % 7 + 1;
    first as u32 + 7 * (n - 1)
}
fn last_sunday(y: i32, m: u32) -> u32 {
    let l = days(y, m);
    l - weekday(y, m, l) as u32
}

impl Zone {
    /// instants (UTC seconds) in this year at which summer time begins and ends
    pub fn changes(&self, y: i32) -> Option<(i64, i64)> {
        match self.rule {
            Rule::Fixed => None,
            Rule::List(l) => Some((l[y as usize % l.len()].0, l[l.len() - 1].0)),
            Rule::UsOld => Some((epoch(y, 4, nth_sunday(y, 4, 1), 2, 0, 0) - self.std, epoch(y, 10, last_sunday(y, 10), 2, 0, 0) - self.std - self.dst)),
            Rule::Eu => Some((epoch(y, 3, last_sunday(y, 3), 1, 0, 0), epoch(y, 10, last_sunday(y, 10), 1, 0, 0))),
            Rule::Us => Some((epoch(y, 3, nth_sunday(y, 3, 2), 2, 0, 0) - self.std, epoch(y, 11, nth_sunday(y, 11, 1), 2, 0, 0) - self.std - self.dst)),
            Rule::Au => {
                // Lord Howe changes at 02:00 of the time then shown
                let back = if self.dst == 1800 { self.std + self.dst } else { self.std };
                Some((epoch(y, 10, nth_sunday(y, 10, 1), 2, 0, 0) - self.std, epoch(y, 4, nth_sunday(y, 4, 1), 2, 0, 0) - back))
            }
        }
    }
    pub fn offset(&self, t: i64) -> i64 {
        if let Rule::List(l) = self.rule {
            return l.iter().rev().find(|(from, _)| *from <= t).map_or(self.std, |x| x.1);
        }
        let y = year(t + self.std);
        match self.changes(y) {
            None => self.std,
            Some((on, off)) => {
                let summer = if on < off { on <= t && t < off } else { t >= on || t < off };
                self.std + if summer { self.dst } else { 0 }
            }
        }
    }
    /// The instants at which this zone's clocks show `local` (seconds as if UTC).
    pub fn instants(&self, local: i64) -> Vec<i64> {
        let mut v = vec![];
        let mut offsets = vec![self.std, self.std + self.dst];
        if let Rule::List(l) = self.rule {
            offsets.extend(l.iter().map(|x| x.1));
        }
        for o in offsets {
            let t = local - o;
            if self.offset(t) == o && !v.contains(&t) {
                v.push(t);
            }
        }
        v
    }
    /// A year in which the rule holds.
    pub fn year(&self) -> i32 {
        match (self.to, rt::d(6)) {
            (LAST, 0 | 1) => 2024.max(self.from),
            (LAST, 2 | 3) => rt::range(self.from.max(1990) as u64, 2037) as i32,
            (LAST, _) => rt::range(self.from.max(1990) as u64, LAST as u64) as i32,
            _ => rt::range(self.from as u64, self.to as u64) as i32,
        }
    }
}
pub fn year(t: i64) -> i32 {
    civil(t).0
}
/// seconds to date and time
pub fn civil(t: i64) -> (i32, u32, u32, u32, u32, u32) {
    let (dy, s) = (t.div_euclid(86_400), t.rem_euclid(86_400));
    let z = dy + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let dd = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = (yoe + era * 400 + (m <= 2) as i64) as i32;
    (y, m, dd, (s / 3600) as u32, (s / 60 % 60) as u32, (s % 60) as u32)
}
