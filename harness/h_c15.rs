//! C15: a weekly session is open from its start day and time to its end day and time.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

fn weekly(zone: usize, day: i64) {
    let sod = second("now", false);
    weekly_at(zone, day * 86400 + sod as i64)
}
fn weekly_at(zone: usize, utc: i64) {
    let (name, z) = ZONES[zone];
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let [sd, ed] = bytes::<2>("days").map(|b| b as i64);
    assume((sd < 7) & (ed < 7));
    let start = second("start", false);
    let end = second("end", false);
    if sd == ed {
        assume(start != end);
    }
    let nanos = u32::from_le_bytes(bytes::<4>("nanoseconds"));
    assume(nanos < 1_000_000_000);
    set_clock_nanos(utc, nanos as i64);
    let s = SessionSchedule::new(time(start), Some(DAYS[sd as usize]), time(end), Some(DAYS[ed as usize]), tz, false);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    // seconds since the week's Monday, of the session's start, end and now
    let now = (utc + offset(z, utc) + 3 * 86400) % 604800;
    let (a, b) = (sd * 86400 + start as i64, ed * 86400 + end as i64);
    let ended = (now > b) | ((now == b) & (nanos > 0));
    let want = if a < b { (a <= now) & !ended } else { (a <= now) | !ended };
    check(open == want, "a weekly session is not open exactly between its start and end");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
/// any two days, any start and end second (different ones when the days are the same), at any nanosecond of 7 days in a row, in UTC
//@ tier=both reach=open,closed
pub fn h_c15_weekly() {
    weekly(0, 20000 + choice(7) as i64)
}
/// the same, in 3 zones of other fixed offsets, at any nanosecond of the day that a week's end splits there
//@ tier=quick reach=open,closed
pub fn h_c15_zones() {
    // Sunday east of UTC, Monday west of it
    let z = 1 + choice(3) as usize;
    weekly(z, if z == 3 { 20003 } else { 20002 })
}
/// the same, in 3 zones of other fixed offsets, at any nanosecond of 7 days
//@ tier=thorough reach=open,closed
pub fn h_c15_zones_t() {
    weekly(1 + choice(3) as usize, 20000 + choice(7) as i64)
}
/// the same, in zones with summer time, at any nanosecond of a day it begins or ends
//@ tier=quick reach=open,closed
pub fn h_c15_summer() {
    if flag() {
        weekly(4, 19813)
    } else {
        weekly(5, 20030)
    }
}
/// the same, in zones with summer time, at any nanosecond of the days of the changes and those around them
//@ tier=thorough reach=open,closed
pub fn h_c15_summer_t() {
    let z = 4 + choice(2) as usize;
    let d = if z == 4 { [19813, 20023] } else { [19792, 20030] };
    weekly(z, d[choice(2) as usize] + choice(3) as i64 - 1)
}
/// the same, at any nanosecond of the years 2020 to 2039, in UTC
//@ tier=quick reach=open,closed
pub fn h_c15_years() {
    weekly_at(0, any_second(2020, 2039))
}
/// the same, at any nanosecond of the years 2015 to 2044, in 2 zones of fixed offset
//@ tier=thorough reach=open,closed
pub fn h_c15_years_t() {
    weekly_at(2 + choice(2) as usize, any_second(2015, 2044))
}
/// the same, at any nanosecond of 2024 and 2025, in a zone with half an hour of summer time, in the southern summer
//@ tier=quick reach=open,closed
pub fn h_c15_southern() {
    weekly_at(6, any_second(2024, 2025))
}
/// the same, at any nanosecond of 2024 and 2025, in 5 zones with summer time, of an hour or half an hour, of both hemispheres
//@ tier=thorough reach=open,closed
pub fn h_c15_summers() {
    let zone = 4 + choice(5) as usize;
    weekly_at(zone, any_second(2024, 2025))
}
/// any two days, start and end at any nanosecond, at any nanosecond of 7 days in a row, in UTC
//@ tier=both reach=open,closed
pub fn h_c15_fractions() {
    let day = 20000 + choice(7) as i64;
    let utc = day * 86400 + second("now", false) as i64;
    let [sd, ed] = bytes::<2>("days").map(|b| b as i64);
    assume((sd < 7) & (ed < 7));
    let (start, end) = (second("start", false), second("end", false));
    let any = |what| {
        let n = u32::from_le_bytes(bytes::<4>(what));
        assume(n < 1_000_000_000);
        n
    };
    let (n, ns, ne) = (any("nanoseconds"), any("nanoseconds of the start"), any("nanoseconds of the end"));
    if sd == ed {
        assume((start != end) | (ns != ne));
    }
    set_clock_nanos(utc, n as i64);
    let at = |s, n| chrono::NaiveTime::from_num_seconds_from_midnight(s, n);
    let s = SessionSchedule::new(at(start, ns), Some(DAYS[sd as usize]), at(end, ne), Some(DAYS[ed as usize]), chrono_tz::UTC, false);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let now = (utc + 3 * 86400) % 604800;
    let (a, b) = (sd * 86400 + start as i64, ed * 86400 + end as i64);
    let begun = (now > a) | ((now == a) & (n >= ns));
    let ended = (now > b) | ((now == b) & (n > ne));
    let same_week = (a < b) | ((a == b) & (ns < ne));
    let want = if same_week { begun & !ended } else { begun | !ended };
    check(open == want, "a weekly session is not open exactly between its start and end");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
/// a schedule made by the builder, with any two days, with a zone or without one (it is UTC's), its parts set in either order, at any second of 7 days in a row
//@ tier=both reach=open,closed
pub fn h_c15_builder() {
    let day = 20000 + choice(7) as i64;
    let utc = day * 86400 + second("now", false) as i64;
    let [sd, ed] = bytes::<2>("days").map(|b| b as i64);
    assume((sd < 7) & (ed < 7) & (sd != ed));
    let (start, end) = (second("start", false), second("end", false));
    set_clock_nanos(utc, 0);
    let (name, z) = ZONES[2];
    let zoned = flag();
    let mut b = SessionScheduleBuilder::default();
    if flag() {
        b.start_day(DAYS[sd as usize]).end_day(DAYS[ed as usize]).start_time(time(start)).end_time(time(end));
    } else {
        b.end_time(time(end)).start_time(time(start)).end_day(DAYS[ed as usize]).start_day(DAYS[sd as usize]);
    }
    if zoned {
        b.time_zone(name.parse().unwrap());
    }
    let open = no_panic("building or asking a schedule panics", || b.build().unwrap().is_session_time());
    let now = (utc + if zoned { offset(z, utc) } else { 0 } + 3 * 86400) % 604800;
    let (a, b) = (sd * 86400 + start as i64, ed * 86400 + end as i64);
    let want = if a < b { (a <= now) & (now <= b) } else { (a <= now) | (now <= b) };
    check(open == want, "a schedule of the builder is not open exactly between its start and end");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
