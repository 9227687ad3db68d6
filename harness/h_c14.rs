//! C14: a daily session is open between its start and end time.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

fn daily(zone: usize, day: i64) {
    let sod = second("now", false);
    daily_at(zone, day * 86400 + sod as i64)
}
fn daily_at(zone: usize, utc: i64) {
    let (name, z) = ZONES[zone];
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let start = second("start", false);
    let end = second("end", false);
    assume(start != end);
    let nanos = u32::from_le_bytes(bytes::<4>("nanoseconds"));
    assume(nanos < 1_000_000_000);
    set_clock_nanos(utc, nanos as i64);
    let s = SessionSchedule::new(time(start), None, time(end), None, tz, false);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let local = (utc + offset(z, utc)) % 86400;
    let (a, b) = (start as i64, end as i64);
    let ended = (local > b) | ((local == b) & (nanos > 0));
    let want = if a < b { (a <= local) & !ended } else { (a <= local) | !ended };
    check(open == want, "a daily session is not open exactly between its start and end time");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
/// any different start and end second, at any nanosecond of 3 days, in 4 zones of fixed offset from -7 to +14 hours
//@ tier=both reach=open,closed
pub fn h_c14_daily() {
    daily(choice(4) as usize, 20000 + choice(3) as i64)
}
/// the same, in zones with summer time, at any nanosecond of the days of the changes, the days around them and days far from them
//@ tier=both reach=open,closed
pub fn h_c14_summer() {
    let zone = 4 + choice(2) as usize;
    let d: [i64; 9] = if zone == 4 { [19812, 19813, 19814, 20022, 20023, 20024, 19900, 20100, 20177] } else { [19791, 19792, 19793, 20029, 20030, 20031, 19900, 20100, 20156] };
    daily(zone, d[choice(9) as usize])
}
/// the same, at any nanosecond of the years 2000 to 2099, in UTC
//@ tier=quick reach=open,closed
pub fn h_c14_years() {
    daily_at(0, any_second(2000, 2099))
}
/// the same, at any nanosecond of the years 2000 to 2099, in 4 zones of fixed offset
//@ tier=thorough reach=open,closed
pub fn h_c14_years_t() {
    daily_at(choice(4) as usize, any_second(2000, 2099))
}
/// the same, at any nanosecond of 2024 and 2025, in 5 zones with summer time, of an hour or half an hour, of both hemispheres
//@ tier=both reach=open,closed
pub fn h_c14_summers() {
    let zone = 4 + choice(5) as usize;
    daily_at(zone, any_second(2024, 2025))
}
/// start and end at any nanosecond, at any nanosecond of a day, in 3 zones
//@ tier=both reach=open,closed
pub fn h_c14_fractions() {
    let zone = [0, 2, 4][choice(3) as usize];
    let sod = second("now", false);
    let utc = 19813 * 86400 + sod as i64;
    let (name, z) = ZONES[zone];
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let (start, end) = (second("start", false), second("end", false));
    let any = |what| {
        let n = u32::from_le_bytes(bytes::<4>(what));
        assume(n < 1_000_000_000);
        n
    };
    let (n, ns, ne) = (any("nanoseconds"), any("nanoseconds of the start"), any("nanoseconds of the end"));
    assume((start != end) | (ns != ne));
    set_clock_nanos(utc, n as i64);
    let at = |s, n| chrono::NaiveTime::from_num_seconds_from_midnight(s, n);
    let s = SessionSchedule::new(at(start, ns), None, at(end, ne), None, tz, false);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let local = (utc + offset(z, utc)) % 86400;
    let (a, b) = (start as i64, end as i64);
    let begun = (local > a) | ((local == a) & (n >= ns));
    let ended = (local > b) | ((local == b) & (n > ne));
    let same_day = (a < b) | ((a == b) & (ns < ne));
    let want = if same_day { begun & !ended } else { begun | !ended };
    check(open == want, "a daily session is not open exactly between its start and end time");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
/// a schedule made by the builder, each of its parts given or not, in 2 zones, at any second of a day: without a zone it is UTC's, a non-stop one is always open
//@ tier=both reach=open,closed,refused
pub fn h_c14_builder() {
    let zone = [2, 4][choice(2) as usize];
    let utc = 19813 * 86400 + second("now", false) as i64;
    let (name, z) = ZONES[zone];
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let (start, end) = (second("start", false), second("end", false));
    assume(start != end);
    set_clock_nanos(utc, 0);
    let (has_start, has_end, has_zone, non_stop) = (flag(), flag(), flag(), choice(3));
    let mut b = SessionScheduleBuilder::default();
    if has_start {
        b.start_time(time(start));
    }
    if has_end {
        b.end_time(time(end));
    }
    if has_zone {
        b.time_zone(tz);
    }
    if non_stop > 0 {
        b.is_non_stop(non_stop == 2);
    }
    let s = match no_panic("building a schedule panics", || b.build()) {
        Ok(s) => s,
        Err(_) => {
            check(!(has_start & has_end), "a complete schedule is refused");
            reach("refused");
            return;
        }
    };
    check(has_start & has_end, "a schedule without start or end is accepted");
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let local = (utc + if has_zone { offset(z, utc) } else { 0 }) % 86400;
    let (a, b) = (start as i64, end as i64);
    let want = if a < b { (a <= local) & (local <= b) } else { (a <= local) | (local <= b) };
    check(open == (want | (non_stop == 2)), "a schedule of the builder is not open exactly between its start and end time");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}
