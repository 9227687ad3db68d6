//! C24: the sending time of a message.
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

fn judge(days: i64, sod: i64, nanos: i64, stale: bool) {
    set_clock_nanos(days * 86400 + sod, nanos);
    let mut m = Message::new();
    m.header_mut().set_field(sf(34, b"7"));
    m.set_field(sf(58, b"t"));
    if stale {
        m.header_mut().set_field(sf(52, b"19700101-00:00:00.000"));
    }
    no_panic("setting the sending time panics", || m.set_sending_time());
    let want = stamp(days, sod, nanos);
    match get(m.header(), 52) {
        Some(s) => check(eq_bytes(s.as_bytes(), &want), "the sending time is not the present time in UTC"),
        None => check(false, "the sending time is not set"),
    }
    check(m.header().iter().into_iter().count() == 2 && m.body.iter().into_iter().count() == 1 && m.trailer().iter().into_iter().count() == 0, "setting the sending time sets other fields");
    check(get(m.header(), 34).as_deref() == Some("7") && get(&m.body, 58).as_deref() == Some("t"), "setting the sending time changes other fields");
    reach("set");
}
/// One of hour, minute, second and millisecond is any, the others are the last or one in between.
fn instant() -> (i64, i64) {
    let k = choice(4);
    let part = |i: u32, n: u32, mid: u32| {
        if i == k {
            if n > 256 {
                range("millisecond", 0, 249) as i64 * 4 + choice(4) as i64
            } else {
                range("part", 0, (n - 1) as u8) as i64
            }
        } else {
            [mid as i64, n as i64 - 1][choice(2) as usize]
        }
    };
    let (h, m, s, ms) = (part(0, 24, 9), part(1, 60, 10), part(2, 60, 31), part(3, 1000, 45));
    // the part of a millisecond is cut off
    (h * 3600 + m * 60 + s, ms * 1_000_000 + if flag() { 999_999 } else { 0 })
}
/// any hour, minute, second or millisecond, the others being the last or one in between, on 3 days (the year's first, last, a leap day); the field set before or not
//@ tier=both reach=set
pub fn h_c24_day() {
    let d: [i64; 3] = [19723, 20088, 19782];
    let (sod, n) = instant();
    judge(d[choice(3) as usize], sod, n, flag());
}
fn date(first: u32, years: u32) {
    let y = (first + choice(years)) as i64;
    // days before the year's first
    let n = y - 1970;
    let first = n * 365 + (n + 1) / 4 - (y > 2100) as i64 - (y > 2200) as i64 - (y > 2300) as i64;
    let d = range("day", 0, 182) as i64 + choice(2) as i64 * 183;
    let (sod, ns) = [(0, 0), (86399, 999_999_999)][choice(2) as usize];
    judge(first + d, sod, ns, false)
}
/// every day of the years 2023 to 2032, at the first and the last instant of the day
//@ tier=quick reach=set
pub fn h_c24_date() {
    date(2023, 10)
}
/// every day of the years 1970 to 2105, at the first and the last instant of the day
//@ tier=thorough reach=set
pub fn h_c24_date_t() {
    date(1970, 136)
}
/// a message with a field of any tag of 1 to 65535 in header, body and trailer each, the field's own included, and a group in header or body; the time set twice or once
//@ tier=both reach=set,twice
pub fn h_c24_message() {
    let tag = || range("tag", 0, 255) as u32 * 256 + range("tag", 0, 255) as u32;
    let (h, b, t) = (tag(), tag(), tag());
    assume((h > 0) & (b > 0) & (t > 0) & (h != 627) & (b != 78));
    let mut m = Message::new();
    m.header_mut().set_field(sf(h, b"H"));
    m.set_field(sf(b, b"B"));
    m.trailer_mut().set_field(sf(t, b"T"));
    let (gh, gb) = (flag(), flag());
    if gh {
        m.header_mut().set_group(627, 1, 628)[0].set_field(sf(628, b"G"));
    }
    if gb {
        // a group may have a member of this tag too
        m.set_group(78, 1, 79)[0].set_field(sf(52, b"K"));
    }
    if flag() {
        set_clock_nanos(1_700_000_000, 1);
        m.set_sending_time();
        reach("twice");
    }
    set_clock_nanos(19723 * 86400 + 3723, 45_000_000);
    no_panic("setting the sending time panics", || m.set_sending_time());
    check(get(m.header(), 52).as_deref() == Some("20240101-01:02:03.045"), "the sending time is not the present time in UTC");
    if h != 52 {
        check(get(m.header(), h).as_deref() == Some("H"), "setting the sending time changes other fields");
    }
    check(get(&m.body, b).as_deref() == Some("B") && get(m.trailer(), t).as_deref() == Some("T"), "setting the sending time changes other fields");
    let n = |s: &FieldMap| s.iter().into_iter().count();
    check(n(m.header()) == (h != 52) as usize + 1 + 2 * gh as usize, "setting the sending time sets other fields");
    check(n(&m.body) == 1 + 2 * gb as usize && n(m.trailer()) == 1, "setting the sending time sets other fields");
    check(!gh || get(&m.header().get_group(627).unwrap()[0], 628).as_deref() == Some("G"), "setting the sending time changes a group");
    check(!gb || get(&m.get_group(78).unwrap()[0], 52).as_deref() == Some("K"), "setting the sending time changes a group");
    reach("set");
}
