//! C16: a session's schedule follows its settings.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

fn config(own: &[(&str, Vec<u8>)], def: &[(&str, Vec<u8>)]) -> (Properties, SessionId) {
    let mut w = Wire::new();
    w.raw(b"[Default]\n");
    line(&mut w, "connection_type", b"acceptor");
    line(&mut w, "begin_string", b"FIX.4.3");
    line(&mut w, "socket_accept_port", b"10114");
    line(&mut w, "target_comp_id", b"T");
    for (k, v) in def {
        line(&mut w, k, v);
    }
    w.raw(b"[Session]\n");
    line(&mut w, "sender_comp_id", b"S");
    for (k, v) in own {
        line(&mut w, k, v);
    }
    (Properties::from_str(w.str()), SessionIdBuilder::new("FIX.4.3", "S", "T").build().unwrap())
}
fn two(n: u32) -> [u8; 2] {
    [b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]
}
fn hms(s: u32) -> Vec<u8> {
    let mut v = two(s / 3600).to_vec();
    v.push(b':');
    v.extend(two(s / 60 % 60));
    v.push(b':');
    v.extend(two(s % 60));
    v
}
const NAMES: [&str; 7] = ["Mon", "tuesday", "Wed", "Thursday", "fri", "SAT", "Sunday"];

/// each of the five schedule settings in the session's section, the defaults or nowhere; at one second of each of 7 days
//@ tier=both reach=non-stop,daily,weekly,refused
pub fn h_c16_create() {
    let (mut own, mut def) = (vec![], vec![]);
    let put = |k: &'static str, v: Vec<u8>, own: &mut Vec<(&'static str, Vec<u8>)>, def: &mut Vec<(&'static str, Vec<u8>)>| match choice(3) {
        0 => {
            own.push((k, v));
            true
        }
        1 => {
            def.push((k, v));
            true
        }
        _ => false,
    };
    let st = put("start_time", b"08:00:00".to_vec(), &mut own, &mut def);
    let et = put("end_time", b"16:30:00".to_vec(), &mut own, &mut def);
    let sd = put("start_day", b"Mon".to_vec(), &mut own, &mut def);
    let ed = put("end_day", b"Fri".to_vec(), &mut own, &mut def);
    let tz = put("default_timezone", b"Asia/Kolkata".to_vec(), &mut own, &mut def);
    let (p, id) = config(&own, &def);
    let r = catch(|| SessionSchedule::create_schedule(&id, &p));
    let ok = st == et && sd == ed && (st || !sd);
    check(r.is_some() == ok, "a complete schedule is refused or an incomplete one accepted");
    let s = match r {
        Some(s) => s,
        None => {
            reach("refused");
            return;
        }
    };
    // 2024-10-04 is a Friday
    let day = 20000 + choice(7) as i64;
    let now = [0, 28799 - 19800, 28800, 59400 - 19800, 59401 - 19800, 59400, 59401, 80000][choice(8) as usize];
    set_clock(day * 86400 + now);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let l = now + if tz { 19800 } else { 0 };
    let (wd, l) = if l < 86400 { (weekday(day), l) } else { (weekday(day + 1), l - 86400) };
    let want = if !st {
        reach("non-stop");
        true
    } else if !sd {
        reach("daily");
        28800 <= l && l <= 59400
    } else {
        reach("weekly");
        let w = wd * 86400 + l;
        28800 <= w && w <= 4 * 86400 + 59400
    };
    check(open == want, "a schedule is not the one of its settings");
}

/// daily schedules from settings, every quarter of an hour as start and another as end, asked at any second of a day
//@ tier=both reach=open,closed
pub fn h_c16_times() {
    let a = choice(24) * 3600 + choice(4) * 900;
    let b = [0u32, 1, 43200, 86399][choice(4) as usize];
    assume(a != b);
    let (p, id) = config(&[("start_time", hms(a)), ("end_time", hms(b))], &[]);
    let s = no_panic("a complete schedule is refused", || SessionSchedule::create_schedule(&id, &p));
    let now = second("now", false);
    set_clock(20000 * 86400 + now as i64);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let want = if a < b { (a <= now) & (now <= b) } else { (a <= now) | (now <= b) };
    check(open == want, "a schedule is not the one of its settings");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}

/// weekly schedules from settings, any two different days in any of the accepted spellings, asked at any second of any day
//@ tier=both reach=open,closed
pub fn h_c16_days() {
    let (a, b) = (choice(7) as usize, choice(7) as usize);
    assume(a != b);
    let own = [("start_time", hms(36000)), ("end_time", hms(72000)), ("start_day", NAMES[a].as_bytes().to_vec()), ("end_day", NAMES[b].as_bytes().to_vec())];
    let (p, id) = config(&own, &[]);
    let s = no_panic("a complete schedule is refused", || SessionSchedule::create_schedule(&id, &p));
    let day = 20000 + choice(7) as i64;
    let now = second("now", false);
    set_clock(day * 86400 + now as i64);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let w = (weekday(day) * 86400) as u32 + now;
    let (x, y) = (a as u32 * 86400 + 36000, b as u32 * 86400 + 72000);
    let want = if x < y { (x <= w) & (w <= y) } else { (x <= w) | (w <= y) };
    check(open == want, "a schedule is not the one of its settings");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}

/// any time zone of 6, any second of the days of its summer time changes and others: no times, or times the zone skips or repeats
//@ tier=both reach=open,closed
pub fn h_c16_zones() {
    let k = choice(6) as usize;
    let (name, z) = ZONES[k];
    let tm = choice(4);
    let mut own = vec![("default_timezone", name.as_bytes().to_vec())];
    let (a, b) = [(0, 0), (5400, 9000), (1800, 7200), (8100, 5000)][tm as usize];
    if tm > 0 {
        own.push(("start_time", hms(a)));
        own.push(("end_time", hms(b)));
    }
    let (p, id) = config(&own, &[]);
    let s = no_panic("a complete schedule is refused", || SessionSchedule::create_schedule(&id, &p));
    let day = [19792i64, 19813, 20023, 20030, 19900][choice(5) as usize];
    let sod = second("now", false);
    let utc = day * 86400 + sod as i64;
    set_clock(utc);
    let open = no_panic("asking a schedule panics", || s.is_session_time());
    let mut l = sod as i64 + offset(z, utc);
    if l < 0 {
        l += 86400
    } else if l >= 86400 {
        l -= 86400
    }
    let (a, b) = (a as i64, b as i64);
    let want = tm == 0 || if a < b { (a <= l) & (l <= b) } else { (a <= l) | (l <= b) };
    check(open == want, "a schedule is not the one of its settings");
    if open {
        reach("open");
    } else {
        reach("closed");
    }
}

/// the current time of day in 6 zones, at any second (or 1 ns or half a second later) of 5 days, against any start of 4 and end of 4
//@ tier=both reach=between,outside
pub fn h_c16_between() {
    let (name, z) = ZONES[choice(6) as usize];
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let a = [0u32, 1, 43200, 86399][choice(4) as usize];
    let b = [0u32, 30599, 43200, 86399][choice(4) as usize];
    let day = [19792i64, 19813, 20023, 20030, 19900][choice(5) as usize];
    let sod = second("now", false);
    let utc = day * 86400 + sod as i64;
    let nanos = [0i64, 1, 500_000_000][choice(3) as usize];
    set_clock_nanos(utc, nanos);
    let (x, y) = (hms(a), hms(b));
    let r = no_panic("comparing the current time panics", || {
        is_current_time_between(tz, std::str::from_utf8(&x).unwrap(), std::str::from_utf8(&y).unwrap())
    });
    let mut l = sod as i64 + offset(z, utc);
    if l < 0 {
        l += 86400
    } else if l >= 86400 {
        l -= 86400
    }
    check(r == ((a as i64 <= l) & ((l < b as i64) | ((l == b as i64) & (nanos == 0)))), "the current time is placed wrongly");
    if r {
        reach("between");
    } else {
        reach("outside");
    }
}

/// a start time of any six digits, own or default, with an end time: a time of the day or refused; asked at any second of a day
//@ tier=both reach=open,closed,refused
pub fn h_c16_digits() {
    let d: Vec<u8> = (0..6).map(|_| digit("digit")).collect();
    let n = |i: usize| ((d[i] - b'0') * 10 + d[i + 1] - b'0') as u32;
    let (h, m, s) = (n(0), n(2), n(4));
    // a leap second is left open
    assume(s != 60);
    let t = vec![d[0], d[1], b':', d[2], d[3], b':', d[4], d[5]];
    let (own, def) = ([("start_time", t.clone()), ("end_time", b"12:00:00".to_vec())], [("start_time", t)]);
    let (p, id) = if flag() { config(&own, &[]) } else { config(&own[1..], &def) };
    let r = catch(|| SessionSchedule::create_schedule(&id, &p));
    let ok = (h < 24) & (m < 60) & (s < 60);
    check(r.is_some() == ok, "an unreadable time is accepted or a time refused");
    let Some(x) = r else {
        reach("refused");
        return;
    };
    let a = h * 3600 + m * 60 + s;
    // equal times are left open
    assume(a != 43200);
    let now = second("now", true);
    set_clock(20000 * 86400 + now as i64);
    let open = no_panic("asking a schedule panics", || x.is_session_time());
    let want = ((a <= now) & (now <= 43200)) | ((a > 43200) & ((a <= now) | (now <= 43200)));
    check(open == want, "a schedule is not the one of its settings");
    reach(if open { "open" } else { "closed" });
}

/// a time with any byte at one of its places, a day of any 3 letters, or a time zone of 12 texts, own or default: refused unless it is one
//@ tier=both reach=accepted,refused
pub fn h_c16_texts() {
    let kind = choice(5);
    let mut v = [&b"10:20:30"[..], b"10:20:30", b"Mon", b"Mon", b"UTC"][kind as usize].to_vec();
    let key = ["start_time", "end_time", "start_day", "end_day", "default_timezone"][kind as usize];
    let ok;
    if kind < 2 {
        let i = choice(8) as usize;
        let b = cbyte("byte");
        v[i] = b;
        // digits where there are digits; blanks, signs and the like are left open
        assume((b >= b'A') & (b <= b'z') | (b == b':') | (b >= b'0') & (b <= b'9') | (b == b'.'));
        let d = (b >= b'0') & (b <= b'9');
        ok = match i {
            2 | 5 => b == b':',
            0 => d & (b <= b'2'),
            3 | 6 => d & (b <= b'5'),
            _ => d,
        };
        // a leap second, a single digit and a fraction are left open
        assume(!((i == 6) & (b == b'6')) & !((i == 0 || i == 3 || i == 6) & !d) & !(i == 7 && !d) & !(i == 1 && !d) & !(i == 4 && !d) || (b >= b'A') & (b <= b'z'));
    } else if kind < 4 {
        v = (0..3)
            .map(|_| {
                let b = cbyte("letter");
                assume((b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z'));
                b
            })
            .collect();
        let l: Vec<u8> = v.iter().map(|b| b | 0x20).collect();
        ok = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"].iter().any(|x| eq_bytes(x.as_bytes(), &l));
    } else {
        let i = choice(12) as usize;
        v = ["UTC", "GMT", "CET", "Europe/London", "America/Argentina/Buenos_Aires", "Asia/Kolkata", "Utx", "", "Europe/Londo", "Europe", "Mars/Olympus", "+01:00"][i].as_bytes().to_vec();
        ok = i < 6;
    }
    let rest = [("start_time", "08:00:00"), ("end_time", "16:00:00"), ("start_day", "Tue"), ("end_day", "Fri")];
    let mut own: Vec<(&str, Vec<u8>)> = rest.iter().filter(|r| r.0 != key).map(|r| (r.0, r.1.as_bytes().to_vec())).collect();
    let mut def = vec![];
    if flag() {
        own.push((key, v));
    } else {
        def.push((key, v));
    }
    let (p, id) = config(&own, &def);
    let r = catch(|| SessionSchedule::create_schedule(&id, &p));
    check(r.is_some() == ok, "an unreadable setting of a schedule is accepted or a readable one refused");
    reach(if ok { "accepted" } else { "refused" });
}
