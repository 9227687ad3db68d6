//! C08: what is set is what is read.
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

const TAGS: [u32; 3] = [58, 49, 10];

fn history(k: u32) {
    pair_order();
    let mut m = Message::new();
    let mut last: [[Option<u8>; 3]; 3] = [[None; 3]; 3];
    for _ in 0..k {
        let s = choice(3) as usize;
        let t = choice(3) as usize;
        let v = vbyte("value");
        let f = sf(TAGS[t], &[v]);
        match s {
            0 => m.header_mut().set_field(f),
            1 => m.set_field(f),
            _ => m.trailer_mut().set_field(f),
        }
        last[s][t] = Some(v);
    }
    for s in 0..3 {
        let map = match s {
            0 => m.header(),
            1 => &m.body,
            _ => m.trailer(),
        };
        let mut n = 0;
        for t in 0..3 {
            let r = map.get_field::<String>(TAGS[t]);
            match (last[s][t], r) {
                (Some(v), Ok(x)) => {
                    n += 1;
                    check(eq_bytes(&[v], x.as_bytes()), "a field does not hold the value last set");
                }
                (None, Err(_)) => (),
                (Some(_), Err(_)) => check(false, "a field that was set is not found"),
                (None, Ok(_)) => check(false, "a field that was never set is found"),
            }
        }
        check(map.iter().into_iter().count() == n, "the fields listed are not those set");
    }
    // the body accessor of the message reads the body
    for t in 0..3 {
        check(m.get_field::<String>(TAGS[t]).ok() == m.body.get_field::<String>(TAGS[t]).ok(), "the message reads another field than its body");
    }
    reach("read");
}
/// every history of 3 settings over 3 tags and 3 sections, values any printable byte
//@ tier=quick reach=read
pub fn h_c08_history() {
    history(3)
}
/// every history of 5 settings over 3 tags and 3 sections, values any printable byte
//@ tier=thorough reach=read
pub fn h_c08_history_t() {
    history(5)
}

/// reading as number, character, truth value or text: any ASCII value of 1 to 5 bytes
//@ tier=both reach=number,refused
pub fn h_c08_typed() {
    let b = bytes::<5>("value");
    let n = choice(5) as usize + 1;
    for i in 0..n {
        assume((b[i] != S) & (b[i] < 0x80));
    }
    let v = &b[..n];
    let mut m = Message::new();
    m.set_field(sf(58, v));
    match choice(6) {
        4 => {
            let r = no_panic("reading a field panics", || m.get_field::<bool>(58));
            let (t, f) = (eq_bytes(v, b"true"), eq_bytes(v, b"false"));
            match r {
                Ok(x) => check((x & t) | (!x & f), "a truth value is read as another one"),
                Err(_) => check(!t & !f, "a truth value is not read"),
            }
        }
        5 => {
            let r = no_panic("reading a field panics", || m.get_field::<u8>(58));
            let d = if n > 1 && v[0] == b'+' { &v[1..] } else { v };
            match (num(d), r) {
                (Some(x), Ok(y)) => check(x == y as u32, "a number is read as another one"),
                (Some(x), Err(_)) => check(x > 255, "a number is not read"),
                (None, r) => check(r.is_err(), "a text that is no number is read as one"),
            }
        }
        0 => {
            let r = no_panic("reading a field panics", || m.get_field::<u32>(58));
            // optional plus sign, then digits
            let d = if n > 1 && v[0] == b'+' { &v[1..] } else { v };
            match (num(d), r) {
                (Some(x), Ok(y)) => {
                    check(x == y, "a number is read as another one");
                    reach("number");
                }
                (None, Err(_)) => reach("refused"),
                (Some(_), Err(_)) => check(false, "a number is not read"),
                (None, Ok(_)) => check(false, "a text that is no number is read as one"),
            }
        }
        1 => {
            let r = no_panic("reading a field panics", || m.get_field::<i32>(58));
            let (d, neg) = if n > 1 && (v[0] == b'+') | (v[0] == b'-') { (&v[1..], v[0] == b'-') } else { (v, false) };
            match (num(d), r) {
                (Some(x), Ok(y)) => check(if neg { -(x as i32) == y } else { x as i32 == y }, "a number is read as another one"),
                (None, Err(_)) => (),
                (Some(_), Err(_)) => check(false, "a number is not read"),
                (None, Ok(_)) => check(false, "a text that is no number is read as one"),
            }
        }
        2 => {
            let r = no_panic("reading a field panics", || m.get_field::<char>(58));
            match r {
                Ok(c) => check((n == 1) & (c as u32 == v[0] as u32), "a character is read as another one"),
                Err(_) => check(n != 1, "a character is not read"),
            }
        }
        _ => {
            let r = no_panic("reading a field panics", || m.get_field::<String>(58));
            check(r.map_or(false, |s| eq_bytes(s.as_bytes(), v)), "a text is read as another one");
        }
    }
    check(no_panic("reading a field panics", || m.get_field::<u32>(59)).is_err(), "a field that was never set is found");
}

#[derive(Clone, Copy, Default)]
struct Inst {
    v: [Option<u8>; 2],
    nested: Option<u8>,
}
const MEMBERS: [u32; 2] = [628, 58];

fn section(m: &mut Message, s: usize) -> &mut FieldMap {
    match s {
        0 => m.header_mut(),
        1 => m.body_mut(),
        _ => m.trailer_mut(),
    }
}

fn groups(k: u32, sizes: u32) {
    pair_order();
    let mut m = Message::new();
    // what each section's group 627, and the plain field 58 of the section, should hold
    let mut want: [Option<Vec<Inst>>; 3] = [None, None, None];
    let mut plain: [Option<u8>; 3] = [None; 3];
    for _ in 0..k {
        let s = choice(3) as usize;
        match choice(2) {
            // the group anew, each instance with any of two members and a group of its own
            0 => {
                let size = choice(sizes) as usize;
                let mut w = vec![Inst::default(); size];
                let g = if s == 1 && flag() { m.set_group(627, size as u32, 628) } else { section(&mut m, s).set_group(627, size as u32, 628) };
                check(g.size() as usize == size, "a new group has another number of instances");
                for i in 0..size {
                    let c = choice(if i == 0 { 4 } else { 2 });
                    if c == 1 || c == 2 {
                        let v = vbyte("value");
                        g[i].set_field(sf(MEMBERS[c as usize - 1], &[v]));
                        w[i].v[c as usize - 1] = Some(v);
                    }
                    if c == 3 {
                        let v = vbyte("value");
                        g[i].set_group(804, 1, 545)[0].set_field(sf(545, &[v]));
                        w[i].nested = Some(v);
                    }
                }
                want[s] = Some(w);
            }
            // a field of the section with the tag of a member
            _ => {
                let v = vbyte("value");
                section(&mut m, s).set_field(sf(58, &[v]));
                plain[s] = Some(v);
            }
        }
    }
    check(m.get_group(627).is_some() == want[1].is_some(), "the message reads another group than its body");
    check(m.get_group(804).is_none(), "a group of an instance appears in the body");
    for s in 0..3 {
        let map: &FieldMap = match s {
            0 => m.header(),
            1 => &m.body,
            _ => m.trailer(),
        };
        match (plain[s], map.get_field::<String>(58)) {
            (Some(v), Ok(x)) => check(eq_bytes(&[v], x.as_bytes()), "a field does not hold the value last set"),
            (None, Err(_)) => (),
            _ => check(false, "a field does not hold the value last set"),
        }
        check(map.get_group(804).is_none() && map.get_group(58).is_none() && map.get_group(628).is_none(), "a group that was never set is found");
        match (&want[s], map.get_group(627)) {
            (Some(w), Some(g)) => {
                reach("group");
                check(g.size() as usize == w.len(), "a group has another number of instances than set");
                check(map.get_field::<u32>(627).ok() == Some(w.len() as u32), "the count field is not the number of instances set");
                for (i, inst) in w.iter().enumerate() {
                    let mut n = 0;
                    for t in 0..2 {
                        match (inst.v[t], g[i].get_field::<String>(MEMBERS[t])) {
                            (Some(v), Ok(x)) => {
                                n += 1;
                                check(eq_bytes(&[v], x.as_bytes()), "a member of an instance does not hold the value last set")
                            }
                            (None, Err(_)) => (),
                            _ => check(false, "a member of an instance does not hold the value last set"),
                        }
                    }
                    match (inst.nested, g[i].get_group(804)) {
                        (Some(v), Some(h)) => {
                            n += 2;
                            check(h.size() == 1 && h[0].get_field::<String>(545).map_or(false, |x| eq_bytes(&[v], x.as_bytes())), "a group of an instance does not hold the value last set");
                            check(g[i].get_field::<u32>(804).ok() == Some(1), "the count field is not the number of instances set");
                        }
                        (None, None) => (),
                        _ => check(false, "a group of an instance is not the one last set"),
                    }
                    check(g[i].iter().into_iter().count() == n, "an instance lists other fields than were set");
                }
            }
            (None, None) => check(map.get_field::<String>(627).is_err(), "a count that was never set is found"),
            (Some(_), None) => check(false, "a group that was set is not found"),
            (None, Some(_)) => check(false, "a group appears in another section"),
        }
    }
}
/// every history of 2 settings of groups (0 to 2 instances, with members and nested groups) and fields, over the three sections
//@ tier=quick reach=group
pub fn h_c08_groups() {
    groups(2, 3)
}
/// every history of 3 settings of groups (0 to 2 instances, with members and nested groups) and fields, over the three sections
//@ tier=thorough reach=group
pub fn h_c08_groups_t() {
    groups(3, 3)
}

/// every history of 3 settings of fields with any tags of 32 bits, over the three sections; then any tag of any section is read
//@ tier=both reach=read,absent
pub fn h_c08_tags() {
    let mut m = Message::new();
    let mut log: Vec<(usize, u32, u8)> = vec![];
    for _ in 0..3 {
        let (s, t, v) = (choice(3) as usize, u32::from_le_bytes(bytes::<4>("tag")), vbyte("value"));
        let f = sf(t, &[v]);
        if s == 1 && flag() {
            m.set_field(f);
        } else {
            section(&mut m, s).set_field(f);
        }
        log.push((s, t, v));
    }
    let (s, t) = (choice(3) as usize, u32::from_le_bytes(bytes::<4>("tag")));
    let got = section(&mut m, s).get_field::<String>(t).ok();
    match log.iter().rev().find(|x| x.0 == s && x.1 == t) {
        Some(x) => {
            check(got.map_or(false, |g| eq_bytes(g.as_bytes(), &[x.2])), "a field does not hold the value last set");
            reach("read");
        }
        None => {
            check(got.is_none(), "a field that was never set is found");
            reach("absent");
        }
    }
    check(section(&mut m, s).get_group(t).is_none(), "a group that was never set is found");
}

/// a group of any tag and delimiter of 32 bits in any section, with a member of any tag, besides a field of any tag; then any tag is read as group and field
//@ tier=both reach=group,none
pub fn h_c08_group_tags() {
    let tag = || u32::from_le_bytes(bytes::<4>("tag"));
    let mut m = Message::new();
    let (g, d, t, f, v) = (tag(), tag(), tag(), tag(), [vbyte("value")]);
    assume(f != g);
    let s = choice(3) as usize;
    let n = choice(3);
    section(&mut m, s).set_field(sf(f, b"f"));
    {
        let grp = section(&mut m, s).set_group(g, n, d);
        check(grp.size() == n, "a new group has another number of instances");
        if n > 0 {
            grp[0].set_field(sf(t, &v));
        }
    }
    let u = tag();
    let map = section(&mut m, s);
    match map.get_group(u) {
        Some(x) => {
            reach("group");
            check(u == g, "a group that was never set is found");
            check(x.size() == n, "a group has another number of instances than set");
            for i in 0..n as usize {
                let got = x[i].get_field::<String>(u).ok();
                let want = i == 0 && t == u;
                check(if want { got.map_or(false, |y| eq_bytes(y.as_bytes(), &v)) } else { got.is_none() }, "a member of an instance does not hold the value last set");
                check(x[i].iter().into_iter().count() == (i == 0) as usize, "an instance lists other fields than were set");
            }
        }
        None => {
            reach("none");
            check(u != g, "a group that was set is not found");
        }
    }
    let got = map.get_field::<String>(u).ok();
    let want = if u == g { Some(n.to_string()) } else if u == f { Some("f".to_string()) } else { None };
    check(got == want, "a field does not hold the value last set");
    for o in 0..3 {
        check(o == s || (section(&mut m, o).get_group(u).is_none() && section(&mut m, o).get_field::<String>(u).is_err()), "a group appears in another section");
    }
}

/// groups of up to 300 instances (at 8 sizes), the first, one in the middle and the last with a value; and values of up to 65536 bytes (at 12 lengths)
//@ tier=both reach=group,long
pub fn h_c08_large() {
    let mut m = Message::new();
    let s = choice(3) as usize;
    if flag() {
        let n = [9, 10, 17, 33, 127, 128, 256, 300][choice(8) as usize];
        let at = [0, n / 2, n - 1];
        let mut v = [0; 3];
        let g = section(&mut m, s).set_group(627, n, 628);
        for i in 0..3 {
            v[i] = vbyte("value");
            g[at[i] as usize].set_field(sf(628, &[v[i]]));
        }
        let g = section(&mut m, s).get_group(627).unwrap();
        check(g.size() == n, "a group has another number of instances than set");
        check(section(&mut m, s).get_field::<u32>(627).ok() == Some(n), "the count field is not the number of instances set");
        let g = section(&mut m, s).get_group(627).unwrap();
        for i in 0..n as usize {
            let want = at.iter().position(|a| *a as usize == i).map(|k| v[k]);
            let got = g[i].get_field::<String>(628).ok();
            check(got.is_some() == want.is_some() && (want.is_none() || eq_bytes(got.unwrap().as_bytes(), &[want.unwrap()])), "a member of an instance does not hold the value last set");
        }
        reach("group");
    } else {
        let v = long([7, 8, 15, 16, 31, 32, 255, 256, 1000, 4096, 65535, 65536][choice(12) as usize]);
        section(&mut m, s).set_field(sf(58, &v));
        check(section(&mut m, s).get_field::<String>(58).map_or(false, |x| eq_bytes(x.as_bytes(), &v)), "a field does not hold the value last set");
        reach("long");
    }
}

macro_rules! limit {
    ($t:ty, $m:ident, $v:ident) => {{
        let r = no_panic("reading a field panics", || $m.get_field::<$t>(58));
        let want = $v.parse::<$t>().ok();
        check(r.ok() == want, "a number is read as another one");
        reach(if want.is_some() { "number" } else { "refused" });
    }};
}
/// reading as each of 8 types of numbers: the texts around their limits, with any last byte
//@ tier=both reach=number,refused
pub fn h_c08_limits() {
    let b = vbyte("last") as char;
    let v = format!("{}{}", ["25", "-12", "6553", "-3276", "429496729", "-214748364", "1844674407370955161", "-922337203685477580", "00", "+"][choice(10) as usize], b);
    let mut m = Message::new();
    m.set_field(sf(58, v.as_bytes()));
    match choice(8) {
        0 => limit!(u8, m, v),
        1 => limit!(i8, m, v),
        2 => limit!(u16, m, v),
        3 => limit!(i16, m, v),
        4 => limit!(u32, m, v),
        5 => limit!(i32, m, v),
        6 => limit!(u64, m, v),
        _ => limit!(i64, m, v),
    }
}

/// a value with a character of two, three or four bytes, any two bytes or any last byte, in any section, a group of it or a nested group, read as text or as a character
//@ tier=both reach=text,character,refused
pub fn h_c08_utf8() {
    let v = character("value");
    let mut m = Message::new();
    let at = choice(6);
    match at {
        0 => m.header_mut().set_field(sf(49, &v)),
        1 => m.set_field(sf(58, &v)),
        2 => m.trailer_mut().set_field(sf(89, &v)),
        3 => m.header_mut().set_group(627, 1, 628)[0].set_field(sf(628, &v)),
        4 => m.set_group(78, 1, 79)[0].set_field(sf(79, &v)),
        _ => m.set_group(78, 1, 79)[0].set_group(539, 2, 524)[1].set_field(sf(524, &v)),
    }
    if flag() {
        m.set_field(sf(1, b"x"));
    }
    let s: Option<String>;
    let c: Option<char>;
    macro_rules! read {
        ($x:expr, $t:expr) => {{
            s = no_panic("reading a field panics", || $x.get_field($t).ok());
            c = no_panic("reading a field panics", || $x.get_field($t).ok());
        }};
    }
    match at {
        0 => read!(m.header(), 49),
        1 => read!(m, 58),
        2 => read!(m.trailer(), 89),
        3 => read!(m.header().get_group(627).unwrap()[0], 628),
        4 => read!(m.get_group(78).unwrap()[0], 79),
        _ => read!(m.get_group(78).unwrap()[0].get_group(539).unwrap()[1], 524),
    }
    check(s.map_or(false, |s| eq_bytes(s.as_bytes(), &v)), "a text is read as another one");
    reach("text");
    let one = v[0] >= 0x80;
    check(c.is_some() == one, "a character is read wrongly");
    if let Some(c) = c {
        let mut b = [0; 4];
        check(eq_bytes(c.encode_utf8(&mut b).as_bytes(), &v), "a character is read wrongly");
    }
    reach(if one { "character" } else { "refused" });
}
