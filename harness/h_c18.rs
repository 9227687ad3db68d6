//! C18: the repeating groups of a dictionary.
use super::data_dictionary::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

fn components(items: &[It]) -> [Vec<It>; 2] {
    let a = if uses(items, 0) { component(8, true) } else { vec![] };
    let b = if uses(items, 1) || uses(&a, 1) { component(11, false) } else { vec![] };
    [a, b]
}
fn component(first: usize, inner: bool) -> Vec<It> {
    let (a, b) = (first, first + 1);
    match choice(if inner { 7 } else { 4 }) {
        0 => vec![],
        1 => vec![It::F(a, true), It::F(b, false)],
        2 => vec![It::G(a, true, vec![It::F(b, true), It::F(first + 2, false)])],
        3 => vec![It::F(a, false), It::G(b, true, vec![It::F(first + 2, true)])],
        4 => vec![It::C(1, true), It::F(a, true)],
        5 => vec![It::F(a, true), It::C(1, false)],
        _ => vec![It::G(a, false, vec![It::C(1, true), It::F(b, true)])],
    }
}
fn judge(items: Vec<It>, comps: &[Vec<It>], header: bool) {
    let mut l = Level::default();
    let ok = expand(&items, true, comps, &mut l).is_some();
    let other = vec![It::F(7, true), It::G(6, false, vec![It::F(5, true)])];
    let w = if header {
        xml(&items, &[It::F(15, true)], &[("Msg", "D", other)], comps)
    } else {
        xml(&[It::F(14, true)], &[It::F(15, true)], &[("Msg", "D", items), ("Oth", "E", other)], comps)
    };
    let d = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    check(d.is_ok() == ok, "a correct dictionary is rejected or one with a field twice accepted");
    let d = match d {
        Ok(d) => d,
        Err(_) => {
            reach("rejected");
            return;
        }
    };
    check(level_groups(&d, if header { "header" } else { "D" }, &l), "a group has other members, order or first field than described");
    let mut none = Level::default();
    check(level_groups(&d, "F", &none), "an unknown message has groups");
    none.groups.push((NUM[6], Level { order: vec![NUM[5]], req: vec![], groups: vec![] }));
    check(level_groups(&d, if header { "D" } else { "E" }, &none), "a message has another message's groups");
    reach("read");
}
fn group(budget: u32, deep: u32, header: bool) {
    let (mut b, mut next) = (budget, 1);
    let items = any_items(&mut b, &mut next, 2, deep);
    let comps = components(&items);
    judge(vec![It::G(0, flag(), items)], &comps, header)
}
/// a group (required or not) of a message of up to 3 fields, uses of 2 components (7 and 4 kinds) and groups 2 deep within, each required or not
//@ tier=quick reach=read,rejected
pub fn h_c18_group() {
    group(3, 2, false)
}
/// a group (required or not) of a message of up to 4 fields, uses of 2 components (7 and 4 kinds) and groups 3 deep within, each required or not
//@ tier=thorough reach=read,rejected
pub fn h_c18_group_t() {
    group(4, 3, false)
}

/// a group of the header of up to 2 fields, uses of 2 components and groups within, each required or not
//@ tier=both reach=read,rejected
pub fn h_c18_header() {
    group(2, 1, true)
}

/// a message or the header with up to 2 fields, groups and uses of 2 components (7 and 4 kinds), each required or not
//@ tier=both reach=read,rejected
pub fn h_c18_direct() {
    let (mut b, mut next) = (2, 0);
    let items = any_items(&mut b, &mut next, 2, 1);
    let comps = components(&items);
    judge(items, &comps, flag())
}
/// a component (7 kinds, using a second one of 4) used by two of header and two messages at once, directly or within a group, required or not
//@ tier=both reach=read
pub fn h_c18_shared() {
    let use_it = || {
        let c = It::C(0, flag());
        match choice(3) {
            0 => vec![c],
            1 => vec![It::F(5, true), c],
            _ => vec![It::G(4, flag(), vec![It::F(5, true), c])],
        }
    };
    let (a, b) = (use_it(), use_it());
    let comps = components(&a);
    let f = || vec![It::F(14, true)];
    let at = choice(3);
    let (h, m, n) = match at {
        0 => (a, b, f()),
        1 => (b, f(), a),
        _ => (f(), a, b),
    };
    let w = xml(&h, &[It::F(15, true)], &[("Msg", "D", m.clone()), ("Oth", "E", n.clone())], &comps);
    match no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str())) {
        Ok(d) => {
            for (t, i) in [("header", &h), ("D", &m), ("E", &n)] {
                let mut l = Level::default();
                expand(i, true, &comps, &mut l);
                check(level_groups(&d, t, &l), "a group has other members, order or first field than described");
            }
            reach("read");
        }
        Err(_) => check(false, "a correct dictionary is rejected or one with a field twice accepted"),
    }
}

/// groups nested 1 to 5 deep, each with a field before, after, both, or the nested group alone
//@ tier=both reach=read
pub fn h_c18_nest() {
    let mut items = vec![It::F(0, true)];
    let mut next = 1;
    for _ in 0..choice(5) + 1 {
        let k = choice(4);
        let mut v = vec![];
        if k & 1 == 1 {
            v.push(It::F(next, true));
            next += 1;
        }
        v.push(It::G(next, true, items));
        next += 1;
        if k & 2 == 2 {
            v.push(It::F(next, false));
            next += 1;
        }
        items = v;
    }
    judge(items, &[], false)
}

/// a group of 9 to 100 members (at 3 numbers), every 10th a group of its own, numbered up, down or mixed; one member's number any two digits
//@ tier=both reach=read
pub fn h_c18_large() {
    let n = [9u32, 33, 100][choice(3) as usize];
    let k = choice(3);
    let d = [range("digit", b'1', b'9'), digit("digit")];
    let x = (d[0] - b'0') as u32 * 10 + (d[1] - b'0') as u32;
    let at = [0, n / 2, n - 1][choice(3) as usize];
    let number = |i: u32| if i == at { x } else { 1000 + [i, n - i, i * 7 % 151][k as usize] };
    let sub = |i: u32| i % 10 == 5;
    let mut w = Wire(Vec::with_capacity(65536));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header><field name=\"FA\" required=\"Y\"/></header><trailer><field name=\"FB\" required=\"Y\"/></trailer><messages>");
    w.raw(b"<message name=\"M\" msgtype=\"m\" msgcat=\"app\"><group name=\"G\" required=\"Y\">");
    for i in 0..n {
        let yn = if i % 3 == 0 { "Y" } else { "N" };
        if sub(i) {
            w.raw(format!("<group name=\"F{}\" required=\"{}\"><field name=\"FB\" required=\"Y\"/><field name=\"FA\" required=\"N\"/></group>", i, yn).as_bytes());
        } else {
            w.raw(format!("<field name=\"F{}\" required=\"{}\"/>", i, yn).as_bytes());
        }
    }
    w.raw(b"</group></message></messages><components/>\n<fields><field number=\"8\" name=\"FA\" type=\"STRING\"/><field number=\"9\" name=\"FB\" type=\"STRING\"/><field number=\"500\" name=\"G\" type=\"NUMINGROUP\"/>");
    for i in 0..n {
        w.raw(b"<field number=\"");
        if i == at {
            w.raw(&d);
        } else {
            w.raw(number(i).to_string().as_bytes());
        }
        w.raw(format!("\" name=\"F{}\" type=\"STRING\"/>", i).as_bytes());
    }
    w.raw(b"</fields></fix>");
    let r = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    check(r.is_ok(), "a correct dictionary is rejected");
    let Ok(dd) = r else { return };
    let g = dd.get_msg_group("m", 500);
    check(g.is_some(), "a group is missing");
    let Some(g) = g else { return };
    check(g.delimiter() == number(0), "a group's first field is another than described");
    let gd = g.data_dictionary();
    let o = gd.get_ordered_fields();
    check(o.len() == n as usize, "a group has other members than described");
    for i in 0..n {
        let f = number(i);
        check(o[i as usize] == f, "a group has another order than described");
        check(gd.is_msg_field("m", f) & (gd.is_msg_req_field("m", f) == (i % 3 == 0)), "a group has other members or required members than described");
        let s = gd.get_msg_group("m", f);
        check(s.is_some() == sub(i), "a nested group is missing or too many");
        if let Some(s) = s {
            check(s.delimiter() == 9 && s.data_dictionary().get_ordered_fields() == [9, 8], "a nested group has other members than described");
        }
    }
    reach("read");
}

/// a group of up to 2 fields, uses of 2 components and groups within, in a description written in 5 other ways: blanks, comments or instructions between all elements, other quotes, blanks within elements
//@ tier=both reach=read,rejected
pub fn h_c18_layout() {
    let (mut b, mut next) = (2, 1);
    let items = any_items(&mut b, &mut next, 2, 2);
    let comps = components(&items);
    let items = vec![It::G(0, flag(), items)];
    let mut l = Level::default();
    let ok = expand(&items, true, &comps, &mut l).is_some();
    let w = xml(&[It::F(14, true)], &[It::F(15, true)], &[("Msg", "D", items)], &comps);
    let w = relayout(&w, choice(5));
    let d = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    check(d.is_ok() == ok, "a correct dictionary is rejected or one with a field twice accepted");
    let Ok(d) = d else {
        reach("rejected");
        return;
    };
    check(level_groups(&d, "D", &l), "a group has other members, order or first field than described");
    reach("read");
}
