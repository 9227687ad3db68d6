//! C17: the fields of messages and sections in a dictionary.
use super::data_dictionary::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

/// a component: nothing, fields, a group, another component
fn components(items: &[It]) -> [Vec<It>; 2] {
    let a = if uses(items, 0) { component(8, true) } else { vec![] };
    let b = if uses(items, 1) || uses(&a, 1) { component(11, false) } else { vec![] };
    [a, b]
}
fn component(first: usize, inner: bool) -> Vec<It> {
    let (a, b) = (first, first + 1);
    match choice(if inner { 7 } else { 5 }) {
        0 => vec![],
        1 => vec![It::F(a, true), It::F(b, false)],
        2 => vec![It::F(a, false), It::F(b, true)],
        3 => vec![It::G(a, true, vec![It::F(b, true)])],
        4 => vec![It::F(a, true), It::G(b, false, vec![It::F(first + 2, true)])],
        5 => vec![It::C(1, true), It::F(a, true)],
        _ => vec![It::F(a, true), It::C(1, false)],
    }
}
fn load(w: &Wire, ok: bool) -> Option<DataDictionary> {
    let d = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    check(d.is_ok() == ok, "a correct dictionary is rejected or one with a field twice accepted");
    d.ok()
}

fn message(budget: u32) {
    // fields 0.. are the message's, 8.. and 11.. those of two components
    let (mut b, mut next) = (budget, 0);
    let items = any_items(&mut b, &mut next, 2, 2);
    let comps = components(&items);
    let mut l = Level::default();
    let ok = expand(&items, true, &comps, &mut l).is_some();
    let w = xml(&[It::F(14, true)], &[It::F(15, true)], &[("Msg", "D", items)], &comps);
    match load(&w, ok) {
        Some(d) => {
            check(level_fields(&d, "D", &l), "a message has other fields or required fields than described");
            reach("read");
        }
        None => reach("rejected"),
    }
}
/// one message of up to 3 fields, groups (nested 2 deep) and uses of 2 components (7 and 5 kinds), each required or not
//@ tier=quick reach=read,rejected
pub fn h_c17_message() {
    message(3)
}
/// one message of up to 4 fields, groups (nested 2 deep) and uses of 2 components (7 and 5 kinds), each required or not
//@ tier=thorough reach=read,rejected
pub fn h_c17_message_t() {
    message(4)
}

/// header, trailer and two messages, each with any of 3 shared fields, required or not, or a component
//@ tier=both reach=read
pub fn h_c17_sections() {
    let comps = vec![vec![It::F(5, true), It::F(6, false)]];
    let some = || {
        let mut v = vec![];
        for f in 0..2 {
            match choice(3) {
                0 => v.push(It::F(f, true)),
                1 => v.push(It::F(f, false)),
                _ => (),
            }
        }
        if flag() {
            v.push(It::C(0, flag()));
        }
        v
    };
    let (h, t, a, b) = (vec![It::F(9, true), It::F(0, flag())], vec![It::F(1, flag()), It::F(10, true)], some(), some());
    let w = xml(&h, &t, &[("Aa", "A", a.clone()), ("Bb", "AB", b.clone())], &comps);
    let d = match load(&w, true) {
        Some(d) => d,
        None => return,
    };
    for (n, i) in [("header", &h), ("trailer", &t), ("A", &a), ("AB", &b)] {
        let mut l = Level::default();
        expand(i, true, &comps, &mut l);
        check(level_fields(&d, n, &l), "a section has other fields or required fields than described");
    }
    for x in NUM {
        check(d.is_header_field(x) == (x == NUM[9] || x == NUM[0]), "a header field is not known as one");
        check(d.is_trailer_field(x) == (x == NUM[10] || x == NUM[1]), "a trailer field is not known as one");
        check(!d.is_msg_field("B", x) && !d.is_msg_req_field("B", x), "an unknown message has fields");
    }
    reach("read");
}

/// header or trailer with a field, group or use of 2 components (7 and 5 kinds), each required or not; the other one and a message with a component, required or not
//@ tier=quick reach=read
pub fn h_c17_ends() {
    ends(1)
}
/// the same, with up to 2 fields, groups and uses of components
//@ tier=thorough reach=read
pub fn h_c17_ends_t() {
    ends(2)
}
fn ends(budget: u32) {
    let (mut b, mut next) = (budget, 0);
    let mut items = any_items(&mut b, &mut next, 2, 2);
    items.push(It::F(14, true));
    let mut other = vec![It::F(15, true), It::C(0, flag())];
    if flag() {
        other.reverse();
    }
    let msg = vec![It::C(0, flag())];
    let all: Vec<It> = items.iter().chain(&other).cloned().collect();
    let comps = components(&all);
    let (h, t) = if flag() { (items, other) } else { (other, items) };
    let parts = [("header", &h), ("trailer", &t), ("D", &msg)];
    let ls: Vec<(Option<()>, Level)> = parts
        .iter()
        .map(|(_, i)| {
            let mut l = Level::default();
            (expand(i, true, &comps, &mut l), l)
        })
        .collect();
    let w = xml(&h, &t, &[("Msg", "D", msg.clone())], &comps);
    if let Some(d) = load(&w, ls.iter().all(|l| l.0.is_some())) {
        for ((n, _), (_, l)) in parts.iter().zip(&ls) {
            check(level_fields(&d, n, l), "a section has other fields or required fields than described");
        }
        for x in NUM {
            check(d.is_header_field(x) == ls[0].1.order.contains(&x), "a header field is not known as one");
            check(d.is_trailer_field(x) == ls[1].1.order.contains(&x), "a trailer field is not known as one");
        }
        reach("read");
    }
}

/// a field, a group and a component whose required attribute is any letter or digit
//@ tier=both reach=read
pub fn h_c17_required() {
    let r = [byte("field"), byte("group"), byte("component")];
    for b in r {
        assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z'));
    }
    let mut w = Wire(Vec::with_capacity(4096));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header/><trailer/><messages><message name=\"M\" msgtype=\"M\" msgcat=\"app\">");
    w.raw(b"<field name=\"NA\" required=\"").raw(&r[..1]).raw(b"\"/><group name=\"NB\" required=\"").raw(&r[1..2]);
    w.raw(b"\"><field name=\"NC\" required=\"Y\"/></group><component name=\"K0\" required=\"").raw(&r[2..3]).raw(b"\"/></message></messages>");
    w.raw(b"<components><component name=\"K0\"><field name=\"ND\" required=\"Y\"/></component></components>");
    xml_fields(&mut w);
    w.raw(b"</fix>");
    let d = match load(&w, true) {
        Some(d) => d,
        None => return,
    };
    let yes = |b: u8| (b == b'Y') | (b == b'y');
    check(d.is_msg_req_field("M", NUM[0]) == yes(r[0]), "a field is required wrongly");
    check(d.is_msg_req_field("M", NUM[1]) == yes(r[1]), "a group is required wrongly");
    check(d.is_msg_req_field("M", NUM[3]) == yes(r[2]), "a component's field is required wrongly");
    let g = d.get_msg_group("M", NUM[1]);
    check(g.map_or(false, |g| g.data_dictionary().is_msg_req_field("M", NUM[2]) == yes(r[1])), "a group's member is required wrongly");
    reach("read");
}

/// a message of 17 to 150 fields (at 3 numbers), or as many messages, numbered up, down or mixed; one field's number any two digits
//@ tier=both reach=read
pub fn h_c17_large() {
    let n = [17u32, 60, 150][choice(3) as usize];
    let k = choice(3);
    let d = [range("digit", b'1', b'9'), digit("digit")];
    let x = (d[0] - b'0') as u32 * 10 + (d[1] - b'0') as u32;
    let at = n / 2;
    let number = |i: u32| 1000 + [i, n - i, i * 7 % 151][k as usize];
    let many = flag();
    let mut w = Wire(Vec::with_capacity(65536));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header><field name=\"FA\" required=\"Y\"/></header><trailer><field name=\"FB\" required=\"Y\"/></trailer><messages>");
    if !many {
        w.raw(b"<message name=\"M\" msgtype=\"m\" msgcat=\"app\">");
    }
    for i in 0..n {
        let f = format!("<field name=\"F{}\" required=\"{}\"/>", i, if i % 3 == 0 { "Y" } else { "N" });
        if many {
            w.raw(format!("<message name=\"M{}\" msgtype=\"m{}\" msgcat=\"app\">{}</message>", i, i, f).as_bytes());
        } else {
            w.raw(f.as_bytes());
        }
    }
    if !many {
        w.raw(b"</message>");
    }
    w.raw(b"</messages><components/>\n<fields><field number=\"8\" name=\"FA\" type=\"STRING\"/><field number=\"9\" name=\"FB\" type=\"STRING\"/>");
    for i in 0..n {
        w.raw(b"<field number=\"");
        if i == at {
            w.raw(&d);
        } else {
            w.raw(number(i).to_string().as_bytes());
        }
        w.raw(format!("\" name=\"F{}\" type=\"STRING\"/>", i).as_bytes());
    }
    w.raw(b"</fields></fix>");
    let Some(dd) = load(&w, true) else { return };
    for i in 0..n {
        let t = if many { format!("m{}", i) } else { "m".to_string() };
        let f = if i == at { x } else { number(i) };
        check(dd.is_msg_field(&t, f), "a message has other fields than described");
        check(dd.is_msg_req_field(&t, f) == (i % 3 == 0), "a message has other required fields than described");
        let (all, req) = if many { (1, (i % 3 == 0) as usize) } else { (n as usize, (n as usize + 2) / 3) };
        check(dd.get_msg_fields(&t).map_or(0, |s| s.len()) == all, "a message has other fields than described");
        check(dd.get_msg_required_field(&t).map_or(0, |s| s.len()) == req, "a message has other required fields than described");
    }
    check(dd.is_header_field(8) & !dd.is_header_field(9) & dd.is_trailer_field(9) & !dd.is_trailer_field(8), "a section has other fields than described");
    reach("read");
}

/// names of two fields, a group and a component of 2 bytes each, message types of 1 or 2 and message names of 2, all of them any printable bytes, blanks included, that XML takes as they are
//@ tier=both reach=read
pub fn h_c17_names() {
    let name = |n: usize| -> Vec<u8> {
        (0..n)
            .map(|_| {
                let b = range("name", 0x20, 0x7e);
                assume((b != b'"') & (b != b'<') & (b != b'&'));
                b
            })
            .collect()
    };
    let differ = |x: &[Vec<u8>]| {
        for i in 0..x.len() {
            for j in 0..i {
                assume(!eq_bytes(&x[i], &x[j]));
            }
        }
    };
    // what is symbolic: the names, or the types
    let types = flag();
    let lit = |s: &str| s.as_bytes().to_vec();
    let f = if types { [lit("F1"), lit("F2"), lit("G1")] } else { [name(2), name(2), name(2)] };
    differ(&f);
    let c = if types { lit("K1") } else { name(2) };
    let t = if types { [name(choice(2) as usize + 1), name(2)] } else { [lit("A"), lit("B")] };
    differ(&t);
    // not the names the sections have
    let m = if types { [name(2), name(2)] } else { [lit("MA"), lit("MB")] };
    differ(&m);
    let mut w = Wire(Vec::with_capacity(4096));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header/><trailer/><messages>");
    for i in 0..2 {
        w.raw(b"<message name=\"").raw(&m[i]).raw(b"\" msgtype=\"").raw(&t[i]).raw(b"\" msgcat=\"app\">");
        w.raw(b"<field name=\"").raw(&f[i]).raw(b"\" required=\"Y\"/>");
        if i == 0 {
            w.raw(b"<component name=\"").raw(&c).raw(b"\" required=\"Y\"/>");
        }
        w.raw(b"</message>");
    }
    w.raw(b"</messages><components><component name=\"").raw(&c).raw(b"\"><group name=\"").raw(&f[2]).raw(b"\" required=\"N\"><field name=\"").raw(&f[1]);
    w.raw(b"\" required=\"N\"/></group></component></components><fields>");
    for i in 0..3 {
        w.raw(b"<field number=\"").raw(&[b'1' + i as u8]).raw(b"\" name=\"").raw(&f[i]).raw(b"\" type=\"STRING\"/>");
    }
    w.raw(b"</fields></fix>");
    let d = match load(&w, true) {
        Some(d) => d,
        None => return,
    };
    let (a, b) = (std::str::from_utf8(&t[0]).unwrap(), std::str::from_utf8(&t[1]).unwrap());
    let mut ok = true;
    for i in 1..4u32 {
        ok &= d.is_msg_field(a, i) == (i == 1 || i == 3) && d.is_msg_req_field(a, i) == (i == 1);
        ok &= d.is_msg_field(b, i) == (i == 2) && d.is_msg_req_field(b, i) == (i == 2);
        ok &= d.is_msg_group(a, i) == (i == 3) && !d.is_msg_group(b, i);
    }
    check(ok, "a message has other fields or required fields than described");
    check(d.get_msg_group(a, 3).map_or(false, |g| g.delimiter() == 2 && g.data_dictionary().get_ordered_fields() == [2]), "a group has other members than described");
    reach("read");
}

/// the names of two fields and the type of a message, one of them with a character of two, three or four bytes, any two bytes or any last byte
//@ tier=both reach=read
pub fn h_c17_utf8() {
    let v = character("name");
    let lit = |s: &str| s.as_bytes().to_vec();
    let k = choice(3) as usize;
    let n: Vec<Vec<u8>> = (0..3).map(|i| if i == k { v.clone() } else { lit(["F1", "F2", "t"][i]) }).collect();
    let mut w = Wire(Vec::with_capacity(4096));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header/><trailer/><messages>");
    w.raw(b"<message name=\"M\" msgtype=\"").raw(&n[2]).raw(b"\" msgcat=\"app\"><field name=\"").raw(&n[0]).raw(b"\" required=\"Y\"/></message>");
    w.raw(b"<message name=\"N\" msgtype=\"u\" msgcat=\"app\"><field name=\"").raw(&n[1]).raw(b"\" required=\"N\"/></message>");
    w.raw(b"</messages><components/><fields>");
    for i in 0..2 {
        w.raw(b"<field number=\"").raw(&[b'1' + i as u8]).raw(b"\" name=\"").raw(&n[i]).raw(b"\" type=\"STRING\"/>");
    }
    w.raw(b"</fields></fix>");
    let Some(d) = load(&w, true) else { return };
    let t = std::str::from_utf8(&n[2]).unwrap();
    check(d.is_msg_field(t, 1) & d.is_msg_req_field(t, 1) & !d.is_msg_field(t, 2), "a message has other fields or required fields than described");
    check(d.is_msg_field("u", 2) & !d.is_msg_req_field("u", 2) & !d.is_msg_field("u", 1), "a message has other fields or required fields than described");
    reach("read");
}

/// a message of up to 2 fields, groups and uses of 2 components, in a description written in 5 other ways: blanks, comments or instructions between all elements, other quotes, blanks within elements
//@ tier=both reach=read,rejected
pub fn h_c17_layout() {
    let (mut b, mut next) = (2, 0);
    let items = any_items(&mut b, &mut next, 2, 2);
    let comps = components(&items);
    let mut l = Level::default();
    let ok = expand(&items, true, &comps, &mut l).is_some();
    let w = xml(&[It::F(14, true)], &[It::F(15, true)], &[("Msg", "D", items)], &comps);
    match load(&relayout(&w, choice(5)), ok) {
        Some(d) => {
            check(level_fields(&d, "D", &l), "a message has other fields or required fields than described");
            let sec = |n: usize| Level { order: vec![NUM[n]], req: vec![NUM[n]], groups: vec![] };
            check(level_fields(&d, "header", &sec(14)) && level_fields(&d, "trailer", &sec(15)), "header or trailer have other fields than described");
            reach("read");
        }
        None => reach("rejected"),
    }
}

/// a description whose sections come in any order, and the attributes of whose elements come in the usual or the reverse one
//@ tier=both reach=read
pub fn h_c17_order() {
    fn reverse(e: &mut El) {
        e.1.reverse();
        e.2.iter_mut().for_each(reverse);
    }
    let mut e = base();
    if flag() {
        reverse(&mut e);
    }
    let mut rest = std::mem::take(&mut e.2);
    while !rest.is_empty() {
        e.2.push(rest.remove(choice(rest.len() as u32) as usize));
    }
    let Some(d) = load(&description(&e), true) else { return };
    let has = |t: &str, all: &[u32], req: &[u32]| (1..11).all(|i| d.is_msg_field(t, i) == all.contains(&i) && d.is_msg_req_field(t, i) == req.contains(&i));
    check(has("A", &[1, 2, 6, 7], &[1, 7]) && has("B", &[1], &[1]) && has("header", &[8], &[8]) && has("trailer", &[10], &[10]), "a message has other fields or required fields than described");
    let g = d.get_msg_group("A", 2).map(|g| (g.delimiter(), g.data_dictionary().get_ordered_fields().to_vec()));
    check(g == Some((3, vec![3, 6, 4])), "a group has other members than described");
    check(d.get_field_values(9).map_or(0, |v| v.len()) == 2, "a field has other values than defined");
    reach("read");
}
