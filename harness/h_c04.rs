//! C04: repeating groups parse to exactly the declared instances or are rejected.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

fn decide(dd: &DataDictionary, fs: &[Fld], t: &str) {
    let w = wire(fs);
    let r = no_panic("parsing panics", || Message::from_str(w.str(), dd));
    match (model(fs, t), &r) {
        (Verdict::Accept(n), Ok(m)) => {
            reach("accepted");
            check(same(m.header(), &n[0]), "the groups of the header differ from the text");
            check(same(&m.body, &n[1]), "the groups of the body differ from the text");
        }
        (Verdict::Accept(_), Err(_)) => check(false, "a correct repeating group is rejected"),
        (Verdict::Reject, Ok(_)) => check(false, "an incorrect repeating group is accepted"),
        (Verdict::Reject, Err(_)) => reach("rejected"),
        _ => (),
    }
    observe_n(r.is_ok() as u64);
}

fn member(t: u32) -> Fld {
    (t, if t == 539 || t == 78 || t == 627 { vec![digit("count")] } else { vec![vbyte("value")] })
}
fn flat(k: u32) {
    let dd = dict();
    let mut fs = header3("D");
    let hdr = flag();
    let g: &[u32] = if hdr { &[628, 630, 49] } else { &[79, 80, 161, 58] };
    fs.push(member(if hdr { 627 } else { 78 }));
    for _ in 0..choice(k + 1) {
        fs.push(member(g[choice(g.len() as u32) as usize]));
    }
    fs.push((10, b"000".to_vec()));
    decide(&dd, &fs, "D");
}
/// a header or body group: any digit as count, then any sequence of up to 5 of its members and a field outside it
//@ tier=quick reach=accepted,rejected
pub fn h_c04_flat() {
    flat(5)
}
/// a header or body group: any digit as count, then any sequence of up to 8 of its members and a field outside it
//@ tier=thorough reach=accepted,rejected
pub fn h_c04_flat_t() {
    flat(8)
}

fn nested(k: u32) {
    let dd = dict();
    let mut fs = header3("D");
    fs.push(member(78));
    let g = [79, 80, 539, 524, 538, 161];
    for _ in 0..choice(k + 1) {
        fs.push(member(g[choice(6) as usize]));
    }
    fs.push((58, b"t".to_vec()));
    decide(&dd, &fs, "D");
}
/// a group with a nested group: any digits as counts, any sequence of up to 5 members
//@ tier=quick reach=accepted,rejected
pub fn h_c04_nested() {
    nested(5)
}
/// a group with a nested group: any digits as counts, any sequence of up to 7 members
//@ tier=thorough reach=accepted,rejected
pub fn h_c04_nested_t() {
    nested(7)
}

/// the count text of a header, body or nested group: any 0 to 3 ASCII bytes without SOH, with 0 to 3 instances
//@ tier=both reach=accepted,rejected
pub fn h_c04_count() {
    let dd = dict();
    let mut fs = header3("D");
    let b = bytes::<3>("count");
    let n = choice(3) as usize + 1;
    for i in 0..n {
        assume((b[i] != S) & (b[i] < 0x80));
    }
    // a plus sign is left open
    assume(b[0] != b'+');
    let at = choice(3);
    let k = choice(4);
    if at == 2 {
        fs.push((78, b"1".to_vec()));
        fs.push((79, b"a".to_vec()));
    }
    let (c, d) = [(627, 628), (78, 79), (539, 524)][at as usize];
    fs.push((c, b[..n].to_vec()));
    for _ in 0..k {
        fs.push((d, vec![vbyte("value")]));
    }
    fs.push((58, b"t".to_vec()));
    decide(&dd, &fs, "D");
}

fn instances(kmax: u32) {
    let dd = dict();
    // valid by construction: each instance has any subset of the optional members
    let n = choice(kmax + 1);
    let mut fs = header3("D");
    fs.push((78, n.to_string().into_bytes()));
    for _ in 0..n {
        fs.push(member(79));
        if flag() {
            fs.push(member(80));
        }
        if flag() {
            let m = choice(3);
            fs.push((539, m.to_string().into_bytes()));
            for _ in 0..m {
                fs.push(member(524));
                if flag() {
                    fs.push(member(538));
                }
            }
        }
        if flag() {
            fs.push(member(161));
        }
    }
    let m = choice(3);
    if flag() {
        fs.push((58, b"t".to_vec()));
    }
    if m > 0 {
        fs.push((10, b"000".to_vec()));
    }
    let w = wire(&fs);
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd));
    reach("accepted");
    match (r, model(&fs, "D")) {
        (Ok(m), Verdict::Accept(n)) => check(same(&m.body, &n[1]), "the groups of the body differ from the text"),
        _ => check(false, "a correct repeating group is rejected"),
    }
}
/// every correct body group of up to 2 instances with any subset of members and up to 2 nested instances
//@ tier=quick reach=accepted
pub fn h_c04_valid() {
    instances(2)
}
/// every correct body group of up to 3 instances with any subset of members and up to 2 nested instances
//@ tier=thorough reach=accepted
pub fn h_c04_valid_t() {
    instances(3)
}

/// the group of another message type, the body group's count in the header, the header group's count in the body
//@ tier=both
pub fn h_c04_other() {
    let dd = dict();
    let t = ["0", "D"][choice(2) as usize];
    let mut fs = header3(t);
    let seq: &[u32] = [&[627u32, 628, 78, 79][..], &[78, 79, 627, 628], &[11, 627, 628], &[78, 79, 49], &[10, 78, 79]][choice(5) as usize];
    for x in seq {
        fs.push(member(*x));
    }
    decide(&dd, &fs, t);
}

/// groups of 9 to 300 instances (at 8 sizes) in header or body, or nested, the count right, one less or one more; some values any printable byte
//@ tier=both reach=accepted,rejected
pub fn h_c04_large() {
    let dd = dict();
    let mut fs = header3("D");
    let n = [9usize, 10, 17, 33, 127, 128, 256, 300][choice(8) as usize];
    let off = choice(3) as usize;
    let at = choice(3);
    let (c, d, e) = [(627, 628, 630), (78, 79, 161), (539, 524, 538)][at as usize];
    if at == 2 {
        fs.push((78, b"1".to_vec()));
        fs.push((79, b"a".to_vec()));
    }
    fs.push((c, (n + off - 1).to_string().into_bytes()));
    for i in 0..n {
        let any = i == 0 || i == n / 2 || i + 1 == n;
        fs.push((d, if any { vec![vbyte("value")] } else { i.to_string().into_bytes() }));
        if i % 3 > 0 {
            fs.push((e, vec![b'e']));
        }
    }
    fs.push((10, b"000".to_vec()));
    decide(&dd, &fs, "D");
}

static FIRST: [Gram; 3] = [
    // the first member is a group
    Gram { count: 78, members: &[539, 80], sub: &[Gram { count: 539, members: &[524, 538], sub: &[] }] },
    // a component brings the first members
    Gram { count: 78, members: &[55, 48, 80, 539], sub: &[Gram { count: 539, members: &[524, 538], sub: &[] }] },
    // a component brings a group as the first member, whose own first member a component brings
    Gram { count: 78, members: &[539, 79], sub: &[Gram { count: 539, members: &[55, 48], sub: &[] }] },
];
const CONTENT: [&str; 3] = [
    r#"<group name="NoNested" required="N"><field name="NestedID" required="Y"/><field name="NestedRole" required="N"/></group><field name="AllocQty" required="N"/>"#,
    r#"<component name="Inst" required="Y"/><field name="AllocQty" required="N"/><group name="NoNested" required="N"><field name="NestedID" required="Y"/><field name="NestedRole" required="N"/></group>"#,
    r#"<component name="Nest" required="Y"/><field name="AllocAccount" required="N"/>"#,
];
/// the dictionary with another group of allocations
fn dict_with(content: &str) -> DataDictionary {
    let (a, b) = (DICT.find("<component name=\"Inst\"").unwrap(), DICT.find("<field name=\"Text\" required=\"N\"/></message>\n</messages>").unwrap());
    let mut x = String::with_capacity(8192);
    x.push_str(&DICT[..a]);
    x.push_str("<group name=\"NoAllocs\" required=\"N\">");
    x.push_str(content);
    x.push_str("</group>");
    x.push_str(&DICT[b..]);
    let nest = r#"<components><component name="Nest"><group name="NoNested" required="Y"><component name="Inst" required="Y"/></group></component>"#;
    DataDictionary::from_str(&x.replace("<components>", nest)).unwrap()
}
fn first(k: u32) {
    let i = choice(3) as usize;
    let dd = dict_with(CONTENT[i]);
    let mut fs = header3("D");
    fs.push(member(78));
    let g: &[u32] = [&[539u32, 524, 538, 80][..], &[55, 48, 80, 539, 524], &[539, 55, 48, 79]][i];
    for _ in 0..choice(k + 1) {
        fs.push(member(g[choice(g.len() as u32) as usize]));
    }
    fs.push((58, b"t".to_vec()));
    let w = wire(&fs);
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd));
    match (model_of(&fs, Some(&FIRST[i])), &r) {
        (Verdict::Accept(n), Ok(m)) => {
            reach("accepted");
            check(same(&m.body, &n[1]), "the groups of the body differ from the text");
        }
        (Verdict::Accept(_), Err(_)) => check(false, "a correct repeating group is rejected"),
        (Verdict::Reject, Ok(_)) => check(false, "an incorrect repeating group is accepted"),
        (Verdict::Reject, Err(_)) => reach("rejected"),
        _ => (),
    }
}
/// a group whose first member is a group, or comes from a component, or both: any digits as counts, any sequence of up to 5 members
//@ tier=quick reach=accepted,rejected
pub fn h_c04_first() {
    first(5)
}
/// the same with any sequence of up to 6 members
//@ tier=thorough reach=accepted,rejected
pub fn h_c04_first_t() {
    first(6)
}

/// a group whose count, or a member of it or of its nested group, has a character of two, three or four bytes, any two bytes or any last byte
//@ tier=both reach=accepted,rejected
pub fn h_c04_utf8() {
    let dd = dict();
    let v = character("value");
    let at = choice(6);
    let put = |i: u32, t: u32, x: &[u8]| -> Fld { (t, if at == i { v.clone() } else { x.to_vec() }) };
    let mut fs = header3("D");
    if at < 2 || flag() {
        fs.push(put(0, 627, b"1"));
        fs.push(put(1, 628, b"x"));
    }
    fs.push(put(2, 78, b"2"));
    fs.push((79, b"x".to_vec()));
    fs.push(put(3, 539, b"1"));
    fs.push(put(4, 524, b"x"));
    fs.push(put(5, 79, b"x"));
    fs.push((58, b"t".to_vec()));
    decide(&dd, &fs, "D");
}
