//! C02: an accepted message holds exactly the fields of its text.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

/// A value byte: any ASCII except SOH.
fn vb(name: &str) -> u8 {
    let b = byte(name);
    assume((b != S) & (b < 0x80));
    b
}
fn decide(dd: &DataDictionary, fs: &[Fld], t: &str, s: &str) {
    let r = no_panic("parsing panics", || Message::from_str(s, dd));
    match (&r, model(fs, t)) {
        (Ok(m), Verdict::Accept(n)) => {
            reach("accepted");
            check(same(m.header(), &n[0]), "the header of an accepted message differs from its text");
            check(same(&m.body, &n[1]), "the body of an accepted message differs from its text");
            check(same(m.trailer(), &n[2]), "the trailer of an accepted message differs from its text");
        }
        (Ok(m), Verdict::Reject) => {
            // whatever is accepted must not lose fields
            let k = [m.header(), &m.body, m.trailer()].iter().map(|x| x.iter().into_iter().count()).sum::<usize>();
            check(k == fs.len(), "an accepted message lost a field of its text");
        }
        _ => (),
    }
    observe_n(r.is_ok() as u64);
}

fn plain(k: u32, vmax: u32) {
    let dd = dict();
    let mut fs = header3("D");
    for _ in 0..choice(k + 1) {
        let t = [49, 56, 58, 11, 89, 10][choice(6) as usize];
        let n = choice(vmax) + 1;
        let v: Vec<u8> = (0..n).map(|_| vb("value")).collect();
        fs.push((t, v));
    }
    let mut w = wire(&fs);
    if flag() {
        w.0.pop(); // the last field may come without its terminator
    }
    decide(&dd, &fs, "D", w.str());
}
/// up to 3 fields after the leading three, each any of 6 tags of the three sections, values any 1 to 3 ASCII bytes but SOH; last terminator present or not
//@ tier=quick reach=accepted
pub fn h_c02_plain() {
    plain(3, 3)
}
/// up to 4 fields after the leading three, each any of 6 tags of the three sections, values any 1 to 3 ASCII bytes but SOH; last terminator present or not
//@ tier=thorough reach=accepted
pub fn h_c02_plain_t() {
    plain(4, 3)
}

/// the values of the leading three fields and of one body and one trailer field: any UTF-8 text of 1 to 4 bytes without SOH
//@ tier=both reach=accepted
pub fn h_c02_values() {
    let dd = dict();
    let at = choice(5) as usize;
    let b = bytes::<4>("value");
    let n = choice(4) as usize + 1;
    let mut fs = header3("0");
    fs.push((58, b"t".to_vec()));
    fs.push((10, b"000".to_vec()));
    for i in 0..n {
        assume(b[i] != S);
    }
    fs[at].1 = b[..n].to_vec();
    let w = wire(&fs);
    let s = w.str();
    if at == 2 {
        // with message type D the body would have other members
        assume(!((n == 1) & (b[0] == b'D')));
    }
    decide(&dd, &fs, "0", s);
}

fn tags(max: u32) {
    let dd = dict();
    let big = [100, 255, 256, 999, 1000, 5001, 65535, 65536, 100000, 4294967295];
    let n = choice(max + big.len() as u32);
    let tag = if n < max { n + 1 } else { big[(n - max) as usize] };
    if [8, 9, 35, 49, 56, 34, 52, 50, 57, 627, 93, 89, 10].contains(&tag) {
        return;
    }
    let v = [vb("value"), vb("value")];
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f(&tag.to_string(), &v).f("10", b"000");
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd));
    if let Ok(m) = &r {
        reach("accepted");
        // the only field of the body
        let got: Vec<(u32, Vec<u8>)> = m.body.iter().into_iter().map(|f| (f.tag(), f.value().as_bytes().to_vec())).collect();
        check(got.len() == 1, "the body of an accepted message differs from its text");
        check((got[0].0 == tag) & eq_bytes(&got[0].1, &v), "the body of an accepted message differs from its text");
    }
    observe_n(r.is_ok() as u64);
}
/// a body field with any tag from 1 to 99 or one of 10 larger ones up to 2^32-1, value any 2 ASCII bytes but SOH
//@ tier=quick reach=accepted
pub fn h_c02_tags() {
    tags(99)
}
/// a body field with any tag from 1 to 9999 or one of 10 others up to 2^32-1, value any 2 ASCII bytes but SOH
//@ tier=thorough reach=accepted
pub fn h_c02_tags_t() {
    tags(9999)
}

fn groups(k: u32) {
    let dd = dict();
    let mut fs = header3("D");
    let hdr = flag();
    let g: &[u32] = if hdr { &[628, 630] } else { &[79, 80, 539, 524, 538, 161] };
    fs.push((if hdr { 627 } else { 78 }, vec![digit("count")]));
    for _ in 0..choice(k + 1) {
        let t = g[choice(g.len() as u32) as usize];
        let v = if t == 539 { digit("count") } else { vb("value") };
        fs.push((t, vec![v]));
    }
    fs.push((58, vec![vb("value")]));
    let w = wire(&fs);
    decide(&dd, &fs, "D", w.str());
}
/// a header or body group with nested group: up to 4 member fields in any sequence, counts any digit, values any ASCII byte but SOH
//@ tier=quick reach=accepted
pub fn h_c02_groups() {
    groups(4)
}
/// a header or body group with nested group: up to 7 member fields in any sequence, counts any digit, values any ASCII byte but SOH
//@ tier=thorough reach=accepted
pub fn h_c02_groups_t() {
    groups(7)
}

fn any_tags(k: u32) {
    let dd = dict();
    let n = choice(k) as usize + 1;
    let d: Vec<u8> = (0..n).map(|i| range("digit", b'0' + (i == 0) as u8, b'9')).collect();
    let t = num(&d).unwrap();
    // a count is compared as the number it is (h_c02_groups)
    assume(t != 627);
    let m = choice(2) as usize;
    let v = [vb("value"), vb("value")];
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"S");
    if m == 1 {
        w.f("58", b"t");
    }
    w.raw(&d).raw(b"=").raw(&v).raw(&[S]).f("10", b"000");
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd));
    let r = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    reach("accepted");
    let sec = if r.header().iter().into_iter().count() > 4 { 0 } else if r.trailer().iter().into_iter().count() > 1 { 2 } else { 1 };
    check(r.header().iter().into_iter().count() == 4 + (sec == 0) as usize, "the header of an accepted message differs from its text");
    check(r.body.iter().into_iter().count() == m + (sec == 1) as usize, "the body of an accepted message differs from its text");
    check(r.trailer().iter().into_iter().count() == 1 + (sec == 2) as usize, "the trailer of an accepted message differs from its text");
    let of = [r.header(), &r.body, r.trailer()][sec];
    check(get(of, t).map_or(false, |x| eq_bytes(x.as_bytes(), &v)), "a field of an accepted message has another value than in its text");
    check(get(r.header(), 49).as_deref() == Some("S") && get(r.trailer(), 10).as_deref() == Some("000"), "a field of an accepted message has another value than in its text");
    check(m == 0 || get(&r.body, 58).as_deref() == Some("t"), "a field of an accepted message has another value than in its text");
}
/// a field of any tag of 1 to 5 digits but 627 between the header and the trailer, with or without a body field before it; value any 2 ASCII bytes but SOH
//@ tier=quick reach=accepted
pub fn h_c02_anytag() {
    any_tags(5)
}
/// a field of any tag of 1 to 9 digits but 627 between the header and the trailer, with or without a body field before it; value any 2 ASCII bytes but SOH
//@ tier=thorough reach=accepted
pub fn h_c02_anytag_t() {
    any_tags(9)
}

/// messages with 10 to 100 more body fields (at 6 numbers), tags rising or falling; and values of 7 to 65536 bytes (at 12 lengths) in each section
//@ tier=both reach=accepted
pub fn h_c02_large() {
    let dd = dict();
    let mut fs = header3("0");
    if flag() {
        let n = [10, 16, 17, 32, 64, 100][choice(6) as usize];
        let up = flag();
        for i in 0..n {
            let t = 5000 + if up { i } else { n - i };
            fs.push((t, if i % 16 == 0 || i + 1 == n { vec![vb("value")] } else { t.to_string().into_bytes() }));
        }
        fs.push((10, b"000".to_vec()));
        let w = wire(&fs);
        match no_panic("parsing panics", || Message::from_str(w.str(), &dd)) {
            Ok(m) => {
                reach("accepted");
                check(m.body.iter().into_iter().count() == n as usize, "the body of an accepted message differs from its text");
                for f in &fs[3..fs.len() - 1] {
                    check(get(&m.body, f.0).map_or(false, |x| eq_bytes(x.as_bytes(), &f.1)), "the body of an accepted message differs from its text");
                }
            }
            Err(_) => (),
        }
        return;
    }
    let v = long([7, 8, 15, 16, 31, 32, 255, 256, 1000, 4096, 65535, 65536][choice(12) as usize]);
    let t = [49, 58, 89][choice(3) as usize];
    for x in [49, 58, 89] {
        fs.push((x, if x == t { v.clone() } else { b"x".to_vec() }));
    }
    fs.push((10, b"000".to_vec()));
    decide(&dd, &fs, "0", wire(&fs).str());
}
