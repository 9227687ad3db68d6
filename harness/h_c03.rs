//! C03: well-formed messages are accepted, malformed ones rejected.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

fn decide(dd: &DataDictionary, fs: &[Fld], t: &str, s: &str) {
    let r = no_panic("parsing panics", || Message::from_str(s, dd)).is_ok();
    match model(fs, t) {
        Verdict::Accept(_) => {
            reach("accepted");
            check(r, "a well-formed message is rejected");
        }
        Verdict::Reject => {
            reach("rejected");
            check(!r, "a malformed message is accepted");
        }
        Verdict::Either => (),
    }
    observe_n(r as u64);
}

/// the first three fields: any of 8, 9, 35, 49, 58, 10 in each position or cut short; then up to 1 more
//@ tier=both reach=accepted,rejected
pub fn h_c03_start() {
    let dd = dict();
    let mut fs: Vec<Fld> = vec![];
    for _ in 0..choice(5) {
        let t = [8, 9, 35, 49, 58, 10][choice(6) as usize];
        fs.push((t, vec![vbyte("value")]));
    }
    if fs.len() > 2 {
        // a known message type without groups
        for f in fs.iter_mut() {
            if f.0 == 35 {
                f.1 = b"0".to_vec();
            }
        }
    }
    let w = wire(&fs);
    decide(&dd, &fs, "0", w.str());
}

fn sections(k: u32, all: &[u32]) {
    let dd = dict();
    let mut fs = header3(["0", "D", "ZZ"][choice(3) as usize]);
    for _ in 0..choice(k + 1) {
        let t = all[choice(all.len() as u32) as usize];
        fs.push((t, vec![vbyte("value")]));
    }
    let w = wire(&fs);
    let t = String::from_utf8(fs[2].1.clone()).unwrap();
    decide(&dd, &fs, &t, w.str());
}
const ALL: [u32; 10] = [49, 34, 52, 57, 58, 11, 48, 93, 89, 10];
/// up to 4 fields, each any of 10 tags of the three sections, after the leading three, for 3 message types
//@ tier=quick reach=accepted,rejected
pub fn h_c03_sections() {
    sections(4, &ALL)
}
/// up to 5 fields, each any of 13 tags of the three sections, after the leading three, for 3 message types
//@ tier=thorough reach=accepted,rejected
pub fn h_c03_sections_t() {
    sections(5, &[8, 9, 35, 49, 34, 52, 57, 58, 11, 48, 93, 89, 10])
}

/// The tag's length when the text between two separators is a field: a decimal
/// tag without sign or leading zero, '=', a non-empty value.
fn field_ok(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() && (b[i] >= b'0') & (b[i] <= b'9') {
        i += 1;
    }
    if i == 0 || b[0] == b'0' || i + 1 >= b.len() || b[i] != b'=' {
        return None;
    }
    Some(i)
}
fn text<const N: usize>() {
    let dd = dict();
    let b = bytes::<N>("field");
    let n = choice(N as u32 + 1) as usize;
    for i in 0..n {
        assume((b[i] != S) & (b[i] < 0x80));
    }
    let b = &b[..n];
    let at = choice(5);
    let last = at == 4;
    let mut w = Wire::new();
    let put = |w: &mut Wire, i: u32| {
        if at == i {
            w.raw(b).raw(&[S]);
        }
    };
    put(&mut w, 0);
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"S");
    put(&mut w, 1);
    w.f("58", b"t");
    put(&mut w, 2);
    w.f("10", b"000");
    put(&mut w, 3);
    if last {
        // unterminated rest; an empty one is the complete message
        w.raw(b);
    }
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd)).is_ok();
    observe_n(r as u64);
    if last && n == 0 {
        check(r, "a well-formed message is rejected");
        reach("accepted");
        return;
    }
    match field_ok(b) {
        None => {
            reach("rejected");
            check(!r, "a message with a malformed field is accepted");
        }
        Some(t) => {
            let t = &b[..t];
            let is = |l: &[&[u8]]| {
                let mut r = false;
                for x in l {
                    r |= eq_bytes(x, t);
                }
                r
            };
            // header: an unused header tag; body: an unused body tag; trailer: 93 or 89
            let hdr = is(&[b"56", b"34", b"52", b"50", b"57"]);
            let body = is(&[b"48", b"55", b"11"]);
            let trl = is(&[b"93", b"89"]);
            let used = is(&[b"8", b"9", b"35", b"49", b"58", b"10"]);
            if used | (at == 0) {
                check(!r, "a message with a misplaced or repeated field is accepted");
            } else if hdr {
                check(r == (at == 1), if at == 1 { "a well-formed message is rejected" } else { "a message with a misplaced or repeated field is accepted" });
            } else if trl {
                // before the body field, or between it and the checksum; after the checksum is left open
                if at < 3 {
                    check(r == (at == 2), if at == 2 { "a well-formed message is rejected" } else { "a message with a misplaced or repeated field is accepted" });
                }
            } else if body {
                check(r == (at == 1 || at == 2), if at == 1 || at == 2 { "a well-formed message is rejected" } else { "a message with a misplaced or repeated field is accepted" });
            }
        }
    }
}
/// any ASCII text of up to 6 bytes as a field at each place of a message (before it, header, body, trailer, after it)
//@ tier=quick reach=accepted,rejected
pub fn h_c03_text() {
    text::<6>()
}
/// any ASCII text of up to 8 bytes as a field at each place of a message (before it, header, body, trailer, after it)
//@ tier=thorough reach=accepted,rejected
pub fn h_c03_text_t() {
    text::<8>()
}

/// a tag of 9 to 11 digits, any last two digits, around the largest 32-bit number
//@ tier=both reach=rejected
pub fn h_c03_big() {
    let dd = dict();
    let p: &[u8] = [&b"42949672"[..], b"4294967", b"429496729", b"99999999", b"18446744073709551"][choice(5) as usize];
    let d = [digit("tag"), digit("tag")];
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").raw(p).raw(&d).raw(b"=x").raw(&[S]).f("10", b"000");
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd)).is_ok();
    let mut n: u128 = 0;
    for c in p.iter().chain(d.iter()) {
        n = n * 10 + (*c - b'0') as u128;
    }
    if n > u32::MAX as u128 {
        check(!r, "a message with a malformed field is accepted");
        reach("rejected");
    }
    observe_n(r as u64);
}

fn pair<const N: usize>() {
    let dd = dict();
    let tag = |n: &str| -> Vec<u8> { (0..choice(N as u32) + 1).map(|i| range(n, b'0' + (i == 0) as u8, b'9')).collect() };
    let (a, b) = (tag("first tag"), tag("second tag"));
    let (x, y) = (num(&a).unwrap(), num(&b).unwrap());
    // counts need instances, which the group properties decide
    assume((x != 627) & (y != 627));
    let mut fs = header3("0");
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0");
    let mid = flag();
    for (i, (t, d)) in [(x, &a), (y, &b)].into_iter().enumerate() {
        w.raw(d).raw(b"=v\x01");
        fs.push((t, b"v".to_vec()));
        if mid && i == 0 {
            w.f("58", b"t");
            fs.push((58, b"t".to_vec()));
        }
    }
    w.f("10", b"000");
    fs.push((10, b"000".to_vec()));
    // a field of the header, of the trailer, or else of the body
    let sec = |t: u32| -> u32 {
        if (t == 8) | (t == 9) | (t == 35) | (t == 49) | (t == 56) | (t == 34) | (t == 52) | (t == 50) | (t == 57) {
            0
        } else if (t == 93) | (t == 89) | (t == 10) {
            2
        } else {
            1
        }
    };
    let mut ok = true;
    for i in 3..fs.len() {
        ok &= sec(fs[i].0) >= sec(fs[i - 1].0);
        for k in 0..i {
            ok &= fs[i].0 != fs[k].0;
        }
    }
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd)).is_ok();
    observe_n(r as u64);
    if !ok {
        check(!r, "a message with a misplaced or repeated field is accepted");
        reach("rejected");
    } else {
        // whether a field that the dictionary does not have for the message is taken is left open
        let known = |t: u32| (t == 49) | (t == 56) | (t == 34) | (t == 52) | (t == 50) | (t == 57) | (t == 93) | (t == 89) | (t == 58) | (t == 11) | (t == 55) | (t == 48);
        check(r | !(known(x) & known(y)), "a well-formed message is rejected");
        if r {
            reach("accepted");
        }
    }
}
/// two fields of any tags of 1 to 3 digits but 627 between header and trailer, with or without a body field between them
//@ tier=quick reach=accepted,rejected
pub fn h_c03_pair() {
    pair::<3>()
}
/// two fields of any tags of 1 to 5 digits but 627 between header and trailer, with or without a body field between them
//@ tier=thorough reach=accepted,rejected
pub fn h_c03_pair_t() {
    pair::<5>()
}

/// messages of 10 to 300 body fields (at 4 numbers), the last any of them again, a header field, or new
//@ tier=both reach=accepted,rejected
pub fn h_c03_large() {
    let dd = dict();
    let n = [10, 17, 65, 300][choice(4) as usize];
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0");
    for i in 0..n {
        w.f(&(5000 + i).to_string(), b"v");
    }
    let k = choice(3);
    match k {
        0 => {
            let i = [0, 1, n / 2, n - 1][choice(4) as usize];
            w.f(&(5000 + i).to_string(), b"v");
        }
        1 => {
            w.f(["8", "49", "57"][choice(3) as usize], b"v");
        }
        _ => {
            w.f("58", &[vbyte("value")]);
        }
    }
    w.f("10", b"000");
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd)).is_ok();
    if k < 2 {
        check(!r, "a message with a misplaced or repeated field is accepted");
        reach("rejected");
    } else if r {
        reach("accepted");
    }
}

/// a character of two, three or four bytes, any two bytes or any last byte, as or in the tag of a field, in a field without '=', or in its value, at each place of a message
//@ tier=both reach=accepted,rejected
pub fn h_c03_utf8() {
    let dd = dict();
    let v = character("text");
    let mut f = vec![];
    let kind = choice(4);
    match kind {
        0 => f.extend_from_slice(&v),
        1 => {
            f.extend_from_slice(b"1");
            f.extend_from_slice(&v);
        }
        _ => f.extend_from_slice(b"89"),
    }
    if kind != 2 {
        f.push(b'=');
    }
    f.extend_from_slice(if kind > 1 { &v } else { b"x" });
    let at = choice(4);
    let mut w = Wire::new();
    let put = |w: &mut Wire, i: u32| {
        if at == i {
            w.raw(&f).raw(&[S]);
        }
    };
    put(&mut w, 0);
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"S");
    put(&mut w, 1);
    w.f("58", b"t");
    put(&mut w, 2);
    w.f("10", b"000");
    put(&mut w, 3);
    let r = no_panic("parsing panics", || Message::from_str(w.str(), &dd)).is_ok();
    if kind == 3 {
        // 89 is a field of the trailer, with any value; wherever it stands but in front
        let ok = at == 2 || at == 3;
        check(r == ok, "a message is not accepted exactly when it is well-formed");
        reach(if ok { "accepted" } else { "rejected" });
    } else {
        check(!r, "a message with a malformed field is accepted");
        reach("rejected");
    }
}
