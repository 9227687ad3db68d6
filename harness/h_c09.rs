//! C09: the session a wire message belongs to.
use super::message::*;
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

fn opt(v: &Option<Vec<u8>>) -> Option<&[u8]> {
    match v {
        Some(v) if !v.is_empty() => Some(&v[..]),
        _ => None,
    }
}
fn same_opt(a: &Option<String>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => eq_bytes(a.as_bytes(), b),
        (None, None) => true,
        _ => false,
    }
}
/// parts: 49, 50, 142, 56, 57, 143
fn judge(id: &SessionId, begin: &[u8], p: &[Option<Vec<u8>>; 6], rev: bool) {
    let (s, t) = if rev { (3, 0) } else { (0, 3) };
    let e: Vec<u8> = vec![];
    check(eq_bytes(id.begin_string().as_bytes(), begin), "the begin string is not that of the message");
    check(eq_bytes(id.sender_compid().as_bytes(), p[s].as_ref().unwrap_or(&e)), "the sender is not that of the message");
    check(eq_bytes(id.target_compid().as_bytes(), p[t].as_ref().unwrap_or(&e)), "the target is not that of the message");
    check(same_opt(id.sender_subid(), opt(&p[s + 1])) & same_opt(id.sender_locationid(), opt(&p[s + 2])), "the sender's sub or location id is not that of the message");
    check(same_opt(id.target_subid(), opt(&p[t + 1])) & same_opt(id.target_locationid(), opt(&p[t + 2])), "the target's sub or location id is not that of the message");
    check(id.session_qualifier().is_none(), "a qualifier appears");
}

fn built(vmax: u32) {
    let tags = ["49", "50", "142", "56", "57", "143"];
    let begin = ["FIX.4.2", "FIX.4.3", "FIX.4.4"][choice(3) as usize];
    let mut p: [Option<Vec<u8>>; 6] = [None, None, None, None, None, None];
    for i in 0..6 {
        if i == 0 || i == 3 || flag() {
            // shapes of values: any one or two bytes
            let n = choice(vmax) as usize + 1;
            p[i] = Some(val(n));
        }
    }
    let mut w = Wire::new();
    w.f("8", begin.as_bytes()).f("9", b"50").f("35", b"D");
    let decoy = choice(3);
    if decoy == 1 {
        w.f("34", b"1").f("149", b"no").f("1142", b"no").f("250", b"no");
    }
    // the order of the fields
    let r = choice(6) as usize;
    let back = flag();
    for k in 0..6 {
        let mut i = (r + k) % 6;
        if back {
            i = 5 - i;
        }
        if let Some(v) = &p[i] {
            w.f(tags[i], v);
        }
    }
    if decoy == 2 {
        w.f("58", b"8=x49=no 56=no 50=no 57=no 142=no 143=no").f("448", b"no");
    }
    w.f("10", b"000");
    let s = w.str();
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(s));
    judge(&a, begin.as_bytes(), &p, false);
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(s));
    judge(&b, begin.as_bytes(), &p, true);
    reach("read");
    // the same session written down by hand
    let st = |v: &Option<Vec<u8>>| v.as_ref().map_or(String::new(), |v| String::from_utf8(v.clone()).unwrap());
    let mut bl = SessionIdBuilder::new(begin.to_string(), st(&p[0]), st(&p[3]));
    for i in [1usize, 2, 4, 5] {
        if p[i].is_some() {
            let v = st(&p[i]);
            match i {
                1 => bl.sender_subid(v),
                2 => bl.sender_locationid(v),
                4 => bl.target_subid(v),
                _ => bl.target_locationid(v),
            };
        }
    }
    let c = bl.build().unwrap();
    check(c == a, "the session of a message differs from the same session written down");
}
/// any subset of sub and location ids, 12 field orders, decoy fields and values, values any 1 printable byte
//@ tier=quick reach=read
pub fn h_c09_fields() {
    built(1)
}
/// any subset of sub and location ids, 12 field orders, decoy fields and values, values any 1 or 2 printable bytes
//@ tier=thorough reach=read
pub fn h_c09_fields_t() {
    built(2)
}

fn raw<const N: usize>() {
    let b = bytes::<N>("text");
    let n = choice(N as u32 + 1) as usize;
    let mut w = Wire::new();
    match choice(3) {
        0 => (),
        1 => {
            w.f("8", b"FIX.4.3");
        }
        _ => {
            w.f("8", b"FIX.4.3").raw(b"49=A");
        }
    }
    w.raw(&b[..n]);
    let s = w.str();
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(s));
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(s));
    check((a.sender_compid() == b.target_compid()) & (a.sender_subid() == b.target_subid()) & (a.sender_locationid() == b.target_locationid()), "the reversed session is not the mirror image");
    check((a.target_compid() == b.sender_compid()) & (a.target_subid() == b.sender_subid()) & (a.target_locationid() == b.sender_locationid()), "the reversed session is not the mirror image");
    check(a.begin_string() == b.begin_string(), "the reversed session is not the mirror image");
    reach("read");
    observe(a.to_string().as_bytes());
}
/// any UTF-8 text of up to 5 bytes, bare, after a begin string, or after an unterminated sender
//@ tier=quick reach=read
pub fn h_c09_raw() {
    raw::<5>()
}
/// any UTF-8 text of up to 8 bytes, bare, after a begin string, or after an unterminated sender
//@ tier=thorough reach=read
pub fn h_c09_raw_t() {
    raw::<8>()
}

/// a message whose last field, cut anywhere in its value, is the sender or another id
//@ tier=both reach=read
pub fn h_c09_cut() {
    let tags = ["49", "50", "142", "56", "57", "143"];
    let i = choice(6) as usize;
    let n = choice(3) as usize;
    let v = val(n);
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0");
    w.raw(tags[i].as_bytes()).raw(b"=").raw(&v);
    let id = no_panic("reading the session of a message panics", || Message::get_session_id(w.str()));
    let mut p: [Option<Vec<u8>>; 6] = [None, None, None, None, None, None];
    p[i] = Some(v);
    judge(&id, b"FIX.4.3", &p, false);
    reach("read");
}

/// 4 fields in a row of any different tags of 11, the ids' and others that end alike, values of 1 printable byte, the last with an end or not
//@ tier=both reach=read
pub fn h_c09_any() {
    let tags = ["49", "50", "142", "56", "57", "143", "8", "108", "1149", "58", "9"];
    let mut p: [Option<Vec<u8>>; 6] = [None, None, None, None, None, None];
    let mut begin = vec![];
    let mut left: Vec<usize> = (0..11).collect();
    let mut w = Wire::new();
    for k in 0..4 {
        let i = left.remove(choice(left.len() as u32) as usize);
        let v = if i < 7 { vec![vbyte("value")] } else { b"49=8=56=".to_vec() };
        w.raw(tags[i].as_bytes()).raw(b"=").raw(&v);
        if k < 3 || flag() {
            w.raw(b"\x01");
        }
        if i < 6 {
            p[i] = Some(v);
        } else if i == 6 {
            begin = v;
        }
    }
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(w.str()));
    judge(&a, &begin, &p, false);
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(w.str()));
    judge(&b, &begin, &p, true);
    reach("read");
}

fn tagged<const N: usize>() {
    let tags = ["49", "50", "142", "56", "57", "143"];
    let b = bytes::<N>("tag");
    let n = choice(N as u32) as usize + 1;
    for i in 0..n {
        assume((b[i] >= b'0') & (b[i] <= b'9'));
    }
    let t = std::str::from_utf8(&b[..n]).unwrap();
    // the parts written besides it are read from their own fields
    assume((t != "8") & (t != "49") & (t != "56"));
    let v = vec![vbyte("value"), b'=', vbyte("value")];
    let at = choice(4);
    let mut p: [Option<Vec<u8>>; 6] = [Some(b"S".to_vec()), None, None, Some(b"T".to_vec()), None, None];
    for (i, x) in tags.iter().enumerate() {
        if t == *x {
            p[i] = Some(v.clone());
        }
    }
    let mut w = Wire::new();
    for (i, (x, y)) in [("8", "FIX.4.3"), ("49", "S"), ("56", "T"), ("10", "000")].iter().enumerate() {
        if at == i as u32 {
            w.f(t, &v);
        }
        w.f(x, y.as_bytes());
    }
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(w.str()));
    judge(&a, b"FIX.4.3", &p, false);
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(w.str()));
    judge(&b, b"FIX.4.3", &p, true);
    reach("read");
}
/// a field of any tag of 1 to 4 digits, leading zeros included, but 8, 49 and 56, at any of 4 places
//@ tier=quick reach=read
pub fn h_c09_tags() {
    tagged::<4>()
}
/// a field of any tag of 1 to 6 digits, leading zeros included, but 8, 49 and 56, at any of 4 places
//@ tier=thorough reach=read
pub fn h_c09_tags_t() {
    tagged::<6>()
}

/// a part of 7 to 1000 bytes (at 7 lengths), others short or absent, behind up to 40 other fields
//@ tier=both reach=read
pub fn h_c09_long() {
    let tags = ["49", "50", "142", "56", "57", "143"];
    let i = choice(6) as usize;
    let v = long([7, 8, 16, 32, 64, 255, 1000][choice(7) as usize]);
    let many = [0, 7, 40][choice(3) as usize];
    let others = flag();
    let mut p: [Option<Vec<u8>>; 6] = [None, None, None, None, None, None];
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0");
    for k in 0..many {
        w.f(&(5000 + k).to_string(), b"decoy");
    }
    for k in 0..6 {
        if k == i || others {
            p[k] = Some(if k == i { v.clone() } else { vec![b'a' + k as u8] });
            w.f(tags[k], p[k].as_ref().unwrap());
        }
    }
    w.f("10", b"000");
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(w.str()));
    judge(&a, b"FIX.4.3", &p, false);
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(w.str()));
    judge(&b, b"FIX.4.3", &p, true);
    reach("read");
}

/// a part with a character of two, three or four bytes, any two bytes or any last byte, or behind a field with one
//@ tier=both reach=read
pub fn h_c09_utf8() {
    let tags = ["49", "50", "142", "56", "57", "143"];
    let mut p: [Option<Vec<u8>>; 6] = [Some(b"a".to_vec()), None, None, Some(b"b".to_vec()), None, None];
    let v = character("value");
    let i = choice(7) as usize;
    if i < 6 {
        p[i] = Some(v.clone());
    }
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"D");
    if i == 6 || flag() {
        w.f("58", &v);
    }
    for (k, t) in tags.iter().enumerate() {
        if let Some(v) = &p[k] {
            w.f(t, v);
        }
    }
    let s = w.str();
    let a = no_panic("reading the session of a message panics", || Message::get_session_id(s));
    judge(&a, b"FIX.4.3", &p, false);
    let b = no_panic("reading the session of a message panics", || Message::get_reverse_session_id(s));
    judge(&b, b"FIX.4.3", &p, true);
    reach("read");
}
