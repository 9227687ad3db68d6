//! C01: parsing any text returns, without panic, hang or memory blow-up.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

fn run(w: &Wire, dd: &DataDictionary) {
    let s = w.str();
    let r = no_panic("parsing a message panics", || Message::from_str(s, dd));
    match &r {
        Ok(_) => reach("accepted"),
        Err(_) => reach("rejected"),
    }
    observe_n(r.is_ok() as u64);
}

fn raw<const N: usize>() {
    let dd = dict();
    let b = bytes::<N>("text");
    let n = choice(N as u32 + 1) as usize;
    let mut w = Wire::new();
    w.raw(&b[..n]);
    run(&w, &dd);
}
/// every UTF-8 text of up to 8 bytes
//@ tier=quick reach=rejected
pub fn h_c01_raw() {
    raw::<8>()
}
/// every UTF-8 text of up to 11 bytes
//@ tier=thorough reach=rejected
pub fn h_c01_raw_t() {
    raw::<11>()
}

/// any text of up to 8 bytes after a complete standard header
//@ tier=both reach=accepted,rejected
pub fn h_c01_tail() {
    let dd = dict();
    let b = bytes::<8>("text");
    let n = choice(9) as usize;
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"D").raw(&b[..n]);
    run(&w, &dd);
}

fn fields(k: u32) {
    let dd = dict();
    let mut w = Wire::new();
    let h = choice(4);
    if h > 0 {
        w.f("8", b"FIX.4.3");
    }
    if h > 1 {
        w.f("9", b"5");
    }
    if h > 2 {
        w.f("35", b"D");
    }
    let n = choice(k + 1);
    for _ in 0..n {
        let t = ["49", "627", "628", "630", "11", "78", "79", "80", "539", "524", "538", "58", "10", "8"][choice(14) as usize];
        let v = digit("value");
        w.f(t, &[v]);
    }
    run(&w, &dd);
}
/// up to 3 fields, each any of 14 tags (header, body, group, nested group, trailer) with any digit as value, after 0 to 3 leading header fields
//@ tier=quick reach=accepted,rejected
pub fn h_c01_fields() {
    fields(3)
}
/// up to 5 fields, each any of 14 tags with any digit as value, after 0 to 3 leading header fields
//@ tier=thorough reach=accepted,rejected
pub fn h_c01_fields_t() {
    fields(5)
}

/// the count of a header, body or nested group that is any 0 to 3 ASCII bytes, or a digit followed by 3 to 9 zeros, followed by 0 to 2 instances
//@ tier=both reach=accepted,rejected heap=32M
pub fn h_c01_count() {
    let dd = dict();
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"D").f("49", b"S");
    let (t, d) = [("627", "628"), ("78", "79"), ("539", "524")][choice(3) as usize];
    if t == "539" {
        w.f("78", b"1").f("79", b"x");
    }
    let k = choice(4 + 7) as usize;
    if k < 4 {
        let b = bytes::<3>("count");
        for i in 0..k {
            assume((b[i] != S) & (b[i] < 0x80));
        }
        w.f(t, &b[..k]);
    } else {
        let mut c = [b'0'; 10];
        c[0] = digit("leading digit");
        w.f(t, &c[..k]);
    }
    for _ in 0..choice(3) {
        w.f(d, b"x");
    }
    w.f("10", b"000");
    run(&w, &dd);
}

/// 20 to 300 more fields or instances (at 3 numbers), the group's count right, one more or less, or this followed by any digit, the text cut after them or not
//@ tier=both reach=accepted,rejected heap=32M
pub fn h_c01_large() {
    let dd = dict();
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", b"D").f("49", b"S");
    let n = [20, 100, 300][choice(3) as usize];
    if flag() {
        let mut c = [n - 1, n, n + 1][choice(3) as usize].to_string().into_bytes();
        if flag() {
            c.push(digit("count"));
        }
        w.f("78", &c);
        for _ in 0..n {
            w.f("79", b"x");
        }
    } else {
        for i in 0..n {
            w.f(&(5000 + i).to_string(), b"x");
        }
    }
    if flag() {
        w.f("10", b"000");
    }
    run(&w, &dd);
}
