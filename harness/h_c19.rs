//! C19: faulty dictionaries are rejected.
use super::data_dictionary::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

fn decide(ok: bool, w: &Wire) {
    let d = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    if ok {
        reach("read");
        check(d.is_ok(), "a correct dictionary is rejected");
    } else {
        reach("rejected");
        check(d.is_err(), "a faulty dictionary is accepted");
    }
}

/// every attribute of every element of a description absent, or empty
//@ tier=both reach=read,rejected
pub fn h_c19_attributes() {
    let mut d = base();
    let mut i = choice(count(&d) as u32) as usize;
    let mut needed = false;
    at(&mut d, &mut i, &mut |e| {
        if e.1.is_empty() {
            return;
        }
        let k = choice(e.1.len() as u32) as usize;
        if flag() {
            e.1[k].1.clear();
        } else {
            e.1.remove(k);
        }
        needed = !(e.0 == "value" && k == 1);
    });
    decide(!needed, &description(&d));
}

/// each section absent; each element of a section of another name, or an unknown element added to it
//@ tier=both reach=rejected
pub fn h_c19_elements() {
    let mut d = base();
    if flag() {
        d.2.remove(choice(5) as usize);
        decide(false, &description(&d));
        return;
    }
    let mut i = choice(count(&d) as u32) as usize;
    let mut ok = false;
    let add = flag();
    at(&mut d, &mut i, &mut |e| {
        // where the content is known by its element names
        let content = match e.0 {
            "header" | "trailer" | "message" | "group" => true,
            "component" => !e.2.is_empty(),
            _ => false,
        };
        if !content {
            ok = true;
            return;
        }
        if add {
            let k = choice(e.2.len() as u32 + 1) as usize;
            e.2.insert(k, el("other", &[("name", "NA"), ("required", "Y")], vec![]));
        } else {
            let k = choice(e.2.len() as u32) as usize;
            e.2[k].0 = "fields";
        }
    });
    assume(!ok);
    decide(false, &description(&d));
}

/// every reference to a field, group or component with any last byte: rejected unless defined
//@ tier=both reach=read,rejected
pub fn h_c19_references() {
    let mut d = base();
    let b = byte("name");
    assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z'));
    let mut i = choice(count(&d) as u32) as usize;
    let mut ok = None;
    at(&mut d, &mut i, &mut |e| {
        if e.1.len() == 2 && e.1[0].0 == "name" {
            let own = e.1[0].1[1];
            e.1[0].1[1] = b;
            ok = Some(if e.0 == "component" { (own, b'0', b'1') } else { (own, b'A', b'J') });
        }
    });
    let (own, lo, hi) = match ok {
        Some(x) => x,
        None => {
            assume(false);
            return;
        }
    };
    if b == own {
        decide(true, &description(&d));
    } else {
        // another one that is defined may be there already: not settled here
        assume(!((b >= lo) & (b <= hi)));
        decide(false, &description(&d));
    }
}

/// a definition of each kind repeated, with any part of it equal or not, at any place among the others
//@ tier=both reach=read,rejected
pub fn h_c19_duplicates() {
    let mut d = base();
    let same = [flag(), flag()];
    let pick = |s: bool, a: &'static str, b: &'static str| if s { a } else { b };
    let ok = match choice(5) {
        0 => {
            // field definitions: number, name
            let k = choice(11) as usize;
            d.2[4].2.insert(k, def(pick(same[1], "NE", "ZZ"), pick(same[0], "3", "99")));
            !same[0] && !same[1]
        }
        1 => {
            let k = choice(3) as usize;
            d.2[4].2[9].2.insert(k, el("value", &[("enum", pick(same[0], "1", "3")), ("description", pick(same[1], "ONE", "X"))], vec![]));
            !same[0]
        }
        2 => {
            let k = choice(3) as usize;
            d.2[2].2.insert(k, el("message", &[("name", pick(same[0], "Mb", "Mc")), ("msgtype", pick(same[1], "B", "C")), ("msgcat", "app")], vec![fld("NA")]));
            !same[0] && !same[1]
        }
        3 => {
            let k = choice(3) as usize;
            d.2[3].2.insert(k, el("component", &[("name", pick(same[0], "K0", "K2"))], vec![fld("NG")]));
            !same[0]
        }
        _ => {
            d.2[2].2[0].1[1].1 = ["header", "trailer", "Z"][choice(3) as usize].as_bytes().to_vec();
            d.2[2].2[0].1[1].1 == b"Z"
        }
    };
    decide(ok, &description(&d));
}

/// a field, group or component's field repeated in each message, section, group and component
//@ tier=both reach=read,rejected
pub fn h_c19_repeated() {
    let mut d = base();
    let mut i = choice(count(&d) as u32) as usize;
    let f = choice(10) as u8;
    let grp = flag();
    let mut at_level = false;
    let mut ok = true;
    at(&mut d, &mut i, &mut |e| {
        let content = match e.0 {
            "header" | "trailer" | "message" | "group" => true,
            "component" => !e.2.is_empty(),
            _ => false,
        };
        if !content {
            return;
        }
        at_level = true;
        // the fields of this level, and of those that use it
        let name = e.1.first().map_or(0, |a| a.1[1]);
        let have: &[u8] = match (e.0, name) {
            ("header", _) => b"A",
            ("trailer", _) => b"B",
            ("message", b'a') => b"CDIH",
            ("message", _) => b"C",
            ("group", b'D') => b"EHF",
            ("group", b'F') => b"G",
            ("group", _) => b"J",
            ("component", b'0') => b"HEFCDI",
            (_, _) => b"CDIH",
        };
        let n = b'A' + f;
        ok = !have.contains(&n);
        let name = [b'N', n];
        let name = std::str::from_utf8(&name).unwrap();
        let k = choice(2) as usize * e.2.len();
        let new = if grp { el("group", &[("name", name), ("required", "N")], vec![fld("NA")]) } else { fld(name) };
        e.2.insert(k, new);
    });
    assume(at_level);
    decide(ok, &description(&d));
}

/// three components, each with any set of uses of the others and itself, directly or within a group: rejected exactly when one contains itself or brings a field twice
//@ tier=both reach=read,rejected
pub fn h_c19_recursion() {
    let mut d = base();
    let mut uses = [[0u32; 3]; 3];
    d.2[3].2.clear();
    d.2[2].2.truncate(1);
    d.2[2].2[0].2 = vec![fld("NC"), el("component", &[("name", "K0"), ("required", "Y")], vec![])];
    let mut n = 0;
    for i in 0..3 {
        let mut c = vec![fld(["NE", "NF", "NG"][i])];
        for j in 0..3 {
            if n < 3 {
                // none, direct, in a group
                uses[i][j] = choice(3);
            }
            let k = ["K0", "K1", "K2"][j];
            let u = el("component", &[("name", k), ("required", "Y")], vec![]);
            match uses[i][j] {
                1 => c.insert(0, u),
                2 => c.push(el("group", &[("name", ["NI", "NJ", "NH"][j]), ("required", "Y")], vec![u])),
                _ => continue,
            }
            n += 1;
        }
        d.2[3].2.push(el("component", &[("name", ["K0", "K1", "K2"][i])], c));
    }
    // reachability
    let mut r = [[false; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = uses[i][j] > 0;
        }
    }
    for k in 0..3 {
        for i in 0..3 {
            for j in 0..3 {
                r[i][j] |= r[i][k] && r[k][j];
            }
        }
    }
    let cycle = (0..3).any(|i| r[i][i]);
    // a cycle the message does not reach need not be rejected
    if cycle && !(0..3).any(|i| r[i][i] && (i == 0 || r[0][i])) {
        no_panic("reading a dictionary panics", || DataDictionary::from_str(description(&d).str()).is_ok());
        return;
    }
    let ok = !cycle && expand_once(&uses, 0, &mut vec![]);
    decide(ok, &description(&d));
}
/// whether no field is brought twice to one level
fn expand_once(uses: &[[u32; 3]; 3], i: usize, have: &mut Vec<u32>) -> bool {
    let mut add = |have: &mut Vec<u32>, f: u32| {
        let new = !have.contains(&f);
        have.push(f);
        new
    };
    let mut ok = add(have, i as u32);
    for j in 0..3 {
        match uses[i][j] {
            1 => ok &= expand_once(uses, j, have),
            2 => ok &= add(have, 10 + j as u32) && expand_once(uses, j, &mut vec![]),
            _ => (),
        }
    }
    ok
}

/// field numbers of any 1 to 3 printable bytes
//@ tier=both reach=read,rejected
pub fn h_c19_numbers() {
    let n = choice(3) as usize + 1;
    let v: Vec<u8> = (0..n)
        .map(|_| {
            let b = range("number", 0x20, 0x7e);
            // markup, and a sign in front, are other matters
            assume((b != b'<') & (b != b'&') & (b != b'"') & (b != b'+'));
            b
        })
        .collect();
    let mut d = base();
    let ok = v.iter().fold(true, |a, b| a & (*b >= b'0') & (*b <= b'9'));
    // a number no other field has
    if n == 1 {
        assume(!ok);
    } else if ok {
        assume((v[0] != b'0') & !((n == 2) & (v[0] == b'1') & (v[1] == b'0')));
    }
    d.2[4].2[2].1[0].1 = v;
    decide(ok, &description(&d));
}

const SMALL: &str = "<fix type='FIX' major='4' minor='3'><header><field name='a' required='Y'/></header><trailer/><messages>\
<message name='M' msgtype='A' msgcat='x'><group name='b' required='N'><field name='a' required='Y'/></group><component name='K' required='Y'/></message>\
</messages><components><component name='K'><field name='c' required='Y'/></component></components><fields><field number='1' name='a' type='INT'>\
<value enum='1' description='d'/></field><field number='2' name='b' type='INT'/><field number='3' name='c' type='INT'/></fields></fix>";

/// a small description with any one byte of it any ASCII byte: an answer, without panic, in bounded time
//@ tier=quick reach=read,rejected
pub fn h_c19_any_byte() {
    let mut v = SMALL.as_bytes().to_vec();
    let i = choice(v.len() as u32) as usize;
    v[i] = range("byte", 0, 127);
    let w = Wire(v);
    match no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str())) {
        Ok(_) => reach("read"),
        Err(_) => reach("rejected"),
    }
}
/// a small description with any two adjacent bytes of it any ASCII bytes, or cut at any place: an answer, without panic, in bounded time
//@ tier=thorough reach=read,rejected
pub fn h_c19_any_bytes_t() {
    let mut v = SMALL.as_bytes().to_vec();
    let i = choice(v.len() as u32) as usize;
    if flag() {
        v.truncate(i);
    } else {
        v[i] = range("byte", 0, 127);
        if i + 1 < v.len() {
            v[i + 1] = range("byte", 0, 127);
        }
    }
    let w = Wire(v);
    match no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str())) {
        Ok(_) => reach("read"),
        Err(_) => reach("rejected"),
    }
}
