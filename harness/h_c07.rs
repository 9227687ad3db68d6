//! C07: serialising and parsing are inverse.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

fn reparse(m: &Message, n: &[Node; 3], dd: &DataDictionary) -> Option<Message> {
    let s = no_panic("serialising panics", || m.to_string());
    match no_panic("parsing a serialised message panics", || Message::from_str(&s, dd)) {
        Ok(p) => {
            reach("reparsed");
            check(same(p.header(), &n[0]), "the header changed by serialising and parsing");
            check(same(&p.body, &n[1]), "the body changed by serialising and parsing");
            check(same(p.trailer(), &n[2]), "the trailer changed by serialising and parsing");
            Some(p)
        }
        Err(_) => {
            check(false, "a serialised message is rejected");
            None
        }
    }
}

fn text(k: u32) {
    let dd = dict();
    pair_order();
    let mut fs = header3("D");
    let all = [49, 627, 628, 630, 11, 78, 79, 539, 524, 161, 58, 89, 10];
    for _ in 0..choice(k + 1) {
        let t = all[choice(all.len() as u32) as usize];
        let v = if t == 627 || t == 78 || t == 539 { vec![b'0' + choice(3) as u8] } else { vec![vbyte("value")] };
        fs.push((t, v));
    }
    if let Verdict::Accept(n) = model(&fs, "D") {
        let w = wire(&fs);
        if let Ok(m) = Message::from_str(w.str(), &dd) {
            if let Some(p) = reparse(&m, &n, &dd) {
                // and once more
                reparse(&p, &n, &dd);
            }
        }
    }
}
/// accepted texts of up to 4 fields after the leading three, tags any of 13 (header, body, groups, nested group, trailer), counts 0 to 2, values any printable byte; every pair of map keys iterated in both orders
//@ tier=quick reach=reparsed
pub fn h_c07_text() {
    text(4)
}
/// accepted texts of up to 5 fields after the leading three, tags any of 13 (header, body, groups, nested group, trailer), counts 0 to 2, values any printable byte; every pair of map keys iterated in both orders
//@ tier=thorough reach=reparsed
pub fn h_c07_text_t() {
    text(5)
}

fn built(nmax: u32, sub: u32) {
    let dd = dict();
    pair_order();
    let mut m = Message::new();
    let mut n = [Node::default(), Node::default(), Node::default()];
    for f in header3("D") {
        set(&mut m, &f);
        n[0].fields.push(f);
    }
    for (s, t) in [(0, 49u32), (1, 58), (2, 89), (2, 10)] {
        if flag() {
            let f = (t, val(2));
            set(&mut m, &f);
            n[s].fields.push(f);
        }
    }
    let hdr = flag();
    let k = choice(nmax + 1);
    let (c, d, e) = if hdr { (627, 628, 630) } else { (78, 79, 161) };
    let mut insts = vec![];
    {
        let g = if hdr { m.header_mut().set_group(c, k, d) } else { m.set_group(c, k, d) };
        for i in 0..k as usize {
            let mut x = Node::default();
            for t in [d, e] {
                let f = (t, val(1));
                if t == d || flag() {
                    g[i].set_field(sf(f.0, &f.1));
                    x.fields.push(f);
                }
            }
            if !hdr && sub > 0 && flag() {
                let j = choice(sub + 1);
                let ng = g[i].set_group(539, j, 524);
                let mut ns = vec![];
                for q in 0..j as usize {
                    let mut y = Node::default();
                    for t in [524, 538] {
                        let f = (t, val(1));
                        ng[q].set_field(sf(f.0, &f.1));
                        y.fields.push(f);
                    }
                    ns.push(y);
                }
                x.fields.push((539, j.to_string().into_bytes()));
                x.groups.push((539, ns));
                // members of a hand-built instance are written in the order given here
                g[i].set_field_order(&[79, 80, 539, 161]);
            }
            insts.push(x);
        }
    }
    let s = if hdr { 0 } else { 1 };
    n[s].fields.push((c, k.to_string().into_bytes()));
    n[s].groups.push((c, insts));
    reparse(&m, &n, &dd);
}
/// messages built through the API with any subset of 4 fields and a header or body group of up to 2 instances, nested groups of up to 2; values any 1 or 2 printable bytes; every pair of map keys iterated in both orders
//@ tier=quick reach=reparsed
pub fn h_c07_built() {
    built(2, 2)
}
/// messages built through the API with any subset of 4 fields and a header or body group of up to 3 instances, nested groups of up to 2; values any 1 or 2 printable bytes; every pair of map keys iterated in both orders
//@ tier=thorough reach=reparsed
pub fn h_c07_built_t() {
    built(3, 2)
}

/// one value of each section: any UTF-8 text of 1 to 4 bytes without SOH
//@ tier=both reach=reparsed
pub fn h_c07_values() {
    let dd = dict();
    let b = bytes::<4>("value");
    let k = choice(4) as usize + 1;
    for i in 0..k {
        assume(b[i] != S);
    }
    let s = match std::str::from_utf8(&b[..k]) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut m = Message::new();
    let mut n = [Node::default(), Node::default(), Node::default()];
    for f in header3("0") {
        set(&mut m, &f);
        n[0].fields.push(f);
    }
    let (sec, t) = [(0, 49u32), (1, 58), (2, 89)][choice(3) as usize];
    let f = StringField::new(t, s);
    match sec {
        0 => m.header_mut().set_field(f),
        1 => m.set_field(f),
        _ => m.trailer_mut().set_field(f),
    }
    n[sec].fields.push((t, s.as_bytes().to_vec()));
    reparse(&m, &n, &dd);
}

/// a message with a group of 9 to 300 instances (at 6 sizes) in header or body, or with values of 7 to 65536 bytes (at 12 lengths) in each section
//@ tier=both reach=reparsed
pub fn h_c07_large() {
    let dd = dict();
    let mut m = Message::new();
    let mut n = [Node::default(), Node::default(), Node::default()];
    let mut fs = header3("D");
    let len = [7, 8, 15, 16, 31, 32, 255, 256, 1000, 4096, 65535, 65536];
    let k = choice(18) as usize;
    fs.push((49, b"S".to_vec()));
    fs.push((58, b"t".to_vec()));
    fs.push((89, b"s".to_vec()));
    fs.push((10, b"000".to_vec()));
    if k < 12 {
        fs[3 + choice(3) as usize].1 = long(len[k]);
    }
    for f in fs {
        set(&mut m, &f);
        n[if [8, 9, 35, 49].contains(&f.0) { 0 } else { (1 + (f.0 != 58) as usize).min(2) }].fields.push(f);
    }
    if k >= 12 {
        let size = [9usize, 10, 33, 128, 256, 300][k - 12];
        let hdr = flag();
        let (c, d, e) = if hdr { (627, 628, 630) } else { (78, 79, 161) };
        let g = if hdr { m.header_mut().set_group(c, size as u32, d) } else { m.set_group(c, size as u32, d) };
        let mut insts = vec![];
        for i in 0..size {
            let mut x = Node::default();
            let any = i == 0 || i == size / 2 || i + 1 == size;
            let f = (d, if any { val(1) } else { i.to_string().into_bytes() });
            g[i].set_field(sf(f.0, &f.1));
            x.fields.push(f);
            if i % 3 == 0 {
                g[i].set_field(sf(e, b"e"));
                x.fields.push((e, b"e".to_vec()));
            }
            insts.push(x);
        }
        let s = if hdr { 0 } else { 1 };
        n[s].fields.push((c, size.to_string().into_bytes()));
        n[s].groups.push((c, insts));
    }
    reparse(&m, &n, &dd);
}

fn full(k: u32) {
    let dd = dict();
    pair_order();
    let mut fs = header3("D");
    let opt = |fs: &mut Vec<Fld>, t: u32| {
        if flag() {
            fs.push((t, vec![vbyte("value")]));
        }
    };
    let hdr = flag();
    let n = choice(k) + 1;
    fs.push((if hdr { 627 } else { 78 }, n.to_string().into_bytes()));
    for _ in 0..n {
        fs.push((if hdr { 628 } else { 79 }, vec![vbyte("value")]));
        opt(&mut fs, if hdr { 630 } else { 80 });
        if hdr {
            continue;
        }
        if flag() {
            let m = choice(2) + 1;
            fs.push((539, m.to_string().into_bytes()));
            for _ in 0..m {
                fs.push((524, vec![vbyte("value")]));
                opt(&mut fs, 538);
            }
        }
        opt(&mut fs, 161);
    }
    let w = wire(&fs);
    match (model(&fs, "D"), no_panic("parsing panics", || Message::from_str(w.str(), &dd))) {
        (Verdict::Accept(n), Ok(m)) => {
            reparse(&m, &n, &dd);
        }
        _ => check(false, "a correct message is rejected"),
    }
}
/// parsed messages with a header or body group of 1 or 2 instances of any members, nested groups of 1 or 2; every pair of map keys iterated in both orders
//@ tier=quick reach=reparsed
pub fn h_c07_full() {
    full(2)
}
/// the same with 1 to 3 instances
//@ tier=thorough reach=reparsed
pub fn h_c07_full_t() {
    full(3)
}
