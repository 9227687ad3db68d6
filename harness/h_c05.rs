//! C05: the framing and ordering of serialised messages.
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

fn text(m: &Message) -> Vec<u8> {
    no_panic("serialising panics", || m.to_string()).into_bytes()
}
/// The text parses as fields: 8, 9, 35 first, header before body before trailer, 10 last.
fn framed(fs: &[Fld], want_ck: bool) {
    check(fs.len() > 2 && fs[0].0 == 8 && fs[1].0 == 9 && fs[2].0 == 35, "the text does not start with 8, 9, 35");
    let mut sec = 0;
    for (t, _) in fs {
        let of = match t {
            8 | 9 | 35 | 49 | 56 | 34 | 52 | 50 | 57 | 627 | 628 | 630 => 0,
            93 | 89 | 10 => 2,
            _ => 1,
        };
        check(of >= sec, "header, body and trailer are mixed");
        sec = of;
    }
    if want_ck {
        check(fs[fs.len() - 1].0 == 10, "the checksum is not the last field");
    }
}

fn plain(k: u32) {
    pair_order();
    let mut m = Message::new();
    let mut want: Vec<Fld> = vec![];
    // the leading three are set in any order among the rest
    let all = [8u32, 9, 35, 49, 34, 58, 11, 93, 89, 10];
    let mut must = vec![8u32, 9, 35, 10];
    let mut left: Vec<u32> = all.iter().copied().filter(|t| !must.contains(t)).collect();
    for _ in 0..choice(k + 1) {
        let i = choice(left.len() as u32) as usize;
        must.push(left.remove(i));
    }
    // rotation and reversal of the order of setting
    let r = choice(must.len() as u32) as usize;
    must.rotate_left(r);
    if flag() {
        must.reverse();
    }
    for t in &must {
        let f = (*t, val(1));
        set(&mut m, &f);
        want.push(f);
    }
    let s = text(&m);
    let fs = match split(&s) {
        Some(f) => f,
        None => {
            check(false, "the text is not a sequence of tag=value fields");
            return;
        }
    };
    reach("serialised");
    framed(&fs, true);
    check(fs.len() == want.len(), "a field is missing from the text or repeated");
    let mut ok = true;
    for (t, v) in &want {
        match fs.iter().find(|f| f.0 == *t) {
            Some(f) => ok &= eq_bytes(&f.1, v),
            None => ok = false,
        }
    }
    check(ok, "a field of the text has another value");
}
/// leading three, checksum and up to 4 of 6 header, body and trailer fields, set in 2n orders, every pair of map keys iterated in both orders; values any printable byte
//@ tier=quick reach=serialised
pub fn h_c05_plain() {
    plain(4)
}
/// leading three, checksum and up to 6 of 6 header, body and trailer fields, set in 2n orders, every pair of map keys iterated in both orders; values any printable byte
//@ tier=thorough reach=serialised
pub fn h_c05_plain_t() {
    plain(6)
}

fn fill(g: &mut FieldMap, members: &[u32], want: &mut Vec<Fld>) {
    // members in any rotation: the delimiter is not necessarily set first
    let mut ms = members.to_vec();
    let r = choice(ms.len() as u32) as usize;
    ms.rotate_left(r);
    for t in &ms {
        let f = (*t, val(1));
        g.set_field(sf(f.0, &f.1));
        want.push(f);
    }
}
fn groups(nmax: u32, nested: bool) {
    pair_order();
    let mut m = Message::new();
    for f in header3("D") {
        set(&mut m, &f);
    }
    if flag() {
        set(&mut m, &(58, val(1)));
    }
    set(&mut m, &(10, b"000".to_vec()));
    let hdr = if nested { false } else { flag() };
    let n = choice(nmax + 1);
    let (c, members): (u32, &[u32]) = if hdr { (627, &[628, 630]) } else { (78, &[79, 80, 161]) };
    let mut want: Vec<Vec<Fld>> = vec![];
    let mut sub: Vec<Vec<Fld>> = vec![];
    if flag() {
        // setting the group again starts it over
        let g = if hdr { m.header_mut().set_group(c, 1, members[0]) } else { m.set_group(c, 1, members[0]) };
        g[0].set_field(sf(members[1], b"old"));
    }
    {
        let g = if hdr { m.header_mut().set_group(c, n, members[0]) } else { m.set_group(c, n, members[0]) };
        check(g.size() == n, "a new group has another number of instances");
        for i in 0..n as usize {
            let mut w = vec![];
            fill(&mut g[i], members, &mut w);
            want.push(w);
            let mut w = vec![];
            if nested {
                let k = choice(3);
                let ng = g[i].set_group(539, k, 524);
                for j in 0..k as usize {
                    fill(&mut ng[j], &[524, 538], &mut w);
                }
            }
            sub.push(w);
        }
    }
    let s = text(&m);
    let fs = match split(&s) {
        Some(f) => f,
        None => {
            check(false, "the text is not a sequence of tag=value fields");
            return;
        }
    };
    framed(&fs, true);
    // the group: count, then the instances, each starting with its delimiter
    let at = match fs.iter().position(|f| f.0 == c) {
        Some(p) => p,
        None => {
            check(false, "the group count is missing");
            return;
        }
    };
    check(num(&fs[at].1) == Some(n), "the group count is not the number of instances");
    let mut p = at + 1;
    for i in 0..n as usize {
        check(p < fs.len() && fs[p].0 == members[0], "an instance does not start with its delimiter");
        let mut seen = 0;
        let mut done = false;
        while p < fs.len() {
            let t = fs[p].0;
            if members.contains(&t) {
                if t == members[0] && seen > 0 {
                    break;
                }
                match want[i].iter().find(|f| f.0 == t) {
                    Some(f) => check(eq_bytes(&f.1, &fs[p].1), "a member of an instance has another value"),
                    None => check(false, "a member of an instance has another value"),
                }
                seen += 1;
                p += 1;
            } else if nested && t == 539 {
                check(!done, "a nested group is repeated");
                done = true;
                let k = sub[i].len() / 2;
                check(num(&fs[p].1) == Some(k as u32), "the nested count is not the number of nested instances");
                p += 1;
                for j in 0..k {
                    let w = &sub[i][2 * j..2 * j + 2];
                    check(p + 1 < fs.len() && fs[p].0 == 524 && fs[p + 1].0 == 538, "a nested instance does not directly follow, delimiter first");
                    for q in [p, p + 1] {
                        if let Some(f) = w.iter().find(|f| f.0 == fs[q].0) {
                            check(eq_bytes(&f.1, &fs[q].1), "a member of a nested instance has another value");
                        }
                    }
                    p += 2;
                }
            } else {
                break;
            }
        }
        check(seen == members.len(), "an instance does not hold its members directly after the count");
        check(done == nested, "an instance does not hold its nested group");
    }
    if n > 0 {
        reach("instances");
    }
    for f in &fs[p..] {
        check(!members.contains(&f.0) && f.0 != 524 && f.0 != 538, "members of the group appear outside it");
    }
    check(fs.iter().filter(|f| f.0 == c).count() == 1, "the group count is repeated");
}
/// a header or body group of 0 to 3 instances with members set in any rotation, set once or twice, every pair of map keys iterated in both orders
//@ tier=quick reach=instances
pub fn h_c05_groups() {
    groups(3, false)
}
/// a header or body group of 0 to 4 instances with members set in any rotation, set once or twice, every pair of map keys iterated in both orders
//@ tier=thorough reach=instances
pub fn h_c05_groups_t() {
    groups(4, false)
}
/// a body group of 0 to 2 instances each with a nested group of 0 to 2 instances, every pair of map keys iterated in both orders
//@ tier=quick reach=instances
pub fn h_c05_nested() {
    groups(2, true)
}
/// a body group of 0 to 3 instances each with a nested group of 0 to 2 instances, every pair of map keys iterated in both orders
//@ tier=thorough reach=instances
pub fn h_c05_nested_t() {
    groups(3, true)
}

/// a field of any tag of 32 bits in header, body and trailer each, besides the leading three and the checksum, set in any of 6 orders, every pair of map keys iterated in both orders
//@ tier=both reach=serialised
pub fn h_c05_tags() {
    pair_order();
    let (h, b, t) = (any_tag(), any_tag(), any_tag());
    for x in [8, 9, 35] {
        assume(h != x);
    }
    assume(t != 10);
    let mut m = Message::new();
    let mut fs: Vec<(u8, Fld)> = vec![(0, (h, b"H".to_vec())), (1, (b, b"B".to_vec())), (2, (t, b"T".to_vec())), (2, (10, b"000".to_vec()))];
    for f in header3("0") {
        fs.push((0, f));
    }
    let k = choice(6) as usize;
    fs.rotate_left(k);
    for (s, (t, v)) in &fs {
        match s {
            0 => m.header_mut().set_field(sf(*t, v)),
            1 => m.set_field(sf(*t, v)),
            _ => m.trailer_mut().set_field(sf(*t, v)),
        }
    }
    let s = text(&m);
    let want: [&[u8]; 7] = [b"FIX.4.3", b"5", b"0", b"H", b"B", b"T", b"000"];
    let tags = [8, 9, 35, h, b, t, 10];
    let parts: Vec<&[u8]> = s.split(|x| *x == S).collect();
    check(parts.len() == 8 && parts[7].is_empty(), "a field is missing from the text or repeated");
    let mut ok = true;
    for i in 0..7 {
        let p = parts[i];
        let at = match p.iter().position(|x| *x == b'=') {
            Some(a) => a,
            None => {
                check(false, "the text is not a sequence of tag=value fields");
                return;
            }
        };
        ok &= eq_bytes(&p[..at], tags[i].to_string().as_bytes()) & eq_bytes(&p[at + 1..], want[i]);
    }
    check(ok, "the fields are not those set, in the order of FIX");
    reach("serialised");
}

fn ordered(k: usize) {
    pair_order();
    // an order of up to 3 tags, of which any may not be set
    let tags: Vec<u32> = (0..k).map(|_| range("tag", 11, 99) as u32).collect();
    for i in 0..k {
        assume(tags[i] != 78);
        for j in 0..i {
            assume(tags[i] != tags[j]);
        }
    }
    let inst = flag();
    let mut m = Message::new();
    for f in header3("D") {
        set(&mut m, &f);
    }
    set(&mut m, &(10, b"000".to_vec()));
    let n = choice(k as u32) as usize + 1;
    let mut order: Vec<u32> = tags[..n].to_vec();
    // set in any rotation, none or one left out
    let out = choice(k as u32 + 1) as usize;
    let r = choice(k as u32) as usize;
    let late = flag();
    let mut setting: Vec<usize> = (0..k).filter(|i| *i != out).collect();
    if inst {
        // an instance starts with its delimiter, it is always there
        if out == 0 {
            return;
        }
    }
    if r < setting.len() {
        setting.rotate_left(r);
    }
    {
        let fm: &mut FieldMap = if inst { &mut m.set_group(78, 1, tags[0])[0] } else { &mut m.body };
        if !late {
            fm.set_field_order(&order);
        }
        for i in &setting {
            fm.set_field(sf(tags[*i], &[b'A' + *i as u8]));
        }
        if late {
            fm.set_field_order(&order);
        }
    }
    let s = text(&m);
    let parts: Vec<&[u8]> = s.split(|x| *x == S).collect();
    // 8, 9, 35, the count, the fields, 10 and the end
    let skip = 3 + inst as usize;
    check(parts.len() == skip + setting.len() + 2, "a field is missing from the text or repeated");
    let mut got: Vec<usize> = vec![];
    for p in &parts[skip..skip + setting.len()] {
        got.push((p[p.len() - 1] - b'A') as usize);
        check(got[got.len() - 1] < k && eq_bytes(&p[..p.len() - 2], tags[got[got.len() - 1]].to_string().as_bytes()), "a field has another tag");
    }
    order.truncate(n);
    let want: Vec<usize> = (0..n).filter(|i| *i != out).collect();
    check(got.len() >= want.len() && got[..want.len()] == want[..], "the fields are not in the order set for them");
    for i in &setting {
        check(got.contains(i), "a field is missing from the text or repeated");
    }
    reach("serialised");
}
/// the body or a group's instance with 3 fields of any tags from 11 to 99, one left out or none, set in any rotation, an order of 1 to 3 of them set before or after, every pair of map keys iterated in both orders
//@ tier=both reach=serialised
pub fn h_c05_order() {
    ordered(3)
}
