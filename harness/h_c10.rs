//! C10: identity of sessions.
use super::network::*;
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// begin, sender, sub, loc, target, sub, loc, qualifier; None = not given
type Parts = [Option<Vec<u8>>; 8];
fn build(p: &Parts) -> SessionId {
    let st = |i: usize| p[i].as_ref().map_or(String::new(), |v| String::from_utf8(v.clone()).unwrap());
    let mut b = SessionIdBuilder::new(st(0), st(1), st(4));
    if p[2].is_some() {
        b.sender_subid(st(2));
    }
    if p[3].is_some() {
        b.sender_locationid(st(3));
    }
    if p[5].is_some() {
        b.target_subid(st(5));
    }
    if p[6].is_some() {
        b.target_locationid(st(6));
    }
    if p[7].is_some() {
        b.session_qualifier(st(7));
    }
    no_panic("building a session id panics", || b.build().unwrap())
}
fn eff(v: &Option<Vec<u8>>) -> Option<&[u8]> {
    match v {
        Some(v) if !v.is_empty() => Some(&v[..]),
        _ => None,
    }
}
fn eq_part(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (eff(a), eff(b)) {
        (Some(a), Some(b)) => eq_bytes(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// collects everything a hasher is fed, so that equality of hashes is equality of input
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash_input(s: &SessionId) -> Vec<u8> {
    let mut r = Rec(vec![]);
    s.hash(&mut r);
    r.0
}
fn part(n: u32) -> Option<Vec<u8>> {
    match choice(n) {
        0 => None,
        1 => Some(vec![vbyte("part")]),
        _ => Some(vec![]),
    }
}

/// two ids differing in any one or two of the eight components, each absent, empty or any printable byte
//@ tier=both reach=equal,different
pub fn h_c10_equality() {
    let mut p: Parts = Default::default();
    for i in [0usize, 1, 4] {
        p[i] = Some(vec![vbyte("part")]);
    }
    let x = choice(8) as usize;
    let y = choice(8) as usize;
    if y < x {
        return;
    }
    let mut q = p.clone();
    for i in [x, y] {
        let n = if i == 0 || i == 1 || i == 4 { 2 } else { 3 };
        p[i] = part(n);
        q[i] = part(n);
    }
    let (a, b) = (build(&p), build(&q));
    let mut want = true;
    for i in 0..8 {
        want &= eq_part(&p[i], &q[i]);
    }
    let got = a == b;
    check(got == want, "equality of session ids is not equality of their components");
    check((a != b) != got, "inequality is not the negation of equality");
    if want {
        reach("equal");
        check(hash_input(&a) == hash_input(&b), "equal session ids hash differently");
        check(a.to_string() == b.to_string(), "equal session ids are written differently");
    } else {
        reach("different");
    }
}

/// every component absent, empty or any printable byte: the id gives back what it was built from
//@ tier=both reach=built
pub fn h_c10_components() {
    let mut p: Parts = Default::default();
    for i in 0..8 {
        p[i] = if i == 0 || i == 1 || i == 4 { Some(vec![vbyte("part")]) } else { part(3) };
    }
    let a = build(&p);
    let o = |s: &Option<String>, i: usize| match (s, eff(&p[i])) {
        (Some(s), Some(v)) => eq_bytes(s.as_bytes(), v),
        (None, None) => true,
        _ => false,
    };
    check(eq_bytes(a.begin_string().as_bytes(), p[0].as_ref().unwrap()), "a component is not what the id was built from");
    check(eq_bytes(a.sender_compid().as_bytes(), p[1].as_ref().unwrap()), "a component is not what the id was built from");
    check(eq_bytes(a.target_compid().as_bytes(), p[4].as_ref().unwrap()), "a component is not what the id was built from");
    check(o(a.sender_subid(), 2) & o(a.sender_locationid(), 3) & o(a.target_subid(), 5) & o(a.target_locationid(), 6), "a component is not what the id was built from");
    check(o(a.session_qualifier(), 7), "a component is not what the id was built from");
    // the written form
    let mut w: Vec<u8> = vec![];
    let add = |w: &mut Vec<u8>, sep: &[u8], i: usize| {
        if let Some(v) = eff(&p[i]) {
            w.extend_from_slice(sep);
            w.extend_from_slice(v);
        }
    };
    add(&mut w, b"", 0);
    add(&mut w, b":", 1);
    add(&mut w, b"/", 2);
    add(&mut w, b"/", 3);
    add(&mut w, b"->", 4);
    add(&mut w, b"/", 5);
    add(&mut w, b"/", 6);
    let s = a.to_string();
    check(s.len() >= w.len() && eq_bytes(&s.as_bytes()[..w.len()], &w), "the written form does not list the components");
    reach("built");
    check(a.clone() == a, "a copy differs");
}

const KEYS: [&str; 8] = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id", "session_qualifier"];
/// configuration maps: each component but the qualifier in the session section, the defaults, both or neither; values any printable byte
//@ tier=both reach=mapped
pub fn h_c10_from_map() {
    let mut own = HashMap::new();
    let mut def = HashMap::new();
    let mut p: Parts = Default::default();
    for i in 0..7 {
        let must = i == 0 || i == 1 || i == 4;
        // 0 own, 1 default, 2 both, 3 neither
        let w = choice(if must { 3 } else { 4 });
        if w == 3 {
            continue;
        }
        let (a, b) = (vbyte("own"), vbyte("default"));
        let s = |x: u8| String::from_utf8(vec![x]).unwrap();
        if w != 1 {
            own.insert(KEYS[i].to_string(), s(a));
        }
        if w != 0 {
            def.insert(KEYS[i].to_string(), s(b));
        }
        p[i] = Some(vec![if w == 1 { b } else { a }]);
    }
    let id = no_panic("building a session id panics", || SessionId::from_map(&own, &def));
    check(id == build(&p), "the session id is not made of the configured components");
    reach("mapped");
}

/// a map of sessions under 3 ids that differ in one of the eight components
//@ tier=both reach=found
pub fn h_c10_lookup() {
    let mut p: Parts = Default::default();
    for i in [0usize, 1, 4] {
        p[i] = Some(b"a".to_vec());
    }
    let x = choice(8) as usize;
    let mut ids = vec![];
    for v in [&b"x"[..], b"y", b"z"] {
        p[x] = Some(v.to_vec());
        ids.push(build(&p));
    }
    let mut m: HashMap<SessionId, u8> = HashMap::new();
    for (i, id) in ids.iter().enumerate() {
        m.insert(id.clone(), i as u8);
    }
    check(m.len() == 3, "different sessions share an entry");
    for (i, id) in ids.iter().enumerate() {
        check(m.get(id) == Some(&(i as u8)), "a session is not found under its id");
    }
    let sm = SessionMap::from_iter(ids.iter().map(|i| (i.clone(), Session::default())));
    for id in &ids {
        check(sm.get_session(id).is_some(), "a session is not found under its id");
    }
    p[x] = Some(b"w".to_vec());
    check(sm.get_session(&build(&p)).is_none(), "a session is found under another id");
    reach("found");
}

/// two ids with parts that print alike when put together differently: any two of the parts out of 6 texts with separators in them, or absent
//@ tier=both reach=equal,different
pub fn h_c10_ambiguous() {
    let texts: [&[u8]; 6] = [b"a", b"b", b"a/b", b"a->b", b"a:b", b"a/b->a"];
    let mut p: Parts = Default::default();
    for i in [0usize, 1, 4] {
        p[i] = Some(b"a".to_vec());
    }
    let x = choice(7) as usize;
    let y = choice(7) as usize;
    if y <= x {
        return;
    }
    let mut q = p.clone();
    for i in [x, y] {
        for s in [&mut p, &mut q] {
            let must = i == 0 || i == 1 || i == 4;
            let k = choice(6 + !must as u32) as usize;
            s[i] = if k == 6 { None } else { Some(texts[k].to_vec()) };
        }
    }
    let (a, b) = (build(&p), build(&q));
    let want = p == q;
    check((a == b) == want, "equality of session ids is not equality of their components");
    let sm = SessionMap::from_iter([(a.clone(), Session::default())]);
    check(sm.get_session(&b).is_some() == want, "a session is found under another id");
    check(sm.get_session(&a).is_some(), "a session is not found under its id");
    reach(if want { "equal" } else { "different" });
}

/// two ids with a part of 7 to 255 bytes (at 6 lengths) that differ in any one byte of it, in one byte more or less, or not
//@ tier=both reach=equal,different
pub fn h_c10_long() {
    let n = [7, 8, 15, 16, 64, 255][choice(6) as usize];
    let mut p: Parts = Default::default();
    for i in [0usize, 1, 4] {
        p[i] = Some(b"a".to_vec());
    }
    let x = choice(8) as usize;
    p[x] = Some(long(n));
    let mut q = p.clone();
    let mut want = true;
    match choice(3) {
        0 => {
            let at = [0, n / 2, n - 1][choice(3) as usize];
            let b = vbyte("other");
            let v = q[x].as_mut().unwrap();
            want = v[at] == b;
            v[at] = b;
        }
        1 => {
            q[x].as_mut().unwrap().push(b' ');
            want = false;
        }
        _ => (),
    }
    let (a, b) = (build(&p), build(&q));
    check((a == b) == want, "equality of session ids is not equality of their components");
    if want {
        reach("equal");
        check(hash_input(&a) == hash_input(&b) && a.to_string() == b.to_string(), "equal session ids hash or print differently");
    } else {
        reach("different");
    }
    let sm = SessionMap::from_iter([(a.clone(), Session::default())]);
    check(sm.get_session(&b).is_some() == want, "a session is not found exactly under its id");
}

/// a map of 5 to 100 sessions that differ in one of the eight components
//@ tier=both reach=found
pub fn h_c10_many() {
    let n = [5, 17, 100][choice(3) as usize];
    let x = choice(8) as usize;
    let id = |i: usize| {
        let mut p: Parts = Default::default();
        for i in [0usize, 1, 4] {
            p[i] = Some(b"a".to_vec());
        }
        p[x] = Some(i.to_string().into_bytes());
        build(&p)
    };
    let sm = SessionMap::from_iter((0..n).map(|i| (id(i), Session::default())));
    for i in 0..n {
        check(sm.get_session(&id(i)).is_some(), "a session is not found under its id");
    }
    check(sm.get_session(&id(n)).is_none(), "a session is found under another id");
    reach("found");
}

/// two ids of one or two parts with a character of two, three or four bytes each, any two bytes or any last byte; built, or read from a configuration's maps
//@ tier=both reach=equal,different
pub fn h_c10_utf8() {
    let mut p: Parts = Default::default();
    for i in [0usize, 1, 4] {
        p[i] = Some(b"a".to_vec());
    }
    let i = choice(7) as usize;
    let mut q = p.clone();
    p[i] = Some(character("part"));
    q[i] = Some(character("other"));
    let same = p[i].as_ref().unwrap().len() == q[i].as_ref().unwrap().len() && eq_part(&p[i], &q[i]);
    let (a, b) = (build(&p), build(&q));
    check((a == b) == same, "ids are equal exactly when their parts are");
    if same {
        check(hash_input(&a) == hash_input(&b), "equal ids have different hashes");
    }
    reach(if same { "equal" } else { "different" });
    let m: HashMap<String, String> = (0..7).filter_map(|i| p[i].as_ref().map(|v| (KEYS[i].to_string(), String::from_utf8(v.clone()).unwrap()))).collect();
    let n = HashMap::new();
    let c = no_panic("building a session id panics", || if flag() { SessionId::from_map(&m, &n) } else { SessionId::from_map(&n, &m) });
    check(c == a, "the session id is not made of the configured components");
}
