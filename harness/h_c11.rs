//! C11: settings of a session, with the defaults behind them.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

fn text(w: &mut Wire, own: &[(&str, Vec<u8>)], def: &[(&str, Vec<u8>)], two: bool) {
    w.raw(b"[Default]\n");
    line(w, "connection_type", b"acceptor");
    line(w, "begin_string", b"FIX.4.3");
    line(w, "socket_accept_port", b"10114");
    line(w, "target_comp_id", b"T");
    for (k, v) in def {
        line(w, k, v);
    }
    w.raw(b"\n[Session]\n");
    line(w, "sender_comp_id", b"S1");
    for (k, v) in own {
        line(w, k, v);
    }
    if two {
        // another session with settings of its own
        w.raw(b"[Session]\n");
        line(w, "sender_comp_id", b"S2");
        line(w, "alpha", b"other");
        line(w, "beta", b"7");
        line(w, "socket_accept_port", b"9");
    }
}
fn sid(s: &str) -> SessionId {
    SessionIdBuilder::new("FIX.4.3", s, "T").build().unwrap()
}

fn strings(vmax: u32) {
    // alpha: own, default, both, neither
    let w0 = choice(4);
    let (mut own, mut def) = (vec![], vec![]);
    let a: Vec<u8> = (0..choice(vmax + 1)).map(|_| cbyte("own")).collect();
    let b: Vec<u8> = (0..choice(vmax + 1)).map(|_| cbyte("default")).collect();
    if w0 == 0 || w0 == 2 {
        own.push(("alpha", a.clone()));
    }
    if w0 == 1 || w0 == 2 {
        def.push(("alpha", b.clone()));
    }
    // keys that contain the name or are contained in it
    own.push(("alpha2", b"no".to_vec()));
    def.push(("alph", b"no".to_vec()));
    let mut w = Wire::new();
    text(&mut w, &own, &def, flag());
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let s = sid("S1");
    let is = |x: Option<&[u8]>, y: Option<&String>| match (x, y) {
        (Some(x), Some(y)) => eq_bytes(x, y.as_bytes()),
        (None, None) => true,
        _ => false,
    };
    let o = if w0 == 0 || w0 == 2 { Some(&a[..]) } else { None };
    let d = if w0 == 1 || w0 == 2 { Some(&b[..]) } else { None };
    let e = o.or(d);
    check(is(o, p.get_property(&s, "alpha")), "a session's own setting is wrong");
    check(is(e, p.get_optional_config::<String>(&s, "alpha").as_ref()), "a setting is not the session's own, else the default");
    check(is(e, p.get_or_default_config::<String>(&s, "alpha").ok().as_ref()), "a setting is not the session's own, else the default");
    check(is(o, p.get_config::<String>(&s, "alpha").ok().as_ref()), "a session's own setting is wrong");
    check(is(d, p.get_default_config::<String>("alpha").ok().as_ref()), "a default setting is wrong");
    // a session that is not configured has the defaults
    let u = sid("S3");
    check(p.get_property(&u, "alpha").is_none(), "an unknown session has a setting of its own");
    check(is(d, p.get_optional_config::<String>(&u, "alpha").as_ref()), "an unknown session has other settings than the defaults");
    reach("read");
}
/// a setting in the session's section, the defaults, both or neither; values empty or any printable byte but the quote; with or without another session
//@ tier=quick reach=read
pub fn h_c11_strings() {
    strings(1)
}
/// a setting in the session's section, the defaults, both or neither; values any 0 to 3 printable bytes but the quote; with or without another session
//@ tier=thorough reach=read
pub fn h_c11_strings_t() {
    strings(3)
}

/// a numeric setting, own or default, of any 1 to 3 printable bytes: read as number or refused
//@ tier=both reach=number,refused
pub fn h_c11_numbers() {
    let n = choice(3) as usize + 1;
    let v: Vec<u8> = (0..n).map(|_| cbyte("value")).collect();
    let own = flag();
    let mut w = Wire::new();
    let x = [("beta", v.clone())];
    if own {
        text(&mut w, &x, &[("beta", b"42".to_vec())], false);
    } else {
        text(&mut w, &[], &x, false);
    }
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let s = sid("S1");
    let d = if n > 1 && v[0] == b'+' { &v[1..] } else { &v[..] };
    let want = num(d).filter(|x| *x < 256);
    let r = no_panic("reading a setting panics", || p.get_or_default_config::<u8>(&s, "beta").ok());
    check(r.map(|x| x as u32) == want, "a numeric setting is read wrongly");
    let r = no_panic("reading a setting panics", || p.get_config::<u8>(&s, "beta").ok());
    check(r.map(|x| x as u32) == if own { want } else { None }, "a numeric setting is read wrongly");
    let r = no_panic("reading a setting panics", || p.get_default_config::<u8>("beta").ok());
    check(r.map(|x| x as u32) == if own { Some(42) } else { want }, "a numeric default is read wrongly");
    match want {
        Some(x) => {
            reach("number");
            let r = no_panic("reading a setting panics", || p.get_optional_config::<u8>(&s, "beta"));
            check(r.map(|x| x as u32) == Some(x), "a numeric setting is read wrongly");
        }
        None => {
            reach("refused");
            // a setting that can not be read must not pass as absent or as the default
            check(catch(|| p.get_optional_config::<u8>(&s, "beta")).flatten().is_none(), "an unreadable setting is given a value");
        }
    }
}

/// three sessions, each giving or leaving out three settings the defaults also may give
//@ tier=both reach=read
pub fn h_c11_matrix() {
    let keys = ["alpha", "beta", "gamma"];
    let mut have = [[false; 3]; 4];
    let mut w = Wire::new();
    for s in 0..4 {
        if s == 0 {
            w.raw(b"[Default]\n");
            line(&mut w, "connection_type", b"acceptor");
            line(&mut w, "begin_string", b"FIX.4.3");
            line(&mut w, "socket_accept_port", b"10114");
            line(&mut w, "target_comp_id", b"T");
        } else {
            w.raw(b"[Session]\n");
            line(&mut w, "sender_comp_id", &[b'0' + s as u8]);
        }
        for k in 0..3 {
            if flag() {
                have[s][k] = true;
                line(&mut w, keys[k], &[b'a' + s as u8, b'0' + k as u8]);
            }
        }
    }
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    for s in 1..4 {
        let id = sid(["0", "1", "2", "3"][s]);
        for k in 0..3 {
            let from = if have[s][k] { Some(s) } else if have[0][k] { Some(0) } else { None };
            let r = p.get_optional_config::<String>(&id, keys[k]);
            match (from, r) {
                (Some(f), Some(v)) => check(v.as_bytes() == [b'a' + f as u8, b'0' + k as u8], "a setting is not the session's own, else the default"),
                (None, None) => (),
                _ => check(false, "a setting is not the session's own, else the default"),
            }
        }
    }
    reach("read");
}

/// two settings of any different names of 1 or 2 letters, underscores or digits, each own, default or both, read under any such name
//@ tier=both reach=given,absent
pub fn h_c11_names() {
    let name = |n: &str| -> Vec<u8> {
        (0..choice(2) + 1)
            .map(|i| {
                let b = byte(n);
                assume((b >= b'a') & (b <= b'z') | (b == b'_') | (b >= b'A') & (b <= b'Z') | (i > 0) & (b >= b'0') & (b <= b'9'));
                b
            })
            .collect()
    };
    let (k1, k2, q) = (name("name"), name("name"), name("asked"));
    assume(k1 != k2);
    let w1 = choice(3);
    let w2 = choice(3);
    let s = |k: &Vec<u8>| String::from_utf8(k.clone()).unwrap();
    let (s1, s2, sq) = (s(&k1), s(&k2), s(&q));
    let (mut own, mut def) = (vec![], vec![]);
    for (w, k, o, d) in [(w1, &s1, "o1", "d1"), (w2, &s2, "o2", "d2")] {
        if w != 1 {
            own.push((&k[..], o.as_bytes().to_vec()));
        }
        if w != 0 {
            def.push((&k[..], d.as_bytes().to_vec()));
        }
    }
    let mut w = Wire::new();
    text(&mut w, &own, &def, false);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let (own, def) = match (sq == s1, sq == s2) {
        (true, _) => (["o1", "", "o1"][w1 as usize], ["", "d1", "d1"][w1 as usize]),
        (_, true) => (["o2", "", "o2"][w2 as usize], ["", "d2", "d2"][w2 as usize]),
        _ => ("", ""),
    };
    let some = |x: &'static str| if x.is_empty() { None } else { Some(x.to_string()) };
    let id = sid("S1");
    check(p.get_property(&id, &sq).cloned() == some(own), "a session's own setting is wrong");
    check(p.get_default_config::<String>(&sq).ok() == some(def), "a default setting is wrong");
    let e = some(own).or(some(def));
    check(p.get_optional_config::<String>(&id, &sq) == e, "a setting is not the session's own, else the default");
    check(p.get_or_default_config::<String>(&id, &sq).ok() == e, "a setting is not the session's own, else the default");
    check(p.get_config::<String>(&id, &sq).ok() == some(own), "a session's own setting is wrong");
    reach(if e.is_some() { "given" } else { "absent" });
}

/// 4 to 60 sessions, every other with a setting of its own, and 1 to 40 other settings; values of 1 to 300 bytes
//@ tier=both reach=read
pub fn h_c11_large() {
    let n = [4, 17, 60][choice(3) as usize];
    let more = [1, 8, 40][choice(3) as usize];
    let v = long([1, 31, 300][choice(3) as usize].max(1));
    for b in &v {
        assume((*b != b'"') & (*b != b' '));
    }
    let d = flag();
    let mut w = Wire::new();
    w.raw(b"[Default]\nconnection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\nsocket_accept_port = 10114\ntarget_comp_id = \"T\"\n");
    if d {
        line(&mut w, "alpha", b"default");
    }
    for i in 0..n {
        w.raw(b"[Session]\n");
        line(&mut w, "sender_comp_id", i.to_string().as_bytes());
        for k in 0..if i == n / 2 { more } else { 1 } {
            line(&mut w, &format!("key{}", k), b"x");
        }
        if i % 2 == 0 {
            let mut x = i.to_string().into_bytes();
            x.extend_from_slice(&v);
            line(&mut w, "alpha", &x);
        }
    }
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    check(p.session_ids().len() == n, "the sessions are not one per section");
    for i in 0..n {
        let id = sid(&i.to_string());
        let r = p.get_optional_config::<String>(&id, "alpha");
        if i % 2 == 0 {
            let mut x = i.to_string().into_bytes();
            x.extend_from_slice(&v);
            check(r.map_or(false, |r| eq_bytes(r.as_bytes(), &x)), "a setting is not the session's own, else the default");
        } else {
            check(r.as_deref() == if d { Some("default") } else { None }, "a setting is not the session's own, else the default");
        }
    }
    reach("read");
}

macro_rules! typed {
    ($t:ty, $p:ident, $id:ident, $v:ident, $own:ident) => {{
        let want = $v.parse::<$t>().ok();
        check($p.get_or_default_config::<$t>(&$id, "beta").ok() == want, "a setting is converted wrongly");
        check($p.get_config::<$t>(&$id, "beta").ok() == if $own { want } else { None }, "a setting is converted wrongly");
        check($own || $p.get_default_config::<$t>("beta").ok() == want, "a setting is converted wrongly");
        let r = catch(|| $p.get_optional_config::<$t>(&$id, "beta")).flatten();
        check(r == want, "a setting is converted wrongly");
        reach(if want.is_some() { "number" } else { "refused" });
    }};
}
/// a setting, own or default, of 10 texts, one with any last byte, read as each of 7 types
//@ tier=both reach=number,refused
pub fn h_c11_types() {
    let b = cbyte("last");
    let v = match choice(10) {
        0 => format!("6553{}", b as char),
        1 => format!("429496729{}", b as char),
        2 => format!("1844674407370955161{}", b as char),
        3 => format!("-12{}", b as char),
        4 => format!("-214748364{}", b as char),
        5 => format!("25{}", b as char),
        6 => "true".to_string(),
        7 => "false".to_string(),
        8 => "True".to_string(),
        _ => "".to_string(),
    };
    let own = flag();
    let x = [("beta", v.clone().into_bytes())];
    let mut w = Wire::new();
    text(&mut w, if own { &x } else { &[] }, if own { &[] } else { &x }, false);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let id = sid("S1");
    match choice(7) {
        0 => typed!(u8, p, id, v, own),
        1 => typed!(u16, p, id, v, own),
        2 => typed!(u32, p, id, v, own),
        3 => typed!(u64, p, id, v, own),
        4 => typed!(i32, p, id, v, own),
        5 => typed!(char, p, id, v, own),
        _ => typed!(bool, p, id, v, own),
    }
}

/// a setting, own, default or both, with a character of two, three or four bytes, any two bytes or any last byte
//@ tier=both reach=read
pub fn h_c11_utf8() {
    let v = character("value");
    let k = choice(3);
    let (own, def) = ([("alpha", v.clone())], [("alpha", if k == 2 { b"no".to_vec() } else { v.clone() })]);
    let mut w = Wire::new();
    text(&mut w, if k == 1 { &[] } else { &own }, if k == 0 { &[] } else { &def }, false);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let id = sid("S1");
    let is = |r: Option<String>| r.map_or(false, |r| eq_bytes(r.as_bytes(), &v));
    check(is(p.get_optional_config::<String>(&id, "alpha")), "a setting is not the session's own, else the default");
    check(is(p.get_or_default_config::<String>(&id, "alpha").ok()), "a setting is not the session's own, else the default");
    if k != 1 {
        check(is(p.get_property(&id, "alpha").cloned()), "a session's own setting is wrong");
    }
    if k == 1 {
        check(is(p.get_default_config::<String>("alpha").ok()), "a default setting is wrong");
    }
    reach("read");
}
