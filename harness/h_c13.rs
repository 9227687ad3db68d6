//! C13: the sections of a configuration.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

const DEF: &str = "connection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\nsocket_accept_port = 10114\ntarget_comp_id = \"T\"\n";

fn judge(w: &Wire, want: Option<&[Vec<u8>]>) {
    let r = catch(|| Properties::from_str(w.str()));
    match (want, &r) {
        (Some(ids), Some(p)) => {
            reach("accepted");
            let got = p.session_ids();
            check(got.len() == ids.len(), "the sessions are not one per section");
            for v in ids {
                let id = SessionIdBuilder::new("FIX.4.3".to_string(), String::from_utf8(v.clone()).unwrap(), "T".to_string()).build().unwrap();
                check(got.iter().any(|g| **g == id), "a configured session is missing");
                let o = p.get_property(&id, "own");
                check(o.map_or(false, |o| eq_bytes(o.as_bytes(), v)), "a session has another section's settings");
            }
        }
        (Some(_), None) => check(false, "a correct configuration is rejected"),
        (None, Some(_)) => check(false, "an incorrect configuration is accepted"),
        (None, None) => reach("rejected"),
    }
}
fn session(w: &mut Wire, v: &[u8]) {
    w.raw(b"[Session]\n");
    line(w, "sender_comp_id", v);
    line(w, "own", v);
}

fn sections(k: u32) {
    // any sequence of default and session sections, sender ids any printable byte
    let mut w = Wire::new();
    let mut ids: Vec<Vec<u8>> = vec![];
    let mut ok = true;
    let mut def = 0;
    for _ in 0..choice(k) + 1 {
        if flag() {
            w.raw(b"[Default]\n").raw(DEF.as_bytes());
            def += 1;
        } else {
            let v = vec![cbyte("sender")];
            session(&mut w, &v);
            ok &= def > 0;
            for o in &ids {
                ok &= o[0] != v[0];
            }
            ids.push(v);
        }
    }
    ok &= def == 1;
    judge(&w, if ok { Some(&ids) } else { None });
}
/// any sequence of up to 4 default and session sections, sender ids any printable byte
//@ tier=quick reach=accepted,rejected
pub fn h_c13_sections() {
    sections(4)
}
/// any sequence of up to 6 default and session sections, sender ids any printable byte
//@ tier=thorough reach=accepted,rejected
pub fn h_c13_sections_t() {
    sections(6)
}

/// white space, blank lines, CRLF, unquoted values and values with '=' or '[' in them, at each of the places
//@ tier=both reach=accepted
pub fn h_c13_layout() {
    let mut w = Wire::new();
    let nl: &[u8] = if flag() { b"\r\n" } else { b"\n" };
    let ind: &[u8] = [&b""[..], b"  ", b"\t"][choice(3) as usize];
    let blank = flag();
    let v: Vec<u8> = match choice(4) {
        0 => vec![cbyte("v")],
        1 => vec![b'a', cbyte("v"), b'b'],
        2 => b"a=b=c".to_vec(),
        _ => b"[Default]".to_vec(),
    };
    let quoted = flag();
    let sep: &[u8] = [&b" = "[..], b"=", b"= "][choice(3) as usize];
    let put = |w: &mut Wire, k: &[u8], v: &[u8]| {
        w.raw(ind).raw(k).raw(sep);
        if quoted {
            w.raw(b"\"").raw(v).raw(b"\"");
        } else {
            w.raw(v);
        }
        w.raw(nl);
        if blank {
            w.raw(ind).raw(nl);
        }
    };
    if blank {
        w.raw(nl);
    }
    w.raw(ind).raw(b"[Default]").raw(nl);
    put(&mut w, b"connection_type", b"acceptor");
    put(&mut w, b"begin_string", b"FIX.4.3");
    put(&mut w, b"socket_accept_port", b"10114");
    put(&mut w, b"target_comp_id", b"T");
    w.raw(ind).raw(b"[Session]").raw(nl);
    put(&mut w, b"sender_comp_id", &v);
    put(&mut w, b"own", &v);
    if flag() {
        w.raw(b"[Session]").raw(nl);
        put(&mut w, b"sender_comp_id", b"second");
        put(&mut w, b"own", b"second");
        judge(&w, Some(&[v, b"second".to_vec()]));
    } else {
        judge(&w, Some(&[v]));
    }
}

/// a line without '=' (any 1 to 3 printable bytes), or a section header cut or extended by any byte, at each of the places
//@ tier=both reach=accepted,rejected
pub fn h_c13_malformed() {
    let mut w = Wire::new();
    let at = choice(4);
    let kind = choice(3);
    let n = choice(3) as usize + 1;
    let mut ok = at == 3;
    let junk: Vec<u8> = (0..n)
        .map(|_| {
            let b = cbyte("junk");
            assume((b != b'=') & (b != b'['));
            b
        })
        .collect();
    let put = |w: &mut Wire, i: u32| {
        if at == i && kind == 0 {
            w.raw(&junk).raw(b"\n");
        }
    };
    if kind != 0 && at == 0 {
        ok = true; // nothing wrong
    }
    w.raw(b"[Default]\n").raw(DEF.as_bytes());
    put(&mut w, 0);
    let mut ids = vec![b"a".to_vec(), b"b".to_vec()];
    for i in 1..3u32 {
        let v = &ids[i as usize - 1];
        if at == i && kind > 0 {
            // a malformed header
            if kind == 1 {
                w.raw(b"[Session\n");
            } else {
                let b = cbyte("after");
                assume(b != b']');
                w.raw(b"[Session]").raw(&[b]).raw(b"\n");
            }
            line(&mut w, "sender_comp_id", v);
            line(&mut w, "own", v);
        } else {
            session(&mut w, v);
        }
        put(&mut w, i);
    }
    judge(&w, if ok { Some(&ids[..]) } else { None });
    ids.clear();
}

/// sections named by any 1 to 3 printable bytes: each is a session
//@ tier=both reach=accepted,rejected
pub fn h_c13_names() {
    let mut w = Wire::new();
    let n = choice(3) as usize + 1;
    let name: Vec<u8> = (0..n)
        .map(|_| {
            let b = cbyte("name");
            assume((b != b']') & (b != b'['));
            b
        })
        .collect();
    let first = flag();
    let mut ids: Vec<Vec<u8>> = vec![];
    let mut put = |w: &mut Wire, h: &[u8], v: &[u8]| {
        w.raw(b"[").raw(h).raw(b"]\n");
        line(w, "sender_comp_id", v);
        line(w, "own", v);
        ids.push(v.to_vec());
    };
    if first {
        // before the defaults
        put(&mut w, &name, b"0");
    }
    w.raw(b"[Default]\n").raw(DEF.as_bytes());
    if flag() {
        put(&mut w, b"Session", b"1");
    }
    put(&mut w, &name, b"2");
    if flag() {
        put(&mut w, b"Session", b"3");
    }
    drop(put);
    judge(&w, if first { None } else { Some(&ids) });
}

/// no section, only defaults, or settings before the first section
//@ tier=both reach=accepted,rejected
pub fn h_c13_empty() {
    let mut w = Wire::new();
    match choice(3) {
        0 => judge(&w, None),
        1 => {
            w.raw(b"[Default]\n").raw(DEF.as_bytes());
            judge(&w, Some(&[]));
        }
        _ => {
            w.raw(b"\n\n");
            judge(&w, None);
        }
    }
}

/// 5 to 60 sessions, the last with the sender id of any earlier one, a new one, or the defaults again
//@ tier=both reach=accepted,rejected
pub fn h_c13_many() {
    let n = [5usize, 17, 60][choice(3) as usize];
    let mut w = Wire::new();
    w.raw(b"[Default]\n").raw(DEF.as_bytes());
    let mut ids: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let v = format!("s{}", i).into_bytes();
        session(&mut w, &v);
        ids.push(v);
    }
    match choice(4) {
        0 => judge(&w, Some(&ids)),
        1 => {
            let i = choice(n as u32) as usize;
            session(&mut w, &ids[i]);
            judge(&w, None);
        }
        2 => {
            w.raw(b"[Default]\n").raw(DEF.as_bytes());
            judge(&w, None);
        }
        _ => {
            let v = long(100);
            for b in &v {
                assume((*b != b'"') & (*b != b' '));
            }
            session(&mut w, &v);
            ids.push(v);
            judge(&w, Some(&ids));
        }
    }
}

/// two sections whose ids have a character of two, three or four bytes, any two bytes or any last byte, quoted or not
//@ tier=both reach=accepted,rejected
pub fn h_c13_utf8() {
    let (a, b) = (character("first"), character("second"));
    let mut w = Wire::new();
    w.raw(b"[Default]\n").raw(DEF.as_bytes());
    let same = a.len() == b.len() && eq_bytes(&a, &b);
    session(&mut w, &a);
    session(&mut w, &b);
    let ids = [a, b];
    judge(&w, if same { None } else { Some(&ids) });
}

/// a section without a line of its own, or with any one of four, at any place among two others: its id is that of the defaults where it has none
//@ tier=both reach=accepted
pub fn h_c13_bare() {
    let mut w = Wire::new();
    w.raw(b"[Default]\n").raw(DEF.as_bytes());
    let d = vec![cbyte("default")];
    line(&mut w, "sender_comp_id", &d);
    let mut others = 0;
    let at = choice(3);
    let kind = choice(5);
    let o = vec![cbyte("own")];
    assume(d[0] > b'2' && o[0] > b'2' && (kind != 1 || o[0] != d[0]));
    for i in 0..3 {
        if i == at {
            w.raw([&b"[Session]\n"[..], b"[Session]\n\n", b"[X]\n"][choice(3) as usize]);
            match kind {
                0 => (),
                1 => line(&mut w, "sender_comp_id", &o),
                2 => line(&mut w, "target_comp_id", &o),
                3 => line(&mut w, "sender_sub_id", &o),
                _ => line(&mut w, "unknown", &o),
            }
        } else {
            others += 1;
            session(&mut w, &[b'0' + others]);
        }
    }
    let r = catch(|| Properties::from_str(w.str()));
    let want = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
    match r {
        Some(p) => {
            reach("accepted");
            check(p.session_ids().len() == 3, "the sessions are not one per section");
            let mut b = match kind {
                1 => SessionIdBuilder::new("FIX.4.3".to_string(), want(&o), "T".to_string()),
                2 => SessionIdBuilder::new("FIX.4.3".to_string(), want(&d), want(&o)),
                _ => SessionIdBuilder::new("FIX.4.3".to_string(), want(&d), "T".to_string()),
            };
            if kind == 3 {
                b.sender_subid(want(&o));
            }
            let id = b.build().unwrap();
            check(p.session_ids().iter().any(|g| **g == id), "a configured session is missing");
            for s in [&b"1"[..], b"2"] {
                let other = SessionIdBuilder::new("FIX.4.3".to_string(), want(s), "T".to_string()).build().unwrap();
                check(p.get_property(&other, "own").map_or(false, |v| v.as_bytes() == s), "a session has another section's settings");
            }
        }
        None => check(false, "a correct configuration is rejected"),
    }
}

/// one or two configurations read from any of four files, two of one name; one that has no defaults or does not exist
//@ tier=both reach=accepted,rejected files=one.toml:one.toml,two.toml:two.toml,other/one.toml:other/one.toml,bad.toml:bad.toml
pub fn h_c13_file() {
    for _ in 0..choice(2) + 1 {
        let i = choice(5) as usize;
        let r = catch(|| Properties::new(["one.toml", "two.toml", "other/one.toml", "bad.toml", "none.toml"][i]));
        match r {
            Some(p) => {
                check(i < 3, "an incorrect configuration is accepted");
                let id = SessionIdBuilder::new("FIX.4.3", ["A", "B", "C", "", ""][i], "T").build().unwrap();
                check(p.session_ids() == vec![&id], "the sessions are not one per section");
                check(p.get_optional_config::<u16>(&id, "socket_accept_port") == Some(10114 + i as u16), "a session has another section's settings");
                reach("accepted");
            }
            None => {
                check(i >= 3, "a correct configuration is rejected");
                reach("rejected");
            }
        }
    }
}
