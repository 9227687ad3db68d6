//! C12: which configurations are accepted.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

fn decide(ok: bool, w: &Wire) {
    let r = catch(|| Properties::from_str(w.str()));
    if ok {
        reach("accepted");
        check(r.is_some(), "a complete configuration is rejected");
    } else {
        reach("rejected");
        check(r.is_none(), "an incomplete or invalid configuration is accepted");
    }
}
/// where a setting stands: own section, defaults, nowhere
fn put(key: &'static str, v: &[u8], own: &mut Vec<(&'static str, Vec<u8>)>, def: &mut Vec<(&'static str, Vec<u8>)>) -> bool {
    match choice(3) {
        0 => {
            own.push((key, v.to_vec()));
            true
        }
        1 => {
            def.push((key, v.to_vec()));
            true
        }
        _ => false,
    }
}
fn write(own: &[(&str, Vec<u8>)], def: &[(&str, Vec<u8>)], session: bool) -> Wire {
    let mut w = Wire::new();
    w.raw(b"[Default]\n");
    for (k, v) in def {
        line(&mut w, k, v);
    }
    if session {
        w.raw(b"[Session]\n");
        for (k, v) in own {
            line(&mut w, k, v);
        }
    }
    w
}

/// acceptor or initiator; every required setting in the session's section, the defaults or nowhere
//@ tier=both reach=accepted,rejected
pub fn h_c12_presence() {
    let (mut own, mut def) = (vec![], vec![]);
    let acc = flag();
    def.push(("connection_type", if acc { b"acceptor".to_vec() } else { b"initiator".to_vec() }));
    let b = put("begin_string", b"FIX.4.4", &mut own, &mut def);
    let s = put("sender_comp_id", b"S", &mut own, &mut def);
    let t = put("target_comp_id", b"T", &mut own, &mut def);
    let ok = if acc {
        put("socket_accept_port", b"10114", &mut own, &mut def)
    } else {
        let h = put("socket_connect_host", b"localhost", &mut own, &mut def);
        let p = put("socket_connect_port", b"10114", &mut own, &mut def);
        // the other kind's port does not help
        put("socket_accept_port", b"10114", &mut own, &mut def);
        h && p
    };
    decide(ok && b && s && t, &write(&own, &def, true));
}

/// connection type absent, or any text that differs from a valid one in any one or two bytes or is cut short; defaults only or with a session
//@ tier=both reach=accepted,rejected
pub fn h_c12_connection() {
    let (mut own, mut def) = (vec![], vec![]);
    own.push(("sender_comp_id", b"S".to_vec()));
    let mut v = if flag() { b"acceptor".to_vec() } else { b"initiator".to_vec() };
    let mut ok = true;
    match choice(4) {
        0 => {
            let i = choice(v.len() as u32) as usize;
            let b = cbyte("byte");
            ok = b == v[i];
            v[i] = b;
        }
        1 => {
            let n = choice(v.len() as u32) as usize;
            v.truncate(n);
            ok = false;
        }
        2 => {
            v.push(cbyte("byte"));
            ok = false;
        }
        _ => (),
    }
    if choice(8) == 7 {
        ok = false;
        // the session's own connection type is not the engine's
        own.push(("connection_type", v));
    } else {
        def.push(("connection_type", v));
    }
    for (k, x) in [("begin_string", "FIX.4.2"), ("target_comp_id", "T"), ("socket_accept_port", "1"), ("socket_connect_host", "h"), ("socket_connect_port", "2")] {
        def.push((k, x.as_bytes().to_vec()));
    }
    decide(ok, &write(&own, &def, flag()));
}

/// begin string any of the valid ones with any one byte replaced, one added or the last cut off; own or default
//@ tier=both reach=accepted,rejected
pub fn h_c12_begin() {
    let mut v = b"FIX.4.2".to_vec();
    let mut ok = true;
    match choice(3) {
        0 => {
            let i = choice(7) as usize;
            let b = cbyte("byte");
            ok = if i == 6 { (b == b'2') | (b == b'3') | (b == b'4') } else { b == v[i] };
            v[i] = b;
        }
        1 => {
            v.push(cbyte("byte"));
            ok = false;
        }
        _ => {
            v.pop();
            ok = false;
        }
    }
    let (mut own, mut def) = (vec![], vec![]);
    if flag() {
        own.push(("begin_string", v));
        def.push(("begin_string", if flag() { b"FIX.4.3".to_vec() } else { b"bad".to_vec() }));
    } else {
        def.push(("begin_string", v));
    }
    for (k, x) in [("connection_type", "acceptor"), ("target_comp_id", "T"), ("sender_comp_id", "S"), ("socket_accept_port", "1")] {
        def.push((k, x.as_bytes().to_vec()));
    }
    decide(ok, &write(&own, &def, true));
}

fn ports(n: usize, lead: &[u8]) {
    let acc = flag();
    let k = choice(n as u32 + 1) as usize;
    let mut v = lead.to_vec();
    for _ in 0..k {
        v.push(cbyte("port"));
    }
    // 16 bits, an optional plus sign
    let d = if v.len() > 1 && v[0] == b'+' { &v[1..] } else { &v[..] };
    let ok = num(d).map_or(false, |x| x < 65536);
    let (mut own, mut def) = (vec![], vec![]);
    let key = if acc { "socket_accept_port" } else { "socket_connect_port" };
    let other = flag();
    if flag() {
        own.push((key, v));
        if other {
            def.push((key, b"77".to_vec()));
        }
    } else {
        def.push((key, v));
    }
    def.push(("connection_type", if acc { b"acceptor".to_vec() } else { b"initiator".to_vec() }));
    for (k, x) in [("begin_string", "FIX.4.3"), ("target_comp_id", "T"), ("sender_comp_id", "S"), ("socket_connect_host", "h")] {
        def.push((k, x.as_bytes().to_vec()));
    }
    decide(ok, &write(&own, &def, true));
}
/// ports of any 0 to 2 printable bytes, own (over a valid default or none) or default
//@ tier=both reach=accepted,rejected
pub fn h_c12_ports() {
    ports(2, b"")
}
/// five-byte ports 65 and any 3 printable bytes
//@ tier=both reach=accepted,rejected
pub fn h_c12_ports5() {
    ports(3, b"65")
}

fn sessions(n: usize) {
    let bad = choice(n as u32 + 1) as usize;
    let what = choice(5);
    let mut w = Wire::new();
    w.raw(b"[Default]\nconnection_type = \"acceptor\"\n");
    for i in 0..n {
        w.raw(b"[Session]\n");
        let f = i == bad;
        if !(f && what == 0) {
            line(&mut w, "begin_string", if f && what == 1 { b"FIX.4.1" } else { b"FIX.4.2" });
        }
        if !(f && what == 2) {
            line(&mut w, "sender_comp_id", format!("S{}", i).as_bytes());
        }
        line(&mut w, "target_comp_id", b"T");
        if !(f && what == 3) {
            line(&mut w, "socket_accept_port", if f && what == 4 { b"x1" } else { b"20" });
        }
    }
    decide(bad == n, &w);
}
/// three sessions, one of them, at any place, without or with an invalid required setting
//@ tier=both reach=accepted,rejected
pub fn h_c12_any_session() {
    sessions(3)
}
/// 9 to 70 sessions (at 4 numbers), one of them, at any place, without or with an invalid required setting
//@ tier=both reach=accepted,rejected
pub fn h_c12_many() {
    sessions([9, 20, 33, 70][choice(4) as usize])
}
