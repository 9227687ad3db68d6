//! C22: messages sent to a session come out of its own connection.
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;

/// The Text field of every message a connection got.
fn got(c: i32) -> Vec<String> {
    texts(&received(c))
}
fn texts(s: &[u8]) -> Vec<String> {
    let f = frames(s);
    check(f.concat().len() == s.len(), "a message is sent incompletely");
    f.iter()
        .map(|m| {
            check(m.starts_with(b"8=FIX.4.3\x019=5\x0135=0\x0158=") & m.ends_with(b"\x0110=001\x01"), "a message is not sent as it is");
            String::from_utf8_lossy(&m[m.len().min(22)..m.len().max(30) - 8]).into_owned()
        })
        .collect()
}

/// three sessions at three ports (one of them with two sessions, one connected), of different senders, or of one sender with different targets or sub ids; 2 messages of any one byte of text, to any of the connected ones; 1 or 2 answers
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_routes() {
    let p = [free_port(0), free_port(1), free_port(2)];
    let n = choice(2) as usize + 1;
    let id = if flag() { ["S1", "S2", "S3", "S4"] } else { ["S1", "S1>U", "S1/A", "S1>T/A"] };
    let (mut acc, _log) = stack(&[(id[0], p[0]), (id[1], p[1]), (id[2], p[2]), (id[3], p[2])], n);
    config(3, 2);
    run(async {
        acc.start_accepting_connections();
        let c = [connect(p[0]).await, connect(p[1]).await, connect(p[2]).await];
        let mut want = [vec![], vec![], vec![]];
        for i in 0..2 {
            let (k, b) = (choice(3) as usize, vbyte("text"));
            send_all(c[k], &inbound(id[k], &[b, b'a' + i]));
            if flag() {
                nap().await;
            }
            want[k].extend((0..n).map(|j| vec![b, b'a' + i, b'0' + j as u8]));
        }
        nap().await;
        nap().await;
        for k in 0..3 {
            let g = got(c[k]);
            check(g.len() >= want[k].len(), "a session's message is lost");
            check(g.len() <= want[k].len(), "a connection gets messages not meant for it, or twice");
            // messages sent over different connections at a time may be handled in any order, those of one in theirs
            for (x, y) in g.iter().zip(&want[k]) {
                check(eq_bytes(x.as_bytes(), y), "the messages of a session change or come out of order");
            }
        }
        reach("answered");
    })
}
/// two sessions that share a port, each with its own connection, in either order; a message to any of them
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_shared() {
    let p = free_port(0);
    let (mut acc, _log) = stack(&[("S1", p), ("S2", p)], 1);
    run(async {
        acc.start_accepting_connections();
        let c = [connect(p).await, connect(p).await];
        // each connection is known by the session it sends messages for
        send_all(c[0], &inbound("S1", b"a"));
        nap().await;
        send_all(c[1], &inbound("S2", b"b"));
        nap().await;
        received(c[0]);
        received(c[1]);
        let k = choice(2) as usize;
        send_all(c[k], &inbound(["S1", "S2"][k], b"z"));
        nap().await;
        nap().await;
        check(got(c[k]) == ["z0"], "a session's message is lost");
        reach("answered");
        check(got(c[1 - k]).is_empty(), "a connection gets the messages of another session at its port");
    })
}
/// 1 to 32 answers at once (at 6 numbers), the connection read at once or later, by any schedule of 2 choices
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_burst() {
    let p = free_port(0);
    let n = [1usize, 2, 8, 15, 31, 32][choice(6) as usize];
    let (mut acc, _log) = stack(&[("S1", p)], n);
    config(3, 2);
    run(async {
        acc.start_accepting_connections();
        let c = connect(p).await;
        send_all(c, &inbound("S1", b"z"));
        nap().await;
        nap().await;
        let g = got(c);
        check(g.len() == n, "a session's message is lost");
        check(g.iter().enumerate().all(|(i, x)| *x == format!("z{}", i)), "the messages of a session change or come out of order");
        reach("answered");
    })
}
/// more answers at once than are kept for a connection that does not take them
//@ tier=both reach=answered files=dict.xml:dict.xml retry=8 validate=no
pub fn h_c22_lag() {
    let p = free_port(0);
    let n = if cfg!(vf_ir) { [33usize, 40, 70][choice(3) as usize] } else { 3000 };
    let (mut acc, _log) = stack(&[("S1", p)], n);
    run(async {
        acc.start_accepting_connections();
        let c = connect(p).await;
        send_all(c, &inbound("S1", b"z"));
        for _ in 0..4 {
            nap().await;
        }
        let g = got(c);
        let i: Vec<usize> = g.iter().map(|x| x[1..].parse().unwrap()).collect();
        check(i.windows(2).all(|w| w[0] < w[1]), "the messages of a session change or come out of order");
        check(i.last() == Some(&(n - 1)), "the last message of a session is lost");
        reach("answered");
        check(g.len() == n, "more than 32 messages are sent at once and the oldest are lost");
    })
}
/// a message longer than the socket takes at a time, followed by 1 to 3 short ones, read in pieces
//@ tier=both reach=answered files=dict.xml:dict.xml heap=256M
pub fn h_c22_long() {
    let p = free_port(0);
    let cfg = &[("S1", p)];
    let long = if cfg!(vf_ir) { [5000usize, 9000][choice(2) as usize] } else { 12_000_000 };
    let n = choice(3) + 1;
    config(4, 4096);
    run(async {
        let (_acc, map) = stack_started(&cfg[..]).await;
        let c = connect(p).await;
        let x = "x".repeat(long);
        Session::sync_send_to_target(&session_of("S1"), &map, answer(&x, 0));
        for i in 0..n {
            Session::sync_send_to_target(&session_of("S1"), &map, answer("z", i as usize));
        }
        let mut s = vec![];
        for _ in 0..200 {
            nap().await;
            let r = received(c);
            s.extend(r);
            if frames(&s[s.len().max(40) - 40..]).len() > 0 && s.ends_with(format!("z{}\x0110=001\x01", n - 1).as_bytes()) {
                break;
            }
        }
        let g = texts(&s);
        check(g.len() == n as usize + 1, "a session's message is lost");
        check(g.len() > 0 && g[0].len() == long + 1, "a message is not sent as it is");
        check(g.iter().skip(1).enumerate().all(|(i, x)| *x == format!("z{}", i)), "the messages of a session change or come out of order");
        reach("answered");
    })
}
/// messages sent while no one is connected, while one is, and after another connection; up to 2 each
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_times() {
    let p = [free_port(0), free_port(1)];
    let cfg = &[("S1", p[0]), ("S2", p[1])];
    let n = [choice(3) as usize, choice(3) as usize, choice(3) as usize];
    let stay = flag();
    run(async {
        let (_acc, map) = stack_started(&cfg[..]).await;
        let other = connect(p[1]).await;
        let send = |from: usize, to: usize| {
            for i in from..to {
                no_panic("sending a message panics", || Session::sync_send_to_target(&session_of("S1"), &map, answer("m", i)));
            }
        };
        send(0, n[0]);
        let c = connect(p[0]).await;
        send(n[0], n[0] + n[1]);
        nap().await;
        let want = |a: usize, b: usize| (a..b).map(|i| format!("m{}", i)).collect::<Vec<_>>();
        check(got(c) == want(n[0], n[0] + n[1]), "a connection does not get exactly the messages sent while it stands");
        if !stay {
            net_close(c);
            nap().await;
        }
        let d = connect(p[0]).await;
        let m = n[0] + n[1];
        send(m, m + n[2]);
        nap().await;
        check(got(d) == want(m, m + n[2]), "a connection does not get exactly the messages sent while it stands");
        check(received(other).is_empty(), "a connection gets messages not meant for it, or twice");
        reach("answered");
    })
}
/// an answer of 4 bytes of any ASCII value to a message of any of two sessions
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_bytes() {
    let p = free_port(0);
    let cfg = &[("S1", p)];
    let b: Vec<u8> = (0..4).map(|_| range("byte", 1, 127)).collect();
    run(async {
        let (_acc, map) = stack_started(&cfg[..]).await;
        let c = connect(p).await;
        let m = answer(std::str::from_utf8(&b).unwrap(), 0);
        let want = m.to_string();
        Session::sync_send_to_target(&session_of("S1"), &map, m);
        nap().await;
        let s = received(c);
        check(eq_bytes(&s, want.as_bytes()), "a message is not sent as it is");
        reach("answered");
    })
}

/// an answer with a character of two, three or four bytes, any two bytes or any last byte, to a session whose id has one or not
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c22_utf8() {
    let p = free_port(0);
    let s = ["S1", "\u{dc}", "S\u{20ac}>\u{1f600}"][choice(3) as usize];
    let cfg = &[(s, p)];
    let b = character("text");
    run(async {
        let (_acc, map) = stack_started(&cfg[..]).await;
        let c = connect(p).await;
        let m = answer(std::str::from_utf8(&b).unwrap(), 0);
        let want = m.to_string();
        Session::sync_send_to_target(&session_of(s), &map, m);
        nap().await;
        let got = received(c);
        check(eq_bytes(&got, want.as_bytes()), "a message is not sent as it is");
        reach("answered");
    })
}

/// a connection that is idle for 1, 12 or 35 seconds, then one or two messages for its session, with or without as long a pause between them
//@ tier=both reach=answered files=dict.xml:dict.xml validate=no native_timeout=90
pub fn h_c22_pause() {
    let p = free_port(0);
    let cfg = &[("S1", p)];
    let secs = [1, 12, 35][choice(3) as usize];
    let n = choice(2) + 1;
    let between = flag();
    let b = vbyte("text");
    run(async {
        let (_acc, map) = stack_started(&cfg[..]).await;
        let c = connect(p).await;
        let mut want = vec![];
        for i in 0..n {
            if i == 0 || between {
                tokio::time::sleep(std::time::Duration::from_secs(secs)).await;
            }
            let m = answer(std::str::from_utf8(&[b]).unwrap(), i as usize);
            want.extend(m.to_string().into_bytes());
            Session::sync_send_to_target(&session_of("S1"), &map, m);
            nap().await;
        }
        nap().await;
        check(eq_bytes(&received(c), &want), "a session's message is lost");
        reach("answered");
    })
}
