//! C21: one counterparty's failure does not stop the engine.
use super::io::acceptor::*;
use super::verif_common::*;
use super::verif_rt::*;
use tokio::sync::mpsc;

fn texts(log: &Log) -> Vec<(String, String)> {
    log.lock().unwrap().clone()
}
fn good(log: &Log, want: &[&str]) {
    let got = texts(log);
    check(got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.1 == *w), "the engine no longer handles good messages, or handles others");
    reach("handled");
}

/// a connection closed after any part of two messages (or of a message and 3 bytes of any value), then another one with a good message
//@ tier=both reach=handled files=dict.xml:dict.xml
pub fn h_c21_close() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 0);
    let mut s = inbound("S1", b"a");
    if flag() {
        s.extend(inbound("S1", b"b"));
    } else {
        s.extend((0..3).map(|_| {
            let b = range("byte", 0, 127);
            assume(b != S);
            b
        }));
    }
    let cut = choice(s.len() as u32 + 1) as usize;
    let whole = frames(&s[..cut]).len();
    run(async {
        acc.start_accepting_connections();
        let c = connect(port).await;
        if cut > 0 {
            send_all(c, &s[..cut]);
        }
        if flag() {
            nap().await;
        }
        net_close(c);
        nap().await;
        let c = connect(port).await;
        send_all(c, &inbound("S1", b"z"));
        nap().await;
        let mut want = vec!["a", "b"][..whole].to_vec();
        want.push("z");
        good(&log, &want);
        idle().await;
    })
}

/// a message that is faulty (10 ways), lacks any of its fields, of an unknown session or with 2 to 4 bytes of any value (not UTF-8 among them), then a good one on the same connection or another
//@ tier=both reach=handled files=dict.xml:dict.xml
pub fn h_c21_faulty() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 1);
    let mut s = Wire::new();
    let k = choice(13);
    match k {
        12 => {
            // any of the fields left out, but not none of them
            let mut all = true;
            for (t, v) in [("8", &b"FIX.4.3"[..]), ("9", b"5"), ("35", b"0"), ("49", b"T"), ("56", b"S1")] {
                if flag() {
                    s.f(t, v);
                } else {
                    all = false;
                }
            }
            assume(!all);
            s.f("10", b"1")
        }
        10 => s.raw(b"8\x01").f("10", b"1"),
        11 => s.raw(&[range("byte", 0, 255), range("byte", 0, 255)]).raw(b"\x0110=1\x01"),
        0 => s.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"T").f("56", b"S2").f("10", b"1"),
        1 => s.f("8", b"FIX.4.2").f("9", b"5").f("35", b"0").f("49", b"T").f("56", b"S1").f("10", b"1"),
        2 => s.f("10", b"1"),
        3 => s.f("8", b"FIX.4.3").f("10", b"1"),
        4 => s.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"T").f("56", b"S1").raw(b"junk\x01").f("10", b"1"),
        5 => s.f("8", b"FIX.4.3").f("35", b"0").f("9", b"5").f("49", b"T").f("56", b"S1").f("10", b"1"),
        6 => s.raw(b"\x01\x01=\x0149=T\x01").f("10", b""),
        7 => s.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"T").f("56", b"S1").f("627", b"3").f("10", b"1"),
        8 => s.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"").f("56", b"").f("10", b"1"),
        _ => {
            s.f("8", b"FIX.4.3").f("9", b"5").f("35", b"0").f("49", b"T").f("56", b"S1");
            // any two bytes, UTF-8 or not, then two of any ASCII value
            for i in 0..4 {
                s.raw(&[range("byte", 0, if i < 2 { 255 } else { 127 })]);
            }
            s.raw(b"\x0110=1\x01")
        }
    };
    let other = flag();
    run(async {
        acc.start_accepting_connections();
        let mut c = connect(port).await;
        send_all(c, &s.0);
        nap().await;
        if other {
            c = connect(port).await;
        }
        send_all(c, &inbound("S1", b"z"));
        nap().await;
        nap().await;
        let got = texts(&log);
        check(got.last().map_or(false, |g| g.1 == "z"), "the engine no longer handles good messages");
        check(k == 9 || got.len() == 1, "a faulty message is handed to the application");
        check(frames(&received(c)).len() == if k == 9 && !other { got.len() } else { 1 }, "a good message is not answered");
        idle().await;
        reach("handled");
    })
}

/// up to 3 connections, each sending a message the application answers and closing at once, later or never; then another one
//@ tier=both reach=handled files=dict.xml:dict.xml
pub fn h_c21_gone() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], choice(2) as usize + 1);
    config(3, 3);
    run(async {
        acc.start_accepting_connections();
        let n = choice(3) + 1;
        for _ in 0..n {
            let c = connect(port).await;
            send_all(c, &inbound("S1", b"x"));
            match choice(3) {
                0 => net_close(c),
                1 => {
                    nap().await;
                    net_close(c);
                }
                _ => (),
            }
            nap().await;
        }
        let c = connect(port).await;
        received(c);
        send_all(c, &inbound("S1", b"z"));
        nap().await;
        nap().await;
        check(texts(&log).len() == n as usize + 1, "the engine no longer handles good messages, or handles others");
        idle().await;
        let s = received(c);
        check(frames(&s).iter().any(|f| f.windows(5).any(|w| w == b"58=z0")), "a good message is not answered");
        reach("handled");
    })
}

/// the port is taken when the acceptor starts, and given free after 0 to 3 seconds
//@ tier=both reach=handled
pub fn h_c21_busy() {
    let wait = choice(4);
    let (mut got, port) = (vec![], free_port(0));
    run(async {
        let other = std::net::TcpListener::bind(("127.0.0.1", port)).unwrap();
        let (tx, mut rx) = mpsc::channel::<String>(64);
        let (acc, _out) = IoAcceptor::create(([127, 0, 0, 1], port).into(), tx);
        acc.start();
        nap().await;
        tokio::time::sleep(std::time::Duration::from_secs(wait as u64)).await;
        drop(other);
        tokio::time::sleep(std::time::Duration::from_secs(1)).await;
        let c = connect(port).await;
        send_all(c, b"8=a\x0110=1\x01");
        nap().await;
        while let Ok(m) = rx.try_recv() {
            got.push(m);
        }
    });
    check(got == ["8=a\u{1}10=1\u{1}"], "the acceptor does not recover from a port in use");
    reach("handled");
}
/// two to four connections made at once, before any is accepted; each then sends a message
//@ tier=both reach=handled files=dict.xml:dict.xml
pub fn h_c21_at_once() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 0);
    run(async {
        acc.start_accepting_connections();
        let mut cs = vec![connect(port).await];
        let n = choice(3) + 1;
        for _ in 0..n {
            cs.push(net_connect(port));
        }
        if flag() {
            nap().await;
        }
        for c in &cs {
            check(*c >= 0, "a connection is refused");
            send_all(*c, &inbound("S1", b"m"));
            if flag() {
                nap().await;
            }
        }
        nap().await;
        nap().await;
        check(texts(&log).len() == cs.len(), "a connection made while another is accepted is lost");
        reach("handled");
    })
}

/// 7 to 70 times (at 3 numbers) one of 6 things of a peer (a connection opened and closed, with part of a message, a faulty message on one connection or on one each, a message of an unknown session, a connection left open), then a good message of any text on the first connection and on another
//@ tier=both reach=handled files=dict.xml:dict.xml steps=100M
pub fn h_c21_many() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 1);
    let n = [7, 33, 70][choice(3) as usize];
    let kind = choice(6);
    let t = [vbyte("text")];
    run(async {
        acc.start_accepting_connections();
        let c = connect(port).await;
        let one = connect(port).await;
        let faulty = |to: &str| {
            let mut w = Wire::new();
            w.f("8", b"FIX.4.3").f("35", b"0").f("9", b"5").f("49", b"T").f("56", to.as_bytes()).f("10", b"1");
            w.0
        };
        for i in 0..n {
            let d = if kind == 2 || kind == 4 { one } else { connect(port).await };
            match kind {
                0 => (),
                1 => send_all(d, b"8=FIX.4.3\x019="),
                2 | 3 => send_all(d, &faulty("S1")),
                4 => send_all(d, &inbound("S9", b"m")),
                _ => (),
            }
            if i % 8 == 7 || kind < 4 && kind != 2 {
                nap().await;
            }
            if d != one && kind != 5 {
                net_close(d);
            }
        }
        nap().await;
        let e = connect(port).await;
        for c in [c, e] {
            send_all(c, &inbound("S1", &t));
            nap().await;
            nap().await;
        }
        let got = texts(&log);
        check(got.len() == 2 && got.iter().all(|g| eq_bytes(g.1.as_bytes(), &t)), "the engine no longer handles good messages, or handles others");
        for c in [c, e] {
            check(frames(&received(c)).len() > 0, "a good message is not answered");
        }
        idle().await;
        reach("handled");
    })
}
