//! C20: messages come out of a connection as they were sent.
use super::io::acceptor::*;
use super::verif_common::*;
use super::verif_rt::*;
use tokio::sync::mpsc;

/// Sends `s` in pieces cut at `cuts`; every piece arrives on its own.
async fn deliver(s: &[u8], cuts: &[usize]) -> Vec<String> {
    let port = free_port(0);
    let (tx, mut rx) = mpsc::channel::<String>(64);
    let (acc, _out) = IoAcceptor::create(([127, 0, 0, 1], port).into(), tx);
    acc.start();
    let c = connect(port).await;
    let mut a = 0;
    let mut got = vec![];
    for b in cuts.iter().copied().chain([s.len()]) {
        if b > a {
            check(net_send(c, &s[a..b]), "the connection is closed");
            nap().await;
            a = b;
        }
        while let Ok(m) = rx.try_recv() {
            got.push(m);
        }
    }
    net_close(c);
    loop {
        nap().await;
        let n = got.len();
        while let Ok(m) = rx.try_recv() {
            got.push(m);
        }
        if got.len() == n {
            break;
        }
    }
    got
}
fn judge(s: &[u8], cuts: &[usize]) {
    let want = frames(s);
    let got = no_panic("reading a connection panics", || run(deliver(s, cuts)));
    check(got.len() == want.len(), "messages are lost, split, merged or repeated");
    if got.len() == want.len() {
        for i in 0..want.len() {
            check(eq_bytes(got[i].as_bytes(), &want[i]), "a message is not delivered as it was sent");
        }
    }
    if want.len() > 0 {
        reach("delivered");
    } else {
        reach("none");
    }
}

/// two messages, cut into up to 3 pieces at any places
//@ tier=both reach=delivered
pub fn h_c20_cuts() {
    let mut s = Wire::new();
    s.f("8", b"FIX.4.3").f("35", b"0").f("10", b"001").f("8", b"X").f("110", b"10=").f("10", b"2");
    let n = s.0.len() as u32;
    let a = choice(n) as usize;
    let b = a + choice(n - a as u32) as usize;
    judge(&s.0, &[a, b]);
}
/// a stream of 6 bytes of any ASCII value after a field and before "10=1", cut at any place
//@ tier=both reach=delivered
pub fn h_c20_bytes() {
    let mut s = Wire::new();
    s.f("8", b"F");
    for _ in 0..6 {
        s.raw(&[range("byte", 0, 127)]);
    }
    s.raw(b"\x0110=1\x01");
    let a = choice(s.0.len() as u32) as usize;
    judge(&s.0, &[a]);
}
/// the whole acceptor: up to 3 messages of any one byte of text, cut once at any place, handed to the application in order, once each
//@ tier=both reach=handed files=dict.xml:dict.xml
pub fn h_c20_application() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 0);
    config(3, 3);
    let n = choice(3) as usize + 1;
    let v: Vec<u8> = (0..n).map(|_| vbyte("text")).collect();
    let mut s = vec![];
    for b in &v {
        s.extend(inbound("S1", &[*b]));
    }
    let cut = choice(s.len() as u32) as usize;
    run(async {
        acc.start_accepting_connections();
        let c = connect(port).await;
        send_all(c, &s[..cut]);
        nap().await;
        send_all(c, &s[cut..]);
        nap().await;
        nap().await;
        let got = log.lock().unwrap();
        check(got.len() == n, "messages are not handed to the application once each");
        if got.len() == n {
            for i in 0..n {
                check(got[i].0 == "FIX.4.3:S1->T", "a message is handed over for another session");
                check(eq_bytes(got[i].1.as_bytes(), &[v[i]]), "a message is not handed over as it was sent");
            }
        }
        reach("handed");
    })
}
/// 1 to 200 messages (at 9 counts) in one piece, one of them of up to 70000 bytes, the application slow to take them
//@ tier=both reach=delivered
pub fn h_c20_burst() {
    let n = [1usize, 2, 31, 32, 63, 64, 65, 66, 200][choice(9) as usize];
    let long = [1usize, 1000, 1024, 8191, 8192, 20000, 65535, 70000][choice(8) as usize];
    let at = choice(3) as usize * (n - 1) / 2;
    let mut s = vec![];
    for i in 0..n {
        let mut w = Wire::new();
        w.f("8", i.to_string().as_bytes());
        if i == at {
            w.f("58", &vec![b'x'; long]);
        }
        s.extend(w.f("10", b"1").0.clone());
    }
    judge(&s, &[]);
}
/// a message with a character of two bytes, any of them, cut at any place
//@ tier=both reach=delivered
pub fn h_c20_utf8() {
    let mut s = Wire::new();
    s.f("8", b"F").raw(b"58=").raw(&[range("lead", 0xc2, 0xdf), range("trail", 0x80, 0xbf)]).raw(b"\x0110=1\x01");
    let a = choice(s.0.len() as u32) as usize;
    judge(&s.0, &[a]);
}
/// two connections at a time, each sending two messages cut at any place, the pieces in any of 6 orders
//@ tier=both reach=delivered
pub fn h_c20_two() {
    let text = |x: &[u8]| {
        let mut w = Wire::new();
        w.f("8", x).f("10", b"1").f("8", x).f("58", b"y").f("10", b"2");
        w.0
    };
    let s = [text(b"a"), text(b"b")];
    let cut = [choice(s[0].len() as u32 - 1) as usize + 1, choice(s[1].len() as u32 - 1) as usize + 1];
    let order = [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]][choice(6) as usize];
    let got = run(async {
        let port = free_port(0);
        let (tx, mut rx) = mpsc::channel::<String>(64);
        let (acc, _out) = IoAcceptor::create(([127, 0, 0, 1], port).into(), tx);
        acc.start();
        let c = [connect(port).await, net_connect(port)];
        check(c[1] >= 0, "a second connection is refused");
        let mut at = [0, 0];
        for k in order {
            let end = if at[k] == 0 { cut[k] } else { s[k].len() };
            send_all(c[k], &s[k][at[k]..end]);
            at[k] = end;
            nap().await;
        }
        nap().await;
        let mut got = vec![];
        while let Ok(m) = rx.try_recv() {
            got.push(m);
        }
        got
    });
    for x in [b'a', b'b'] {
        let own: Vec<&String> = got.iter().filter(|m| m.as_bytes()[2] == x).collect();
        let want = frames(&s[(x - b'a') as usize]);
        check(own.len() == 2, "messages are lost, split, merged or repeated");
        check(own.iter().zip(&want).all(|(g, w)| g.as_bytes() == &w[..]), "a message is not delivered as it was sent");
    }
    check(got.len() == 4, "messages are lost, split, merged or repeated");
    reach("delivered");
}

/// the whole acceptor with two sessions of ids that differ in one part (of 4): a message of any type of one printable character, with a field of any tag, to any of them
//@ tier=both reach=handed files=dict.xml:dict.xml
pub fn h_c20_kinds() {
    let port = free_port(0);
    let names = [["S1", "S2"], ["S1", "S1>U"], ["S1", "S1/A"], ["S1>T/B", "S1>T/C"]][choice(4) as usize];
    let (mut acc, log) = stack(&[(names[0], port), (names[1], port)], 0);
    let k = names[choice(2) as usize];
    let (kind, text) = (range("type", 0x21, 0x7e), vbyte("text"));
    let tag = body_tag();
    run(async {
        acc.start_accepting_connections();
        let c = connect(port).await;
        send_all(c, &inbound_of(k, &[kind], &tag.to_string(), &[text]));
        nap().await;
        nap().await;
        let got = log.lock().unwrap();
        check(got.len() == 1, "messages are not handed to the application once each");
        for g in got.iter() {
            check(g.0 == printed(k), "a message is handed over for another session");
            check(eq_bytes(g.1.as_bytes(), &[text]), "a message is not handed over as it was sent");
        }
        reach("handed");
    })
}

/// the whole acceptor: a peer that waits for 1, 12 or 35 seconds before, within (after any of 5 bytes or fields) or between two messages; handed to the application all the same
//@ tier=both reach=handed files=dict.xml:dict.xml validate=no native_timeout=90
pub fn h_c20_pause() {
    let port = free_port(0);
    let (mut acc, log) = stack(&[("S1", port)], 1);
    let secs = [1, 12, 35][choice(3) as usize];
    let m = [inbound("S1", &[vbyte("text")]), inbound("S1", b"y")];
    let n = m[0].len();
    let cut = [0, 1, 10, 12, n - 4, n - 1, n][choice(7) as usize];
    run(async {
        acc.start_accepting_connections();
        let c = connect(port).await;
        send_all(c, &m[0][..cut]);
        nap().await;
        tokio::time::sleep(std::time::Duration::from_secs(secs)).await;
        send_all(c, &m[0][cut..]);
        send_all(c, &m[1]);
        nap().await;
        nap().await;
        check(log.lock().unwrap().len() == 2, "messages are lost, split, merged or repeated");
        let got = frames(&received(c)).len();
        check(got == 2, "messages are lost, split, merged or repeated");
        reach("handed");
    })
}
