//! C28: the default application answers every accepted message with a logon.
use super::application::*;
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::network::*;
use super::verif_common::*;
use super::verif_rt::*;

fn acceptor(sessions: &[(&str, u16)]) -> SocketAcceptor<DefaultApplication> {
    SocketAcceptor::new(stack_config(sessions), DefaultApplication::new())
}
/// The logons a connection got.
fn logons(c: i32, dd: &DataDictionary, time: Option<&[u8]>) -> usize {
    let s = received(c);
    let f = frames(&s);
    check(f.concat().len() == s.len(), "an answer is sent incompletely");
    for m in &f {
        complete(m);
        let t = std::str::from_utf8(m).unwrap();
        match no_panic("reading an answer panics", || Message::from_str(t, dd)) {
            Ok(m) => {
                check(get(m.header(), 35).as_deref() == Some("A"), "an answer is no logon");
                if let (Some(want), Some(got)) = (time, get(m.header(), 52)) {
                    check(eq_bytes(got.as_bytes(), want), "the sending time of an answer is not the present time");
                }
                check(get(m.header(), 52).is_some(), "an answer has no sending time");
                check(get(m.header(), 49).is_some() & get(m.header(), 56).is_some() & get(m.header(), 34).is_some(), "an answer lacks a required field of the header");
                check(get(&m.body, 98).is_some() & get(&m.body, 108).is_some(), "an answer lacks a required field of a logon");
            }
            Err(_) => check(false, "an answer is no well-formed message"),
        }
    }
    f.len()
}

/// two sessions, of different senders or targets, at ports of their own; 1 to 3 messages with a text of any byte, each to any of them, good or faulty, the one before answered first or not
//@ tier=both reach=answered,ignored files=dict.xml:dict.xml
pub fn h_c28_answers() {
    let dd = dict();
    let p = [free_port(0), free_port(1)];
    let id = if flag() { ["S1", "S2"] } else { ["S1", "S1>U"] };
    let mut acc = acceptor(&[(id[0], p[0]), (id[1], p[1])]);
    config(3, 2);
    run(async {
        acc.start_accepting_connections();
        let c = [connect(p[0]).await, connect(p[1]).await];
        let (mut want, mut seen) = ([0, 0], [0, 0]);
        let n = choice(3) + 1;
        let wait = flag();
        for _ in 0..n {
            let k = choice(2) as usize;
            let m = inbound(id[k], &[vbyte("text")]);
            if flag() {
                want[k] += 1;
                send_all(c[k], &m);
            } else {
                // without a text, or with a second one
                if flag() {
                    send_all(c[k], &inbound(id[k], b""));
                } else {
                    send_all(c[k], &inbound(id[k], b"x\x0158=y"));
                }
                reach("ignored");
            }
            if wait {
                nap().await;
                for k in 0..2 {
                    seen[k] += logons(c[k], &dd, None);
                    check(seen[k] == want[k], "a message is not answered by exactly one logon");
                }
            }
        }
        nap().await;
        nap().await;
        for k in 0..2 {
            seen[k] += logons(c[k], &dd, None);
            check(seen[k] == want[k], "a message is not answered by exactly one logon");
        }
        reach("answered");
    })
}

/// a message that comes at any second of a minute, any minute of an hour or any hour, on 3 days
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c28_time() {
    let dd = dict();
    let p = free_port(0);
    let mut acc = acceptor(&[("S1", p)]);
    let d = [19723i64, 20088, 19782][choice(3) as usize];
    let sod = match choice(3) {
        0 => range("second", 0, 59) as i64 + 9 * 3600,
        1 => range("minute", 0, 59) as i64 * 60 + 59,
        _ => range("hour", 0, 23) as i64 * 3600 + 3599,
    };
    set_clock_nanos(d * 86400 + sod, 45_000_000);
    let want = stamp(d, sod, 45_000_000);
    run(async {
        acc.start_accepting_connections();
        let c = connect(p).await;
        send_all(c, &inbound("S1", b"t"));
        nap().await;
        nap().await;
        check(logons(c, &dd, Some(&want)) == 1, "a message is not answered by exactly one logon");
        reach("answered");
    })
}

/// two messages, of one of two sessions or of both, each at any second of a minute, any minute of an hour or any hour, the second of them on this or on another day
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c28_times() {
    let dd = dict();
    let p = [free_port(0), free_port(1)];
    let mut acc = acceptor(&[("S1", p[0]), ("S2", p[1])]);
    run(async {
        acc.start_accepting_connections();
        let c = [connect(p[0]).await, connect(p[1]).await];
        let mut d = 19723i64;
        for k in [0, choice(2) as usize] {
            let sod = match choice(3) {
                0 => range("second", 0, 59) as i64 + 9 * 3600,
                1 => range("minute", 0, 59) as i64 * 60 + 59,
                _ => range("hour", 0, 23) as i64 * 3600 + 3599,
            };
            set_clock_nanos(d * 86400 + sod, 45_000_000);
            send_all(c[k], &inbound(["S1", "S2"][k], b"t"));
            nap().await;
            nap().await;
            check(logons(c[k], &dd, Some(&stamp(d, sod, 45_000_000))) == 1, "a message is not answered by exactly one logon");
            check(received(c[1 - k]).is_empty(), "a connection gets an answer to a message of another");
            d += [0, 1][choice(2) as usize];
        }
        reach("answered");
    })
}

/// a message of any type of one printable character, with a field of any tag, or of a header field
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c28_kinds() {
    let dd = dict();
    let p = free_port(0);
    let mut acc = acceptor(&[("S1", p)]);
    let kind = range("type", 0x21, 0x7e);
    let tag = if flag() { body_tag() } else { [34, 52][choice(2) as usize] };
    run(async {
        acc.start_accepting_connections();
        let c = connect(p).await;
        send_all(c, &inbound_of("S1", &[kind], &tag.to_string(), b"t"));
        nap().await;
        nap().await;
        check(logons(c, &dd, None) == 1, "a message is not answered by exactly one logon");
        reach("answered");
    })
}

/// 20 to 70 messages (at 3 numbers), each answered before the next comes, on one connection or each on a new one, or of one session while the other one's are not answered (it is unknown); then one of any text
//@ tier=both reach=answered files=dict.xml:dict.xml steps=100M
pub fn h_c28_many() {
    let dd = dict();
    let p = free_port(0);
    let mut acc = acceptor(&[("S1", p)]);
    let n = [20, 40, 70][choice(3) as usize];
    let kind = choice(3);
    let t = [vbyte("text")];
    run(async {
        acc.start_accepting_connections();
        let mut c = connect(p).await;
        for i in 0..n {
            if kind == 1 {
                net_close(c);
                c = connect(p).await;
            }
            if kind == 2 && i % 2 == 1 {
                send_all(c, &inbound("S9", b"m"));
                continue;
            }
            send_all(c, &inbound("S1", b"m"));
            nap().await;
            check(frames(&received(c)).len() == 1, "a message is not answered by exactly one logon");
        }
        send_all(c, &inbound("S1", &t));
        nap().await;
        nap().await;
        check(logons(c, &dd, None) == 1, "a message is not answered by exactly one logon");
        reach("answered");
    })
}

/// a message with a character of two, three or four bytes, any two bytes or any last byte, to a session whose id has one or not
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c28_utf8() {
    let dd = dict();
    let p = free_port(0);
    let id = ["S1", "\u{dc}", "S\u{20ac}>\u{1f600}"][choice(3) as usize];
    let mut acc = acceptor(&[(id, p)]);
    let v = character("text");
    run(async {
        acc.start_accepting_connections();
        let c = connect(p).await;
        send_all(c, &inbound(id, &v));
        nap().await;
        nap().await;
        check(logons(c, &dd, None) == 1, "a message is not answered by exactly one logon");
        reach("answered");
    })
}
