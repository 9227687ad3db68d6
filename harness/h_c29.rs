//! C29: every session is served at its configured port.
use super::application::Application;
use super::message::*;
use super::network::*;
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::sync::{Arc, Mutex};

fn config_text(def: Option<u16>, own: &[Option<u16>]) -> Wire {
    let mut w = Wire::new();
    w.raw(b"[Default]\n");
    line(&mut w, "connection_type", b"acceptor");
    line(&mut w, "begin_string", b"FIX.4.3");
    line(&mut w, "target_comp_id", b"T");
    line(&mut w, "data_dictionary", b"dict.xml");
    if let Some(p) = def {
        line(&mut w, "socket_accept_port", p.to_string().as_bytes());
    }
    for (i, p) in own.iter().enumerate() {
        w.raw(b"[Session]\n");
        line(&mut w, "sender_comp_id", format!("S{}", i).as_bytes());
        if let Some(p) = p {
            line(&mut w, "socket_accept_port", p.to_string().as_bytes());
        }
    }
    w
}
fn start(w: &Wire) -> (SocketAcceptor<Recorder>, Log) {
    let log: Log = Default::default();
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let app = Recorder { log: log.clone(), sessions: Default::default(), answers: 1 };
    (no_panic("making an acceptor from a valid configuration panics", || SocketAcceptor::new(p, app)), log)
}
/// A message for session `k` at `port` is handed on and answered.
async fn served(k: usize, port: u16, log: &Log) {
    served_as(&format!("S{}", k), port, log).await
}
async fn served_as(s: &str, port: u16, log: &Log) {
    let c = connect(port).await;
    send_all(c, &inbound(s, b"m"));
    nap().await;
    nap().await;
    let got = std::mem::take(&mut *log.lock().unwrap());
    check(got.len() == 1, "a session is not served at its port");
    check(got.iter().all(|g| g.0 == printed(s)), "a message is handed on for another session");
    check(frames(&received(c)).len() == 1, "a session is not answered at its port");
    net_close(c);
    nap().await;
    reach("served");
}

/// three sessions, each with a port of its own, any of 3, or that of the defaults, any of 3: every session is served there, no other port is open
//@ tier=both reach=served,shared files=dict.xml:dict.xml
pub fn h_c29_ports() {
    let p = [free_port(0), free_port(1), free_port(2)];
    let pick = || match choice(4) {
        0 => None,
        k => Some(p[k as usize - 1]),
    };
    let def = pick();
    let own = [pick(), pick(), pick()];
    let port: Vec<Option<u16>> = own.iter().map(|o| o.or(def)).collect();
    assume(port.iter().all(|p| p.is_some()));
    let (mut acc, log) = start(&config_text(def, &own));
    run(async {
        acc.start_accepting_connections();
        nap().await;
        nap().await;
        for q in p {
            check(net_listening(q) == port.contains(&Some(q)), "the open ports are not those of the sessions");
        }
        for k in 0..3 {
            served(k, port[k].unwrap(), &log).await;
        }
        if port[0] == port[1] {
            reach("shared");
        }
    })
}
/// a port of 5 digits, any two of them the last ones, own or default
//@ tier=both reach=served files=dict.xml:dict.xml validate=no
pub fn h_c29_number() {
    let (a, b) = (digit("port"), digit("port"));
    let q = 21300 + concretize((a - b'0') as u64 * 10 + (b - b'0') as u64) as u16;
    let own = flag();
    let (mut acc, log) = start(&config_text(if own { Some(q + 1) } else { Some(q) }, &[if own { Some(q) } else { None }]));
    run(async {
        acc.start_accepting_connections();
        nap().await;
        check(!net_listening(q + 1), "the open ports are not those of the sessions");
        served(0, q, &log).await;
    })
}
/// 5 to 24 sessions (at 3 numbers), each at a port of its own or all at one; any of them is served
//@ tier=both reach=served files=dict.xml:dict.xml steps=100M
pub fn h_c29_many() {
    let n = [5usize, 12, 24][choice(3) as usize];
    let one = flag();
    let own: Vec<Option<u16>> = (0..n).map(|i| if one { None } else { Some(free_port(i as u16)) }).collect();
    let def = free_port(50);
    let (mut acc, log) = start(&config_text(Some(def), &own));
    run(async {
        acc.start_accepting_connections();
        nap().await;
        let k = choice(n as u32) as usize;
        served(k, own[k].unwrap_or(def), &log).await;
    })
}

/// two sessions whose ids differ in one part (of 4), each at any of two ports
//@ tier=both reach=served files=dict.xml:dict.xml
pub fn h_c29_ids() {
    let p = [free_port(0), free_port(1)];
    let names = [["S1", "S2"], ["S1", "S1>U"], ["S1", "S1/A"], ["S1>T/B", "S1>T/C"]][choice(4) as usize];
    let at = [p[choice(2) as usize], p[choice(2) as usize]];
    let log: Log = Default::default();
    let app = Recorder { log: log.clone(), sessions: Default::default(), answers: 1 };
    let mut acc = SocketAcceptor::new(stack_config(&[(names[0], at[0]), (names[1], at[1])]), app);
    run(async {
        acc.start_accepting_connections();
        nap().await;
        nap().await;
        for q in p {
            check(net_listening(q) == at.contains(&q), "the open ports are not those of the sessions");
        }
        for k in 0..2 {
            served_as(names[k], at[k], &log).await;
        }
    })
}
