//! C25: each session has the data dictionary and settings it is configured with.
use super::application::Application;
use super::message::*;
use super::network::*;
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::sync::{Arc, Mutex};

/// Where the dictionary has field 58; the file of each.
#[derive(Clone, Copy, PartialEq)]
enum At {
    Body,
    Trailer,
    Header,
}
/// Ids and settings of two sessions that differ in one part only.
const PARTS: [(&str, [&str; 2]); 4] = [("sender_comp_id", ["S0", "S1"]), ("target_comp_id", ["T", "U"]), ("begin_string", ["FIX.4.3", "FIX.4.2"]), ("sender_sub_id", ["", "B"])];
const FILES: [(&str, At); 2] = [("dict.xml", At::Body), ("other/dict.xml", At::Trailer)];

struct Conf {
    own: [Option<usize>; 2],
    def: Option<usize>,
    /// the part of their ids in which the sessions differ
    part: usize,
}
impl Conf {
    fn any() -> Conf {
        let pick = || match choice(3) {
            0 => None,
            k => Some(k as usize - 1),
        };
        Conf { own: [pick(), pick()], def: pick(), part: choice(PARTS.len() as u32) as usize }
    }
    fn text(&self, ports: [u16; 2], more: &[(&str, Vec<u8>)]) -> Wire {
        let mut w = Wire::new();
        w.raw(b"[Default]\n");
        line(&mut w, "connection_type", b"acceptor");
        line(&mut w, "begin_string", b"FIX.4.3");
        line(&mut w, "sender_comp_id", b"S0");
        line(&mut w, "target_comp_id", b"T");
        if let Some(d) = self.def {
            line(&mut w, "data_dictionary", FILES[d].0.as_bytes());
        }
        for i in 0..2 {
            w.raw(b"[Session]\n");
            if i == 1 {
                let (k, v) = PARTS[self.part];
                line(&mut w, k, v[i].as_bytes());
            }
            line(&mut w, "socket_accept_port", ports[i].to_string().as_bytes());
            if let Some(d) = self.own[i] {
                line(&mut w, "data_dictionary", FILES[d].0.as_bytes());
            }
            if i == 0 {
                for (k, v) in more {
                    line(&mut w, k, v);
                }
            }
        }
        w
    }
    fn want(&self, i: usize) -> At {
        self.own[i].or(self.def).map_or(At::Header, |d| FILES[d].1)
    }
}
impl Conf {
    fn parts(&self, i: usize) -> [&'static str; 4] {
        let mut p = ["S0", "T", "FIX.4.3", ""];
        if i == 1 {
            p[self.part] = PARTS[self.part].1[1];
        }
        p
    }
    fn id(&self, i: usize) -> SessionId {
        let p = self.parts(i);
        let mut b = SessionIdBuilder::new(p[2], p[0], p[1]);
        if p[3] != "" {
            b.sender_subid(p[3]);
        }
        b.build().unwrap()
    }
    /// a message for session `i`
    fn message(&self, i: usize) -> Vec<u8> {
        let p = self.parts(i);
        let mut w = Wire::new();
        w.f("8", p[2].as_bytes()).f("9", b"5").f("35", b"0").f("49", p[1].as_bytes()).f("56", p[0].as_bytes());
        if p[3] != "" {
            w.f("57", p[3].as_bytes());
        }
        w.f("58", b"x").f("10", b"000");
        w.0
    }
}

/// two sessions that differ in any part of their ids, each naming one of two dictionary files or none, and the defaults as well: the session's dictionary
//@ tier=both reach=own,default,none files=dict.xml:dict.xml,other/dict.xml:other/dict.xml,resources/FIX43.xml:resources/FIX43.xml
pub fn h_c25_dictionary() {
    let c = Conf::any();
    let w = c.text([10114, 10115], &[]);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    for i in 0..2 {
        let s = no_panic("a session can not be made from valid settings", || Session::with_settings(&c.id(i), &p));
        check(s.session_id == c.id(i), "a session has another session's id");
        let d = s.data_dictionary();
        let at = match (d.is_header_field(58), d.is_trailer_field(58)) {
            (true, _) => At::Header,
            (_, true) => At::Trailer,
            _ => At::Body,
        };
        check(at == c.want(i), "a session has another data dictionary than configured");
    }
    match (c.own[0], c.def) {
        (Some(_), _) => reach("own"),
        (_, Some(_)) => reach("default"),
        _ => reach("none"),
    }
}

/// a dictionary file that is missing, that is no dictionary, or good, for the first session or the defaults
//@ tier=both reach=refused,made files=dict.xml:dict.xml,bad.xml:bad.xml
pub fn h_c25_file() {
    let c = Conf { own: [None, Some(0)], def: None, part: 0 };
    let f: &[u8] = [&b"dict.xml"[..], b"missing.xml", b"bad.xml", b""][choice(4) as usize];
    let own = flag();
    let set = [("data_dictionary", f.to_vec())];
    let mut w = c.text([10114, 10115], if own { &set[..] } else { &[] });
    if !own {
        let t = String::from_utf8(w.0).unwrap().replacen("target_comp_id", &format!("data_dictionary = \"{}\"\ntarget_comp_id", std::str::from_utf8(f).unwrap()), 1);
        w = Wire(t.into_bytes());
    }
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let s = catch(|| Session::with_settings(&c.id(0), &p));
    check(s.is_some() == (f == b"dict.xml"), "a session without a readable data dictionary is made, or one with is not");
    if s.is_some() {
        reach("made");
    } else {
        reach("refused");
    }
    check(catch(|| Session::with_settings(&c.id(1), &p)).is_some(), "a session is refused for another session's settings");
}

/// heartbeat interval or one of the reset settings of any 1 to 5 printable bytes, for the session or another
//@ tier=both reach=refused,made files=dict.xml:dict.xml
pub fn h_c25_values() {
    let c = Conf { own: [None, None], def: Some(0), part: 0 };
    let n = choice(5) as usize + 1;
    let v: Vec<u8> = (0..n).map(|_| cbyte("value")).collect();
    let k = choice(5) as usize;
    let key = ["heartbeat_interval", "reset_on_logon", "reset_on_logout", "reset_on_disconnect", "no_setting"][k];
    let w = c.text([10114, 10115], &[(key, v.clone())]);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let s = catch(|| Session::with_settings(&c.id(0), &p)).is_some();
    let ok = match k {
        0 => num(if n > 1 && v[0] == b'+' { &v[1..] } else { &v[..] }).is_some(),
        4 => true,
        _ => eq_bytes(&v, b"true") | eq_bytes(&v, b"false"),
    };
    check(s == ok, "a session with an unreadable setting is made, or one with readable settings is not");
    check(catch(|| Session::with_settings(&c.id(1), &p)).is_some(), "a session is refused for another session's settings");
    if s {
        reach("made");
    } else {
        reach("refused");
    }
}

struct Where(Arc<Mutex<Vec<(SessionId, Option<At>)>>>);
impl Application for Where {
    fn to_app(_: String) {}
    fn from_app(&self, id: &SessionId, _: &SessionMap, m: Message) {
        let at = if get(m.header(), 58).is_some() {
            Some(At::Header)
        } else if get(&m.body, 58).is_some() {
            Some(At::Body)
        } else if get(m.trailer(), 58).is_some() {
            Some(At::Trailer)
        } else {
            None
        };
        self.0.lock().unwrap().push((id.clone(), at));
    }
}
/// the whole acceptor: two sessions that differ in any part of their ids, with or without a dictionary of their own, up to 3 messages to either over either connection
//@ tier=both reach=handed files=dict.xml:dict.xml,other/dict.xml:other/dict.xml,resources/FIX43.xml:resources/FIX43.xml
pub fn h_c25_messages() {
    let c = Conf::any();
    let ports = [free_port(0), free_port(1)];
    let w = c.text(ports, &[]);
    let p = no_panic("reading a valid configuration panics", || Properties::from_str(w.str()));
    let log: Arc<Mutex<Vec<(SessionId, Option<At>)>>> = Default::default();
    let mut acc = no_panic("an acceptor can not be made from valid settings", || SocketAcceptor::new(p, Where(log.clone())));
    run(async {
        acc.start_accepting_connections();
        let mut want = vec![];
        let cs = [connect(ports[0]).await, connect(ports[1]).await];
        for _ in 0..choice(3) + 1 {
            let i = choice(2) as usize;
            send_all(cs[i], &c.message(i));
            nap().await;
            want.push((c.id(i), Some(c.want(i))));
        }
        nap().await;
        let got = log.lock().unwrap();
        check(got.len() == want.len(), "a message is not handed to the application");
        for (g, w) in got.iter().zip(&want) {
            check(g.0 == w.0, "a message is handed on for another session");
            check(g.1 == w.1, "a message is read by another data dictionary than its session's");
        }
        reach("handed");
    })
}
