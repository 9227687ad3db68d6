//! C30: the session map the application is handed.
use super::application::*;
use super::message::*;
use super::network::*;
use super::session::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::sync::{Arc, Mutex};

fn id(b: u8) -> SessionId {
    SessionIdBuilder::new("FIX.4.3", std::str::from_utf8(&[b]).unwrap(), "T").build().unwrap()
}
/// a session marked by the id it holds
fn marked(m: u8) -> Session {
    let mut s = Session::default();
    s.session_id = id(m);
    s
}
fn history(k: u32) {
    let mut model: Vec<(u8, u8)> = vec![];
    let first = match choice(3) {
        0 => SessionMap::default(),
        n => {
            model = (0..n).map(|i| (b'P' + i as u8, b'0' + i as u8)).collect();
            SessionMap::from_iter(model.iter().map(|(i, m)| (id(*i), marked(*m))))
        }
    };
    let maps = [first.clone(), first];
    for i in 0..k {
        let m = &maps[choice(2) as usize];
        let (b, mark) = (vbyte("id"), b'a' + i as u8);
        let at = model.iter().position(|x| x.0 == b);
        match choice(3) {
            0 => {
                m.insert_session(id(b), marked(mark));
                match at {
                    Some(i) => model[i].1 = mark,
                    None => model.push((b, mark)),
                }
            }
            1 => {
                m.entry(&id(b)).and_modify(|s| s.session_id = id(mark));
                if let Some(i) = at {
                    model[i].1 = mark;
                }
            }
            _ => {
                m.entry(&id(b)).or_insert(marked(mark));
                if at.is_none() {
                    model.push((b, mark));
                }
            }
        }
    }
    let q = vbyte("asked");
    let want = model.iter().find(|x| x.0 == q).map(|x| id(x.1));
    for m in &maps {
        let got = m.get_session(&id(q)).map(|s| s.session_id.clone());
        check(got == want, "a session is not found as it was last put into the map");
        let all = m.key_values_map();
        check(all.len() == model.len(), "the sessions listed are not those in the map");
        let same = model.iter().all(|(k, v)| all.get(&id(*k)).map_or(false, |s| s.session_id == id(*v)));
        check(same, "the sessions listed are not those in the map");
    }
    reach(if want.is_some() { "found" } else { "absent" });
}
/// a map of 0 to 2 sessions, then 2 operations (insert, change, add if absent) on sessions of any id of one printable byte, each through any of two copies
//@ tier=quick reach=found,absent
pub fn h_c30_map() {
    history(2)
}
/// the same with 3 operations
//@ tier=thorough reach=found,absent
pub fn h_c30_map_t() {
    history(3)
}
/// 9 to 70 sessions (at 4 numbers) in a map, any of them looked up, changed or put in again
//@ tier=both reach=found
pub fn h_c30_many() {
    let n = [9usize, 17, 33, 70][choice(4) as usize];
    let name = |i: usize| SessionIdBuilder::new("FIX.4.3", &format!("S{}", i), "T").build().unwrap();
    let m = SessionMap::default();
    for i in 0..n {
        let mut s = Session::default();
        s.session_id = name(i);
        m.insert_session(name(i), s);
    }
    let at = choice(n as u32) as usize;
    let kind = choice(3);
    match kind {
        0 => (),
        1 => {
            m.entry(&name(at)).and_modify(|s| s.session_id = id(b'x'));
        }
        _ => m.insert_session(name(at), marked(b'x')),
    }
    let all = m.clone().key_values_map();
    check(all.len() == n, "the sessions listed are not those in the map");
    for i in 0..n {
        let want = if i == at && kind > 0 { id(b'x') } else { name(i) };
        check(m.get_session(&name(i)).map_or(false, |s| s.session_id == want), "a session is not found as it was last put into the map");
        check(all.get(&name(i)).map_or(false, |s| s.session_id == want), "the sessions listed are not those in the map");
    }
    check(m.get_session(&name(n)).is_none(), "a session is found that is not in the map");
    reach("found");
}

/// Uses the map in one of several ways while it handles a message, then answers with its text.
struct User {
    uses: Vec<u32>,
    n: Mutex<usize>,
    kept: Mutex<Option<SessionMap>>,
    added: Mutex<bool>,
    bad: Arc<Mutex<Vec<u32>>>,
}
const OTHER: [&str; 2] = ["S2", "S1"];
impl Application for User {
    fn to_app(_: String) {}
    fn from_app(&self, sid: &SessionId, sessions: &SessionMap, msg: Message) {
        let t = msg.body.get_field::<String>(58).unwrap_or_default();
        let i = {
            let mut n = self.n.lock().unwrap();
            *n += 1;
            *n - 1
        };
        let other = session_of(OTHER[(sid == &session_of("S2")) as usize]);
        let ok = match self.uses[i % self.uses.len()] {
            0 => {
                let all = sessions.key_values_map();
                all.len() == 2 + *self.added.lock().unwrap() as usize && all.contains_key(sid) && all.contains_key(&other) && all.iter().all(|(k, s)| *k == session_of("S3") || s.session_id == *k)
            }
            1 => {
                let a = sessions.get_session(sid).map(|s| s.session_id.clone());
                let b = sessions.get_session(&other).map(|s| s.session_id.clone());
                a.as_ref() == Some(sid) && b.as_ref() == Some(&other) && sessions.get_session(&session_of("S3")).is_some() == *self.added.lock().unwrap()
            }
            2 => {
                let mut seen = false;
                sessions.entry(sid).and_modify(|s| seen = s.session_id == *sid);
                seen
            }
            3 => {
                let s = sessions.get_session(&other).map(|s| s.clone());
                s.map(|s| sessions.insert_session(other.clone(), s)).is_some()
            }
            4 => {
                let s = sessions.get_session(sid).map(|s| s.clone());
                s.map(|s| sessions.insert_session(sid.clone(), s)).is_some()
            }
            5 => {
                Session::sync_send_to_target(&other, sessions, answer(&t, 1));
                true
            }
            6 => {
                // one more session than configured
                sessions.insert_session(session_of("S3"), Session::default());
                *self.added.lock().unwrap() = true;
                let there = sessions.clone().get_session(&session_of("S3")).is_some();
                there
            }
            7 => {
                // answered by a copy of the map, the one of an earlier message if there is one
                let map = self.kept.lock().unwrap().get_or_insert_with(|| sessions.clone()).clone();
                Session::sync_send_to_target(sid, &map, answer(&t, 0));
                let there = map.get_session(&session_of("S3")).is_some();
                there == *self.added.lock().unwrap()
            }
            8 => {
                // to a session that is not in the map, or has no connection to be sent to
                Session::sync_send_to_target(&session_of("S3"), sessions, answer(&t, 0));
                true
            }
            _ => {
                // answered from another thread
                let (map, sid, t) = (sessions.clone(), sid.clone(), t.clone());
                std::thread::spawn(move || Session::sync_send_to_target(&sid, &map, answer(&t, 0))).join().is_ok()
            }
        };
        if !ok {
            self.bad.lock().unwrap().push(self.uses[i % self.uses.len()]);
        }
        if self.uses[i % self.uses.len()] < 7 || self.uses[i % self.uses.len()] == 8 {
            Session::sync_send_to_target(sid, sessions, answer(&t, 0));
        }
    }
}
/// an application that uses the map in any of 10 ways for each of two messages, of any of two sessions and any byte of text, before it answers
//@ tier=both reach=answered files=dict.xml:dict.xml
pub fn h_c30_app() {
    let p = [free_port(0), free_port(1)];
    let bad: Arc<Mutex<Vec<u32>>> = Default::default();
    let uses = vec![choice(10), choice(10)];
    let mut acc = SocketAcceptor::new(stack_config(&[("S1", p[0]), ("S2", p[1])]), User { uses: uses.clone(), n: Mutex::new(0), kept: Default::default(), added: Default::default(), bad: bad.clone() });
    run(async {
        acc.start_accepting_connections();
        let c = [connect(p[0]).await, connect(p[1]).await];
        for i in 0..2 {
            let (k, b) = (choice(2) as usize, vbyte("text"));
            send_all(c[k], &inbound(["S1", "S2"][k], &[b]));
            nap().await;
            nap().await;
            let got = received(c[k]);
            let want = answer(std::str::from_utf8(&[b]).unwrap(), 0).to_string();
            check(eq_bytes(&got, want.as_bytes()), "a message is not handled and answered when the application uses the map");
            let sent = received(c[1 - k]);
            if uses[i] == 5 {
                let want = answer(std::str::from_utf8(&[b]).unwrap(), 1).to_string();
                check(eq_bytes(&sent, want.as_bytes()), "a message to another session does not reach its connection");
            } else {
                check(sent.is_empty(), "a connection gets messages not meant for it");
            }
        }
        check(bad.lock().unwrap().is_empty(), "the application is not handed the map of the configured sessions");
        reach("answered");
    })
}
