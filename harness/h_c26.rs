//! C26: a rejected message is rejected for the fault it has.
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

const TAG: &str = "InvalidTag";
const EMPTY: &str = "TagSpecifiedWithoutValue";
const TWICE: &str = "TagAppearsMoreThanOnce";
const ORDER: &str = "TagSpecifiedOutOfOrder";
const FORMAT: &str = "IncorrectDataFormatForValue";
const COUNT: &str = "IncorrectNumInGroupCountForRepeatingGroup";
const MISSING: &str = "RequiredTagMissing";
const GROUP: &str = "RepeatingGroupsOutOfOrder";

fn judge(dd: &DataDictionary, w: &Wire, want: &[&str]) {
    match no_panic("parsing panics", || Message::from_str(w.str(), dd)) {
        Ok(_) => check(false, "a malformed message is accepted"),
        Err(e) => {
            let t = e.to_string();
            check(want.iter().any(|k| t == format!("Session Level Reject Reason - {}", k)), "a message is rejected for a fault it does not have");
            reach(want[0]);
        }
    }
}
/// A message with every structure; (field, section, in a group).
fn whole() -> Vec<(u32, Vec<u8>, u8, bool)> {
    let mut v = vec![];
    for (t, s) in [(8, "FIX.4.3"), (9, "5"), (35, "D"), (49, "S")] {
        v.push((t, s.as_bytes().to_vec(), 0, false));
    }
    v.push((627, b"2".to_vec(), 0, false));
    for (t, s) in [(628, "a"), (630, "b"), (628, "c")] {
        v.push((t, s.as_bytes().to_vec(), 0, true));
    }
    v.push((34, b"1".to_vec(), 0, false));
    v.push((11, b"o".to_vec(), 1, false));
    v.push((78, b"1".to_vec(), 1, false));
    for (t, s) in [(79, "x"), (80, "y"), (539, "1"), (524, "n"), (538, "r"), (161, "z")] {
        v.push((t, s.as_bytes().to_vec(), 1, true));
    }
    for (t, s, k) in [(58, "t", 1), (93, "1", 2), (10, "000", 2)] {
        v.push((t, s.as_bytes().to_vec(), k, false));
    }
    v
}
fn put(v: &[(u32, Vec<u8>, u8, bool)]) -> Wire {
    let mut w = Wire::new();
    for f in v {
        w.f(&f.0.to_string(), &f.1);
    }
    w
}

/// a field without '=', with a tag that is no number (any 1 to 3 bytes) or without a value, at any place of a message with groups
//@ tier=both reach=InvalidTag,TagSpecifiedWithoutValue
pub fn h_c26_field() {
    let dd = dict();
    let v = whole();
    let at = choice(v.len() as u32) as usize;
    let kind = choice(3);
    let mut w = Wire::new();
    for (i, f) in v.iter().enumerate() {
        if i != at {
            w.f(&f.0.to_string(), &f.1);
            continue;
        }
        match kind {
            0 => {
                // no '='
                for _ in 0..choice(3) {
                    let b = vbyte("text");
                    assume(b != b'=');
                    w.raw(&[b]);
                }
                w.raw(&[S]);
            }
            1 => {
                let n = choice(3) as usize;
                let b: Vec<u8> = (0..n).map(|_| vbyte("tag")).collect();
                let mut ok = n > 0;
                for (i, x) in b.iter().enumerate() {
                    assume(*x != b'=');
                    ok &= (*x >= b'0' + (i == 0) as u8) & (*x <= b'9');
                }
                assume(!ok);
                w.raw(&b).raw(b"=x").raw(&[S]);
            }
            _ => {
                w.f(&f.0.to_string(), b"");
            }
        }
    }
    judge(&dd, &w, &[if kind == 2 { EMPTY } else { TAG }])
}

/// any field of a message with groups, but not of a group, once more at any later place of its section outside the groups
//@ tier=both reach=TagAppearsMoreThanOnce
pub fn h_c26_twice() {
    let dd = dict();
    let mut v = whole();
    let a = choice(v.len() as u32) as usize;
    let b = choice(v.len() as u32 + 1) as usize;
    assume(!v[a].3 && b > a && b >= 3 && v[b - 1].2 == v[a].2);
    // not within a group, nor between a count and its first field
    assume(b == v.len() || !v[b].3);
    let mut f = v[a].clone();
    if f.0 != 627 && f.0 != 78 {
        f.1 = val(1);
    }
    v.insert(b, f);
    judge(&dd, &put(&v), &[TWICE])
}

/// one of the first three fields left out or exchanged with another field; a header field in body or trailer, a body field in the trailer
//@ tier=both reach=TagSpecifiedOutOfOrder
pub fn h_c26_order() {
    let dd = dict();
    let mut v = whole();
    match choice(3) {
        0 => {
            v.remove(choice(3) as usize);
        }
        1 => {
            let (a, b) = (choice(3) as usize, choice(4) as usize);
            assume(a < b);
            v.swap(a, b);
        }
        _ => {
            // a new field of an earlier section
            let s = choice(2) as u8;
            let t = if s == 0 { [56, 52, 57][choice(3) as usize] } else { [48, 55, 999][choice(3) as usize] };
            let at = choice(v.len() as u32) as usize;
            assume(at > 0 && v[at - 1].2 > s && !v[at].3);
            v.insert(at, (t, val(1), s, false));
        }
    }
    judge(&dd, &put(&v), &[ORDER])
}

/// the count of any group any other number of 1 or 2 digits, or any 1 or 2 bytes that are none; no instance at all; members exchanged, twice or left out
//@ tier=both reach=IncorrectNumInGroupCountForRepeatingGroup,IncorrectDataFormatForValue,RequiredTagMissing,RepeatingGroupsOutOfOrder,TagAppearsMoreThanOnce
pub fn h_c26_group() {
    let dd = dict();
    let mut v = whole();
    let pos = |v: &[(u32, Vec<u8>, u8, bool)], t: u32| v.iter().position(|f| f.0 == t).unwrap();
    match choice(7) {
        0 => {
            let t = [627, 78, 539][choice(3) as usize];
            let n = choice(2) as usize + 1;
            let d: Vec<u8> = (0..n).map(|_| digit("count")).collect();
            let right = if t == 627 { 2 } else { 1 };
            assume(num(&d) != Some(right));
            let p = pos(&v, t);
            v[p].1 = d;
            judge(&dd, &put(&v), &[COUNT])
        }
        1 => {
            let t = [627, 78, 539][choice(3) as usize];
            let d = val(choice(2) as usize + 1);
            // a sign before a number is another matter
            assume(num(&d).is_none() && (d[0] != b'+'));
            let p = pos(&v, t);
            v[p].1 = d;
            judge(&dd, &put(&v), &[FORMAT])
        }
        2 => {
            // the first field of the first instance is missing
            let t = [628, 79, 524][choice(3) as usize];
            let p = pos(&v, t);
            v.remove(p);
            judge(&dd, &put(&v), &[MISSING, COUNT])
        }
        3 => {
            // two members exchanged
            let (a, b) = [(80, 539), (80, 161), (539, 161)][choice(3) as usize];
            let (p, q) = (pos(&v, a), pos(&v, b));
            if (a, b) == (80, 539) {
                // the nested group moves with its members
                let f = v.remove(p);
                v.insert(q + 2, f);
            } else if (a, b) == (539, 161) {
                let f = v.remove(q);
                v.insert(p, f);
            } else {
                v.swap(p, q);
            }
            judge(&dd, &put(&v), &[GROUP])
        }
        4 => {
            // a member twice
            let t = [630, 80, 538, 161][choice(4) as usize];
            let p = pos(&v, t);
            let mut f = v[p].clone();
            f.1 = val(1);
            v.insert(p + 1, f);
            judge(&dd, &put(&v), &[TWICE])
        }
        5 => {
            // no instance at all, whatever the count
            let t = [627, 78, 539][choice(3) as usize];
            let p = pos(&v, t);
            let n = match t {
                627 => 3,
                78 => 6,
                _ => 2,
            };
            v.drain(p + 1..p + 1 + n);
            v[p].1 = vec![range("count", b'1', b'9')];
            judge(&dd, &put(&v), &[COUNT])
        }
        _ => {
            // an instance more
            let (t, after) = [(628, 630), (79, 161), (524, 538)][choice(3) as usize];
            let p = pos(&v, after);
            let mut f = v[pos(&v, t)].clone();
            f.1 = val(1);
            v.insert(p + 1, f);
            judge(&dd, &put(&v), &[COUNT])
        }
    }
}
