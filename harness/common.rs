//! Shared by the harnesses: a small FIX dictionary and message builders.
#![allow(dead_code)]
use super::data_dictionary::DataDictionary;
use super::message::*;
use super::verif_rt::*;
use std::str::FromStr;

pub const S: u8 = 1;

/// A dictionary with every structural feature of the FIX 4.3 one: header group,
/// trailer with optional fields, component, group and nested group.
pub const DICT: &str = r#"<fix type="FIX" major="4" minor="3">
<header>
<field name="BeginString" required="Y"/><field name="BodyLength" required="Y"/><field name="MsgType" required="Y"/>
<field name="SenderCompID" required="Y"/><field name="TargetCompID" required="Y"/><field name="MsgSeqNum" required="Y"/>
<field name="SendingTime" required="N"/><field name="SenderSubID" required="N"/><field name="TargetSubID" required="N"/>
<group name="NoHops" required="N"><field name="HopCompID" required="N"/><field name="HopRefID" required="N"/></group>
</header>
<trailer><field name="SignatureLength" required="N"/><field name="Signature" required="N"/><field name="CheckSum" required="Y"/></trailer>
<messages>
<message name="Heartbeat" msgtype="0" msgcat="admin"><field name="Text" required="N"/></message>
<message name="Order" msgtype="D" msgcat="app">
<field name="ClOrdID" required="Y"/><component name="Inst" required="Y"/>
<group name="NoAllocs" required="N"><field name="AllocAccount" required="Y"/><field name="AllocQty" required="N"/>
<group name="NoNested" required="N"><field name="NestedID" required="Y"/><field name="NestedRole" required="N"/></group>
<field name="AllocText" required="N"/></group>
<field name="Text" required="N"/></message>
</messages>
<components><component name="Inst"><field name="Symbol" required="Y"/><field name="SecurityID" required="N"/></component></components>
<fields>
<field number="8" name="BeginString" type="STRING"/><field number="9" name="BodyLength" type="LENGTH"/><field number="35" name="MsgType" type="STRING"/>
<field number="49" name="SenderCompID" type="STRING"/><field number="56" name="TargetCompID" type="STRING"/><field number="34" name="MsgSeqNum" type="SEQNUM"/>
<field number="52" name="SendingTime" type="UTCTIMESTAMP"/><field number="50" name="SenderSubID" type="STRING"/><field number="57" name="TargetSubID" type="STRING"/>
<field number="627" name="NoHops" type="NUMINGROUP"/><field number="628" name="HopCompID" type="STRING"/><field number="630" name="HopRefID" type="SEQNUM"/>
<field number="93" name="SignatureLength" type="LENGTH"/><field number="89" name="Signature" type="DATA"/><field number="10" name="CheckSum" type="STRING"/>
<field number="58" name="Text" type="STRING"/><field number="11" name="ClOrdID" type="STRING"/><field number="55" name="Symbol" type="STRING"/><field number="48" name="SecurityID" type="STRING"/>
<field number="78" name="NoAllocs" type="NUMINGROUP"/><field number="79" name="AllocAccount" type="STRING"/><field number="80" name="AllocQty" type="QTY"/>
<field number="539" name="NoNested" type="NUMINGROUP"/><field number="524" name="NestedID" type="STRING"/><field number="538" name="NestedRole" type="INT"/>
<field number="161" name="AllocText" type="STRING"/>
</fields></fix>"#;

pub fn dict() -> DataDictionary {
    DataDictionary::from_str(DICT).unwrap()
}

/// Byte buffer builder for wire text.
#[derive(Clone)]
pub struct Wire(pub Vec<u8>);
impl Wire {
    pub fn new() -> Self {
        Wire(Vec::with_capacity(256))
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    /// tag=value SOH
    pub fn f(&mut self, tag: &str, v: &[u8]) -> &mut Self {
        self.raw(tag.as_bytes()).raw(b"=").raw(v).raw(&[S])
    }
    pub fn str(&self) -> &str {
        match std::str::from_utf8(&self.0) {
            Ok(s) => s,
            Err(_) => {
                assume(false);
                unreachable!()
            }
        }
    }
}

/// A printable byte that can stand in a FIX value (no SOH); `=` is allowed.
pub fn vbyte(name: &str) -> u8 {
    range(name, 0x20, 0x7e)
}
pub fn digit(name: &str) -> u8 {
    range(name, b'0', b'9')
}
/// Reads a field of the message as text.
pub fn get(m: &super::message::FieldMap, tag: u32) -> Option<String> {
    m.get_field::<String>(tag).ok()
}

// ---- an independent model of the message grammar over DICT ----
pub type Fld = (u32, Vec<u8>);
pub struct Gram {
    pub count: u32,
    /// members[0] is the delimiter
    pub members: &'static [u32],
    pub sub: &'static [Gram],
}
pub static HOPS: Gram = Gram { count: 627, members: &[628, 630], sub: &[] };
pub static ALLOCS: Gram = Gram {
    count: 78,
    members: &[79, 80, 539, 161],
    sub: &[Gram { count: 539, members: &[524, 538], sub: &[] }],
};
#[derive(Default)]
pub struct Node {
    pub fields: Vec<Fld>,
    pub groups: Vec<(u32, Vec<Node>)>,
}
impl Node {
    pub fn total(&self) -> usize {
        let mut n = self.fields.len();
        for (_, g) in &self.groups {
            for i in g {
                n += i.total();
            }
        }
        n
    }
    fn add(&mut self, f: &Fld) -> bool {
        for x in &self.fields {
            if x.0 == f.0 {
                return false;
            }
        }
        self.fields.push(f.clone());
        true
    }
}
pub enum Verdict {
    Accept([Node; 3]),
    Reject,
    /// not settled by the property
    Either,
}
pub fn num(v: &[u8]) -> Option<u32> {
    if v.is_empty() {
        return None;
    }
    let mut n = 0u32;
    for b in v {
        if !((*b >= b'0') & (*b <= b'9')) {
            return None;
        }
        n = n.wrapping_mul(10).wrapping_add((*b - b'0') as u32);
    }
    Some(n)
}
/// The field at `pos` is the count of `g`; returns the position after the group.
fn group(fs: &[Fld], pos: usize, g: &Gram, into: &mut Node) -> Option<usize> {
    if !into.add(&fs[pos]) {
        return None;
    }
    let declared = num(&fs[pos].1)?;
    let mut p = pos + 1;
    let mut inst: Vec<Node> = Vec::new();
    let mut last = 0usize;
    while p < fs.len() {
        let t = fs[p].0;
        let at = match g.members.iter().position(|m| *m == t) {
            Some(a) => a,
            None => break,
        };
        if at == 0 {
            inst.push(Node::default());
        } else if inst.is_empty() || at <= last {
            return None;
        }
        last = at;
        let k = inst.len() - 1;
        match g.sub.iter().find(|s| s.count == t) {
            Some(s) => p = group(fs, p, s, &mut inst[k])?,
            None => {
                if !inst[k].add(&fs[p]) {
                    return None;
                }
                p += 1;
            }
        }
    }
    if inst.len() as u32 != declared {
        return None;
    }
    into.groups.push((g.count, inst));
    Some(p)
}
pub fn model(fs: &[Fld], msg_type: &str) -> Verdict {
    model_of(fs, if msg_type == "D" { Some(&ALLOCS) } else { None })
}
/// The same for messages whose type has the group `body`.
pub fn model_of(fs: &[Fld], body: Option<&'static Gram>) -> Verdict {
    if fs.len() < 3 || fs[0].0 != 8 || fs[1].0 != 9 || fs[2].0 != 35 {
        return Verdict::Reject;
    }
    let mut n = [Node::default(), Node::default(), Node::default()];
    let mut sec = 0;
    let mut p = 0;
    let mut stray = false;
    while p < fs.len() {
        let t = fs[p].0;
        let of = match t {
            8 | 9 | 35 | 49 | 56 | 34 | 52 | 50 | 57 | 627 => 0,
            93 | 89 | 10 => 2,
            _ => 1,
        };
        if of < sec {
            return Verdict::Reject;
        }
        sec = of;
        let g = match t {
            627 => Some(&HOPS),
            _ => body.filter(|g| g.count == t),
        };
        match g {
            Some(g) => match group(fs, p, g, &mut n[sec]) {
                Some(q) => p = q,
                None => return Verdict::Reject,
            },
            None => {
                if !n[sec].add(&fs[p]) {
                    return Verdict::Reject;
                }
                // a field after the checksum is not settled, nor is a member outside its group
                if n[2].fields.iter().any(|f| f.0 == 10) && t != 10 {
                    stray = true;
                }
                if !matches!(t, 8 | 9 | 35 | 49 | 56 | 34 | 52 | 50 | 57 | 93 | 89 | 10 | 58 | 11 | 55 | 48) {
                    stray = true;
                }
                p += 1;
            }
        }
    }
    if stray {
        Verdict::Either
    } else {
        Verdict::Accept(n)
    }
}
pub fn wire(fs: &[Fld]) -> Wire {
    let mut w = Wire::new();
    for (t, v) in fs {
        w.f(&t.to_string(), v);
    }
    w
}
/// The map holds exactly the fields and groups of the node.
pub fn same(m: &FieldMap, n: &Node) -> bool {
    let mut ok = true;
    for (t, v) in &n.fields {
        match m.get_field::<String>(*t) {
            // a count is compared as the number it is
            Ok(s) if n.groups.iter().any(|g| g.0 == *t) => ok &= num(s.as_bytes()) == num(v),
            Ok(s) => ok &= eq_bytes(s.as_bytes(), v),
            Err(_) => return false,
        }
    }
    if m.iter().into_iter().count() != n.total() {
        return false;
    }
    for (t, insts) in &n.groups {
        match m.get_group(*t) {
            Some(g) => {
                if g.size() as usize != insts.len() {
                    return false;
                }
                for (i, x) in insts.iter().enumerate() {
                    if !same(&g[i], x) {
                        return false;
                    }
                }
            }
            None => return false,
        }
    }
    ok
}
/// No branch on the contents.
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn header3(t: &str) -> Vec<Fld> {
    vec![(8, b"FIX.4.3".to_vec()), (9, b"5".to_vec()), (35, t.as_bytes().to_vec())]
}

// ---- messages built through the API ----
/// A value of `n` bytes, printable without SOH.
pub fn val(n: usize) -> Vec<u8> {
    (0..n).map(|_| vbyte("value")).collect()
}
pub fn sf(tag: u32, v: &[u8]) -> StringField {
    StringField::new(tag, std::str::from_utf8(v).unwrap())
}
pub fn set(m: &mut Message, f: &Fld) {
    let s = sf(f.0, &f.1);
    match f.0 {
        8 | 9 | 35 | 49 | 56 | 34 | 52 | 50 | 57 | 627 => m.header_mut().set_field(s),
        93 | 89 | 10 => m.trailer_mut().set_field(s),
        _ => m.set_field(s),
    }
}
/// Splits serialised text into fields; None when it is not tag=value SOH throughout.
pub fn split(s: &[u8]) -> Option<Vec<Fld>> {
    let mut out: Vec<Fld> = vec![];
    let mut i = 0;
    while i < s.len() {
        let mut t = 0u32;
        let b = i;
        while i < s.len() && s[i] != b'=' {
            if !((s[i] >= b'0') & (s[i] <= b'9')) {
                return None;
            }
            t = t * 10 + (s[i] - b'0') as u32;
            i += 1;
        }
        if i == b {
            return None;
        }
        i += 1;
        let b = i;
        while i < s.len() && s[i] != S {
            i += 1;
        }
        if i >= s.len() {
            return None;
        }
        out.push((t, s[b..i].to_vec()));
        i += 1;
    }
    Some(out)
}

/// A character of two, three or four bytes, any two bytes or any last byte; with or without letters around it.
pub fn character(name: &str) -> Vec<u8> {
    let mut v = if flag() { vec![] } else { vec![b'a'] };
    match choice(3) {
        0 => v.push(range(name, 0xc2, 0xdf)),
        1 => v.extend_from_slice(&[0xe2, 0x82]),
        _ => v.extend_from_slice(&[0xf0, 0x9f, 0x98]),
    }
    v.push(range(name, 0x80, 0xbf));
    if v[0] == b'a' {
        v.push(b'b');
    }
    v
}

// ---- configuration text ----
pub fn line(w: &mut Wire, key: &str, v: &[u8]) {
    w.raw(key.as_bytes()).raw(b" = \"").raw(v).raw(b"\"\n");
}
/// A value byte that quoting and trimming leave alone.
pub fn cbyte(name: &str) -> u8 {
    let b = range(name, 0x21, 0x7e);
    assume(b != b'"');
    b
}

// ---- clock and time zones ----
use chrono::{NaiveTime, Weekday};
/// Time zones by name and their offset from UTC, in seconds, at a UTC time: an
/// independent statement of the rules of 2024 to 2026.
pub const ZONES: [(&str, Zone); 9] = [
    ("UTC", Zone::Fixed(0)),
    ("Asia/Kolkata", Zone::Fixed(19800)),
    ("Pacific/Kiritimati", Zone::Fixed(14 * 3600)),
    ("America/Phoenix", Zone::Fixed(-7 * 3600)),
    ("Europe/London", Zone::Dst(0, 3600, EU)),
    ("America/New_York", Zone::Dst(-5 * 3600, 3600, US)),
    // half an hour of summer time, in the southern summer: the offset is less from April to October
    ("Australia/Lord_Howe", Zone::Dst(11 * 3600, -1800, [1712415600, 1728142200, 1743865200, 1759591800])),
    ("Pacific/Chatham", Zone::Dst(13 * 3600 + 2700, -3600, [1712412000, 1727532000, 1743861600, 1758981600])),
    ("America/St_Johns", Zone::Dst(-12600, 3600, [1710048600, 1730608200, 1741498200, 1762057800])),
];
#[derive(Clone, Copy)]
pub enum Zone {
    Fixed(i64),
    /// offset at the start of 2024; what the two periods of 2024 and 2025 add to it; UTC times of their starts and ends
    Dst(i64, i64, [i64; 4]),
}
/// 2024-03-31 01:00, 2024-10-27 01:00, 2025-03-30 01:00, 2025-10-26 01:00 UTC
const EU: [i64; 4] = [19813 * 86400 + 3600, 20023 * 86400 + 3600, 20177 * 86400 + 3600, 20387 * 86400 + 3600];
/// 2024-03-10 07:00, 2024-11-03 06:00, 2025-03-09 07:00, 2025-11-02 06:00 UTC
const US: [i64; 4] = [19792 * 86400 + 7 * 3600, 20030 * 86400 + 6 * 3600, 20156 * 86400 + 7 * 3600, 20394 * 86400 + 6 * 3600];
/// Seconds of a summer time offset: whether `utc` lies in it, and the offset.
pub fn offset(z: Zone, utc: i64) -> i64 {
    match z {
        Zone::Fixed(o) => o,
        Zone::Dst(o, d, c) => {
            let s = (c[0] <= utc) & (utc < c[1]) | (c[2] <= utc) & (utc < c[3]);
            o + if s { d } else { 0 }
        }
    }
}
/// Any second from the start of a year to the end of another one.
pub fn any_second(from: i64, to: i64) -> i64 {
    let t = u32::from_le_bytes(bytes::<4>("instant")) as i64;
    // 2000 to 2099: a leap year every four years from the first on
    let start = |y: i64| 946684800 + ((y - 2000) * 365 + (y - 2000 + 3) / 4) * 86400;
    assume((t >= start(from)) & (t < start(to + 1)));
    t
}
/// A second of a day: any, or, when `coarse`, any of the two around each half hour.
pub fn second(name: &str, coarse: bool) -> u32 {
    if coarse {
        let k = choice(49);
        (k * 1800 + choice(2)).min(86399)
    } else {
        let b = bytes::<4>(name);
        let s = u32::from_le_bytes(b);
        assume(s < 86400);
        s
    }
}
pub fn time(s: u32) -> NaiveTime {
    match NaiveTime::from_num_seconds_from_midnight_opt(s, 0) {
        Some(t) => t,
        None => {
            assume(false);
            unreachable!()
        }
    }
}
/// 0 is Monday.
pub const DAYS: [Weekday; 7] = [Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat, Weekday::Sun];
/// Day of the week, 0 is Monday, of days since 1970-01-01.
pub fn weekday(days: i64) -> i64 {
    (days + 3).rem_euclid(7)
}

// ---- dictionary descriptions and what they mean ----
#[derive(Clone)]
pub enum It {
    F(usize, bool),
    C(usize, bool),
    G(usize, bool, Vec<It>),
}
/// Field numbers by name N0, N1, ...: not in the order of the names.
pub const NUM: [u32; 16] = [55, 7, 410, 1, 98, 33, 12, 700, 2, 64, 31, 205, 18, 9, 501, 40];
pub fn fname(i: usize) -> [u8; 2] {
    [b'N', b'A' + i as u8]
}
#[derive(Default)]
pub struct Level {
    pub order: Vec<u32>,
    pub req: Vec<u32>,
    pub groups: Vec<(u32, Level)>,
}
/// What `items` mean inside something required (`ctx`) or not; None: a field twice.
pub fn expand(items: &[It], ctx: bool, comps: &[Vec<It>], to: &mut Level) -> Option<()> {
    for i in items {
        match i {
            It::C(c, r) => expand(&comps[*c], *r, comps, to)?,
            It::F(f, r) | It::G(f, r, _) => {
                let n = NUM[*f];
                if to.order.contains(&n) {
                    return None;
                }
                to.order.push(n);
                if *r && ctx {
                    to.req.push(n);
                }
                if let It::G(_, _, sub) = i {
                    let mut l = Level::default();
                    expand(sub, *r, comps, &mut l)?;
                    to.groups.push((n, l));
                }
            }
        }
    }
    Some(())
}
pub fn xml_items(w: &mut Wire, items: &[It]) {
    for i in items {
        let yn = |r: &bool| [b'"', b' ', b'r', b'e', b'q', b'u', b'i', b'r', b'e', b'd', b'=', b'"', b'N' + 11 * *r as u8, b'"'];
        match i {
            It::F(f, r) => {
                w.raw(b"<field name=\"").raw(&fname(*f)).raw(&yn(r)).raw(b"/>\n");
            }
            It::C(c, r) => {
                w.raw(b"<component name=\"K").raw(&[b'0' + *c as u8]).raw(&yn(r)).raw(b"/>");
            }
            It::G(f, r, sub) => {
                w.raw(b"<group name=\"").raw(&fname(*f)).raw(&yn(r)).raw(b">");
                xml_items(w, sub);
                w.raw(b"</group>");
            }
        }
    }
}
pub fn xml_fields(w: &mut Wire) {
    w.raw(b"<fields>\n");
    for i in 0..16 {
        w.raw(b"<field number=\"").raw(NUM[i].to_string().as_bytes()).raw(b"\" name=\"").raw(&fname(i)).raw(b"\" type=\"STRING\"/>");
    }
    w.raw(b"</fields>");
}
/// A whole description; messages as (name, type, content).
pub fn xml(header: &[It], trailer: &[It], msgs: &[(&str, &str, Vec<It>)], comps: &[Vec<It>]) -> Wire {
    let mut w = Wire(Vec::with_capacity(4096));
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\">\n<header>");
    xml_items(&mut w, header);
    w.raw(b"</header>\n<trailer>");
    xml_items(&mut w, trailer);
    w.raw(b"</trailer>\n<messages>");
    for (n, t, c) in msgs {
        w.raw(b"<message name=\"").raw(n.as_bytes()).raw(b"\" msgtype=\"").raw(t.as_bytes()).raw(b"\" msgcat=\"app\">");
        xml_items(&mut w, c);
        w.raw(b"</message>\n");
    }
    w.raw(b"</messages><components>");
    for (i, c) in comps.iter().enumerate() {
        w.raw(b"<component name=\"K").raw(&[b'0' + i as u8]).raw(b"\">");
        xml_items(&mut w, c);
        w.raw(b"</component>");
    }
    w.raw(b"</components>");
    xml_fields(&mut w);
    w.raw(b"</fix>");
    w
}
/// Fields and required fields of a message or section (or, in a group's dictionary, of its members).
pub fn level_fields(dd: &DataDictionary, t: &str, l: &Level) -> bool {
    let n = dd.get_msg_fields(t).map_or(0, |s| s.len());
    let r = dd.get_msg_required_field(t).map_or(0, |s| s.len());
    n == l.order.len()
        && r == l.req.len()
        && NUM.iter().all(|x| dd.is_msg_field(t, *x) == l.order.contains(x) && dd.is_msg_req_field(t, *x) == l.req.contains(x))
        && l.order.iter().all(|x| dd.get_msg_fields(t).unwrap().contains(x))
        && l.req.iter().all(|x| dd.get_msg_required_field(t).unwrap().contains(x))
}
/// Groups, at every level, with their members, order and delimiter.
pub fn level_groups(dd: &DataDictionary, t: &str, l: &Level) -> bool {
    for x in NUM {
        let g = l.groups.iter().find(|g| g.0 == x);
        if dd.is_msg_group(t, x) != g.is_some() {
            return false;
        }
        match (g, dd.get_msg_group(t, x)) {
            (None, None) => (),
            (Some((_, l)), Some(i)) => {
                let gd = i.data_dictionary();
                if l.order.len() > 0 && i.delimiter() != l.order[0] {
                    return false;
                }
                if gd.get_ordered_fields() != l.order || !level_fields(gd, t, l) || !level_groups(gd, t, l) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
/// Any sequence of up to `budget` items, nested ones included, each required or
/// not; fields are taken in order from `next`, components up to `comps`.
pub fn any_items(budget: &mut u32, next: &mut usize, comps: u32, depth: u32) -> Vec<It> {
    let mut v = vec![];
    while *budget > 0 {
        let k = choice(2 + comps + (depth > 0) as u32);
        if k == 0 {
            break;
        }
        *budget -= 1;
        let r = byte("required") & 1 == 1;
        match k - 1 {
            0 => {
                v.push(It::F(*next, r));
                *next += 1;
            }
            c if c <= comps => v.push(It::C(c as usize - 1, r)),
            _ => {
                let f = *next;
                *next += 1;
                v.push(It::G(f, r, any_items(budget, next, comps, depth - 1)));
            }
        }
    }
    v
}
/// Whether `items` use component `c`, themselves or in a group.
pub fn uses(items: &[It], c: usize) -> bool {
    items.iter().any(|i| match i {
        It::C(k, _) => *k == c,
        It::G(_, _, sub) => uses(sub, c),
        _ => false,
    })
}

// ---- network ----
use super::application::Application;
use super::network::*;
use super::session::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
/// Lets the code under test run until nothing is left to do.
pub async fn nap() {
    tokio::time::sleep(Duration::from_millis(if cfg!(vf_ir) { 1 } else { 40 })).await
}
/// Nothing is left to do: nothing runs while nothing happens.
pub async fn idle() {
    for _ in 0..if cfg!(vf_ir) { 1 } else { 4 } {
        nap().await;
    }
    let a = work();
    for _ in 0..if cfg!(vf_ir) { 1 } else { 6 } {
        nap().await;
    }
    let used = work() - a;
    check(used < if cfg!(vf_ir) { 300_000 } else { 120_000_000 }, "the engine is busy though there is nothing to do");
}
/// Connects to the acceptor, once it listens.
pub async fn connect(port: u16) -> i32 {
    for _ in 0..60 {
        if net_listening(port) {
            break;
        }
        nap().await;
    }
    let c = net_connect(port);
    check(c >= 0, "the acceptor does not listen");
    assume(c >= 0);
    nap().await;
    c
}
/// The messages of a stream: each ends with the field that begins with "10=".
pub fn frames(s: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let (mut b, mut f) = (0, 0);
    for i in 0..s.len() {
        if s[i] == S {
            if i >= f + 3 && ((s[f] == b'1') & (s[f + 1] == b'0') & (s[f + 2] == b'=')) {
                out.push(s[b..i + 1].to_vec());
                b = i + 1;
            }
            f = i + 1;
        }
    }
    out
}
/// What the application was given: session, and the Text field.
pub type Log = Arc<Mutex<Vec<(String, String)>>>;
/// Records every message; answers with `answers` messages that repeat its text.
pub struct Recorder {
    pub log: Log,
    pub sessions: Arc<Mutex<Option<SessionMap>>>,
    pub answers: usize,
}
impl Application for Recorder {
    fn to_app(_: String) {}
    fn from_app(&self, id: &SessionId, sessions: &SessionMap, msg: Message) {
        let t = msg.body.get_field::<String>(58).unwrap_or_default();
        self.sessions.lock().unwrap().get_or_insert_with(|| sessions.clone());
        self.log.lock().unwrap().push((id.to_string(), t.clone()));
        for i in 0..self.answers {
            Session::sync_send_to_target(id, sessions, answer(&t, i));
        }
    }
}
pub fn answer(t: &str, i: usize) -> Message {
    let mut m = Message::new();
    for (k, v) in [(8, "FIX.4.3"), (9, "5"), (35, "0")] {
        m.header_mut().set_field(StringField::new(k, v));
    }
    m.set_field(StringField::new(58, &format!("{}{}", t, i)));
    m.trailer_mut().set_field(StringField::new(10, "001"));
    m
}
/// A session's name as sender[/sub][>target[/sub]], the target being T when not given; gives these parts.
pub fn parts(name: &str) -> [&str; 4] {
    let (s, t) = name.split_once('>').unwrap_or((name, "T"));
    let (s, ss) = s.split_once('/').unwrap_or((s, ""));
    let (t, ts) = t.split_once('/').unwrap_or((t, ""));
    [s, ss, t, ts]
}
/// How the id of a session prints.
pub fn printed(name: &str) -> String {
    format!("FIX.4.3:{}{}", name.replace('>', "->"), if name.contains('>') { "" } else { "->T" })
}
/// Sessions by name and port, all with FIX.4.3.
pub fn stack_config(sessions: &[(&str, u16)]) -> Properties {
    let mut w = Wire::new();
    w.raw(b"[Default]\nconnection_type = \"acceptor\"\nbegin_string = \"FIX.4.3\"\ntarget_comp_id = \"T\"\ndata_dictionary = \"dict.xml\"\n");
    for (s, p) in sessions {
        w.raw(b"[Session]\n");
        let [s, ss, t, ts] = parts(s);
        line(&mut w, "sender_comp_id", s.as_bytes());
        for (k, v) in [("sender_sub_id", ss), ("target_comp_id", t), ("target_sub_id", ts)] {
            if v != "" && v != "T" {
                line(&mut w, k, v.as_bytes());
            }
        }
        line(&mut w, "socket_accept_port", p.to_string().as_bytes());
    }
    Properties::from_str(w.str())
}
pub fn stack(sessions: &[(&str, u16)], answers: usize) -> (SocketAcceptor<Recorder>, Log) {
    let log: Log = Default::default();
    (SocketAcceptor::new(stack_config(sessions), Recorder { log: log.clone(), sessions: Default::default(), answers }), log)
}
/// Starts the sessions and session "S0"; gives what the application uses to send messages on its own.
pub async fn stack_started(sessions: &[(&str, u16)]) -> (SocketAcceptor<Recorder>, SessionMap) {
    let mut all = vec![("S0", free_port(9))];
    all.extend(sessions);
    let map: Arc<Mutex<Option<SessionMap>>> = Default::default();
    let mut acc = SocketAcceptor::new(stack_config(&all), Recorder { log: Default::default(), sessions: map.clone(), answers: 0 });
    acc.start_accepting_connections();
    send_all(connect(all[0].1).await, &inbound("S0", b"x"));
    nap().await;
    nap().await;
    let m = map.lock().unwrap().take();
    check(m.is_some(), "a message is not handed to the application");
    assume(m.is_some());
    (acc, m.unwrap())
}
pub fn session_of(s: &str) -> SessionId {
    Message::get_reverse_session_id(std::str::from_utf8(&inbound(s, b"x")).unwrap())
}
/// A message from the counterparty of session `to`.
pub fn inbound(to: &str, text: &[u8]) -> Vec<u8> {
    inbound_of(to, b"0", "", text)
}
/// The same of type `kind`, and with a field of tag `tag` and the value x before the text.
pub fn inbound_of(to: &str, kind: &[u8], tag: &str, text: &[u8]) -> Vec<u8> {
    let [s, ss, t, ts] = parts(to);
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"5").f("35", kind).f("49", t.as_bytes()).f("56", s.as_bytes());
    for (k, v) in [("50", ts), ("57", ss)] {
        if v != "" {
            w.f(k, v.as_bytes());
        }
    }
    if tag != "" {
        w.f(tag, b"x");
    }
    w.f("58", text).f("10", b"001");
    w.0
}
/// A tag that can stand in the body of any message of the dictionary, once beside a text.
pub fn body_tag() -> u32 {
    let t = any_tag();
    // 142 and 143 are parts of the session id
    for x in [8, 9, 35, 49, 56, 34, 52, 50, 57, 142, 143, 627, 93, 89, 10, 58, 78] {
        assume(t != x);
    }
    t
}
pub fn send_all(c: i32, b: &[u8]) {
    check(net_send(c, b), "the connection is closed");
}
/// Everything the peer has got by now.
pub fn received(c: i32) -> Vec<u8> {
    let mut v = vec![];
    while let Some(b) = net_recv(c, 4096) {
        if b.is_empty() {
            break;
        }
        v.extend(b);
    }
    v
}

/// A tag: any u32 but 0.
pub fn any_tag() -> u32 {
    let t = u32::from_le_bytes(bytes::<4>("tag"));
    assume(t != 0);
    t
}
/// A value of `n` bytes, of which up to three are any printable.
pub fn long(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for i in [0, n / 2, n.saturating_sub(1)] {
        if i < n {
            v[i] = vbyte("value");
        }
    }
    v
}

/// An element of a description: name, attributes, children.
pub struct El(pub &'static str, pub Vec<(&'static str, Vec<u8>)>, pub Vec<El>);
pub fn el(n: &'static str, a: &[(&'static str, &str)], c: Vec<El>) -> El {
    El(n, a.iter().map(|(k, v)| (*k, v.as_bytes().to_vec())).collect(), c)
}
pub fn fld(n: &str) -> El {
    el("field", &[("name", n), ("required", "Y")], vec![])
}
pub fn def(n: &str, num: &str) -> El {
    el("field", &[("number", num), ("name", n), ("type", "STRING")], vec![])
}
/// A small description with all kinds of elements.
pub fn base() -> El {
    el("fix", &[("type", "FIX"), ("major", "4"), ("minor", "3")], vec![
        el("header", &[], vec![fld("NA")]),
        el("trailer", &[], vec![fld("NB")]),
        el("messages", &[], vec![
            el("message", &[("name", "Ma"), ("msgtype", "A"), ("msgcat", "app")], vec![
                fld("NC"),
                el("group", &[("name", "ND"), ("required", "N")], vec![
                    fld("NE"),
                    el("component", &[("name", "K0"), ("required", "Y")], vec![]),
                    el("group", &[("name", "NF"), ("required", "Y")], vec![fld("NG")]),
                ]),
                el("component", &[("name", "K1"), ("required", "Y")], vec![]),
            ]),
            el("message", &[("name", "Mb"), ("msgtype", "B"), ("msgcat", "app")], vec![fld("NC")]),
        ]),
        el("components", &[], vec![
            el("component", &[("name", "K0")], vec![fld("NH")]),
            el("component", &[("name", "K1")], vec![
                el("group", &[("name", "NI"), ("required", "Y")], vec![fld("NJ")]),
                el("component", &[("name", "K0"), ("required", "N")], vec![]),
            ]),
        ]),
        el("fields", &[], vec![
            def("NA", "8"), def("NB", "10"), def("NC", "1"), def("ND", "2"), def("NE", "3"), def("NF", "4"), def("NG", "5"), def("NH", "6"),
            def("NI", "7"),
            el("field", &[("number", "9"), ("name", "NJ"), ("type", "CHAR")], vec![
                el("value", &[("enum", "1"), ("description", "ONE")], vec![]),
                el("value", &[("enum", "2"), ("description", "TWO")], vec![]),
            ]),
        ]),
    ])
}
pub fn render(e: &El, w: &mut Wire) {
    w.raw(b"<").raw(e.0.as_bytes());
    for (k, v) in &e.1 {
        w.raw(b" ").raw(k.as_bytes()).raw(b"=\"").raw(v).raw(b"\"");
    }
    if e.2.is_empty() {
        w.raw(b"/>");
    } else {
        w.raw(b">");
        for c in &e.2 {
            render(c, w);
        }
        w.raw(b"</").raw(e.0.as_bytes()).raw(b">");
    }
}
pub fn description(e: &El) -> Wire {
    let mut w = Wire(Vec::with_capacity(4096));
    render(e, &mut w);
    w
}
pub fn count(e: &El) -> usize {
    1 + e.2.iter().map(count).sum::<usize>()
}
/// The `i`-th element, in the order of the text.
pub fn at(e: &mut El, i: &mut usize, f: &mut dyn FnMut(&mut El)) {
    if *i == 0 {
        f(e);
    }
    *i = i.wrapping_sub(1);
    for c in &mut e.2 {
        at(c, i, f);
    }
}

pub fn find(s: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + pat.len() <= s.len() {
        if &s[i..i + pat.len()] == pat {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// Body length and checksum of a message's text, recomputed from its bytes.
pub fn complete(s: &[u8]) {
    let n = s.len();
    // "10=ddd" SOH at the end
    let ck = n.wrapping_sub(7);
    check(n > 7 && &s[ck..ck + 3] == b"10=" && s[n - 1] == S && s[ck - 1] == S, "the text does not end with a three-digit checksum");
    let mut sum = 0u8;
    for b in &s[..ck] {
        sum = sum.wrapping_add(*b);
    }
    let d = &s[ck + 3..ck + 6];
    let mut v = 0u32;
    let mut digits = true;
    for c in d {
        digits &= (*c >= b'0') & (*c <= b'9');
        v = v.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u32);
    }
    check(digits, "the checksum is not three digits");
    check(v == sum as u32, "the checksum is not the sum of the preceding bytes modulo 256");
    // body length
    let a = match find(s, b"\x019=", 0) {
        Some(a) => a,
        None => {
            check(false, "the body length is missing");
            return;
        }
    };
    check(find(s, b"8=", 0) == Some(0) && find(s, &[S], 0) == Some(a), "the body length is not the second field");
    let e = match find(s, &[S], a + 3) {
        Some(e) => e,
        None => {
            check(false, "the body length is missing");
            return;
        }
    };
    check(num(&s[a + 3..e]) == Some((ck - e - 1) as u32), "the body length is not the number of bytes between it and the checksum");
}

/// Year, month and day of days since 1970-01-01, by the civil calendar.
pub fn civil(days: i64) -> (i64, i64, i64) {
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let (mut y, mut d) = (1970, days);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let mut m = 1;
    loop {
        let n = match m {
            2 => 28 + leap(y) as i64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        if d < n {
            break;
        }
        d -= n;
        m += 1;
    }
    (y, m, d + 1)
}
/// The `n` decimal digits of `v`.
pub fn digits(v: i64, n: usize) -> Vec<u8> {
    let mut o = vec![b'0'; n];
    let mut v = v;
    for i in (0..n).rev() {
        o[i] = b'0' + (v % 10) as u8;
        v /= 10;
    }
    o
}
/// The instant as FIX writes it.
pub fn stamp(days: i64, sod: i64, nanos: i64) -> Vec<u8> {
    let (y, m, d) = civil(days);
    let mut w = Wire::new();
    w.raw(&digits(y, 4)).raw(&digits(m, 2)).raw(&digits(d, 2)).raw(b"-");
    w.raw(&digits(sod / 3600, 2)).raw(b":").raw(&digits(sod / 60 % 60, 2)).raw(b":").raw(&digits(sod % 60, 2));
    w.raw(b".").raw(&digits(nanos / 1_000_000, 3));
    w.0
}

/// The same description written another way: blanks, comments or instructions between all elements, blanks within them, other quotes.
pub fn relayout(w: &Wire, k: u32) -> Wire {
    let s = &w.0;
    let mut o = Wire(Vec::with_capacity(3 * s.len() + 64));
    if k == 4 {
        o.raw(b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!-- a description -->\r\n");
    }
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match k {
            3 if c == b'"' => o.raw(b"'"),
            4 if c == b' ' => o.raw(b"\r\n\t"),
            4 if c == b'=' => o.raw(b" = "),
            4 if c == b'/' && s[i + 1] == b'>' => o.raw(b" /"),
            _ => o.raw(&[c]),
        };
        if c == b'>' && i + 1 < s.len() {
            match k {
                0 => o.raw(b"\n    "),
                1 => o.raw(b"<!-- <field name=\"no\"/> -->"),
                2 => o.raw(b"\n<?layout two?><!-- one --> "),
                _ => &mut o,
            };
        }
        i += 1;
    }
    o
}
