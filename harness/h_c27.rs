//! C27: the error for a faulty dictionary names its fault.
use super::data_dictionary::*;
use super::quickfix_errors::XmlError;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

enum Fault<'a> {
    NotXml,
    /// a section, field or component that is not there
    NotFound(&'a str),
    Attribute(&'a str, &'a str),
    Number(&'a str),
    /// what the duplicate field or value is told by
    Field(&'a str),
    Message(&'a str),
    Component(&'a str),
    Recursive,
    Element(&'a str),
}
fn decide(f: Fault, t: &str) {
    let e = match no_panic("reading a dictionary panics", || DataDictionary::from_str(t)) {
        Ok(_) => {
            check(false, "a faulty dictionary is accepted");
            return;
        }
        Err(e) => e,
    };
    let (kind, named) = match (&f, &e) {
        (Fault::NotXml, XmlError::DocumentNotParsed(_)) => (true, true),
        (Fault::NotFound(n), XmlError::XmlNodeNotFound(s)) => (true, s.contains(n)),
        (Fault::Attribute(a, n), XmlError::AttributeNotFound(s)) => (true, s.contains(a) && s.contains(n)),
        (Fault::Number(n), XmlError::FieldNotParsed { field, .. }) => (true, eq_bytes(field.as_bytes(), n.as_bytes())),
        (Fault::Field(n), XmlError::DuplicateField(s)) => (true, s.contains(n)),
        (Fault::Message(n), XmlError::DuplicateMessage(s)) => (true, s.contains(n)),
        (Fault::Component(n), XmlError::DuplicateComponent(s)) => (true, s.contains(n)),
        (Fault::Recursive, XmlError::RecursiveComponent(s)) => (true, ["K0", "K1", "K2"].contains(&s.as_str())),
        (Fault::Element(n), XmlError::UnknownXmlTag(s)) => (true, s.contains(n)),
        _ => (false, true),
    };
    check(kind, "the error for a faulty dictionary is of another kind");
    check(named, "the error for a faulty dictionary names something else");
    // and it prints, with the name in it
    let p = no_panic("printing an error panics", || e.to_string());
    match f {
        Fault::NotFound(n) | Fault::Attribute(n, _) | Fault::Field(n) | Fault::Message(n) | Fault::Component(n) | Fault::Element(n) => {
            check(p.contains(n), "the text of an error does not name the fault")
        }
        _ => check(!p.is_empty(), "the text of an error is empty"),
    }
    reach("named");
}

/// every attribute of every element of a description absent, or empty
//@ tier=both reach=named
pub fn h_c27_attributes() {
    let mut d = base();
    let mut i = choice(count(&d) as u32) as usize;
    let mut what = None;
    at(&mut d, &mut i, &mut |e| {
        if e.1.is_empty() {
            return;
        }
        let k = choice(e.1.len() as u32) as usize;
        if e.0 != "value" || k != 1 {
            what = Some((e.1[k].0, e.0));
        }
        if flag() {
            e.1[k].1.clear();
        } else {
            e.1.remove(k);
        }
    });
    if let Some((a, n)) = what {
        decide(Fault::Attribute(a, n), description(&d).str());
    }
}

/// each section absent; each element of a section of another name, or an unknown element of a name of any 3 letters added to it
//@ tier=both reach=named
pub fn h_c27_elements() {
    let mut d = base();
    if flag() {
        let k = choice(5) as usize;
        d.2.remove(k);
        let n = ["header", "trailer", "messages", "components", "fields"][k];
        decide(Fault::NotFound(n), description(&d).str());
        return;
    }
    let mut i = choice(count(&d) as u32) as usize;
    let mut what = None;
    let add = flag();
    at(&mut d, &mut i, &mut |e| {
        // where the content is known by its element names
        let content = match e.0 {
            "header" | "trailer" | "message" | "group" => true,
            "component" => !e.2.is_empty(),
            _ => false,
        };
        if !content {
            return;
        }
        if add {
            let k = choice(e.2.len() as u32 + 1) as usize;
            e.2.insert(k, el("other", &[("name", "NA"), ("required", "Y")], vec![]));
            what = Some("other");
        } else {
            let k = choice(e.2.len() as u32) as usize;
            e.2[k].0 = ["fields", "Field", "groups"][choice(3) as usize];
            what = Some(e.2[k].0);
        }
    });
    if let Some(n) = what {
        decide(Fault::Element(n), description(&d).str());
    }
}

/// every reference to a field, group or component with any last letter or digit that makes it one that is not defined
//@ tier=both reach=named
pub fn h_c27_references() {
    let mut d = base();
    let b = byte("name");
    assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z'));
    let mut i = choice(count(&d) as u32) as usize;
    let mut name = None;
    at(&mut d, &mut i, &mut |e| {
        if e.1.len() == 2 && e.1[0].0 == "name" {
            let (lo, hi) = if e.0 == "component" { (b'0', b'1') } else { (b'A', b'J') };
            assume(!((b >= lo) & (b <= hi)));
            e.1[0].1[1] = b;
            name = Some(e.1[0].1.clone());
        }
    });
    if let Some(n) = name {
        decide(Fault::NotFound(std::str::from_utf8(&n).unwrap()), description(&d).str());
    }
}

/// a definition of each kind repeated, with one part equal or more, at any place among the others
//@ tier=both reach=named
pub fn h_c27_duplicates() {
    let mut d = base();
    let same = [flag(), flag()];
    let pick = |s: bool, a: &'static str, b: &'static str| if s { a } else { b };
    let f = match choice(5) {
        0 => {
            assume(same[0] || same[1]);
            let k = choice(11) as usize;
            d.2[4].2.insert(k, def(pick(same[1], "NE", "ZZ"), pick(same[0], "3", "99")));
            // the one read second is told by either
            Fault::Field(if same[0] { "3" } else { "NE" })
        }
        1 => {
            assume(same[0]);
            let k = choice(3) as usize;
            d.2[4].2[9].2.insert(k, el("value", &[("enum", "1"), ("description", pick(same[1], "ONE", "X"))], vec![]));
            Fault::Field("NJ")
        }
        2 => {
            assume(same[0] || same[1]);
            let k = choice(3) as usize;
            d.2[2].2.insert(k, el("message", &[("name", pick(same[0], "Mb", "Mc")), ("msgtype", pick(same[1], "B", "C")), ("msgcat", "app")], vec![fld("NA")]));
            // the one read second
            Fault::Message(if k == 2 { pick(same[0], "Mb", "Mc") } else { "Mb" })
        }
        3 => {
            let k = choice(3) as usize;
            d.2[3].2.insert(k, el("component", &[("name", "K0")], vec![fld("NG")]));
            Fault::Component("K0")
        }
        _ => {
            d.2[2].2[0].1[1].1 = ["header", "trailer"][choice(2) as usize].as_bytes().to_vec();
            Fault::Message("Ma")
        }
    };
    decide(f, description(&d).str());
}

/// a field or group of a message, section, group or component repeated in it, at its start or end
//@ tier=both reach=named
pub fn h_c27_repeated() {
    let mut d = base();
    let mut i = choice(count(&d) as u32) as usize;
    let f = choice(10) as u8;
    let grp = flag();
    let mut dup = false;
    at(&mut d, &mut i, &mut |e| {
        let content = match e.0 {
            "header" | "trailer" | "message" | "group" => true,
            "component" => !e.2.is_empty(),
            _ => false,
        };
        if !content {
            return;
        }
        // the fields of this level
        let name = e.1.first().map_or(0, |a| a.1[1]);
        let have: &[u8] = match (e.0, name) {
            ("header", _) => b"A",
            ("trailer", _) => b"B",
            ("message", b'a') => b"CDIH",
            ("message", _) => b"C",
            ("group", b'D') => b"EHF",
            ("group", b'F') => b"G",
            ("group", _) => b"J",
            ("component", b'0') => b"H",
            (_, _) => b"IH",
        };
        let n = b'A' + f;
        dup = have.contains(&n);
        let name = [b'N', n];
        let name = std::str::from_utf8(&name).unwrap();
        let k = choice(2) as usize * e.2.len();
        let new = if grp { el("group", &[("name", name), ("required", "N")], vec![fld("NA")]) } else { fld(name) };
        e.2.insert(k, new);
    });
    if dup {
        let n = ["8", "10", "1", "2", "3", "4", "5", "6", "7", "9"][f as usize];
        decide(Fault::Field(n), description(&d).str());
    }
}

/// one to three components in a circle, each use direct or within a group, the message using the first or none of them
//@ tier=both reach=named
pub fn h_c27_recursion() {
    let mut d = base();
    let n = choice(3) as usize + 1;
    d.2[3].2.clear();
    d.2[2].2.truncate(1);
    d.2[2].2[0].2 = vec![fld("NC")];
    if flag() {
        d.2[2].2[0].2.push(el("component", &[("name", "K0"), ("required", "Y")], vec![]));
    }
    for i in 0..n {
        let u = el("component", &[("name", ["K0", "K1", "K2"][(i + 1) % n]), ("required", "Y")], vec![]);
        let mut c = vec![fld(["NE", "NF", "NG"][i])];
        match choice(3) {
            0 => c.insert(0, u),
            1 => c.push(u),
            _ => c.push(el("group", &[("name", ["NI", "NJ", "NH"][i]), ("required", "Y")], vec![u])),
        }
        d.2[3].2.push(el("component", &[("name", ["K0", "K1", "K2"][i])], c));
    }
    decide(Fault::Recursive, description(&d).str());
}

/// a field number of any 1 to 3 printable bytes that is no number, or of 10 digits above the largest
//@ tier=both reach=named
pub fn h_c27_numbers() {
    let n = choice(4) as usize + 1;
    let v: Vec<u8> = if n == 4 {
        let mut v = b"42949672".to_vec();
        v.extend([range("digit", b'0', b'9'), range("digit", b'0', b'9')]);
        assume((v[8] == b'9') & (v[9] > b'5'));
        v
    } else {
        (0..n)
            .map(|_| {
                let b = range("number", 0x20, 0x7e);
                // markup, and a sign in front, are other matters
                assume((b != b'<') & (b != b'&') & (b != b'"') & (b != b'+'));
                b
            })
            .collect()
    };
    assume(n == 4 || !v.iter().fold(true, |a, b| a & (*b >= b'0') & (*b <= b'9')));
    let mut d = base();
    let k = choice(10) as usize;
    d.2[4].2[k].1[0].1 = v.clone();
    decide(Fault::Number(std::str::from_utf8(&v).unwrap()), description(&d).str());
}

/// a description with the name of any end tag changed by any letter, an attribute without quotes or given twice, or text in front of the first element or instead of all
//@ tier=both reach=named
pub fn h_c27_document() {
    let mut v = description(&base()).0;
    match choice(4) {
        0 => {
            let ends: Vec<usize> = (0..v.len() - 1).filter(|i| &v[*i..*i + 2] == b"</").collect();
            let k = ends[choice(ends.len() as u32) as usize] + 2;
            let b = range("name", b'a', b'z');
            assume(b != v[k]);
            v[k] = b;
        }
        1 => {
            let quotes: Vec<usize> = (0..v.len()).filter(|i| v[*i] == b'"').step_by(2).collect();
            let k = quotes[choice(quotes.len() as u32) as usize];
            v.remove(k);
        }
        2 => {
            // an attribute a second time
            let attrs: Vec<usize> = (0..v.len()).filter(|i| v[*i..].starts_with(b" name=")).collect();
            let k = attrs[choice(attrs.len() as u32) as usize];
            v.splice(k..k, *b" name=\"Q\"");
        }
        _ => {
            let n = choice(4) as usize;
            v.truncate(0);
            for _ in 0..n {
                v.push(range("text", 0x20, 0x7e));
                assume((v[v.len() - 1] != b'<') & (v[v.len() - 1] != b'&'));
            }
        }
    }
    decide(Fault::NotXml, Wire(v).str());
}
