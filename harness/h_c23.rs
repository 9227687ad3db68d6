//! C23: types and values of the fields of a dictionary.
use super::data_dictionary::*;
use super::verif_common::*;
use super::verif_rt::*;
use std::str::FromStr;

const TYPES: [&str; 24] = [
    "CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT", "LENGTH", "NUMINGROUP", "SEQNUM", "TAGNUM",
    "STRING", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR", "MULTIPLEVALUESTRING", "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP",
];
fn is(t: &FixType, n: usize) -> bool {
    n == match t {
        FixType::Char => 0,
        FixType::Boolean => 1,
        FixType::Data => 2,
        FixType::Float => 3,
        FixType::Amt => 4,
        FixType::Percentage => 5,
        FixType::Price => 6,
        FixType::PriceOffset => 7,
        FixType::Qty => 8,
        FixType::Int => 9,
        FixType::Length => 10,
        FixType::NumInGroup => 11,
        FixType::Seqnum => 12,
        FixType::Tagnum => 13,
        FixType::Str => 14,
        FixType::Country => 15,
        FixType::Currency => 16,
        FixType::Exchange => 17,
        FixType::LocalMktDate => 18,
        FixType::MonthYear => 19,
        FixType::MultipleValueString => 20,
        FixType::UtcDate => 21,
        FixType::UtcTimeOnly => 22,
        FixType::UtcTimestamp => 23,
        FixType::Unknown => 24,
    }
}
/// which type a text names
fn named(b: &[u8]) -> usize {
    (0..24).find(|i| eq_bytes(TYPES[*i].as_bytes(), b)).unwrap_or(24)
}

/// a type's name of up to 20 bytes, each of any ASCII value, as it is read and printed
//@ tier=both reach=known,unknown
pub fn h_c23_names() {
    let n = choice(21) as usize;
    let b: Vec<u8> = (0..n).map(|_| range("byte", 0, 127)).collect();
    let t = FixType::from_str(std::str::from_utf8(&b).unwrap()).unwrap();
    let k = named(&b);
    check(is(&t, k), "a type is not the one its name says");
    let s = t.to_string();
    check(eq_bytes(s.as_bytes(), if k < 24 { &b } else { b"UNKNOWN" }), "a type does not print its name");
    reach(if k < 24 { "known" } else { "unknown" });
}
fn write(w: &mut Wire, num: &str, name: &str, ty: &str, vals: &[Vec<u8>]) {
    w.raw(b"<field number=\"").raw(num.as_bytes()).raw(b"\" name=\"").raw(name.as_bytes()).raw(b"\" type=\"").raw(ty.as_bytes()).raw(b"\"");
    if vals.is_empty() {
        w.raw(b"/>");
        return;
    }
    w.raw(b">\n");
    for v in vals {
        w.raw(b" <value enum=\"").raw(v).raw(b"\" description=\"X\"/>\n");
    }
    w.raw(b"</field>\n");
}
fn dict(fields: &Wire) -> Option<DataDictionary> {
    let mut w = Wire::new();
    w.raw(b"<fix type=\"FIX\" major=\"4\" minor=\"3\"><header><field name=\"A\" required=\"Y\"/></header><trailer><field name=\"B\" required=\"Y\"/></trailer>");
    w.raw(b"<messages><message name=\"M\" msgtype=\"m\" msgcat=\"app\"><field name=\"C\" required=\"N\"/></message></messages><components/>\n<fields>");
    w.raw(&fields.0).raw(b"</fields></fix>");
    let d = no_panic("reading a dictionary panics", || DataDictionary::from_str(w.str()));
    check(d.is_ok(), "a correct dictionary is rejected");
    d.ok()
}
/// a value's text and what it stands for
fn value() -> (Vec<u8>, Vec<u8>) {
    let b = range("value", 0x20, 0x7e);
    assume((b != b'"') & (b != b'&') & (b != b'<'));
    match choice(4) {
        0 => (vec![b], vec![b]),
        1 => (vec![b, b' ', b'0'], vec![b, b' ', b'0']),
        2 => (b"&amp;".to_vec(), b"&".to_vec()),
        _ => (vec![b'0', b], vec![b'0', b]),
    }
}

/// three fields in any order, of any type of 24 or another, each with up to 2 values of a printable character and up to 2 others
//@ tier=both reach=read
pub fn h_c23_fields() {
    let nums = ["8", "35", "1000"];
    let at = [[0, 1, 2], [1, 2, 0], [2, 1, 0]][choice(3) as usize];
    let mut w = Wire::new();
    let mut want = vec![];
    let full = choice(3) as usize;
    for i in 0..3 {
        let k = at[i];
        let ty = if k == full { choice(26) as usize } else { [9, 14, 11][k] };
        let tn = if ty < 24 { TYPES[ty] } else { ["XDATE", "string"][ty - 24] };
        let n = if k == full { choice(3) } else { (k as u32 + full as u32) % 3 };
        let mut vals: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for j in 0..n {
            let v = if k == full { value() } else { (vec![b'1' + j as u8], vec![b'1' + j as u8]) };
            assume(!vals.iter().any(|x| eq_bytes(&x.1, &v.1)));
            vals.push(v);
        }
        write(&mut w, nums[k], ["A", "B", "C"][k], tn, &vals.iter().map(|v| v.0.clone()).collect::<Vec<_>>());
        want.push((nums[k].parse::<u32>().unwrap(), ty.min(24), vals));
    }
    let Some(d) = dict(&w) else { return };
    for (n, t, v) in want {
        check(d.get_field_type(n).map_or(false, |x| is(x, t)), "a field has another type than defined");
        let vs = d.get_field_values(n);
        check(vs.map_or(0, |x| x.len()) == v.len(), "a field has other values than defined");
        let all = v.iter().all(|x| vs.map_or(false, |s| s.iter().any(|y| eq_bytes(y.as_bytes(), &x.1))));
        check(all, "a field has other values than defined");
        check(v.iter().all(|x| vs.map_or(false, |s| s.contains(std::str::from_utf8(&x.1).unwrap()))), "a field has other values than defined");
    }
    for n in [0, 1, 9, 3, 10, 100, 36, 1001, u32::MAX] {
        check(d.get_field_type(n).is_none(), "an undefined field has a type");
        check(d.get_field_values(n).is_none(), "an undefined field has values");
    }
    reach("read");
}
/// a field's number of 1 to 3 digits
//@ tier=both reach=read
pub fn h_c23_numbers() {
    let n = choice(3) as usize + 1;
    let mut b = vec![];
    let mut v = 0u32;
    for _ in 0..n {
        let d = digit("digit");
        b.push(d);
        v = v * 10 + (d - b'0') as u32;
    }
    assume((v != 8) & (v != 35) & (v != 0));
    let mut w = Wire::new();
    write(&mut w, "8", "A", "STRING", &[]);
    write(&mut w, std::str::from_utf8(&b).unwrap(), "C", "QTY", &[b"1".to_vec()]);
    write(&mut w, "35", "B", "INT", &[]);
    let Some(d) = dict(&w) else { return };
    check(d.get_field_type(v).map_or(false, |x| is(x, 8)), "a field has another type than defined");
    check(d.get_field_values(v).map_or(false, |x| x.len() == 1 && x.contains("1")), "a field has other values than defined");
    check(d.is_msg_field("m", v) & !d.is_msg_field("m", 8), "a field has another number than defined");
    reach("read");
}

/// 17 to 150 fields (at 3 numbers), each of another type than the last and with up to 2 values, one with up to 60 values of which one is any printable character
//@ tier=both reach=read
pub fn h_c23_large() {
    let n = [17usize, 60, 150][choice(3) as usize];
    let at = [0, n / 2, n - 1][choice(3) as usize];
    let m = [3usize, 17, 60][choice(3) as usize];
    let b = range("value", 0x21, 0x7e);
    assume((b != b'"') & (b != b'&') & (b != b'<'));
    let mut w = Wire(Vec::with_capacity(65536));
    let vals = |i: usize| -> Vec<Vec<u8>> {
        if i == at {
            (0..m).map(|j| if j == m / 2 { vec![b] } else { format!("v{}", j).into_bytes() }).collect()
        } else {
            (0..i % 3).map(|j| format!("{}", i + j).into_bytes()).collect()
        }
    };
    for i in 0..n {
        write(&mut w, &(5000 - i).to_string(), &if i < 3 { ["A", "B", "C"][i].to_string() } else { format!("F{}", i) }, TYPES[i % 24], &vals(i));
    }
    let Some(d) = dict(&w) else { return };
    for i in 0..n {
        let t = 5000 - i as u32;
        check(d.get_field_type(t).map_or(false, |x| is(x, i % 24)), "a field has another type than defined");
        let v = vals(i);
        let vs = d.get_field_values(t);
        check(vs.map_or(0, |x| x.len()) == v.len(), "a field has other values than defined");
        check(v.iter().all(|x| vs.map_or(false, |s| s.contains(std::str::from_utf8(x).unwrap()))), "a field has other values than defined");
    }
    reach("read");
}

/// a field of two values, each with a character of two, three or four bytes, any two bytes or any last byte
//@ tier=both reach=read
pub fn h_c23_utf8() {
    let v = [character("first"), character("second")];
    assume(v[0].len() != v[1].len() || !eq_bytes(&v[0], &v[1]));
    let mut w = Wire::new();
    write(&mut w, "8", "A", "STRING", &[]);
    write(&mut w, "7", "C", "STRING", &v);
    write(&mut w, "35", "B", "INT", &[b"1".to_vec()]);
    let Some(d) = dict(&w) else { return };
    let vs = d.get_field_values(7);
    check(vs.map_or(0, |x| x.len()) == 2, "a field has other values than defined");
    check(v.iter().all(|x| vs.map_or(false, |s| s.iter().any(|y| eq_bytes(y.as_bytes(), x)))), "a field has other values than defined");
    reach("read");
}
