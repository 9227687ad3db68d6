//! C06: body length and checksum of a serialised message.
use super::message::*;
use super::verif_common::*;
use super::verif_rt::*;

/// Both are recomputed from the serialised bytes.
fn judge(m: &Message) {
    complete(&m.to_string().into_bytes());
    reach("complete");
}
/// fixes both up, in the order the library's own example does, or repeatedly, or after other settings
fn finish(m: &mut Message, mode: u32) {
    match mode {
        0 => {
            m.set_body_len();
            m.set_checksum();
        }
        1 => {
            // stale values of another content are replaced
            m.header_mut().set_field(StringField::new(9, "99999"));
            m.trailer_mut().set_field(StringField::new(10, "abc"));
            m.set_body_len();
            m.set_checksum();
        }
        _ => {
            m.set_body_len();
            m.set_checksum();
            m.set_field(StringField::new(11, "x"));
            m.set_body_len();
            m.set_checksum();
        }
    }
}

/// header, body and trailer fields in any subset of 6, one value any printable byte or a two- or three-byte character with any last byte; checksum and length set once, again, or over stale values
//@ tier=both reach=complete
pub fn h_c06_fields() {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"0".to_vec()));
    for t in [49u32, 58, 48, 93, 89] {
        if flag() {
            set(&mut m, &(t, b"abc".to_vec()));
        }
    }
    match choice(3) {
        0 => set(&mut m, &(58, vec![vbyte("value")])),
        1 => {
            // a two- or three-byte character
            let b = byte("utf8");
            assume((b >= 0x80) & (b <= 0xbf));
            let v = if flag() { vec![0xc3, b] } else { vec![0xe2, 0x82, b] };
            match std::str::from_utf8(&v) {
                Ok(s) => m.set_field(StringField::new(58, s)),
                Err(_) => return,
            }
        }
        _ => (),
    }
    finish(&mut m, choice(3));
    judge(&m);
}

fn length(top: u32) {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"0".to_vec()));
    // 35=0 is 5 bytes; 58=..SOH is 4 more plus the value
    let n = match choice(top) {
        0 => choice(6) as usize,
        1 => 88 + choice(6) as usize,
        2 => 988 + choice(6) as usize,
        3 => 9989 + choice(4) as usize,
        _ => 99989 + choice(4) as usize,
    };
    if n > 0 {
        let mut v = vec![b'a'; n];
        v[n / 2] = vbyte("value");
        set(&mut m, &(58, v));
    }
    finish(&mut m, 0);
    judge(&m);
}

/// body lengths from 5 to 10005 bytes (around every power of ten), values any printable byte
//@ tier=quick reach=complete
pub fn h_c06_length() {
    length(4)
}
/// body lengths from 5 to 100005 bytes (around every power of ten), values any printable byte
//@ tier=thorough reach=complete
pub fn h_c06_length_t() {
    length(5)
}

/// every checksum: two values of any printable byte in a message, padded by 0 to 3 bytes
//@ tier=both reach=complete
pub fn h_c06_sum() {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"0".to_vec()));
    let v = [vbyte("value"), vbyte("value")];
    let mut x = v.to_vec();
    for _ in 0..choice(4) {
        x.push(b'~');
    }
    set(&mut m, &(58, x));
    finish(&mut m, 0);
    judge(&m);
}

fn groups(n: u32) {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"D".to_vec()));
    let hdr = flag();
    let k = choice(n + 1);
    let (c, d, e) = if hdr { (627, 628, 630) } else { (78, 79, 161) };
    {
        let g = if hdr { m.header_mut().set_group(c, k, d) } else { m.set_group(c, k, d) };
        for i in 0..k as usize {
            g[i].set_field(sf(d, b"acc"));
            if flag() {
                g[i].set_field(sf(e, &[vbyte("value")]));
            }
            if !hdr && flag() {
                let ng = g[i].set_group(539, 2, 524);
                ng[0].set_field(sf(524, b"n"));
                ng[1].set_field(sf(524, b"nn"));
            }
        }
    }
    finish(&mut m, choice(3));
    judge(&m);
}
/// a header or body group of up to 2 instances with optional members and nested groups
//@ tier=quick reach=complete
pub fn h_c06_groups() {
    groups(2)
}
/// a header or body group of up to 4 instances with optional members and nested groups
//@ tier=thorough reach=complete
pub fn h_c06_groups_t() {
    groups(4)
}

/// any 8 ASCII bytes as text: a message read from the wire, completed again, carries its own length and checksum
//@ tier=both reach=complete
pub fn h_c06_reread() {
    let dd = dict();
    let mut w = Wire::new();
    w.f("8", b"FIX.4.3").f("9", b"77").f("35", b"D").f("49", b"S").f("11", &[vbyte("value")]);
    let k = choice(3);
    w.f("78", k.to_string().as_bytes());
    for _ in 0..k {
        w.f("79", &[vbyte("value")]).f("161", b"zz");
    }
    w.f("58", &[vbyte("value")]).f("10", b"000");
    match Message::from_str(w.str(), &dd) {
        Ok(mut m) => {
            finish(&mut m, choice(3));
            judge(&m);
        }
        Err(_) => (),
    }
}

fn tags(top: u32) {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"0".to_vec()));
    let b = bytes::<2>("tag");
    let t = b[0] as u32 | (b[1] as u32) << 8;
    assume((t > 0) & (t < top));
    assume((t != 8) & (t != 9) & (t != 10));
    let v = sf(t, &[vbyte("value")]);
    let k = choice(5);
    match k {
        0 => {
            assume(t != 35);
            m.header_mut().set_field(v)
        }
        1 => m.set_field(v),
        2 => m.trailer_mut().set_field(v),
        _ => {
            let c = if k == 3 { 453 } else { 10453 };
            assume(t != c);
            let g = if k == 3 { m.header_mut().set_group(c, 2, t) } else { m.set_group(c, 2, t) };
            g[0].set_field(v);
            g[1].set_field(sf(t, b"w"));
        }
    }
    finish(&mut m, 0);
    judge(&m);
}

/// a field or group member of any tag up to 999 but 8, 9 and 10 in the header, the body or the trailer; its value any printable byte
//@ tier=quick reach=complete
pub fn h_c06_tags() {
    tags(1000)
}
/// a field or group member of any tag up to 9999 but 8, 9 and 10 in the header, the body or the trailer; its value any printable byte
//@ tier=thorough reach=complete
pub fn h_c06_tags_t() {
    tags(10000)
}

/// a value of a two-, three- or four-byte character with any last byte in each place a value can be: header, body, trailer, header group, body group, nested group
//@ tier=both reach=complete
pub fn h_c06_utf8() {
    let b = byte("utf8");
    assume((b >= 0x80) & (b <= 0xbf));
    let mut v = [vec![0xc3], vec![0xe2, 0x82], vec![0xf0, 0x9f, 0x98]][choice(3) as usize].clone();
    v.push(b);
    if flag() {
        v.push(b'x');
    }
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"D".to_vec()));
    match choice(6) {
        0 => set(&mut m, &(49, v)),
        1 => set(&mut m, &(58, v)),
        2 => set(&mut m, &(89, v)),
        3 => m.header_mut().set_group(627, 1, 628)[0].set_field(sf(628, &v)),
        4 => m.set_group(78, 1, 79)[0].set_field(sf(79, &v)),
        _ => {
            let g = m.set_group(78, 1, 79);
            g[0].set_field(sf(79, b"a"));
            g[0].set_group(539, 1, 524)[0].set_field(sf(524, &v));
        }
    }
    finish(&mut m, choice(2));
    judge(&m);
}

/// messages with 17 to 300 fields or instances (at 4 numbers), one value any printable byte
//@ tier=both reach=complete
pub fn h_c06_large() {
    let mut m = Message::new();
    set(&mut m, &(8, b"FIX.4.3".to_vec()));
    set(&mut m, &(35, b"D".to_vec()));
    let n = [17, 33, 100, 300][choice(4) as usize];
    if flag() {
        for i in 0..n {
            set(&mut m, &(5000 + i, if i == n / 2 { vec![vbyte("value")] } else { b"v".to_vec() }));
        }
    } else {
        let g = m.set_group(78, n, 79);
        for i in 0..n {
            g[i as usize].set_field(sf(79, &if i == n / 2 { vec![vbyte("value")] } else { b"v".to_vec() }));
        }
    }
    finish(&mut m, 0);
    judge(&m);
}
