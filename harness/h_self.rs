//! Self-test of the machinery.
use super::verif_rt::*;
use std::collections::HashMap;

pub fn h_self() {
    let b = bytes::<3>("b");
    let s = String::from_utf8_lossy(&b).to_string();
    observe(s.as_bytes());
    if let Ok(n) = s.parse::<u32>() {
        reach("number");
        observe_n(n as u64);
        check(n < 1000, "three digits");
        check(n != 777, "finds 777");
    } else {
        reach("not a number");
    }
    let mut m: HashMap<String, u32> = HashMap::new();
    m.insert("a".into(), 1);
    m.insert("b".into(), 2);
    let r = catch(|| {
        let v: Vec<&str> = s.split('=').collect();
        v[1].len()
    });
    if r.is_none() {
        reach("panicked");
    }
    observe_n(r.map_or(99, |x| x as u64));
}
