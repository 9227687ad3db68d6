//! The same queries over the integers, for what is too hard for a bit-blaster: multiplication and division by constants.
//! A bit-vector term of width w becomes a linear form congruent to it modulo 2^w, with the range it can have, over the input
//! (neighbouring bytes that are read as one number are one variable), quotients by constants and choices; it is reduced to the
//! unsigned or signed value where one is needed, and only if the range says so. None on what is not linear.
//!
//! Ranges come from the conjuncts of the query itself. Whatever satisfies the query satisfies them, hence the integer formula:
//! it is unsatisfiable only if the query is. A model counts only once the bit-vectors agree with it.
use crate::expr::*;
use crate::solver::*;
use std::ffi::CString;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Lin {
    v: Vec<(u32, i128)>,
    k: i128,
}
#[derive(Clone)]
struct T {
    l: Lin,
    lo: i128,
    hi: i128,
}
#[derive(Clone, PartialEq, Eq, Hash)]
enum Atom {
    Group(u32),
    Div(Lin, i128),
    Ite(usize, Lin, Lin),
    Ind(usize),
}
struct Group {
    vars: Vec<u32>,
    p: P,
}
pub struct Lia {
    c: P,
    int: P,
    atoms: Vec<(Atom, i128, i128, Option<P>)>,
    ids: FxMap<Atom, u32>,
    groups: Vec<Group>,
    place: FxMap<u32, (u32, u32)>,
    rep: FxMap<E, Option<T>>,
    us: FxMap<E, Option<T>>,
    ss: FxMap<E, Option<T>>,
    bs: FxMap<E, Option<P>>,
    nums: FxMap<i128, P>,
    /// ranges of the unsigned and signed value that the conjuncts of the query give directly
    ur: FxMap<E, (i128, i128)>,
    sr: FxMap<E, (i128, i128)>,
    side: Vec<P>,
    keep: Vec<P>,
    /// conditions that the query gives directly
    facts: FxMap<E, bool>,
    down: Vec<(E, (i128, i128), bool)>,
    cases: u32,
    deep: u32,
    fresh: u32,
}
const BIG: i128 = 1 << 122;
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
fn ceil(a: i128, k: i128) -> i128 {
    -((-a).div_euclid(k))
}
fn small(v: i128) -> Option<i128> {
    (-BIG..=BIG).contains(&v).then_some(v)
}
fn konst(v: i128) -> T {
    T { l: Lin { v: vec![], k: v }, lo: v, hi: v }
}

impl Lia {
    pub fn new(c: P) -> Self {
        unsafe {
            let int = Z3_mk_int_sort(c);
            Z3_inc_ref(c, int);
            Lia {
                c,
                int,
                atoms: vec![],
                ids: Default::default(),
                groups: vec![],
                place: Default::default(),
                rep: Default::default(),
                us: Default::default(),
                ss: Default::default(),
                bs: Default::default(),
                nums: Default::default(),
                ur: Default::default(),
                sr: Default::default(),
                side: vec![],
                keep: vec![int],
                facts: Default::default(),
                down: vec![],
                cases: 0,
                deep: 0,
                fresh: 0,
            }
        }
    }
    fn k(&mut self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        self.keep.push(p);
        p
    }
    pub fn free(&mut self) {
        for p in self.keep.drain(..) {
            unsafe { Z3_dec_ref(self.c, p) }
        }
    }
    /// the integer variables and the bytes each stands for, lowest first
    pub fn vars(&self) -> Vec<(P, Vec<u32>)> {
        self.groups.iter().map(|g| (g.p, g.vars.clone())).collect()
    }
    // ---- formulas
    fn num(&mut self, v: i128) -> P {
        if let Some(p) = self.nums.get(&v) {
            return *p;
        }
        let t = CString::new(v.to_string()).unwrap();
        let p = unsafe { Z3_mk_numeral(self.c, t.as_ptr(), self.int) };
        let p = self.k(p);
        self.nums.insert(v, p);
        p
    }
    fn variable(&mut self, name: String) -> P {
        let t = CString::new(name).unwrap();
        let p = unsafe {
            let sy = Z3_mk_string_symbol(self.c, t.as_ptr());
            Z3_mk_const(self.c, sy, self.int)
        };
        self.k(p)
    }
    fn tru(&mut self, v: bool) -> P {
        let p = unsafe {
            if v {
                Z3_mk_true(self.c)
            } else {
                Z3_mk_false(self.c)
            }
        };
        self.k(p)
    }
    fn not(&mut self, a: P) -> P {
        let p = unsafe { Z3_mk_not(self.c, a) };
        self.k(p)
    }
    fn and(&mut self, a: P, b: P) -> P {
        let x = [a, b];
        let p = unsafe { Z3_mk_and(self.c, 2, x.as_ptr()) };
        self.k(p)
    }
    fn or(&mut self, a: P, b: P) -> P {
        let x = [a, b];
        let p = unsafe { Z3_mk_or(self.c, 2, x.as_ptr()) };
        self.k(p)
    }
    fn atom_p(&mut self, a: u32) -> P {
        if let Some(p) = self.atoms[a as usize].3 {
            return p;
        }
        let (at, lo, hi, _) = self.atoms[a as usize].clone();
        let p = match at {
            Atom::Group(g) => self.groups[g as usize].p,
            Atom::Div(l, m) => {
                if hi - lo <= 3 {
                    let mut p = self.num(hi);
                    for v in (lo..hi).rev() {
                        // quotient v or less
                        let mut x = l.clone();
                        x.k -= v * m + m - 1;
                        let c = self.le0(&x);
                        let n = self.num(v);
                        p = unsafe { Z3_mk_ite(self.c, c, n, p) };
                        p = self.k(p);
                    }
                    p
                } else {
                    self.fresh += 1;
                    let q = self.variable(format!("q{}", self.fresh));
                    let lp = self.lin_p(&l);
                    unsafe {
                        let x = [q, self.num(m)];
                        let x = Z3_mk_mul(self.c, 2, x.as_ptr());
                        let x = self.k(x);
                        let a = Z3_mk_le(self.c, x, lp);
                        let a = self.k(a);
                        let y = [x, self.num(m)];
                        let y = Z3_mk_add(self.c, 2, y.as_ptr());
                        let y = self.k(y);
                        let b = Z3_mk_lt(self.c, lp, y);
                        let b = self.k(b);
                        self.side.extend([a, b]);
                    }
                    self.bound(q, lo, hi);
                    q
                }
            }
            Atom::Ite(c, x, y) => {
                let (x, y) = (self.lin_p(&x), self.lin_p(&y));
                let p = unsafe { Z3_mk_ite(self.c, c as P, x, y) };
                self.k(p)
            }
            Atom::Ind(c) => {
                let (x, y) = (self.num(1), self.num(0));
                let p = unsafe { Z3_mk_ite(self.c, c as P, x, y) };
                self.k(p)
            }
        };
        self.atoms[a as usize].3 = Some(p);
        p
    }
    fn bound(&mut self, q: P, lo: i128, hi: i128) {
        let (l, h) = (self.num(lo), self.num(hi));
        unsafe {
            let a = Z3_mk_le(self.c, l, q);
            let a = self.k(a);
            let b = Z3_mk_le(self.c, q, h);
            let b = self.k(b);
            self.side.extend([a, b]);
        }
    }
    fn lin_p(&mut self, l: &Lin) -> P {
        let mut ps = vec![];
        for (a, c) in &l.v {
            let p = self.atom_p(*a);
            if *c == 1 {
                ps.push(p);
            } else {
                let x = [p, self.num(*c)];
                let p = unsafe { Z3_mk_mul(self.c, 2, x.as_ptr()) };
                ps.push(self.k(p));
            }
        }
        if l.k != 0 || ps.is_empty() {
            ps.push(self.num(l.k));
        }
        if ps.len() == 1 {
            return ps[0];
        }
        let p = unsafe { Z3_mk_add(self.c, ps.len() as u32, ps.as_ptr()) };
        self.k(p)
    }
    /// The terms of l in two parts, g * y and r, with r in less than g: every way, from the one with the fewest terms in y.
    fn parts(&self, l: &Lin, with: i128) -> Option<(i128, Lin, Lin, i128, i128)> {
        let mut v = l.v.clone();
        v.sort_by_key(|x| std::cmp::Reverse(x.1.abs()));
        let mut g = with;
        let mut s = 0;
        while s + 1 <= v.len() {
            g = gcd(g, v[s].1);
            s += 1;
            if g <= 1 {
                return None;
            }
            if s < v.len() && v[s].1 % g == 0 {
                continue;
            }
            let mut r = Lin { v: v[s..].to_vec(), k: l.k };
            r.v.sort_unstable();
            let (lo, hi) = self.range(&r);
            if hi - lo < g {
                let mut y = Lin { v: v[..s].iter().map(|(a, c)| (*a, c / g)).collect(), k: 0 };
                y.v.sort_unstable();
                return Some((g, y, r, lo, hi));
            }
        }
        None
    }
    /// l <= 0
    fn le0(&mut self, l: &Lin) -> P {
        if l.v.is_empty() {
            return self.tru(l.k <= 0);
        }
        if l.v.len() == 1 {
            let (a, c) = l.v[0];
            if let (Atom::Div(x, m), ..) = self.atoms[a as usize].clone() {
                if c > 0 {
                    // quotient <= b: x <= b * m + m - 1
                    let b = (-l.k).div_euclid(c);
                    if let Some(o) = b.checked_add(1).and_then(|b| b.checked_mul(m)).and_then(|o| small(o)) {
                        let mut x = x;
                        x.k -= o - 1;
                        return self.le0(&x);
                    }
                } else {
                    // quotient >= b: b * m <= x
                    let b = ceil(l.k, -c);
                    if let Some(o) = b.checked_mul(m).and_then(|o| small(o)) {
                        let y = Lin { v: x.v.iter().map(|(a, c)| (*a, -c)).collect(), k: o - x.k };
                        return self.le0(&y);
                    }
                }
            }
        }
        if let Some((g, y, r, lo, hi)) = self.parts(l, 0) {
            // y + ceil(r / g) <= 0
            let (v0, v1) = (ceil(lo, g), ceil(hi, g));
            let mut y0 = y.clone();
            y0.k += v0;
            let a = self.le0(&y0);
            if v0 == v1 {
                return a;
            }
            let mut y1 = y;
            y1.k += v1;
            let b = self.le0(&y1);
            let mut r = r;
            r.k -= g * v0;
            let c = self.le0(&r);
            let ac = self.and(a, c);
            return self.or(b, ac);
        }
        let p = self.lin_p(l);
        let z = self.num(0);
        let p = unsafe { Z3_mk_le(self.c, p, z) };
        self.k(p)
    }
    /// l = 0
    fn eq0(&mut self, l: &Lin) -> P {
        if l.v.is_empty() {
            return self.tru(l.k == 0);
        }
        if l.v.len() == 1 {
            let (a, c) = l.v[0];
            if l.k % c != 0 {
                return self.tru(false);
            }
            if let Atom::Div(..) = self.atoms[a as usize].0 {
                let n = Lin { v: vec![(a, -c)], k: -l.k };
                let (x, y) = (self.le0(l), self.le0(&n));
                return self.and(x, y);
            }
        }
        if let Some((g, y, r, lo, hi)) = self.parts(l, 0) {
            let v = ceil(lo, g);
            if v * g > hi {
                return self.tru(false);
            }
            let (mut y, mut r) = (y, r);
            y.k += v;
            r.k -= v * g;
            let (a, b) = (self.eq0(&y), self.eq0(&r));
            return self.and(a, b);
        }
        let p = self.lin_p(l);
        let z = self.num(0);
        let p = unsafe { Z3_mk_eq(self.c, p, z) };
        self.k(p)
    }
    // ---- linear forms
    fn range(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.k, l.k);
        for (a, c) in &l.v {
            let (_, x, y, _) = self.atoms[*a as usize];
            let (x, y) = match (x.checked_mul(*c), y.checked_mul(*c)) {
                (Some(x), Some(y)) => (x.min(y), x.max(y)),
                _ => return (-BIG * 16, BIG * 16),
            };
            lo = lo.saturating_add(x).max(-BIG * 16);
            hi = hi.saturating_add(y).min(BIG * 16);
        }
        (lo, hi)
    }
    /// a form with what is known of its range
    fn with(&self, l: Lin, lo: i128, hi: i128) -> Option<T> {
        let (a, b) = self.range(&l);
        let (lo, hi) = (lo.max(a), hi.min(b));
        if lo > hi {
            return None; // the query contradicts itself: for the other solvers
        }
        small(lo)?;
        small(hi)?;
        Some(T { l, lo, hi })
    }
    fn atom(&mut self, a: Atom, lo: i128, hi: i128) -> Option<T> {
        if lo == hi {
            return Some(konst(lo));
        }
        let id = match self.ids.get(&a) {
            Some(i) => *i,
            None => {
                let i = self.atoms.len() as u32;
                self.atoms.push((a.clone(), lo, hi, None));
                self.ids.insert(a, i);
                i
            }
        };
        self.with(Lin { v: vec![(id, 1)], k: 0 }, lo, hi)
    }
    fn add(&self, a: &T, b: &T) -> Option<T> {
        let mut v = vec![];
        let (mut i, mut j) = (0, 0);
        while i < a.l.v.len() || j < b.l.v.len() {
            if j == b.l.v.len() || i < a.l.v.len() && a.l.v[i].0 < b.l.v[j].0 {
                v.push(a.l.v[i]);
                i += 1;
            } else if i == a.l.v.len() || a.l.v[i].0 > b.l.v[j].0 {
                v.push(b.l.v[j]);
                j += 1;
            } else {
                let c = small(a.l.v[i].1.checked_add(b.l.v[j].1)?)?;
                if c != 0 {
                    v.push((a.l.v[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        if v.len() > 200 {
            return None;
        }
        self.with(Lin { v, k: small(a.l.k + b.l.k)? }, a.lo + b.lo, a.hi + b.hi)
    }
    fn plus(&self, a: &T, k: i128) -> Option<T> {
        self.add(a, &konst(k))
    }
    fn mul(&self, a: &T, k: i128) -> Option<T> {
        if k == 0 {
            return Some(konst(0));
        }
        let mut l = a.l.clone();
        for x in &mut l.v {
            x.1 = small(x.1.checked_mul(k)?)?;
        }
        l.k = small(l.k.checked_mul(k)?)?;
        let (x, y) = (a.lo.checked_mul(k)?, a.hi.checked_mul(k)?);
        self.with(l, x.min(y), x.max(y))
    }
    /// floor division, m > 0
    fn div(&mut self, a: &T, m: i128) -> Option<T> {
        let (lo, hi) = (a.lo.div_euclid(m), a.hi.div_euclid(m));
        if lo == hi {
            return Some(konst(lo));
        }
        if m == 1 {
            return Some(a.clone());
        }
        let mut out = Lin { v: vec![], k: a.l.k.div_euclid(m) };
        let mut inn = Lin { v: vec![], k: a.l.k.rem_euclid(m) };
        for (x, c) in &a.l.v {
            // the nearest multiple, so that small negative terms stay small
            let q = (c + m / 2).div_euclid(m);
            let r = c - q * m;
            if q != 0 {
                out.v.push((*x, q));
            }
            if r != 0 {
                inn.v.push((*x, r));
            }
        }
        let q = self.quotient(inn, m)?;
        let o = self.with(out, -BIG, BIG)?;
        let r = self.add(&o, &q)?;
        self.with(r.l, r.lo.max(lo), r.hi.min(hi))
    }
    fn quotient(&mut self, mut l: Lin, mut m: i128) -> Option<T> {
        let mut g = m;
        for (_, c) in &l.v {
            g = gcd(g, *c);
        }
        if g > 1 {
            for x in &mut l.v {
                x.1 /= g;
            }
            l.k = l.k.div_euclid(g);
            m /= g;
        }
        let (lo, hi) = self.range(&l);
        small(lo)?;
        small(hi)?;
        let (lo, hi) = (lo.div_euclid(m), hi.div_euclid(m));
        if lo == hi {
            return Some(konst(lo));
        }
        if m == 1 {
            return self.with(l, -BIG, BIG);
        }
        if l.k == 0 && l.v.len() == 1 && l.v[0].1 == 1 {
            if let Atom::Div(x, n) = &self.atoms[l.v[0].0 as usize].0 {
                return self.quotient(x.clone(), small(n.checked_mul(m)?)?);
            }
        }
        if let Some((g, mut y, _, lo, hi)) = self.parts(&l, m) {
            if lo.div_euclid(g) == hi.div_euclid(g) {
                y.k += lo.div_euclid(g);
                let y = self.with(y, -BIG, BIG)?;
                return self.div(&y, m / g);
            }
        }
        self.atom(Atom::Div(l, m), lo, hi)
    }
    fn modu(&mut self, a: &T, m: i128) -> Option<T> {
        let q = self.div(a, m)?;
        let q = self.mul(&q, -m)?;
        let r = self.add(a, &q)?;
        self.with(r.l, r.lo.max(0), r.hi.min(m - 1))
    }
    fn ite(&mut self, c: P, a: &T, b: &T) -> Option<T> {
        let (lo, hi) = (a.lo.min(b.lo), a.hi.max(b.hi));
        let nb = self.mul(b, -1)?;
        let d = self.add(a, &nb)?;
        if d.l.v.is_empty() {
            if d.l.k == 0 {
                return Some(a.clone());
            }
            let i = self.atom(Atom::Ind(c as usize), 0, 1)?;
            let i = self.mul(&i, d.l.k)?;
            let r = self.add(b, &i)?;
            return self.with(r.l, r.lo.max(lo), r.hi.min(hi));
        }
        // an atom's range must hold everywhere, that of a and b may be of a case only
        let ((p, q), (r, s)) = (self.range(&a.l), self.range(&b.l));
        let t = self.atom(Atom::Ite(c as usize, a.l.clone(), b.l.clone()), small(p.min(r))?, small(q.max(s))?)?;
        self.with(t.l, t.lo.max(lo), t.hi.min(hi))
    }
    fn lt(&mut self, a: &T, b: &T) -> Option<P> {
        let n = self.mul(b, -1)?;
        let mut d = self.add(a, &n)?;
        d.l.k += 1;
        Some(self.le0(&d.l))
    }
    fn eq(&mut self, a: &T, b: &T) -> Option<P> {
        let n = self.mul(b, -1)?;
        let d = self.add(a, &n)?;
        Some(self.eq0(&d.l))
    }
    /// value brought into [base, base + 2^w)
    fn reduce(&mut self, t: &T, w: u32, base: i128) -> Option<T> {
        if w >= 121 {
            return (t.lo >= base).then(|| t.clone());
        }
        let t = self.plus(t, -base)?;
        let t = self.modu(&t, 1 << w)?;
        self.plus(&t, base)
    }
    // ---- terms
    fn cut(&self, t: T, r: Option<(i128, i128)>) -> T {
        match r {
            Some((lo, hi)) if t.lo.max(lo) <= t.hi.min(hi) => T { lo: t.lo.max(lo), hi: t.hi.min(hi), l: t.l },
            _ => t,
        }
    }
    fn u(&mut self, e: E) -> Option<T> {
        if let Some(t) = self.us.get(&e) {
            return t.clone();
        }
        let r = self.u0(e);
        self.us.insert(e, r.clone());
        r
    }
    fn u0(&mut self, e: E) -> Option<T> {
        let t = self.t(e)?;
        let r = self.reduce(&t, cx().w(e), 0)?;
        let (lo, hi) = cx().range(e);
        let r = if hi < BIG as u128 { self.cut(r, Some((lo as i128, hi as i128))) } else { r };
        let x = self.ur.get(&e).copied();
        Some(self.cut(r, x))
    }
    fn s(&mut self, e: E) -> Option<T> {
        if let Some(t) = self.ss.get(&e) {
            return t.clone();
        }
        let r = self.s0(e);
        self.ss.insert(e, r.clone());
        r
    }
    fn s0(&mut self, e: E) -> Option<T> {
        let w = cx().w(e);
        let t = self.t(e)?;
        let r = if w == 128 {
            t // within 2^122 of 0
        } else {
            let half = 1i128 << (w - 1);
            match (cx().range(e), self.ur.get(&e)) {
                ((_, hi), _) if hi < half as u128 => self.u(e)?,
                (_, Some((_, hi))) if *hi < half => self.u(e)?,
                _ => self.reduce(&t, w, -half)?,
            }
        };
        let x = self.sr.get(&e).copied();
        Some(self.cut(r, x))
    }
    /// an integer congruent to e modulo 2^w
    fn t(&mut self, e: E) -> Option<T> {
        if let Some(t) = self.rep.get(&e) {
            return t.clone();
        }
        // children first, without deep recursion
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.rep.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = cx().n(x);
            let mut pend = false;
            let f = if n.op == Op::Ite { self.facts.get(&n.a).copied() } else { None };
            let kids: &[E] = match n.op {
                Op::Ite if f == Some(true) => &[n.b],
                Op::Ite if f == Some(false) => &[n.c],
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            for k in kids {
                if cx().w(*k) > 1 && !self.rep.contains_key(k) {
                    st.push(*k);
                    pend = true;
                }
            }
            if pend {
                continue;
            }
            let r = self.t0(x);
            self.rep.insert(x, r.clone());
            let w = cx().w(x);
            if let Some(t) = r {
                // what the query says of it is worth more than the plain sum
                if self.ur.contains_key(&x) || w > 1 && w < 110 && (t.hi > 1i128 << (w + 6) || t.lo < -(1i128 << (w + 6))) {
                    let r = self.u(x);
                    self.rep.insert(x, r);
                } else if self.sr.contains_key(&x) {
                    let r = self.s(x);
                    self.rep.insert(x, r);
                }
            }
            st.pop();
        }
        self.rep[&e].clone()
    }
    /// bytes [p, q] of group g as one number
    fn span(&mut self, g: u32, p: u32, q: u32) -> Option<T> {
        let n = self.groups[g as usize].vars.len() as u32;
        let id = self.ids[&Atom::Group(g)];
        let (_, lo, hi, _) = self.atoms[id as usize];
        let x = self.with(Lin { v: vec![(id, 1)], k: 0 }, lo, hi)?;
        let a = self.div(&x, 1 << (8 * p))?;
        if q + 1 == n {
            return Some(a);
        }
        let b = self.div(&x, 1 << (8 * (q + 1)))?;
        let b = self.mul(&b, -(1 << (8 * (q + 1 - p))))?;
        let r = self.add(&a, &b)?;
        self.with(r.l, r.lo.max(0), r.hi.min((1 << (8 * (q + 1 - p))) - 1))
    }
    fn t0(&mut self, e: E) -> Option<T> {
        let n = cx().n(e);
        let w = n.w as u32;
        if w > 120 && w != 128 {
            return None;
        }
        if w == 1 {
            let p = self.b(e)?;
            return self.ite(p, &konst(1), &konst(0));
        }
        let signed = |v: u128, w: u32| -> i128 {
            if w < 128 && v >> (w - 1) & 1 == 1 {
                v as i128 - (1i128 << w)
            } else {
                v as i128
            }
        };
        match n.op {
            Op::Const => Some(konst(small(signed(cx().is_const(e).unwrap(), w))?)),
            Op::Var => {
                let (g, p) = self.place[&n.a];
                self.span(g, p, p)
            }
            Op::Add => {
                let (a, b) = (self.t(n.a)?, self.t(n.b)?);
                self.add(&a, &b)
            }
            Op::Sub => {
                let (a, b) = (self.t(n.a)?, self.t(n.b)?);
                let b = self.mul(&b, -1)?;
                self.add(&a, &b)
            }
            Op::Mul => {
                let (a, b) = match (cx().is_const(n.a), cx().is_const(n.b)) {
                    (_, Some(v)) => (n.a, v),
                    (Some(v), _) => (n.b, v),
                    _ => return None,
                };
                let a = self.t(a)?;
                self.mul(&a, signed(b, w))
            }
            Op::Shl => {
                let k = cx().is_const(n.b)?;
                if k >= w as u128 || k > 100 {
                    return None;
                }
                let a = self.t(n.a)?;
                self.mul(&a, 1 << k)
            }
            Op::LShr | Op::AShr => {
                let k = cx().is_const(n.b)?;
                if k >= w as u128 || k > 120 {
                    return None;
                }
                let a = if n.op == Op::LShr { self.u(n.a)? } else { self.s(n.a)? };
                self.div(&a, 1 << k)
            }
            Op::UDiv | Op::URem => {
                let k = cx().is_const(n.b)?;
                if k == 0 || k > BIG as u128 {
                    return None;
                }
                let a = self.u(n.a)?;
                if n.op == Op::UDiv {
                    self.div(&a, k as i128)
                } else {
                    self.modu(&a, k as i128)
                }
            }
            Op::SDiv | Op::SRem => {
                let k = signed(cx().is_const(n.b)?, w);
                if k == 0 {
                    return None;
                }
                small(k)?;
                let a = self.s(n.a)?;
                let m = k.abs();
                let div = n.op == Op::SDiv;
                // of a value that is not negative
                fn pos(z: &mut Lia, a: &T, m: i128, div: bool) -> Option<T> {
                    if div {
                        z.div(a, m)
                    } else {
                        z.modu(a, m)
                    }
                }
                let r = if a.lo >= 0 {
                    pos(self, &a, m, div)?
                } else {
                    // towards zero
                    let b = self.mul(&a, -1)?;
                    let b = self.cut(b, Some((0, BIG)));
                    let x = pos(self, &b, m, div)?;
                    let x = self.mul(&x, -1)?;
                    if a.hi <= 0 {
                        x
                    } else {
                        let c = self.lt(&a, &konst(0))?;
                        let a = self.cut(a, Some((0, BIG)));
                        let y = pos(self, &a, m, div)?;
                        self.ite(c, &x, &y)?
                    }
                };
                if div && k < 0 {
                    self.mul(&r, -1)
                } else {
                    Some(r)
                }
            }
            Op::And => {
                let (a, m) = match (cx().is_const(n.a), cx().is_const(n.b)) {
                    (_, Some(v)) => (n.a, v),
                    (Some(v), _) => (n.b, v),
                    _ => return None,
                };
                if m == 0 {
                    return Some(konst(0));
                }
                // each run of bits
                let mut r = konst(0);
                let mut done = 0;
                for _ in 0..8 {
                    if m >> done == 0 {
                        return Some(r);
                    }
                    let lo = done + (m >> done).trailing_zeros();
                    let len = (!(m >> lo)).trailing_zeros();
                    done = lo + len;
                    if done > 110 {
                        return None;
                    }
                    let x = if lo == 0 {
                        let a = self.t(a)?;
                        self.modu(&a, 1 << len)?
                    } else {
                        let a = self.u(a)?;
                        let a = self.div(&a, 1 << lo)?;
                        let a = if done >= w { a } else { self.modu(&a, 1 << len)? };
                        self.mul(&a, 1 << lo)?
                    };
                    r = self.add(&r, &x)?;
                }
                None
            }
            Op::Or | Op::Xor => {
                if n.op == Op::Xor && cx().is_const(n.b) == Some(mask(w)) {
                    let a = self.t(n.a)?;
                    let a = self.mul(&a, -1)?;
                    return self.plus(&a, -1);
                }
                let (a, b) = (self.u(n.a)?, self.u(n.b)?);
                // no bit that both have
                if cx().apart(n.a, n.b) || self.apart(&a, &b) || self.apart(&b, &a) {
                    return self.add(&a, &b);
                }
                if n.op == Op::Xor && a.hi == 1 && b.l.v.is_empty() && b.l.k == 1 {
                    let a = self.mul(&a, -1)?;
                    return self.plus(&a, 1);
                }
                // by cases of a choice in it
                let g = self.choice(e)?;
                let c = self.b(g)?;
                let x = self.case(e, g, true)?;
                let y = self.case(e, g, false)?;
                self.ite(c, &x, &y)
            }
            Op::Concat => {
                let wb = cx().w(n.b);
                if wb > 100 {
                    return None;
                }
                let (a, b) = (self.t(n.a)?, self.u(n.b)?);
                let a = self.mul(&a, 1 << wb)?;
                self.add(&a, &b)
            }
            Op::Extract => {
                if n.b == 0 {
                    return self.t(n.a);
                }
                if n.b > 120 {
                    return None;
                }
                let a = self.u(n.a)?;
                self.div(&a, 1 << n.b)
            }
            Op::ZExt => self.u(n.a),
            Op::SExt => self.s(n.a),
            Op::Ite => {
                match self.facts.get(&n.a) {
                    Some(true) => return self.t(n.b),
                    Some(false) => return self.t(n.c),
                    None => {}
                }
                let c = self.b(n.a)?;
                let (a, b) = (self.t(n.b)?, self.t(n.c)?);
                self.ite(c, &a, &b)
            }
            _ => None,
        }
    }
    /// a is a multiple of 2^s less than 2^t, b has no bit between the two
    fn apart(&mut self, a: &T, b: &T) -> bool {
        let s = a.l.v.iter().fold(a.l.k, |g, y| g | y.1).trailing_zeros().min(120);
        let t = 128 - a.hi.leading_zeros();
        t <= s || t < 121 && self.modu(b, 1 << t).map_or(false, |l| l.hi < 1 << s)
    }
    /// the condition of a choice in e that is not decided
    fn choice(&self, e: E) -> Option<E> {
        if self.cases >= 5 {
            return None;
        }
        let mut seen: FxMap<E, ()> = Default::default();
        let mut q = std::collections::VecDeque::from([e]);
        while let Some(x) = q.pop_front() {
            if seen.len() > 400 || seen.insert(x, ()).is_some() || cx().w(x) == 1 {
                continue;
            }
            let n = cx().n(x);
            match n.op {
                Op::Const | Op::Var => {}
                Op::Ite => match self.facts.get(&n.a) {
                    Some(true) => q.push_back(n.b),
                    Some(false) => q.push_back(n.c),
                    None => return Some(n.a),
                },
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => q.push_back(n.a),
                _ => q.extend([n.a, n.b]),
            }
        }
        None
    }
    /// the form of e where g has this value: nothing known of that case may stay known
    fn case(&mut self, e: E, g: E, v: bool) -> Option<T> {
        let old = (
            std::mem::take(&mut self.rep),
            std::mem::take(&mut self.us),
            std::mem::take(&mut self.ss),
            std::mem::take(&mut self.bs),
            (self.facts.clone(), self.ur.clone(), self.sr.clone(), self.down.len()),
        );
        self.cases += 1;
        self.learn(g, v, 0);
        let r = self.t(e);
        self.cases -= 1;
        (self.rep, self.us, self.ss, self.bs) = (old.0, old.1, old.2, old.3);
        let d;
        (self.facts, self.ur, self.sr, d) = old.4;
        self.down.truncate(d);
        r
    }
    // ---- conditions
    fn b(&mut self, e: E) -> Option<P> {
        if let Some(t) = self.bs.get(&e) {
            return *t;
        }
        self.deep += 1;
        let r = if self.deep < 3000 { self.b0(e) } else { None };
        self.deep -= 1;
        self.bs.insert(e, r);
        r
    }
    /// a conjunction: equations of neighbouring bytes are one equation
    fn conj(&mut self, e: E) -> Option<P> {
        let mut st = vec![e];
        let mut rest = vec![];
        let mut bytes: Vec<((u32, u32), Option<(u32, u32)>, u8)> = vec![];
        while let Some(x) = st.pop() {
            let n = cx().n(x);
            if n.op == Op::And && n.w == 1 {
                st.push(n.a);
                st.push(n.b);
                continue;
            }
            if n.op == Op::Eq && cx().w(n.a) == 8 {
                let (a, b) = (cx().n(n.a), cx().n(n.b));
                match (a.op, b.op) {
                    (Op::Var, Op::Const) => {
                        bytes.push((self.place[&a.a], None, cx().is_const(n.b).unwrap() as u8));
                        continue;
                    }
                    (Op::Const, Op::Var) => {
                        bytes.push((self.place[&b.a], None, cx().is_const(n.a).unwrap() as u8));
                        continue;
                    }
                    (Op::Var, Op::Var) => {
                        let (x, y) = (self.place[&a.a], self.place[&b.a]);
                        bytes.push((x.min(y), Some(x.max(y)), 0));
                        continue;
                    }
                    _ => {}
                }
            }
            rest.push(x);
        }
        let mut r = self.tru(true);
        bytes.sort_unstable();
        let mut i = 0;
        while i < bytes.len() {
            let mut j = i + 1;
            while j < bytes.len() {
                let (p, q) = (&bytes[j - 1], &bytes[j]);
                let next = |a: (u32, u32), b: (u32, u32)| a.0 == b.0 && a.1 + 1 == b.1;
                let ok = next(p.0, q.0)
                    && match (p.1, q.1) {
                        (None, None) => true,
                        (Some(x), Some(y)) => next(x, y),
                        _ => false,
                    };
                if !ok {
                    break;
                }
                j += 1;
            }
            let (g, lo) = bytes[i].0;
            let a = self.span(g, lo, lo + (j - i) as u32 - 1)?;
            let b = match bytes[i].1 {
                Some((h, lo)) => self.span(h, lo, lo + (j - i) as u32 - 1)?,
                None => konst(bytes[i..j].iter().rev().fold(0, |v, b| v << 8 | b.2 as i128)),
            };
            let q = self.eq(&a, &b)?;
            r = self.and(r, q);
            i = j;
        }
        for x in rest {
            let q = self.b(x)?;
            r = self.and(r, q);
        }
        Some(r)
    }
    fn b0(&mut self, e: E) -> Option<P> {
        let n = cx().n(e);
        let c = self.c;
        let p = match n.op {
            Op::Const => return Some(self.tru(cx().is_const(e) == Some(1))),
            Op::Not => {
                let a = self.b(n.a)?;
                return Some(self.not(a));
            }
            Op::And => return self.conj(e),
            Op::Or | Op::Xor => {
                let x = [self.b(n.a)?, self.b(n.b)?];
                unsafe {
                    match n.op {
                        Op::Or => Z3_mk_or(c, 2, x.as_ptr()),
                        _ => Z3_mk_xor(c, x[0], x[1]),
                    }
                }
            }
            Op::Ite => {
                let (x, y, z) = (self.b(n.a)?, self.b(n.b)?, self.b(n.c)?);
                unsafe { Z3_mk_ite(c, x, y, z) }
            }
            Op::Eq if cx().w(n.a) == 1 => {
                let (x, y) = (self.b(n.a)?, self.b(n.b)?);
                unsafe { Z3_mk_eq(c, x, y) }
            }
            Op::Eq => {
                let (x, y) = (self.t(n.a)?, self.t(n.b)?);
                let w = cx().w(n.a);
                // equal modulo 2^w is equal when the two cannot be that far apart
                if w >= 121 || x.hi.max(y.hi) - x.lo.min(y.lo) < 1i128 << w {
                    return self.eq(&x, &y);
                }
                let (x, y) = (self.u(n.a)?, self.u(n.b)?);
                return self.eq(&x, &y);
            }
            Op::Ult if cx().w(n.a) > 1 => {
                let (x, y) = (self.u(n.a)?, self.u(n.b)?);
                return self.lt(&x, &y);
            }
            Op::Slt if cx().w(n.a) > 1 => {
                let (x, y) = (self.s(n.a)?, self.s(n.b)?);
                return self.lt(&x, &y);
            }
            Op::Extract => {
                if n.b == cx().w(n.a) - 1 {
                    let a = self.s(n.a)?;
                    return self.lt(&a, &konst(0));
                }
                if n.b > 120 {
                    return None;
                }
                let a = if n.b == 0 { self.t(n.a)? } else { self.u(n.a)? };
                let a = self.div(&a, 1 << n.b)?;
                let a = self.modu(&a, 2)?;
                return self.eq(&a, &konst(1));
            }
            _ => return None,
        };
        Some(self.k(p))
    }
    // ---- what the conjuncts say of ranges
    fn learn(&mut self, e: E, pos: bool, depth: u32) {
        let n = cx().n(e);
        let cv = |e: E, sg: bool| -> Option<i128> {
            let v = cx().is_const(e)?;
            let w = cx().w(e);
            if w > 120 {
                return (v < BIG as u128).then_some(v as i128);
            }
            Some(if sg && v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 })
        };
        if n.op != Op::Not {
            self.facts.insert(e, pos);
        }
        match n.op {
            Op::Not => self.learn(n.a, !pos, depth),
            Op::And | Op::Or if n.w == 1 && pos == (n.op == Op::And) && depth < 60 => {
                self.learn(n.a, pos, depth + 1);
                self.learn(n.b, pos, depth + 1)
            }
            Op::Eq if pos && cx().w(n.a) < 121 => {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    if let Some(k) = cv(x, false) {
                        self.note(y, (k, k), false, false);
                    }
                }
            }
            Op::Ult => {
                let w = cx().w(n.a);
                if w < 121 {
                    let m = (1i128 << w) - 1;
                    if let Some(k) = cv(n.b, false) {
                        self.note(n.a, if pos { (0, k - 1) } else { (k, m) }, false, false);
                    } else if let Some(k) = cv(n.a, false) {
                        self.note(n.b, if pos { (k + 1, m) } else { (0, k) }, false, false);
                    }
                }
            }
            Op::Slt => {
                let w = cx().w(n.a);
                if w < 121 && w > 1 {
                    let (l, h) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    if let Some(k) = cv(n.b, true) {
                        self.note(n.a, if pos { (l, k - 1) } else { (k, h) }, true, false);
                    } else if let Some(k) = cv(n.a, true) {
                        self.note(n.b, if pos { (k + 1, h) } else { (l, k) }, true, false);
                    }
                }
            }
            _ => {}
        }
    }
    fn note(&mut self, mut e: E, r: (i128, i128), sg: bool, mut down: bool) {
        if r.0 > r.1 {
            return;
        }
        loop {
            let w = cx().w(e);
            if cx().is_const(e).is_some() || w == 1 {
                return;
            }
            let map = if sg { &mut self.sr } else { &mut self.ur };
            let o = map.get(&e).copied().unwrap_or((-BIG, BIG));
            let x = (o.0.max(r.0), o.1.min(r.1));
            if x.0 <= x.1 {
                map.insert(e, x);
                if down {
                    self.down.push((e, x, sg));
                }
                if sg && x.0 >= 0 {
                    self.note(e, x, false, down);
                }
            }
            let n = cx().n(e);
            down = true;
            match n.op {
                Op::ZExt if !sg => e = n.a,
                Op::SExt if sg => e = n.a,
                // (x + c) in a range: x is in that moved by c, if that does not wrap
                Op::Add if !sg && w < 121 => {
                    let Some(c) = cx().is_const(n.b) else { return };
                    let c = c as i128;
                    let m = 1i128 << w;
                    let c = if c >= m / 2 { c - m } else { c };
                    let (lo, hi) = (x.0 - c, x.1 - c);
                    if lo >= 0 && hi < m {
                        self.note(n.a, (lo, hi), false, true);
                    }
                    return;
                }
                _ => return,
            }
        }
    }
    /// bytes read as one number are one variable
    fn group(&mut self, cs: &[E]) {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = cs.to_vec();
        let mut all: Vec<u32> = vec![];
        let mut runs: Vec<(Vec<u32>, E)> = vec![];
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = cx().n(e);
            match n.op {
                Op::Const => {}
                Op::Var => all.push(n.a),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                Op::Concat => {
                    // lowest first
                    let mut vs = vec![];
                    let mut q = vec![e];
                    let mut ok = true;
                    while let Some(x) = q.pop() {
                        let m = cx().n(x);
                        match m.op {
                            Op::Concat => q.extend([m.a, m.b]),
                            Op::Var => vs.push(m.a),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok && vs.len() <= 8 {
                        runs.push((vs, e));
                    }
                    st.extend([n.a, n.b]);
                }
                _ => st.extend([n.a, n.b]),
            }
        }
        runs.sort_by_key(|r| (std::cmp::Reverse(r.0.len()), r.0.clone()));
        let mut gs: Vec<(Vec<u32>, E)> = vec![];
        for (r, e) in runs {
            let mut d = r.clone();
            d.sort_unstable();
            d.dedup();
            if d.len() == r.len() && r.iter().all(|v| !self.place.contains_key(v)) {
                for (p, v) in r.iter().enumerate() {
                    self.place.insert(*v, (gs.len() as u32, p as u32));
                }
                gs.push((r, e));
            }
        }
        for v in all {
            if !self.place.contains_key(&v) {
                self.place.insert(v, (gs.len() as u32, 0));
                gs.push((vec![v], cx().var(v)));
            }
        }
        for (i, (vars, e)) in gs.into_iter().enumerate() {
            let p = self.variable(format!("x{}", vars[0]));
            let full = (1i128 << (8 * vars.len())) - 1;
            self.groups.push(Group { vars, p });
            // known ranges are facts of the variable as well
            let (lo, hi) = self.ur.get(&e).copied().unwrap_or((0, full));
            let (lo, hi) = (lo.max(0), hi.min(full));
            let (lo, hi) = if lo <= hi { (lo, hi) } else { (0, full) };
            self.bound(p, lo, hi);
            let (lo, hi) = if lo < hi { (lo, hi) } else { (0, full) };
            self.ids.insert(Atom::Group(i as u32), self.atoms.len() as u32);
            self.atoms.push((Atom::Group(i as u32), lo, hi, None));
        }
    }
    /// The conjuncts cs; the lemmas follow from them.
    pub fn all(&mut self, cs: &[E], lemmas: &[E]) -> Option<Vec<P>> {
        for e in cs.iter().chain(lemmas) {
            self.learn(*e, true, 0);
        }
        self.group(cs);
        let mut r = vec![];
        for e in cs {
            r.push(self.b(*e)?);
        }
        // ranges handed down to a part: the conjunct they come from may rely on them
        for (e, (lo, hi), sg) in std::mem::take(&mut self.down) {
            if let Some(t) = if sg { self.s(e) } else { self.u(e) } {
                let (mut a, mut b) = (t.l.clone(), t.l);
                for x in &mut a.v {
                    x.1 = -x.1;
                }
                a.k = lo - a.k;
                b.k -= hi;
                let (a, b) = (self.le0(&a), self.le0(&b));
                r.extend([a, b]);
            }
        }
        r.extend(self.side.iter());
        Some(r)
    }
}
