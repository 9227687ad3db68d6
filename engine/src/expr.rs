//! Hash-consed bit-vector expression DAG with an eager simplifier.
//! Expression id 0 is reserved ("concrete byte" marker in memory objects).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;
pub type VarSet = [u64; 4];

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // a = expr, b = lo, width = w
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
struct Info {
    lo: u128,
    hi: u128,
    kz: u128, // maybe-nonzero bits
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    info: Vec<Info>,
    pub vars: Vec<VarSet>,
    pub consts: Vec<u128>,
    map: FxMap<Node, E>,
    cmap: FxMap<(u8, u128), E>,
    tt: FxMap<E, [u64; 4]>,
    ev: Vec<(u32, u128)>,
    ev_gen: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
pub fn init() {
    let mut c = Ctx {
        nodes: vec![],
        info: vec![],
        vars: vec![],
        consts: vec![],
        map: Default::default(),
        cmap: Default::default(),
        tt: Default::default(),
        ev: vec![],
        ev_gen: 1,
    };
    // id 0 reserved
    c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
    c.consts.push(0);
    c.info.push(Info { lo: 0, hi: 0, kz: 0 });
    c.vars.push([0; 4]);
    c.ev.push((0, 0));
    unsafe { CTX = Box::into_raw(Box::new(c)) };
}

pub fn vs_or(a: &VarSet, b: &VarSet) -> VarSet {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn vs_meet(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}
pub fn vs_count(a: &VarSet) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn vs_first(a: &VarSet) -> Option<usize> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some(i * 64 + a[i].trailing_zeros() as usize);
        }
    }
    None
}
pub fn vs_iter(a: &VarSet) -> Vec<usize> {
    let mut r = vec![];
    for i in 0..4 {
        let mut x = a[i];
        while x != 0 {
            r.push(i * 64 + x.trailing_zeros() as usize);
            x &= x - 1;
        }
    }
    r
}

impl Ctx {
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(w as u8, v)) {
            return *e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 });
        self.info.push(Info { lo: v, hi: v, kz: v });
        self.vars.push([0; 4]);
        self.ev.push((0, 0));
        self.cmap.insert((w as u8, v), id);
        id
    }
    pub fn bool(&mut self, b: bool) -> E {
        self.konst(1, b as u128)
    }
    pub fn var(&mut self, idx: u32) -> E {
        let n = Node { op: Op::Var, w: 8, a: idx, b: 0, c: 0 };
        self.intern(n)
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let info = self.compute_info(&n);
        if info.lo == info.hi && n.op != Op::Var {
            // range analysis says it is a constant
            let k = self.konst(n.w as u32, info.lo);
            self.map.insert(n, k);
            return k;
        }
        let vars = match n.op {
            Op::Var => {
                let mut v = [0u64; 4];
                let i = n.a as usize;
                assert!(i < 256, "too many symbolic bytes");
                v[i / 64] |= 1 << (i % 64);
                v
            }
            Op::Const => [0; 4],
            Op::Extract | Op::ZExt | Op::SExt | Op::Not => self.vars[n.a as usize],
            Op::Ite => {
                let x = vs_or(&self.vars[n.a as usize], &self.vars[n.b as usize]);
                vs_or(&x, &self.vars[n.c as usize])
            }
            _ => vs_or(&self.vars[n.a as usize], &self.vars[n.b as usize]),
        };
        let id2 = self.nodes.len() as u32;
        debug_assert!(id <= id2);
        self.nodes.push(n);
        self.info.push(info);
        self.vars.push(vars);
        self.ev.push((0, 0));
        self.map.insert(n, id2);
        id2
    }
    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w as u32;
        let m = mask(w);
        let full = Info { lo: 0, hi: m, kz: m };
        let i = |e: u32| self.info[e as usize];
        let mut r = match n.op {
            Op::Const | Op::Var => full,
            Op::Add => {
                let (a, b) = (i(n.a), i(n.b));
                match (a.hi.checked_add(b.hi), a.lo.checked_add(b.lo)) {
                    (Some(h), Some(l)) if h <= m => Info { lo: l, hi: h, kz: m },
                    // both wrap
                    (Some(h), Some(l)) if l > m && h <= m + m + 1 && m < (1 << 127) => {
                        Info { lo: l - m - 1, hi: h - m - 1, kz: m }
                    }
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (i(n.a), i(n.b));
                if a.lo >= b.hi {
                    Info { lo: a.lo - b.hi, hi: a.hi - b.lo, kz: m }
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (i(n.a), i(n.b));
                match a.hi.checked_mul(b.hi) {
                    Some(h) if h <= m => Info { lo: a.lo * b.lo, hi: h, kz: m },
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (i(n.a), i(n.b));
                if b.lo > 0 {
                    Info { lo: a.lo / b.hi, hi: a.hi / b.lo, kz: m }
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (i(n.a), i(n.b));
                if b.lo > 0 {
                    Info { lo: 0, hi: a.hi.min(b.hi - 1), kz: m }
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (i(n.a), i(n.b));
                Info { lo: 0, hi: a.hi.min(b.hi), kz: a.kz & b.kz }
            }
            Op::Or => {
                let (a, b) = (i(n.a), i(n.b));
                Info { lo: a.lo.max(b.lo), hi: m, kz: a.kz | b.kz }
            }
            Op::Xor => {
                let (a, b) = (i(n.a), i(n.b));
                Info { lo: 0, hi: m, kz: a.kz | b.kz }
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    let a = i(n.a);
                    let kz = if k >= 128 { 0 } else { (a.kz << k) & m };
                    Info { lo: 0, hi: m, kz }
                } else {
                    full
                }
            }
            Op::LShr => Info { lo: 0, hi: i(n.a).hi, kz: m },
            Op::Concat => {
                let (a, b) = (i(n.a), i(n.b));
                let wb = self.w(n.b);
                Info {
                    lo: (a.lo << wb) | b.lo,
                    hi: (a.hi << wb) | b.hi,
                    kz: (a.kz << wb) | b.kz,
                }
            }
            Op::Extract => {
                let a = i(n.a);
                let kz = (a.kz >> n.b) & m;
                if a.hi >> n.b <= m {
                    Info { lo: a.lo >> n.b, hi: a.hi >> n.b, kz }
                } else {
                    Info { lo: 0, hi: m, kz }
                }
            }
            Op::ZExt => i(n.a),
            Op::SExt => {
                let a = i(n.a);
                let wa = self.w(n.a);
                if a.hi <= mask(wa) >> 1 {
                    a
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = (i(n.b), i(n.c));
                Info { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), kz: a.kz | b.kz }
            }
            _ => full,
        };
        // combine kz and range
        r.kz &= m;
        if r.hi > r.kz {
            r.hi = r.kz;
        }
        let hb = 128 - r.hi.leading_zeros();
        r.kz &= mask(hb);
        if r.lo > r.hi {
            r.lo = r.hi;
        }
        r
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.lo, i.hi)
    }

    /// no bit that both could have
    pub fn apart(&self, a: E, b: E) -> bool {
        self.info[a as usize].kz & self.info[b as usize].kz == 0
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        if let Some(k) = self.is_const(a) {
            return self.bool(k == 0);
        }
        let n = self.n(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.intern(Node { op: Op::Not, w: 1, a, b: 0, c: 0 })
    }
    fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_add(y)),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(k2) = self.is_const(n.b) {
                    let kk = self.konst(w, k.wrapping_add(k2));
                    return self.add(n.a, kk);
                }
            }
            if w == 1 {
                return self.not(a);
            }
            if n.op == Op::Ite {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let x = self.add(n.b, b);
                    let y = self.add(n.c, b);
                    return self.ite(n.a, x, y);
                }
            }
        } else {
            // (x + c) + y -> (x + y) + c
            let na = self.n(a);
            if na.op == Op::Add && self.is_const(na.b).is_some() {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            let nb = self.n(b);
            if nb.op == Op::Add && self.is_const(nb.b).is_some() {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            // x + (y - x) -> y
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.bin(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.is_const(b) {
            let k = self.konst(w, 0u128.wrapping_sub(y));
            return self.add(a, k);
        }
        // (x + c) - x
        let na = self.n(a);
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        self.bin(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_mul(y)),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.konst(w, k.trailing_zeros() as u128);
                return self.shl(a, s);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.bin(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.konst(w, if y == 0 { mask(w) } else { x / y });
            }
            if y == 1 {
                return a;
            }
            if y != 0 && y.is_power_of_two() {
                let s = self.konst(w, y.trailing_zeros() as u128);
                return self.lshr(a, s);
            }
            let (_, hi) = self.range(a);
            if hi < y {
                return self.konst(w, 0);
            }
            let need = (128 - hi.leading_zeros()).max(1);
            if need < w && y <= mask(need) {
                let x = self.extract(a, need - 1, 0);
                let k = self.konst(need, y);
                let q = self.bin(Op::UDiv, need, x, k);
                return self.zext(q, w);
            }
        }
        self.bin(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.konst(w, if y == 0 { x } else { x % y });
            }
            if y == 1 {
                return self.konst(w, 0);
            }
            if y != 0 && y.is_power_of_two() {
                let m = self.konst(w, y - 1);
                return self.and(a, m);
            }
            let (_, hi) = self.range(a);
            if hi < y {
                return a;
            }
            let need = (128 - hi.leading_zeros()).max(1);
            if need < w && y <= mask(need) {
                let x = self.extract(a, need - 1, 0);
                let k = self.konst(need, y);
                let q = self.bin(Op::URem, need, x, k);
                return self.zext(q, w);
            }
        }
        self.bin(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                return self.konst(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        let half = mask(w) >> 1;
        if self.range(a).1 <= half && self.range(b).1 <= half {
            return self.udiv(a, b);
        }
        self.bin(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 {
                return self.konst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        let half = mask(w) >> 1;
        if self.range(a).1 <= half && self.range(b).1 <= half {
            return self.urem(a, b);
        }
        self.bin(Op::SRem, w, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return a;
        }
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x & y),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            let kz = self.info[a as usize].kz;
            if kz & k == 0 {
                return self.konst(w, 0);
            }
            if kz & !k == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::And {
                if let Some(k2) = self.is_const(n.b) {
                    let kk = self.konst(w, k & k2);
                    return self.and(n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
                let x = self.and(n.b, b);
                let y = self.and(n.c, b);
                return self.ite(n.a, x, y);
            }
            if n.op == Op::Concat {
                let wb = self.w(n.b);
                let (kh, kl) = (k >> wb, k & mask(wb));
                let ch = self.konst(w - wb, kh);
                let cl = self.konst(wb, kl);
                let x = self.and(n.a, ch);
                let y = self.and(n.b, cl);
                return self.concat(x, y);
            }
            // contiguous mask -> extract
            let tz = k.trailing_zeros();
            let top = 128 - k.leading_zeros();
            if k == mask(top) & !mask(tz) {
                let x = self.extract(a, top - 1, tz);
                let mut r = x;
                if tz > 0 {
                    let z = self.konst(tz, 0);
                    r = self.concat(r, z);
                }
                return self.zext(r, w);
            }
        } else {
            if w == 1 {
                let (na, nb) = (self.n(a), self.n(b));
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.bool(false);
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        if self.info[a as usize].kz & self.info[b as usize].kz == 0 {
            return self.konst(w, 0);
        }
        self.bin(Op::And, w, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return a;
        }
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x | y),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
            let n = self.n(a);
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let x = self.or(n.b, b);
                let y = self.or(n.c, b);
                return self.ite(n.a, x, y);
            }
        } else {
            if w == 1 {
                let (na, nb) = (self.n(a), self.n(b));
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.bool(true);
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        // disjoint halves -> concat
        if w > 1 {
            let (ka, kb) = (self.info[a as usize].kz, self.info[b as usize].kz);
            if ka & kb == 0 {
                let (hi, lo, _khi, klo) = if ka > kb { (a, b, ka, kb) } else { (b, a, kb, ka) };
                let khi = if ka > kb { ka } else { kb };
                let cut = khi.trailing_zeros();
                let top = 128 - klo.leading_zeros();
                if klo != 0 && top <= cut && cut > 0 && cut < w {
                    let h = self.extract(hi, w - 1, cut);
                    let l = self.extract(lo, cut - 1, 0);
                    return self.concat(h, l);
                }
            }
        }
        self.bin(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if a == b {
            return self.konst(w, 0);
        }
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x ^ y),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            let n = self.n(a);
            if n.op == Op::Xor {
                if let Some(k2) = self.is_const(n.b) {
                    let kk = self.konst(w, k ^ k2);
                    return self.xor(n.a, kk);
                }
            }
            if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let x = self.xor(n.b, b);
                let y = self.xor(n.c, b);
                return self.ite(n.a, x, y);
            }
            if n.op == Op::Concat {
                let wb = self.w(n.b);
                let ch = self.konst(w - wb, k >> wb);
                let cl = self.konst(wb, k);
                let x = self.xor(n.a, ch);
                let y = self.xor(n.b, cl);
                return self.concat(x, y);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.bin(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let k = k as u32;
            let x = self.extract(a, w - 1 - k, 0);
            let z = self.konst(k, 0);
            return self.concat(x, z);
        }
        if let Some(r) = self.ite_shift(Op::Shl, a, b) {
            return r;
        }
        self.bin(Op::Shl, w, a, b)
    }
    fn ite_shift(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let n = self.n(b);
        if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
            let f = |s: &mut Self, y: E| match op {
                Op::Shl => s.shl(a, y),
                Op::LShr => s.lshr(a, y),
                _ => s.ashr(a, y),
            };
            let x = f(self, n.b);
            let y = f(self, n.c);
            return Some(self.ite(n.a, x, y));
        }
        None
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let x = self.extract(a, w - 1, k as u32);
            return self.zext(x, w);
        }
        if let Some(r) = self.ite_shift(Op::LShr, a, b) {
            return r;
        }
        self.bin(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u32;
            let x = self.extract(a, w - 1, k);
            return self.sext(x, w);
        }
        self.bin(Op::AShr, w, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, k);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.intern(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, sx(k, wa) as u128);
        }
        if self.range(a).1 <= mask(wa) >> 1 {
            return self.zext(a, w);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if wa == 1 {
            let x = self.konst(w, !0);
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, k >> lo);
        }
        if (self.info[a as usize].kz >> lo) & mask(w) == 0 {
            return self.konst(w, 0);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, hi + n.b, lo + n.b),
            Op::Concat => {
                let wb = self.w(n.b);
                if hi < wb {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= wb {
                    return self.extract(n.a, hi - wb, lo - wb);
                }
                let h = self.extract(n.a, hi - wb, 0);
                let l = self.extract(n.b, wb - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= wi {
                    return self.konst(w, 0);
                }
                let x = self.extract(n.a, wi - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, (x << wb) | y),
            (Some(0), None) => return self.zext(b, w),
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        // adjacent extracts
        let ext = |s: &Self, e: E, n: Node| -> (E, u32, u32) {
            if n.op == Op::Extract {
                (n.a, n.b + n.w as u32 - 1, n.b)
            } else {
                (e, s.w(e) - 1, 0)
            }
        };
        let (ba, ha, la) = ext(self, a, na);
        let (bb, hb, lb) = ext(self, b, nb);
        if ba == bb && la == hb + 1 {
            return self.extract(ba, ha, lb);
        }
        // a ++ (c ++ d): merge a,c if adjacent
        if nb.op == Op::Concat {
            let nc = self.n(nb.a);
            let (bc, hc, lc) = ext(self, nb.a, nc);
            if ba == bc && la == hc + 1 {
                let m = self.extract(ba, ha, lc);
                return self.concat(m, nb.b);
            }
            if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(nb.a)) {
                let wc = self.w(nb.a);
                let m = self.konst(wa + wc, (x << wc) | y);
                return self.concat(m, nb.b);
            }
        }
        // right-associate
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        if na.op == Op::ZExt {
            // zext(x) ++ b == zext(x ++ b)
            let r = self.concat(na.a, b);
            return self.zext(r, w);
        }
        self.bin(Op::Concat, w, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        if a == b {
            return self.bool(true);
        }
        let w = self.w(a);
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.bool(x == y),
            (Some(_), None) => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return self.bool(false);
        }
        let na = self.n(a);
        if let Some(k) = self.is_const(b) {
            if k & !self.info[a as usize].kz != 0 {
                return self.bool(false);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    let kk = self.konst(wi, k);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    if sx(k & mask(wi), wi) as u128 & mask(w) != k {
                        return self.bool(false);
                    }
                    let kk = self.konst(wi, k);
                    return self.eq(na.a, kk);
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let kh = self.konst(w - wb, k >> wb);
                    let kl = self.konst(wb, k);
                    let x = self.eq(na.a, kh);
                    if self.is_const(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Ite => {
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(w, k.wrapping_sub(k2));
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(w, k ^ k2);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Or if k == 0 => {
                    let z = self.konst(w, 0);
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.bin(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.eq(a, b);
        self.not(x)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.bool(false);
        }
        let w = self.w(a);
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return self.bool(true);
        }
        if al >= bh {
            return self.bool(false);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if kb == Some(1) {
            let z = self.konst(w, 0);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            return self.ne(b, a);
        }
        // narrowing
        if na.op == Op::ZExt {
            let wi = self.w(na.a);
            if nb.op == Op::ZExt && self.w(nb.a) == wi {
                return self.ult(na.a, nb.a);
            }
            if let Some(k) = kb {
                // k <= mask(wi) because of the range check
                let kk = self.konst(wi, k);
                if k <= mask(wi) {
                    return self.ult(na.a, kk);
                }
            }
        }
        if nb.op == Op::ZExt {
            let wi = self.w(nb.a);
            if let Some(k) = ka {
                if k <= mask(wi) {
                    let kk = self.konst(wi, k);
                    return self.ult(kk, nb.a);
                }
            }
        }
        if na.op == Op::Ite
            && kb.is_some()
            && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some())
        {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite
            && ka.is_some()
            && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some())
        {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.bin(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.bool(false);
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.bool(sx(x, w) < sx(y, w));
        }
        let half = mask(w) >> 1;
        let an = self.range(a).1 <= half;
        let bn = self.range(b).1 <= half;
        if an && bn {
            return self.ult(a, b);
        }
        let aneg = self.range(a).0 > half;
        let bneg = self.range(b).0 > half;
        if aneg && bneg {
            return self.ult(a, b);
        }
        if aneg && bn {
            return self.bool(true);
        }
        if an && bneg {
            return self.bool(false);
        }
        if self.is_const(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if self.is_const(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, w - 1);
            return self.not(s);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt {
            if let Some(k) = self.is_const(b) {
                let wi = self.w(na.a);
                let ks = sx(k, w);
                let (mn, mx) = (-(1i128 << (wi - 1)), (1i128 << (wi - 1)) - 1);
                if ks > mx {
                    return self.bool(true);
                }
                if ks <= mn {
                    return self.bool(false);
                }
                let kk = self.konst(wi, k);
                return self.slt(na.a, kk);
            }
        }
        if nb.op == Op::SExt {
            if let Some(k) = self.is_const(a) {
                let wi = self.w(nb.a);
                let ks = sx(k, w);
                let (mn, mx) = (-(1i128 << (wi - 1)), (1i128 << (wi - 1)) - 1);
                if ks >= mx {
                    return self.bool(false);
                }
                if ks < mn {
                    return self.bool(true);
                }
                let kk = self.konst(wi, k);
                return self.slt(kk, nb.a);
            }
        }
        if na.op == Op::Ite
            && self.is_const(b).is_some()
            && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some())
        {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.bin(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b })
    }

    // ---------------------------------------------------------------- eval
    pub fn new_eval(&mut self) {
        self.ev_gen += 1;
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        // memo valid for the current ev_gen: callers bump it when m changes
        let g = self.ev_gen;
        let (cg, cv) = self.ev[e as usize];
        if cg == g {
            return cv;
        }
        // iterative post-order
        let mut stack: Vec<E> = vec![e];
        while let Some(&t) = stack.last() {
            if self.ev[t as usize].0 == g {
                stack.pop();
                continue;
            }
            let n = self.n(t);
            let mut pending = false;
            let mut need = |s: &Self, stack: &mut Vec<E>, x: E| {
                if s.ev[x as usize].0 != g {
                    stack.push(x);
                    pending = true;
                }
            };
            match n.op {
                Op::Const | Op::Var => {}
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => need(self, &mut stack, n.a),
                Op::Ite => {
                    need(self, &mut stack, n.a);
                    need(self, &mut stack, n.b);
                    need(self, &mut stack, n.c);
                }
                _ => {
                    need(self, &mut stack, n.a);
                    need(self, &mut stack, n.b);
                }
            }
            if pending {
                continue;
            }
            let v = self.eval_node(&n, m);
            self.ev[t as usize] = (g, v);
            stack.pop();
        }
        self.ev[e as usize].1
    }
    fn eval_node(&self, n: &Node, m: &[u8]) -> u128 {
        let w = n.w as u32;
        let g = |e: E| self.ev[e as usize].1;
        let r = match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => m.get(n.a as usize).copied().unwrap_or(0) as u128,
            Op::Add => g(n.a).wrapping_add(g(n.b)),
            Op::Sub => g(n.a).wrapping_sub(g(n.b)),
            Op::Mul => g(n.a).wrapping_mul(g(n.b)),
            Op::UDiv => {
                let y = g(n.b);
                if y == 0 {
                    mask(w)
                } else {
                    g(n.a) / y
                }
            }
            Op::URem => {
                let y = g(n.b);
                if y == 0 {
                    g(n.a)
                } else {
                    g(n.a) % y
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(g(n.a), w), sx(g(n.b), w));
                if y == 0 {
                    if x >= 0 {
                        mask(w)
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sx(g(n.a), w), sx(g(n.b), w));
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => g(n.a) & g(n.b),
            Op::Or => g(n.a) | g(n.b),
            Op::Xor => g(n.a) ^ g(n.b),
            Op::Not => g(n.a) ^ 1,
            Op::Shl => {
                let k = g(n.b);
                if k >= w as u128 {
                    0
                } else {
                    g(n.a) << k
                }
            }
            Op::LShr => {
                let k = g(n.b);
                if k >= w as u128 {
                    0
                } else {
                    g(n.a) >> k
                }
            }
            Op::AShr => {
                let k = g(n.b).min(w as u128 - 1);
                (sx(g(n.a), w) >> k) as u128
            }
            Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
            Op::Extract => g(n.a) >> n.b,
            Op::ZExt => g(n.a),
            Op::SExt => sx(g(n.a), self.w(n.a)) as u128,
            Op::Eq => (g(n.a) == g(n.b)) as u128,
            Op::Ult => (g(n.a) < g(n.b)) as u128,
            Op::Slt => {
                let wa = self.w(n.a);
                (sx(g(n.a), wa) < sx(g(n.b), wa)) as u128
            }
            Op::Ite => {
                if g(n.a) != 0 {
                    g(n.b)
                } else {
                    g(n.c)
                }
            }
        };
        r & mask(w)
    }
    /// Truth table of a boolean expression over exactly one symbolic byte.
    pub fn truth_table(&mut self, e: E, v: usize) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; v + 1];
        for x in 0..256usize {
            m[v] = x as u8;
            self.new_eval();
            if self.eval(e, &m) != 0 {
                t[x / 64] |= 1 << (x % 64);
            }
        }
        self.new_eval();
        self.tt.insert(e, t);
        t
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            Op::Extract => {
                format!("{}[{}:{}]", self.show(n.a, d - 1), n.b + n.w as u32 - 1, n.b)
            }
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, d - 1),
                self.show(n.b, d - 1),
                self.show(n.c, d - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
