//! Parser for textual LLVM IR (opaque pointers), function bodies parsed on first call.
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

pub const OSH: u32 = 28; // address = object id << OSH | offset
pub const FN_BASE: u64 = 1 << 62;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Meta,
    Label,
}
impl Ty {
    /// bytes a load or store of the type touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let p = b.next_power_of_two();
                if b > 8 {
                    (b + 15) / 16 * 16
                } else {
                    p
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::St(v, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for t in v.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a + t.size();
                }
                (o + ma - 1) / ma * ma
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w + 7) / 8) as u64).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::St(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(v, packed) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::St(v, _) => v[i].clone(),
            Ty::Arr(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::St(..) | Ty::Arr(..))
    }
}

/// Constants: bit patterns, or aggregates.
#[derive(Clone, Debug)]
pub enum Const {
    Bits(u128),
    Agg(Vec<Const>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    I(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Same,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: u8, w: u32, d: u32, a: Opd, b: Opd },
    FNeg { w: u32, d: u32, a: Opd },
    Icmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Fcmp { p: String, w: u32, d: u32, a: Opd, b: Opd },
    Cast { op: CastOp, lanes: u32, fw: u32, tw: u32, d: u32, a: Opd },
    Load { d: u32, ty: Ty, w: u32, p: Opd },
    Store { ty: Ty, w: u32, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Box<[(Opd, i64, u32)]> },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Box<[(u128, u32)]>, map: FxMap<u64, u32> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { d: Option<u32>, f: Callee, args: Box<[Opd]>, aw: Box<[u32]>, rw: u32 },
    Select { d: u32, c: Opd, w: u32, agg: bool, lanes: u32, a: Opd, b: Opd },
    Extract { d: u32, a: Opd, path: Box<[u32]> },
    Insert { d: u32, a: Opd, v: Opd, path: Box<[u32]>, ty: Ty },
    Alloca { d: u32, off: u64 },
    Rmw { d: u32, op: String, w: u32, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    InsElem { d: u32, a: Opd, v: Opd, i: Opd, ew: u32, n: u32 },
    ExtElem { d: u32, a: Opd, i: Opd, ew: u32, n: u32 },
    Shuffle { d: u32, a: Opd, b: Opd, ew: u32, n: u32, mask: Box<[i64]> },
    Nop,
}
#[derive(Debug, Clone, Copy)]
pub enum Callee {
    F(u32),
    P(Opd),
}

#[derive(Debug, Default)]
pub struct Block {
    pub ins: Vec<Ins>,
    pub edges: Vec<(u32, Vec<(u32, Opd)>)>, // pred -> parallel copies
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: &'static str,
    pub nparams: u32,
    pub nregs: u32,
    pub frame: u64,
    pub blocks: Vec<Block>,
    pub consts: Vec<Const>,
    pub ninstr: u32,
}

pub struct FnInfo {
    pub name: &'static str,
    pub body: Option<(usize, usize)>, // params start, end of body
    pub parsed: Option<&'static Func>,
    pub ext: u32, // external dispatch id
}
pub struct Global {
    pub name: &'static str,
    pub size: u64,
    pub constant: bool,
    pub tls: bool,
    pub init: Option<Vec<u8>>,
    init_pos: usize,
    ty: Ty,
}
pub struct Module {
    pub src: &'static [u8],
    pub fns: Vec<FnInfo>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub g_ix: HashMap<&'static str, u32>,
    pub aliases: HashMap<&'static str, &'static str>,
}

pub struct Lex {
    s: &'static [u8],
    pub p: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl Lex {
    pub fn new(s: &'static [u8], p: usize) -> Self {
        Lex { s, p }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.p + 80).min(self.s.len());
            let b = self.p.saturating_sub(80);
            panic!(
                "IR parse: expected {:?} at ...{}<<HERE>>{}",
                c as char,
                String::from_utf8_lossy(&self.s[b..self.p]),
                String::from_utf8_lossy(&self.s[self.p..e])
            );
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && idc(self.s[self.p]) {
            self.p += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[b..self.p]) }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn try_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w {
            true
        } else {
            self.p = p;
            false
        }
    }
    // name after % or @
    fn name(&mut self) -> &'static str {
        if self.s[self.p] == b'"' {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = &self.s[b..self.p];
            self.p += 1;
            unsafe { std::str::from_utf8_unchecked(r) }
        } else {
            let b = self.p;
            while self.p < self.s.len() && idc(self.s[self.p]) {
                self.p += 1;
            }
            unsafe { std::str::from_utf8_unchecked(&self.s[b..self.p]) }
        }
    }
    fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn string(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' {
                v.push(b'\\');
                self.p += 2;
            } else if self.s[self.p] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn is_ty(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(
                self.peek_word(),
                "ptr" | "void" | "float" | "double" | "metadata" | "label"
            ),
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| {
            let b = self.p.saturating_sub(200);
            panic!("IR parse: number {w:?} near {}", String::from_utf8_lossy(&self.s[b..self.p + 60]))
        })
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                Ty::St(Rc::new(v), false)
            }
            b'[' => {
                self.p += 1;
                let n: u64 = self.num();
                assert!(self.word() == "x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    if let Ty::St(v, _) = t {
                        return Ty::St(v, true);
                    }
                    unreachable!()
                }
                let n: u64 = self.num();
                assert!(self.word() == "x");
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => {
                        let b = self.p.saturating_sub(150);
                        panic!("IR parse: unknown type {w:?} near {}", String::from_utf8_lossy(&self.s[b..self.p + 40]))
                    }
                }
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read IR").into_boxed_slice());
        let mut m = Module {
            src,
            fns: vec![],
            fn_ix: Default::default(),
            globals: vec![],
            g_ix: Default::default(),
            aliases: Default::default(),
        };
        // pass 1: top-level scan
        let mut p = 0;
        let n = src.len();
        while p < n {
            // start of a line
            let eol = src[p..].iter().position(|c| *c == b'\n').map_or(n, |k| p + k);
            match src[p] {
                b'@' => m.scan_global(p),
                b'd' if src[p..].starts_with(b"define ") => {
                    let mut q = eol;
                    // find the line that is exactly "}"
                    loop {
                        if q + 2 <= n && src[q..].starts_with(b"\n}") {
                            break;
                        }
                        q += 1;
                        q += src[q..].iter().position(|c| *c == b'\n').unwrap();
                    }
                    m.scan_fn(p, Some(q + 1));
                    p = q + 3;
                    continue;
                }
                b'd' if src[p..].starts_with(b"declare ") => m.scan_fn(p, None),
                _ => {}
            }
            p = eol + 1;
        }
        // pass 2: initialisers
        for i in 0..m.globals.len() {
            if m.globals[i].init_pos != 0 {
                let mut lx = Lex::new(src, m.globals[i].init_pos);
                let ty = m.globals[i].ty.clone();
                let c = m.konst(&mut lx, &ty);
                let mut buf = vec![0u8; ty.size() as usize];
                put(&mut buf, 0, &ty, &c);
                m.globals[i].init = Some(buf);
            }
        }
        m
    }
    fn scan_global(&mut self, p: usize) {
        let mut lx = Lex::new(self.src, p + 1);
        let name = lx.name();
        lx.expect(b'=');
        let mut tls = false;
        let mut external = false;
        loop {
            let w = lx.word();
            match w {
                "global" | "constant" => {
                    let constant = w == "constant";
                    let ty = lx.ty();
                    let ix = self.globals.len() as u32;
                    lx.ws();
                    self.globals.push(Global {
                        name,
                        size: ty.size(),
                        constant,
                        tls,
                        init: None,
                        init_pos: if external { 0 } else { lx.p },
                        ty,
                    });
                    self.g_ix.insert(name, ix);
                    return;
                }
                "alias" => {
                    let _ = lx.ty();
                    lx.expect(b',');
                    let _ = lx.ty();
                    lx.ws();
                    lx.expect(b'@');
                    let t = lx.name();
                    self.aliases.insert(name, t);
                    return;
                }
                "thread_local" => {
                    tls = true;
                    if lx.peek() == b'(' {
                        lx.skip_parens();
                    }
                }
                "external" | "extern_weak" => external = true,
                "addrspace" => lx.skip_parens(),
                "" => panic!("global {name}: unexpected syntax"),
                _ => {}
            }
        }
    }
    fn scan_fn(&mut self, p: usize, end: Option<usize>) {
        let mut lx = Lex::new(self.src, p);
        // find '@' outside of parens/quotes on this line
        loop {
            match self.src[lx.p] {
                b'(' => lx.skip_parens(),
                b'@' => break,
                _ => lx.p += 1,
            }
        }
        lx.p += 1;
        let name = lx.name();
        let ix = self.fns.len() as u32;
        self.fns.push(FnInfo { name, body: end.map(|e| (lx.p, e)), parsed: None, ext: 0 });
        self.fn_ix.insert(name, ix);
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let name = self.aliases.get(name).copied().unwrap_or(name);
        if let Some(f) = self.fn_ix.get(name) {
            return FN_BASE | ((*f as u64) << 4);
        }
        if let Some(g) = self.g_ix.get(name) {
            return (*g as u64 + 1) << OSH;
        }
        panic!("unknown symbol @{name}");
    }
    fn konst(&self, lx: &mut Lex, ty: &Ty) -> Const {
        match lx.peek() {
            b'@' => {
                lx.p += 1;
                let n = lx.name();
                Const::Bits(self.sym_addr(n) as u128)
            }
            b'c' if lx.s[lx.p + 1] == b'"' => {
                lx.p += 1;
                let v = lx.string();
                Const::Agg(v.into_iter().map(|b| Const::Bits(b as u128)).collect())
            }
            b'{' => {
                lx.p += 1;
                let mut v = vec![];
                if !lx.eat(b'}') {
                    loop {
                        let t = lx.ty();
                        v.push(self.konst(lx, &t));
                        if lx.eat(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                Const::Agg(v)
            }
            b'[' => {
                lx.p += 1;
                let mut v = vec![];
                if !lx.eat(b']') {
                    loop {
                        let t = lx.ty();
                        v.push(self.konst(lx, &t));
                        if lx.eat(b']') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                Const::Agg(v)
            }
            b'<' => {
                lx.p += 1;
                if lx.peek() == b'{' {
                    let r = self.konst(lx, ty);
                    lx.expect(b'>');
                    return r;
                }
                // vector: pack
                let mut bits = 0u128;
                let mut sh = 0;
                loop {
                    let t = lx.ty();
                    if let Const::Bits(b) = self.konst(lx, &t) {
                        if sh < 128 {
                            bits |= (b & crate::expr::mask(t.bits())) << sh;
                        }
                    }
                    sh += t.bits();
                    if lx.eat(b'>') {
                        break;
                    }
                    lx.expect(b',');
                }
                Const::Bits(bits)
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let b = lx.p;
                lx.word();
                // floats such as 1.0e+00
                if lx.s[lx.p] == b'+' {
                    lx.p += 1;
                    lx.word();
                }
                let t = std::str::from_utf8(&lx.s[b..lx.p]).unwrap();
                match ty {
                    Ty::F64 => {
                        if let Some(h) = t.strip_prefix("0x") {
                            Const::Bits(u64::from_str_radix(h, 16).unwrap() as u128)
                        } else {
                            Const::Bits(t.parse::<f64>().unwrap().to_bits() as u128)
                        }
                    }
                    Ty::F32 => {
                        let d = if let Some(h) = t.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            t.parse::<f64>().unwrap()
                        };
                        Const::Bits((d as f32).to_bits() as u128)
                    }
                    _ => {
                        let v = if let Some(x) = t.strip_prefix('-') {
                            (x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                        } else {
                            t.parse::<u128>().unwrap_or_else(|_| panic!("int {t:?}"))
                        };
                        Const::Bits(v & crate::expr::mask(ty.bits()))
                    }
                }
            }
            _ => {
                let w = lx.word();
                match w {
                    "true" => Const::Bits(1),
                    "false" => Const::Bits(0),
                    "null" | "none" => Const::Bits(0),
                    "undef" | "poison" | "zeroinitializer" => zero(ty),
                    "splat" => {
                        lx.expect(b'(');
                        let t = lx.ty();
                        let c = self.konst(lx, &t);
                        lx.expect(b')');
                        let n = if let Ty::Vec(n, _) = ty { *n } else { panic!("splat") };
                        let mut bits = 0u128;
                        if let Const::Bits(b) = c {
                            for i in 0..n {
                                let sh = i as u32 * t.bits();
                                if sh < 128 {
                                    bits |= b << sh;
                                }
                            }
                        }
                        Const::Bits(bits)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                        lx.expect(b'(');
                        let t = lx.ty();
                        let c = self.konst(lx, &t);
                        assert!(lx.word() == "to");
                        let t2 = lx.ty();
                        lx.expect(b')');
                        match c {
                            Const::Bits(b) => Const::Bits(b & crate::expr::mask(t2.bits())),
                            c => c,
                        }
                    }
                    "getelementptr" => {
                        while lx.peek() != b'(' {
                            lx.word();
                            if lx.peek() == b'(' && lx.s[..lx.p].ends_with(b"inrange") {
                                lx.skip_parens();
                            }
                        }
                        lx.expect(b'(');
                        let st = lx.ty();
                        lx.expect(b',');
                        let pt = lx.ty();
                        let base = match self.konst(lx, &pt) {
                            Const::Bits(b) => b as u64,
                            _ => panic!(),
                        };
                        let mut off = 0i64;
                        let mut cur = st;
                        let mut first = true;
                        while lx.eat(b',') {
                            let it = lx.ty();
                            let i = match self.konst(lx, &it) {
                                Const::Bits(b) => crate::expr::sx(b, it.bits()) as i64,
                                _ => panic!(),
                            };
                            if first {
                                off += i * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(i as usize) as i64;
                                cur = cur.elem(i as usize);
                            }
                        }
                        lx.expect(b')');
                        Const::Bits(base.wrapping_add(off as u64) as u128)
                    }
                    "add" | "sub" | "xor" => {
                        while lx.peek() != b'(' {
                            lx.word();
                        }
                        lx.expect(b'(');
                        let t = lx.ty();
                        let a = self.konst(lx, &t);
                        lx.expect(b',');
                        let _ = lx.ty();
                        let b = self.konst(lx, &t);
                        lx.expect(b')');
                        if let (Const::Bits(a), Const::Bits(b)) = (a, b) {
                            let r = match w {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            };
                            Const::Bits(r & crate::expr::mask(t.bits()))
                        } else {
                            panic!()
                        }
                    }
                    _ if w.starts_with("f0x") => Const::Bits(u128::from_str_radix(&w[3..], 16).unwrap()),
                    _ => {
                        let b = lx.p.saturating_sub(100);
                        panic!("constant {w:?} near {}", String::from_utf8_lossy(&lx.s[b..lx.p + 40]))
                    }
                }
            }
        }
    }

    pub fn func(&mut self, ix: u32) -> &'static Func {
        if let Some(f) = self.fns[ix as usize].parsed {
            return f;
        }
        let (p, e) = self.fns[ix as usize].body.expect("no body");
        let f = FnParser::parse(self, ix, p, e);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[ix as usize].parsed = Some(f);
        f
    }
}
fn zero(ty: &Ty) -> Const {
    match ty {
        Ty::Arr(n, t) => Const::Agg((0..*n).map(|_| zero(t)).collect()),
        Ty::St(v, _) => Const::Agg(v.iter().map(zero).collect()),
        _ => Const::Bits(0),
    }
}
fn put(buf: &mut [u8], o: usize, ty: &Ty, c: &Const) {
    match (ty, c) {
        (Ty::Arr(_, t), Const::Agg(v)) => {
            let s = t.size() as usize;
            for (i, x) in v.iter().enumerate() {
                put(buf, o + i * s, t, x);
            }
        }
        (Ty::St(ts, _), Const::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                put(buf, o + ty.field_off(i) as usize, &ts[i], x);
            }
        }
        (_, Const::Bits(b)) => {
            let n = ty.size() as usize;
            let bytes = b.to_le_bytes();
            for i in 0..n.min(16) {
                buf[o + i] = bytes[i];
            }
        }
        _ => panic!("bad initialiser"),
    }
}

struct FnParser<'a> {
    m: &'a Module,
    lx: Lex,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
    consts: Vec<Const>,
    tail: Option<Ins>,
}
impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if self.lx.peek() == b'%' {
            self.lx.p += 1;
            let n = self.lx.name();
            return Opd::R(self.reg(n));
        }
        let c = self.m.konst(&mut self.lx, ty);
        if let Const::Bits(b) = c {
            if ty.bits() <= 64 && !ty.is_agg() {
                return Opd::I(b as u64);
            }
        }
        self.consts.push(c);
        Opd::K(self.consts.len() as u32 - 1)
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.lx.ty();
        self.attrs();
        let v = self.val(&t);
        (t, v)
    }
    // skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.lx.peek();
            if c == b'"' {
                self.lx.string();
                if self.lx.eat(b'=') {
                    self.lx.string();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            if c == b'c' && self.lx.s[self.lx.p + 1] == b'"' {
                return;
            }
            let w = self.lx.peek_word();
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "add" | "sub"
                    | "trunc" | "xor" | "asm"
            ) {
                return;
            }
            if self.lx.is_ty() || w.starts_with("f0x") {
                return;
            }
            self.lx.word();
            if w == "align" && self.lx.peek().is_ascii_digit() {
                self.lx.word();
            } else if self.lx.peek() == b'(' {
                self.lx.skip_parens();
            }
        }
    }
    fn flags(&mut self, ws: &[&str]) {
        loop {
            let w = self.lx.peek_word();
            if ws.contains(&w) && !w.is_empty() {
                self.lx.word();
            } else {
                return;
            }
        }
    }
    fn lab(&mut self) -> u32 {
        assert!(self.lx.word() == "label");
        self.lx.ws();
        self.lx.expect(b'%');
        let n = self.lx.name();
        self.label(n)
    }

    fn parse(m: &'a Module, ix: u32, p: usize, end: usize) -> Func {
        let mut f = FnParser { m, lx: Lex::new(m.src, p), regs: Default::default(), labels: Default::default(), consts: vec![], tail: None };
        // params
        f.lx.expect(b'(');
        let mut np = 0;
        let mut unnamed = 0;
        if !f.lx.eat(b')') {
            loop {
                if f.lx.peek() == b'.' {
                    f.lx.p += 3; // ...
                    f.lx.expect(b')');
                    break;
                }
                let _t = f.lx.ty();
                f.attrs();
                if f.lx.peek() == b'%' {
                    f.lx.p += 1;
                    let n = f.lx.name();
                    if n.as_bytes()[0].is_ascii_digit() {
                        unnamed += 1;
                    }
                    assert!(f.reg(n) == np);
                } else {
                    unnamed += 1;
                    f.regs.insert(Box::leak(format!("<unnamed{np}>").into_boxed_str()), np);
                }
                np += 1;
                if f.lx.eat(b')') {
                    break;
                }
                f.lx.expect(b',');
            }
        }
        f.lx.eol();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: usize = usize::MAX;
        let mut frame = 0u64;
        let mut nins = 0;
        let mut phis: Vec<(u32, u32, u32, Opd)> = vec![]; // block, pred, dst, val
        loop {
            f.lx.ws();
            if f.lx.p >= end || f.lx.s[f.lx.p] == b'}' {
                break;
            }
            if f.lx.s[f.lx.p] == b'#' {
                f.lx.eol();
                continue;
            }
            // label?
            let sp = f.lx.p;
            if sp == 0 || f.lx.s[sp - 1] == b'\n' {
                let n = f.lx.name();
                f.lx.expect(b':');
                cur = f.label(n) as usize;
                while blocks.len() <= cur {
                    blocks.push(Block::default());
                }
                continue;
            }
            if cur == usize::MAX {
                // entry block without a label
                cur = f.label(Box::leak(format!("{unnamed}").into_boxed_str())) as usize;
                while blocks.len() <= cur {
                    blocks.push(Block::default());
                }
            }
            nins += 1;
            let ins = f.instr(cur as u32, &mut frame, &mut phis);
            // lookahead may already stand at the first token of the next line
            let mut q = f.lx.p;
            while q > 0 && (f.lx.s[q - 1] == b' ' || f.lx.s[q - 1] == b'\t') {
                q -= 1;
            }
            if f.lx.s[q - 1] != b'\n' {
                f.lx.eol();
            } else {
                f.lx.p = q;
            }
            if let Some(i) = ins {
                blocks[cur].ins.push(i);
            }
            if let Some(i) = f.tail.take() {
                blocks[cur].ins.push(i);
            }
        }
        while blocks.len() < f.labels.len() {
            blocks.push(Block::default());
        }
        for (b, pred, d, v) in phis {
            let e = &mut blocks[b as usize].edges;
            if let Some(x) = e.iter_mut().find(|x| x.0 == pred) {
                if !x.1.iter().any(|y| y.0 == d) {
                    x.1.push((d, v));
                }
            } else {
                e.push((pred, vec![(d, v)]));
            }
        }
        Func {
            id: ix,
            name: m.fns[ix as usize].name,
            nparams: np,
            nregs: f.regs.len() as u32,
            frame,
            blocks,
            consts: f.consts,
            ninstr: nins,
        }
    }

    fn instr(&mut self, cur: u32, frame: &mut u64, phis: &mut Vec<(u32, u32, u32, Opd)>) -> Option<Ins> {
        let mut d: Option<u32> = None;
        if self.lx.peek() == b'%' {
            self.lx.p += 1;
            let n = self.lx.name();
            d = Some(self.reg(n));
            self.lx.expect(b'=');
        }
        let op = self.lx.word();
        let lanes_w = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (*n as u32, e.bits()),
                t => (1, t.bits()),
            }
        };
        Some(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and"
            | "or" | "xor" => {
                self.flags(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                let (lanes, w) = lanes_w(&t);
                let op = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Ins::Bin { op, w, lanes, d: d.unwrap(), a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                Ins::FBin { op: op.as_bytes()[1], w: t.bits(), d: d.unwrap(), a, b }
            }
            "fneg" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (t, a) = self.tyval();
                Ins::FNeg { w: t.bits(), d: d.unwrap(), a }
            }
            "icmp" => {
                self.flags(&["samesign"]);
                let p = match self.lx.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {x}"),
                };
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                let (lanes, w) = lanes_w(&t);
                Ins::Icmp { p, w, lanes, d: d.unwrap(), a, b }
            }
            "fcmp" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let p = self.lx.word().to_string();
                let t = self.lx.ty();
                let a = self.val(&t);
                self.lx.expect(b',');
                let b = self.val(&t);
                Ins::Fcmp { p, w: t.bits(), d: d.unwrap(), a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.flags(&["nuw", "nsw", "nneg"]);
                let (t, a) = self.tyval();
                assert!(self.lx.word() == "to");
                let t2 = self.lx.ty();
                let (l1, w1) = lanes_w(&t);
                let (_, w2) = lanes_w(&t2);
                let (mut lanes, mut fw, mut tw) = (l1, w1, w2);
                let cop = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => {
                        lanes = 1;
                        fw = t.bits();
                        tw = t2.bits();
                        CastOp::Same
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" => {
                        if fw == tw {
                            CastOp::Same
                        } else if fw > tw {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    _ => CastOp::FpTrunc,
                };
                Ins::Cast { op: cop, lanes, fw, tw, d: d.unwrap(), a }
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.lx.ty();
                self.lx.expect(b',');
                let (_, p) = self.tyval();
                let w = if t.is_agg() { 0 } else { t.bits() };
                Ins::Load { d: d.unwrap(), ty: t, w, p }
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, v) = self.tyval();
                self.lx.expect(b',');
                let (_, p) = self.tyval();
                let w = if t.is_agg() { 0 } else { t.bits() };
                Ins::Store { ty: t, w, v, p }
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw"]);
                let mut t = self.lx.ty();
                self.lx.expect(b',');
                let (_, base) = self.tyval();
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while self.lx.peek() == b',' {
                    let save = self.lx.p;
                    self.lx.expect(b',');
                    if self.lx.peek() == b'!' {
                        self.lx.p = save;
                        break;
                    }
                    let (it, iv) = self.tyval();
                    let scale;
                    if first {
                        scale = t.size() as i64;
                        first = false;
                    } else {
                        match &t {
                            Ty::St(..) => {
                                let i = match iv {
                                    Opd::I(i) => i as usize,
                                    _ => panic!("gep struct"),
                                };
                                off += t.field_off(i) as i64;
                                t = t.elem(i);
                                continue;
                            }
                            Ty::Arr(_, e) => {
                                let e = (**e).clone();
                                scale = e.size() as i64;
                                t = e;
                            }
                            _ => panic!("gep into {t:?}"),
                        }
                    }
                    match iv {
                        Opd::I(i) => {
                            off = off.wrapping_add((crate::expr::sx(i as u128, it.bits()) as i64).wrapping_mul(scale))
                        }
                        o => terms.push((o, scale, it.bits())),
                    }
                }
                Ins::Gep { d: d.unwrap(), base, off, terms: terms.into() }
            }
            "br" => {
                if self.lx.peek_word() == "label" {
                    Ins::Br(self.lab())
                } else {
                    let (_, c) = self.tyval();
                    self.lx.expect(b',');
                    let t = self.lab();
                    self.lx.expect(b',');
                    let f = self.lab();
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.lx.expect(b',');
                let def = self.lab();
                self.lx.expect(b'[');
                let mut cases = vec![];
                let mut map: FxMap<u64, u32> = Default::default();
                while !self.lx.eat(b']') {
                    let t = self.lx.ty();
                    let c = match self.m.konst(&mut self.lx, &t) {
                        Const::Bits(b) => b,
                        _ => panic!(),
                    };
                    self.lx.expect(b',');
                    let l = self.lab();
                    cases.push((c, l));
                    map.insert(c as u64, l);
                }
                Ins::Switch { w: t.bits(), v, def, cases: cases.into(), map }
            }
            "ret" => {
                if self.lx.peek_word() == "void" {
                    Ins::Ret { v: None }
                } else {
                    let (_, v) = self.tyval();
                    Ins::Ret { v: Some(v) }
                }
            }
            "unreachable" => Ins::Unreachable,
            "phi" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = self.lx.ty();
                loop {
                    self.lx.expect(b'[');
                    let v = self.val(&t);
                    self.lx.expect(b',');
                    self.lx.ws();
                    self.lx.expect(b'%');
                    let n = self.lx.name();
                    let l = self.label(n);
                    self.lx.expect(b']');
                    phis.push((cur, l, d.unwrap(), v));
                    let save = self.lx.p;
                    if !self.lx.eat(b',') {
                        break;
                    }
                    if self.lx.peek() != b'[' {
                        self.lx.p = save;
                        break;
                    }
                }
                return None;
            }
            "select" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (tc, c) = self.tyval();
                self.lx.expect(b',');
                let (t, a) = self.tyval();
                self.lx.expect(b',');
                let (_, b) = self.tyval();
                let lanes = if let Ty::Vec(n, _) = tc { n as u32 } else { 1 };
                let w = if lanes > 1 { t.bits() / lanes } else { t.bits() };
                Ins::Select { d: d.unwrap(), c, w, agg: t.is_agg(), lanes, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.tyval();
                let mut path = vec![];
                while self.lx.peek() == b',' {
                    let save = self.lx.p;
                    self.lx.expect(b',');
                    if self.lx.peek() == b'!' {
                        self.lx.p = save;
                        break;
                    }
                    path.push(self.lx.word().parse().unwrap());
                }
                Ins::Extract { d: d.unwrap(), a, path: path.into() }
            }
            "insertvalue" => {
                let (t, a) = self.tyval();
                self.lx.expect(b',');
                let (_, v) = self.tyval();
                let mut path = vec![];
                while self.lx.peek() == b',' {
                    let save = self.lx.p;
                    self.lx.expect(b',');
                    if self.lx.peek() == b'!' {
                        self.lx.p = save;
                        break;
                    }
                    path.push(self.lx.word().parse().unwrap());
                }
                Ins::Insert { d: d.unwrap(), a, v, path: path.into(), ty: t }
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.lx.ty();
                let mut al = t.align().max(1);
                // ", align N"
                let save = self.lx.p;
                if self.lx.eat(b',') {
                    if self.lx.try_word("align") {
                        al = self.lx.word().parse().unwrap();
                    } else {
                        self.lx.p = save;
                        panic!("dynamic alloca unsupported");
                    }
                }
                let al = al.max(1);
                *frame = (*frame + al - 1) / al * al;
                let off = *frame;
                // one spare byte keeps neighbouring slots apart
                *frame += t.size() + 1;
                Ins::Alloca { d: d.unwrap(), off }
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let op = self.lx.word().to_string();
                let (_, p) = self.tyval();
                self.lx.expect(b',');
                let (t, v) = self.tyval();
                Ins::Rmw { d: d.unwrap(), op, w: t.bits(), p, v }
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, p) = self.tyval();
                self.lx.expect(b',');
                let (t, c) = self.tyval();
                self.lx.expect(b',');
                let (_, n) = self.tyval();
                Ins::CmpXchg { d: d.unwrap(), w: t.bits(), p, c, n }
            }
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.tyval();
                Ins::Copy { d: d.unwrap(), a }
            }
            "insertelement" => {
                let (t, a) = self.tyval();
                self.lx.expect(b',');
                let (_, v) = self.tyval();
                self.lx.expect(b',');
                let (_, i) = self.tyval();
                let (n, ew) = lanes_w(&t);
                Ins::InsElem { d: d.unwrap(), a, v, i, ew, n }
            }
            "extractelement" => {
                let (t, a) = self.tyval();
                self.lx.expect(b',');
                let (_, i) = self.tyval();
                let (n, ew) = lanes_w(&t);
                Ins::ExtElem { d: d.unwrap(), a, i, ew, n }
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.lx.expect(b',');
                let (_, b) = self.tyval();
                self.lx.expect(b',');
                let mt = self.lx.ty();
                let mn = if let Ty::Vec(n, _) = mt { n } else { panic!() };
                let mut mask = vec![];
                if self.lx.peek() == b'<' {
                    self.lx.p += 1;
                    loop {
                        let t = self.lx.ty();
                        if self.lx.try_word("poison") || self.lx.try_word("undef") {
                            mask.push(-1);
                        } else if let Const::Bits(b) = self.m.konst(&mut self.lx, &t) {
                            mask.push(b as i64);
                        }
                        if self.lx.eat(b'>') {
                            break;
                        }
                        self.lx.expect(b',');
                    }
                } else {
                    let w = self.lx.word();
                    assert!(w == "zeroinitializer" || w == "poison", "shuffle mask {w}");
                    mask = vec![0; mn as usize];
                }
                let (n, ew) = lanes_w(&t);
                Ins::Shuffle { d: d.unwrap(), a, b, ew, n, mask: mask.into() }
            }
            "landingpad" | "resume" => {
                // never entered: panics unwind through the executor, not through landing pads
                while self.lx.s[self.lx.p] != b'\n' {
                    self.lx.p += 1;
                }
                while op == "landingpad" && matches!(self.lx.peek_word(), "cleanup" | "catch" | "filter") && self.lx.s[self.lx.p] != b'%' {
                    while self.lx.s[self.lx.p] != b'\n' {
                        self.lx.p += 1;
                    }
                }
                Ins::Unreachable
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    assert!(self.lx.word() == "call");
                }
                self.attrs();
                let rt = self.lx.ty();
                if self.lx.peek() == b'(' {
                    self.lx.skip_parens();
                }
                self.lx.ws();
                if self.lx.peek_word() == "asm" {
                    return None;
                }
                let callee;
                if self.lx.peek() == b'@' {
                    self.lx.p += 1;
                    let n = self.lx.name();
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                    {
                        return None;
                    }
                    let n = self.m.aliases.get(n).copied().unwrap_or(n);
                    callee = Callee::F(*self.m.fn_ix.get(n).unwrap_or_else(|| panic!("callee {n}")));
                } else {
                    callee = Callee::P(self.val(&Ty::Ptr));
                }
                self.lx.expect(b'(');
                let mut args = vec![];
                let mut aw = vec![];
                if !self.lx.eat(b')') {
                    loop {
                        let t = self.lx.ty();
                        if t == Ty::Meta {
                            let mut dep = 0;
                            loop {
                                let c = self.lx.peek();
                                if dep == 0 && (c == b',' || c == b')') {
                                    break;
                                }
                                if c == b'(' {
                                    dep += 1
                                }
                                if c == b')' {
                                    dep -= 1
                                }
                                self.lx.p += 1;
                            }
                            args.push(Opd::I(0));
                            aw.push(0);
                        } else {
                            self.attrs();
                            let v = self.val(&t);
                            args.push(v);
                            aw.push(t.bits());
                        }
                        if self.lx.eat(b')') {
                            break;
                        }
                        self.lx.expect(b',');
                    }
                }
                if op == "invoke" {
                    while self.lx.peek_word() != "to" {
                        self.lx.p += 1;
                    }
                    self.lx.word();
                    let l = self.lab();
                    assert!(self.lx.word() == "unwind");
                    self.lab();
                    self.tail = Some(Ins::Br(l));
                }
                Ins::Call { d: if rt == Ty::Void { None } else { d }, f: callee, args: args.into(), aw: aw.into(), rw: rt.bits() }
            }
            x => {
                let b = self.lx.p.saturating_sub(100);
                panic!(
                    "IR parse: instruction {x:?} near {}",
                    String::from_utf8_lossy(&self.lx.s[b..self.lx.p + 60])
                )
            }
        })
    }
}
