//! The symbolic executor: states, forking, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
pub const STACK_ID: u64 = 1 << 32;
pub const TSH: u64 = 16;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub ret: Option<u32>,
    pub marker: u8, // 1 = vf_catch, 2 = thread root, 3 = TLS destructor / detached call
}
#[derive(Clone, PartialEq, Debug)]
pub enum Wait {
    Run,
    Futex(u64),
    Join(u32),
    Epoll(i32, u64), // epfd, deadline (virtual ns, u64::MAX = none)
    Sleep(u64),
    FutexT(u64, u64), // address, deadline
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>, // callers of top, outermost first
    pub top: Option<Box<Frame>>, // None while it is the running thread
    pub stack: Vec<Rc<Obj>>,
    pub tls: BTreeMap<u64, u64>, // tls global object -> heap object
    pub dtors: Vec<(u64, u64)>,
    pub keys: BTreeMap<u64, u64>,
    pub wait: Wait,
    pub ret: u64,
    pub detached: bool,
    pub timed_out: bool,
}
#[derive(Clone)]
pub struct Fd {
    pub kind: FdKind,
    pub nonblock: bool,
}
#[derive(Clone, Debug)]
pub enum FdKind {
    Epoll { reg: BTreeMap<i32, (u32, u64)>, ready: BTreeMap<i32, u32> },
    /// a duplicate of another descriptor
    EpollDup(i32),
    Event(u64),
    Listener { port: u16, backlog: Vec<i32> },
    // index of the pipe this end reads from / writes to
    Stream { rx: usize, tx: usize },
    Socket,
    File { data: Rc<Vec<u8>>, pos: usize },
}
#[derive(Clone, Default)]
pub struct Pipe {
    pub data: std::collections::VecDeque<E>,
    pub eof: bool,
    pub rclosed: bool,
    pub reset: bool,   // the reader sees a reset connection once the data is read
    pub refused: bool, // the peer has answered a write with a reset
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Heap,
    /// constraints over several bytes; those over one are in dom
    pub pc: Vec<E>,
    /// every condition that holds here, implied ones included
    pub known: Rc<FxSet<E>>,
    /// those implied, about products and quotients: they follow from pc and help the solver
    pub lemmas: Rc<Vec<E>>,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub multi: VarSet,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub sym_steps: u64,
    pub pending: Option<u32>,
    pub obs: Rc<Vec<(Vec<E>, bool)>>,
    pub names: Rc<Vec<(String, u32, u32)>>,
    pub depth: u32,
    pub errno: BTreeMap<usize, u64>,
    pub fds: BTreeMap<i32, Fd>,
    pub pipes: Vec<Pipe>,
    pub clock: u64, // virtual ns since start
    pub wall: Option<(E, E)>, // symbolic seconds and nanoseconds since the epoch (64 bits)
    pub cfg: BTreeMap<u32, u64>,
    pub hash_memo: Rc<Vec<(E, u64)>>,
    pub hash_dir: Option<u64>,
    pub sched: Rc<Vec<u8>>,
    pub evict: u32,
    pub trace: Rc<Vec<String>>,
    pub next_fd: i32,
    pub need_sched: bool,
}

pub enum Stop {
    Retry,        // state was changed (e.g. forked and continued): re-execute instruction
    End(Outcome), // path ends
    Switch,       // thread blocked / yielded: re-execute after rescheduling
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Done,
    Infeasible,
    Violation(String, String), // key, detail
    Inconclusive(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
    pub bytes: Vec<u8>,
    pub names: Vec<(String, u32, u32)>,
    pub sched: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: Vec<Vec<u8>>,
    pub names: Vec<(String, u32, u32)>,
}
#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub sym_steps: u64,
    pub viols: Vec<Viol>,
    pub viol_count: u64,
    pub inconclusive: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub funcs: BTreeSet<u32>,
    pub max_depth: u32,
    pub max_vars: u32,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub panics_caught: BTreeMap<String, u64>,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_heap: u64,
    pub max_paths: u64,
    pub max_viols: usize,
    pub nsamples: usize,
    pub seed: u64,
    pub verbose: bool,
    pub trace_from: u64,
    pub t0: std::time::Instant,
    pub after_viol: u64,
    pub known: Vec<String>,
}

pub struct Exec {
    pub m: Module,
    pub st: Option<Box<State>>, // current
    pub work: Vec<Box<State>>,
    pub sol: Solver,
    pub rep: Report,
    pub o: Opts,
    pub globals: Vec<(u64, u64)>,
    pub exts: HashMap<&'static str, u32>,
    pub files: HashMap<String, Rc<Vec<u8>>>,
    pub sample_ctr: u64,
    pub reserve: HashMap<u64, u32>,
    pub viol_keys: HashMap<String, u32>,
    pub stopped: bool,
    pub tick: u32,
    pub on_fork: Option<fn(&mut Exec)>,
    pub ptr_cache: FxMap<(E, u64, u32), Vec<(u64, E)>>,
    pub dummy: u64,
}

#[inline(always)]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn k(w: u32, v: u128) -> E {
    cx().konst(w, v)
}
pub fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(Outcome::Inconclusive(s.into())))
}

impl Val {
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::I(v) => cx().konst(w, *v as u128),
            Val::S(e) => {
                debug_assert!(cx().w(*e) == w, "width {} vs {}", cx().w(*e), w);
                *e
            }
            Val::W(v) => cx().konst(w, **v),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn of(e: E) -> Val {
        let c = cx();
        match c.is_const(e) {
            Some(v) if c.w(e) <= 64 => Val::I(v as u64),
            Some(v) => Val::W(Rc::new(v)),
            None => Val::S(e),
        }
    }
    pub fn wide(w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::I((v & mask(w)) as u64)
        } else {
            Val::W(Rc::new(v & mask(w)))
        }
    }
    #[inline]
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::I(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
}

impl Exec {
    #[inline(always)]
    pub fn s(&mut self) -> &mut State {
        self.st.as_mut().unwrap()
    }

    // ------------------------------------------------------------ memory
    pub fn obj(&self, addr: u64) -> Option<&Rc<Obj>> {
        let id = addr >> OSH;
        let st = self.st.as_ref().unwrap();
        if id & STACK_ID != 0 {
            let t = ((id >> TSH) & 0xffff) as usize;
            let d = (id & 0xffff) as usize;
            st.threads.get(t)?.stack.get(d)
        } else {
            st.mem.get(id)
        }
    }
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = addr >> OSH;
        let st = self.st.as_mut().unwrap();
        if id & STACK_ID != 0 {
            let t = ((id >> TSH) & 0xffff) as usize;
            let d = (id & 0xffff) as usize;
            st.threads.get_mut(t)?.stack.get_mut(d).map(Rc::make_mut)
        } else {
            st.mem.get_mut(id)
        }
    }
    pub fn fault<T>(&mut self, what: &str, addr: u64) -> R<T> {
        let loc = self.where_am_i();
        Err(Stop::End(Outcome::Violation(
            format!("memory fault in {loc}"),
            format!("{what} at {addr:#x}"),
        )))
    }
    pub fn where_am_i(&self) -> String {
        demangle(self.st.as_ref().unwrap().top.f.name)
    }
    pub fn load(&mut self, addr: u64, n: usize) -> R<Val> {
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj(addr) {
            Some(o) if off + n <= o.d.len() => {
                if o.conc(off, n) {
                    if n <= 8 {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&o.d[off..off + n]);
                        Ok(Val::I(u64::from_le_bytes(b)))
                    } else {
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&o.d[off..off + n]);
                        Ok(Val::W(Rc::new(u128::from_le_bytes(b))))
                    }
                } else {
                    let o = o.clone();
                    let mut e = self.byte_of(&o, off);
                    for i in 1..n {
                        let b = self.byte_of(&o, off + i);
                        e = cx().concat(b, e);
                    }
                    Ok(Val::of(e))
                }
            }
            _ => self.fault("invalid read", addr),
        }
    }
    /// a byte; a symbolic byte whose domain is a single value is concrete
    #[inline]
    pub fn byte_of(&self, o: &Obj, off: usize) -> E {
        let e = o.byte(off);
        self.narrow(e)
    }
    pub fn narrow(&self, e: E) -> E {
        let n = cx().n(e);
        if n.op == Op::Var {
            let st = self.st.as_ref().unwrap();
            let d = &st.dom[n.a as usize];
            if vs_count(d) == 1 {
                return k(8, vs_first(d).unwrap() as u128);
            }
        }
        e
    }
    pub fn store(&mut self, addr: u64, v: &Val, n: usize) -> R<()> {
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj_mut(addr) {
            Some(o) if off + n <= o.d.len() && !o.ro => {
                match v {
                    Val::I(x) => {
                        if o.s.is_none() && n <= 8 {
                            let b = x.to_le_bytes();
                            o.d[off..off + n].copy_from_slice(&b[..n]);
                        } else {
                            o.put(off, *x as u128, n)
                        }
                    }
                    Val::W(x) => o.put(off, **x, n),
                    Val::S(e) => o.put_e(off, *e, n),
                    Val::A(_) => panic!("store aggregate"),
                }
                Ok(())
            }
            _ => self.fault("invalid write", addr),
        }
    }
    pub fn bytes(&mut self, addr: u64, n: usize) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj(addr) {
            Some(o) if off + n <= o.d.len() => {
                let o = o.clone();
                Ok((off..off + n).map(|i| self.byte_of(&o, i)).collect())
            }
            _ => self.fault("invalid read", addr),
        }
    }
    pub fn conc_bytes(&mut self, addr: u64, n: usize) -> R<Option<Vec<u8>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj(addr) {
            Some(o) if off + n <= o.d.len() => {
                if o.conc(off, n) {
                    Ok(Some(o.d[off..off + n].to_vec()))
                } else {
                    Ok(None)
                }
            }
            _ => self.fault("invalid read", addr),
        }
    }
    pub fn put_bytes(&mut self, addr: u64, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj_mut(addr) {
            Some(o) if off + b.len() <= o.d.len() && !o.ro => {
                for (i, e) in b.iter().enumerate() {
                    o.put_byte_e(off + i, *e);
                }
                Ok(())
            }
            _ => self.fault("invalid write", addr),
        }
    }
    pub fn put_conc(&mut self, addr: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (addr & ((1 << OSH) - 1)) as usize;
        match self.obj_mut(addr) {
            Some(o) if off + b.len() <= o.d.len() && !o.ro => {
                o.d[off..off + b.len()].copy_from_slice(b);
                if let Some(s) = &mut o.s {
                    s[off..off + b.len()].fill(0);
                }
                Ok(())
            }
            _ => self.fault("invalid write", addr),
        }
    }
    pub fn memcpy(&mut self, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let so = (src & ((1 << OSH) - 1)) as usize;
        let (d, s): (Vec<u8>, Option<Vec<E>>) = match self.obj(src) {
            Some(o) if so + n <= o.d.len() => (
                o.d[so..so + n].to_vec(),
                if o.conc(so, n) { None } else { Some(o.s.as_ref().unwrap()[so..so + n].to_vec()) },
            ),
            _ => return self.fault("invalid read", src),
        };
        let off = (dst & ((1 << OSH) - 1)) as usize;
        match self.obj_mut(dst) {
            Some(o) if off + n <= o.d.len() && !o.ro => {
                o.d[off..off + n].copy_from_slice(&d);
                match (s, &mut o.s) {
                    (None, None) => {}
                    (None, Some(t)) => t[off..off + n].fill(0),
                    (Some(x), Some(t)) => t[off..off + n].copy_from_slice(&x),
                    (Some(x), t) => {
                        let mut v = vec![0; o.d.len()];
                        v[off..off + n].copy_from_slice(&x);
                        *t = Some(v);
                    }
                }
                Ok(())
            }
            _ => self.fault("invalid write", dst),
        }
    }
    pub fn malloc(&mut self, n: u64) -> R<u64> {
        let max = self.o.max_heap;
        if n > max || self.s().mem.bytes + n > max {
            let loc = self.where_am_i();
            let tr = self.backtrace_user();
            return Err(Stop::End(Outcome::Violation(
                format!("memory exhaustion at {tr}"),
                format!("allocation of {n} bytes in {loc}"),
            )));
        }
        let id = self.s().mem.add(Obj::zeroed(n as usize));
        Ok(id << OSH)
    }
    pub fn free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if p & ((1 << OSH) - 1) != 0 || !self.s().mem.free(p >> OSH) {
            return self.fault("invalid free", p);
        }
        Ok(())
    }

    // ------------------------------------------------------------ decisions
    pub fn add_pc(&mut self, c: E) {
        let n = cx().n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(n.a);
            self.add_pc(n.b);
            return;
        }
        if n.op == Op::Not {
            let i = cx().n(n.a);
            if i.op == Op::Or {
                let x = cx().not(i.a);
                let y = cx().not(i.b);
                self.add_pc(x);
                self.add_pc(y);
                return;
            }
        }
        if cx().is_const(c).is_some() {
            return;
        }
        let vs = cx().vars[c as usize];
        if vs_count(&vs) == 1 {
            let v = vs_first(&vs).unwrap();
            let t = cx().truth_table(c, v);
            let st = self.s();
            let d = Rc::make_mut(&mut st.dom);
            for i in 0..4 {
                d[v][i] &= t[i];
            }
            self.know(c);
        } else {
            let st = self.s();
            st.multi = vs_or(&st.multi, &vs);
            if self.know(c) {
                self.s().pc.push(c);
            }
        }
    }
    /// c holds here; whether this is news
    pub fn know(&mut self, c: E) -> bool {
        let st = self.s();
        !st.known.contains(&c) && Rc::make_mut(&mut st.known).insert(c)
    }
    /// the values a byte can have, as a condition on it
    fn domain(&self, v: usize) -> Option<E> {
        let d = self.st.as_ref().unwrap().dom[v];
        let has = |b: usize| d[b / 64] >> (b % 64) & 1 == 1;
        if (0..256).all(has) {
            return None;
        }
        let c = cx();
        let x = c.var(v as u32);
        // as few intervals as possible, of the values or of the others
        let runs = |want: bool| {
            let mut r: Vec<(usize, usize)> = vec![];
            for b in 0..256 {
                if has(b) == want {
                    match r.last_mut() {
                        Some(l) if l.1 + 1 == b => l.1 = b,
                        _ => r.push((b, b)),
                    }
                }
            }
            r
        };
        let (yes, no) = (runs(true), runs(false));
        let neg = no.len() < yes.len();
        let mut e = k(1, 0);
        for (lo, hi) in if neg { no } else { yes } {
            let (l, h) = (k(8, lo as u128), k(8, hi as u128));
            let i = if lo == hi {
                c.eq(x, l)
            } else {
                let (a, b) = (c.ule(l, x), c.ule(x, h));
                c.and(a, b)
            };
            e = c.or(e, i);
        }
        Some(if neg { c.not(e) } else { e })
    }
    /// constraints connected to the variables of c
    fn slice(&self, c: E) -> Vec<E> {
        let st = self.st.as_ref().unwrap();
        let mut vs = cx().vars[c as usize];
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] {
                    let pv = cx().vars[*p as usize];
                    if vs_meet(&pv, &vs) {
                        used[i] = true;
                        out.push(*p);
                        let n = vs_or(&vs, &pv);
                        if n != vs {
                            vs = n;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        for v in vs_iter(&vs) {
            out.extend(self.domain(v));
        }
        out
    }
    /// Feasibility of c under the path condition; Some(model) if feasible.
    pub fn feasible(&mut self, c: E, force: bool) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(v) = cx().is_const(c) {
            return Ok(if v != 0 { Some(self.s().model.clone()) } else { None });
        }
        let vs = cx().vars[c as usize];
        if !force && vs_count(&vs) == 1 {
            let v = vs_first(&vs).unwrap();
            let t = cx().truth_table(c, v);
            let st = self.st.as_mut().unwrap();
            let d = st.dom[v];
            let x = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            self.sol.stats.domain += 1;
            match vs_first(&x) {
                None => return Ok(None),
                Some(b) => {
                    if st.multi[v / 64] >> (v % 64) & 1 == 0 {
                        let mut m = (*st.model).clone();
                        m[v] = b as u8;
                        return Ok(Some(Rc::new(m)));
                    }
                }
            }
        }
        let q = self.slice(c);
        self.tick += 1;
        let lemmas = self.st.as_ref().unwrap().lemmas.clone();
        match self.sol.check(q, &lemmas, force) {
            Ans::Unsat => Ok(None),
            Ans::Sat(asg) => {
                let mut m = (*self.s().model).clone();
                for (v, b) in asg {
                    m[v as usize] = b;
                }
                Ok(Some(Rc::new(m)))
            }
            Ans::Unknown => inc("solver gave up (resource limit)"),
        }
    }
    pub fn ev(&mut self, c: E) -> u128 {
        let m = self.s().model.clone();
        cx().eval(c, &m)
    }
    pub fn set_model(&mut self, m: Rc<Vec<u8>>) {
        self.s().model = m;
        cx().new_eval();
    }
    /// Branch on a boolean expression; forks when both outcomes are feasible.
    pub fn decide(&mut self, c: E) -> R<bool> {
        if let Some(v) = cx().is_const(c) {
            return Ok(v != 0);
        }
        let nc = cx().not(c);
        {
            let st = self.st.as_ref().unwrap();
            if st.known.contains(&c) {
                return Ok(true);
            }
            if st.known.contains(&nc) {
                return Ok(false);
            }
        }
        let v = self.ev(c) != 0;
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(other, false)? {
            None => {
                // implied: remember cheaply
                self.know(here);
                if self.sol.arith(here) {
                    Rc::make_mut(&mut self.s().lemmas).push(here);
                }
                Ok(v)
            }
            Some(m) => {
                self.rep.forks += 1;
                let cur = self.st.take().unwrap();
                let mut o = cur.clone();
                self.st = Some(o);
                self.add_pc(other);
                o = self.st.take().unwrap();
                o.model = m;
                o.depth += 1;
                self.work.push(o);
                self.st = Some(cur);
                self.add_pc(here);
                self.s().depth += 1;
                if let Some(f) = self.on_fork {
                    f(self);
                }
                Ok(v)
            }
        }
    }
    pub fn concretize(&mut self, e: E) -> R<u128> {
        if let Some(v) = cx().is_const(e) {
            return Ok(v);
        }
        let v = self.ev(e);
        let w = cx().w(e);
        let kv = k(w, v);
        let c = cx().eq(e, kv);
        if self.decide(c)? {
            Ok(v)
        } else {
            unreachable!()
        }
    }
    pub fn cval(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => Ok(self.concretize(*e)? as u64),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => panic!("aggregate"),
        }
    }
    pub fn assume(&mut self, c: E) -> R<()> {
        if let Some(v) = cx().is_const(c) {
            return if v != 0 { Ok(()) } else { Err(Stop::End(Outcome::Infeasible)) };
        }
        if self.ev(c) == 0 {
            match self.feasible(c, false)? {
                None => return Err(Stop::End(Outcome::Infeasible)),
                Some(m) => self.set_model(m),
            }
        }
        self.add_pc(c);
        Ok(())
    }
    pub fn fresh(&mut self) -> R<E> {
        let st = self.s();
        let v = st.nvars;
        if v >= 256 {
            return inc("more than 256 symbolic bytes");
        }
        st.nvars += 1;
        let d = Rc::make_mut(&mut st.dom);
        while d.len() <= v as usize {
            d.push([!0; 4]);
        }
        let m = Rc::make_mut(&mut st.model);
        while m.len() <= v as usize {
            m.push(0);
        }
        cx().new_eval();
        let mv = self.rep.max_vars.max(v + 1);
        self.rep.max_vars = mv;
        Ok(cx().var(v))
    }

    // ------------------------------------------------------------ symbolic addresses
    /// Load through a symbolic address.
    fn load_sym(&mut self, e: E, n: usize) -> R<Val> {
        let a = self.ev(e) as u64;
        let (base, size) = match self.obj(a) {
            Some(o) => (a & !((1 << OSH) - 1), o.d.len() as u64),
            None => {
                let c = self.concretize(e)? as u64;
                return self.load(c, n);
            }
        };
        if size < n as u64 {
            let c = self.concretize(e)? as u64;
            return self.load(c, n);
        }
        let kb = k(64, base as u128);
        let off = cx().sub(e, kb);
        let lim = k(64, (size - n as u64 + 1) as u128);
        let inb = cx().ult(off, lim);
        if !self.decide(inb)? {
            // outside this object: pick another concrete address
            let c = self.concretize(e)? as u64;
            return self.load(c, n);
        }
        let vs = cx().vars[e as usize];
        let o = self.obj(a).unwrap().clone();
        let mut cands: Vec<u64> = vec![];
        if vs_count(&vs) == 1 {
            let v = vs_first(&vs).unwrap();
            let d = self.s().dom[v];
            let mut m = vec![0u8; v + 1];
            for b in vs_iter(&d) {
                m[v] = b as u8;
                cx().new_eval();
                let x = cx().eval(off, &m) as u64;
                cands.push(x);
            }
            cx().new_eval();
            cands.sort();
            cands.dedup();
            cands.retain(|x| *x + n as u64 <= size);
        } else {
            let (lo, hi) = cx().range(off);
            let hi = hi.min((size - n as u64) as u128);
            if lo <= hi && hi - lo < 300 {
                cands = (lo as u64..=hi as u64).collect();
            } else {
                let c = self.concretize(e)? as u64;
                return self.load(c, n);
            }
        }
        if cands.len() > 300 {
            let c = self.concretize(e)? as u64;
            return self.load(c, n);
        }
        // group by value
        let mut groups: Vec<(E, Vec<u64>)> = vec![];
        for c in cands {
            let v = o.expr(c as usize, n);
            match groups.iter_mut().find(|g| g.0 == v) {
                Some(g) => g.1.push(c),
                None => groups.push((v, vec![c])),
            }
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut it = groups.into_iter();
        let (mut r, _) = it.next().unwrap();
        for (v, offs) in it {
            // runs become range tests
            let mut cond = cx().bool(false);
            let mut i = 0;
            while i < offs.len() {
                let mut j = i;
                while j + 1 < offs.len() && offs[j + 1] == offs[j] + 1 {
                    j += 1;
                }
                let t = if i == j {
                    let x = k(64, offs[i] as u128);
                    cx().eq(off, x)
                } else {
                    let l = k(64, offs[i] as u128);
                    let d = cx().sub(off, l);
                    let h = k(64, (offs[j] - offs[i] + 1) as u128);
                    cx().ult(d, h)
                };
                cond = cx().or(cond, t);
                i = j + 1;
            }
            r = cx().ite(cond, v, r);
        }
        Ok(Val::of(r))
    }

    // ------------------------------------------------------------ calls
    pub fn push_frame(&mut self, f: u32, args: &[Val], ret: Option<u32>, marker: u8) -> R<()> {
        let func = self.m.func(f);
        self.rep.funcs.insert(f);
        let mut regs = vec![Val::I(0); func.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            if i < func.nparams as usize {
                regs[i] = a.clone();
            }
        }
        let st = self.st.as_mut().unwrap();
        let fr = Frame { f: func, bb: 0, ip: 0, regs, ret, marker };
        let old = std::mem::replace(&mut st.top, fr);
        let t = &mut st.threads[st.cur];
        t.frames.push(Rc::new(old));
        t.stack.push(Rc::new(Obj::zeroed(func.frame as usize)));
        if t.stack.len() > 6000 {
            let tr = self.backtrace_user();
            return Err(Stop::End(Outcome::Violation(
                format!("stack overflow at {tr}"),
                "call depth above 6000".into(),
            )));
        }
        Ok(())
    }
    /// Drop the top frame; the caller becomes top.
    pub fn pop_frame(&mut self) -> Frame {
        let st = self.st.as_mut().unwrap();
        let t = &mut st.threads[st.cur];
        t.stack.pop();
        let c = t.frames.pop().expect("no caller");
        let c = Rc::try_unwrap(c).unwrap_or_else(|r| (*r).clone());
        std::mem::replace(&mut st.top, c)
    }
    pub fn backtrace(&self) -> Vec<String> {
        let st = self.st.as_ref().unwrap();
        let mut v = vec![demangle(st.top.f.name)];
        for f in st.threads[st.cur].frames.iter().rev() {
            v.push(demangle(f.f.name));
        }
        v
    }
    /// innermost function of the code under test on the stack
    pub fn backtrace_user(&self) -> String {
        for f in self.backtrace() {
            if f.contains("::verif_") {
                return "harness".into();
            }
            if f.starts_with("fix_rs::") || f.starts_with("<fix_rs::") {
                return f;
            }
        }
        "?".into()
    }

    #[inline(always)]
    fn opd<'a>(fr: &'a Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::I(v) => Val::I(*v),
            Opd::K(i) => konst_val(&fr.f.consts[*i as usize]),
        }
    }
    pub fn val(&self, o: &Opd) -> Val {
        Self::opd(&self.st.as_ref().unwrap().top, o)
    }
    #[inline(always)]
    pub fn set(&mut self, d: u32, v: Val) {
        self.st.as_mut().unwrap().top.regs[d as usize] = v;
    }
    fn jump(&mut self, to: u32) {
        let fr = &mut self.st.as_mut().unwrap().top;
        let from = fr.bb;
        let b = &fr.f.blocks[to as usize];
        if !b.edges.is_empty() {
            let mut hit = false;
            for (p, cs) in &b.edges {
                if *p == from {
                    if cs.len() == 1 {
                        let v = Self::opd(fr, &cs[0].1);
                        fr.regs[cs[0].0 as usize] = v;
                    } else {
                        let vs: Vec<Val> = cs.iter().map(|c| Self::opd(fr, &c.1)).collect();
                        for (c, v) in cs.iter().zip(vs) {
                            fr.regs[c.0 as usize] = v;
                        }
                    }
                    hit = true;
                    break;
                }
            }
            assert!(hit, "phi without an entry for the incoming edge in {}", fr.f.name);
        }
        fr.bb = to;
        fr.ip = 0;
    }

    // ------------------------------------------------------------ main loop
    /// Run the current state until its path ends.
    pub fn run_path(&mut self) -> Outcome {
        cx().new_eval();
        if self.s().need_sched {
            match self.reschedule() {
                Err(Stop::End(o)) => return o,
                _ => {}
            }
        }
        let mut budget = 0u32;
        loop {
            budget += 1;
            if budget & 0x3fff == 0 || self.tick >= 4 {
                self.tick = 0;
                let s = crate::par::stop_at();
                if s != 0 && self.o.t0.elapsed().as_millis() as u64 > s {
                    self.stopped = true;
                    return Outcome::Inconclusive("time limit".into());
                }
            }
            let r = self.step();
            match r {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::Switch) => match self.reschedule() {
                    Ok(()) => {}
                    Err(Stop::End(o)) => return o,
                    Err(_) => {}
                },
                Err(Stop::End(o)) => return o,
            }
        }
    }
    fn step(&mut self) -> R<()> {
        let st = self.st.as_mut().unwrap();
        st.steps += 1;
        if st.steps > self.o.max_steps {
            let tr = self.backtrace_user();
            return Err(Stop::End(Outcome::Violation(
                format!("no termination within the step bound at {tr}"),
                format!("{} steps", self.o.max_steps),
            )));
        }
        let fr = &mut st.top;
        let f: &'static Func = fr.f;
        let ins: &'static Ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if self.o.verbose && st.steps >= self.o.trace_from {
            eprintln!("T {} {} bb{} {:?} | {:?}", st.steps, demangle(f.name), fr.bb, ins, fr.regs.iter().enumerate().map(|(i, r)| match r { Val::I(v) => format!("{i}={v:x}"), Val::W(v) => format!("{i}=W{v:x?}"), _ => String::new() }).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" "));
        }
        match ins {
            Ins::Bin { op, w, lanes, d, a, b } => {
                let (x, y) = (Self::opd(fr, a), Self::opd(fr, b));
                let r = if let (Val::I(x), Val::I(y), 1) = (&x, &y, *lanes) {
                    Val::I(bin_c(*op, *w, *x, *y))
                } else {
                    bin_slow(*op, *w, *lanes, &x, &y)
                };
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Icmp { p, w, lanes, d, a, b } => {
                let (x, y) = (Self::opd(fr, a), Self::opd(fr, b));
                let r = if let (Val::I(x), Val::I(y), 1) = (&x, &y, *lanes) {
                    Val::I(icmp_c(*p, *w, *x, *y) as u64)
                } else {
                    icmp_slow(*p, *w, *lanes, &x, &y)
                };
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Br(t) => self.jump(*t),
            Ins::CondBr { c, t, f } => {
                let c = Self::opd(fr, c);
                let b = match c {
                    Val::I(v) => v & 1 != 0,
                    Val::S(e) => {
                        self.s().sym_steps += 1;
                        self.decide(e)?
                    }
                    _ => panic!(),
                };
                self.jump(if b { *t } else { *f });
            }
            Ins::Load { d, ty, w, p } => {
                let p = Self::opd(fr, p);
                let v = match p {
                    Val::I(a) => {
                        if *w == 0 {
                            self.load_agg(a, ty)?
                        } else {
                            let v = self.load(a, ty.store_size() as usize)?;
                            trunc_to(v, *w, ty.store_size() as u32 * 8)
                        }
                    }
                    Val::S(e) => {
                        if *w == 0 {
                            let a = self.concretize(e)? as u64;
                            self.load_agg(a, ty)?
                        } else {
                            let v = self.load_sym(e, ty.store_size() as usize)?;
                            trunc_to(v, *w, ty.store_size() as u32 * 8)
                        }
                    }
                    _ => panic!(),
                };
                let fr = &mut self.st.as_mut().unwrap().top;
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            Ins::Store { ty, w, v, p } => {
                let p = Self::opd(fr, p);
                let v = Self::opd(fr, v);
                let a = match p {
                    Val::I(a) => a,
                    _ => self.cval(&p)?,
                };
                if *w == 0 {
                    self.store_agg(a, ty, &v)?;
                } else {
                    self.store(a, &v, ty.store_size() as usize)?;
                }
                self.s().top.ip += 1;
            }
            Ins::Gep { d, base, off, terms } => {
                let b = Self::opd(fr, base);
                let mut cb = 0u64;
                let mut acc: Option<E> = None;
                match b {
                    Val::I(v) => cb = v,
                    Val::S(e) => acc = Some(e),
                    _ => panic!(),
                }
                cb = cb.wrapping_add(*off as u64);
                for (t, s, w) in terms.iter() {
                    match Self::opd(fr, t) {
                        Val::I(v) => {
                            let v = sx(v as u128, *w) as i64;
                            cb = cb.wrapping_add(v.wrapping_mul(*s) as u64);
                        }
                        Val::S(e) => {
                            let c = cx();
                            let e = if *w < 64 { c.sext(e, 64) } else { e };
                            let sk = k(64, *s as u64 as u128);
                            let e = c.mul(e, sk);
                            acc = Some(match acc {
                                None => e,
                                Some(x) => c.add(x, e),
                            });
                        }
                        _ => panic!(),
                    }
                }
                let r = match acc {
                    None => Val::I(cb),
                    Some(e) => {
                        let kb = k(64, cb as u128);
                        Val::of(cx().add(e, kb))
                    }
                };
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Cast { op, lanes, fw, tw, d, a } => {
                let x = Self::opd(fr, a);
                let r = match (&x, *lanes) {
                    (Val::I(v), 1) if *tw <= 64 => match op {
                        CastOp::Trunc => Val::I(*v & m64(*tw)),
                        CastOp::ZExt | CastOp::Same => Val::I(*v),
                        CastOp::SExt => Val::I(sx(*v as u128, *fw) as u64 & m64(*tw)),
                        _ => match fcast(*op, *fw, *tw, *v as u128) {
                            Some(v) => Val::wide(*tw, v),
                            None => return inc("float cast"),
                        },
                    },
                    _ => match cast_slow(*op, *lanes, *fw, *tw, &x) {
                        Some(v) => v,
                        None => return inc("symbolic floating-point value"),
                    },
                };
                let fr = &mut self.s().top;
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Select { d, c, w, agg, lanes, a, b } => {
                let cv = Self::opd(fr, c);
                let r = match &cv {
                    Val::I(v) if *lanes == 1 => Self::opd(fr, if *v & 1 != 0 { a } else { b }),
                    _ => {
                        let (x, y) = (Self::opd(fr, a), Self::opd(fr, b));
                        if *lanes > 1 {
                            let mut out: Option<E> = None;
                            let ce = cv.e(*lanes);
                            let (xe, ye) = (x.e(*w * *lanes), y.e(*w * *lanes));
                            for i in 0..*lanes {
                                let ci = cx().extract(ce, i, i);
                                let xi = cx().extract(xe, (i + 1) * w - 1, i * w);
                                let yi = cx().extract(ye, (i + 1) * w - 1, i * w);
                                let r = cx().ite(ci, xi, yi);
                                out = Some(match out {
                                    None => r,
                                    Some(o) => cx().concat(r, o),
                                });
                            }
                            Val::of(out.unwrap())
                        } else {
                            let ce = cv.e(1);
                            let ptrish = |v: &Val| match v {
                                Val::I(v) => *v >= 1 << OSH && *v < !0 << 20,
                                _ => false,
                            };
                            if *agg || (*w == 64 && (ptrish(&x) || ptrish(&y))) {
                                if self.decide(ce)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let (xe, ye) = (x.e(*w), y.e(*w));
                                Val::of(cx().ite(ce, xe, ye))
                            }
                        }
                    }
                };
                let fr = &mut self.s().top;
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Alloca { d, off } => {
                let cur = st.cur as u64;
                let depth = st.threads[st.cur].stack.len() as u64 - 1;
                let id = STACK_ID | (cur << TSH) | depth;
                fr.regs[*d as usize] = Val::I((id << OSH) + off);
                fr.ip += 1;
            }
            Ins::Call { d, f: cal, args, aw, rw } => {
                let fid = match cal {
                    Callee::F(i) => *i,
                    Callee::P(o) => {
                        let p = Self::opd(fr, o);
                        let p = match p {
                            Val::I(p) => p,
                            _ => self.cval(&p)?,
                        };
                        if p & FN_BASE == 0 || p & 15 != 0 {
                            return self.fault("call of a non-function", p);
                        }
                        ((p & !FN_BASE) >> 4) as u32
                    }
                };
                let fr = &self.st.as_ref().unwrap().top;
                let ext = self.m.fns[fid as usize].ext;
                if ext != 0 {
                    let av: Vec<Val> = args.iter().map(|a| Self::opd(fr, a)).collect();
                    return self.external(ext, fid, &av, aw, *d, *rw);
                }
                if self.m.fns[fid as usize].body.is_none() {
                    return inc(format!("call of unmodelled external {}", self.m.fns[fid as usize].name));
                }
                let func = self.m.func(fid);
                self.rep.funcs.insert(fid);
                let mut regs = vec![Val::I(0); func.nregs as usize];
                for (i, a) in args.iter().enumerate() {
                    if i < func.nparams as usize {
                        regs[i] = Self::opd(fr, a);
                    }
                }
                let st = self.st.as_mut().unwrap();
                st.top.ip += 1;
                let nf = Frame { f: func, bb: 0, ip: 0, regs, ret: *d, marker: 0 };
                let old = std::mem::replace(&mut st.top, nf);
                let t = &mut st.threads[st.cur];
                t.frames.push(Rc::new(old));
                t.stack.push(Rc::new(Obj::zeroed(func.frame as usize)));
                if t.stack.len() > 6000 {
                    let tr = self.backtrace_user();
                    return Err(Stop::End(Outcome::Violation(
                        format!("stack overflow at {tr}"),
                        "call depth above 6000".into(),
                    )));
                }
            }
            Ins::Ret { v } => {
                let v = v.as_ref().map(|o| Self::opd(fr, o));
                return self.do_ret(v);
            }
            Ins::Switch { w, v, def, cases, map } => {
                let x = Self::opd(fr, v);
                let t = match x {
                    Val::I(v) => *map.get(&v).unwrap_or(def),
                    Val::W(v) => cases.iter().find(|c| c.0 == *v).map_or(*def, |c| c.1),
                    Val::S(e) => {
                        self.s().sym_steps += 1;
                        // the case this state's own model takes first, then fork on the rest
                        let mv = self.ev(e);
                        let tgt = cases.iter().find(|c| c.0 == mv).map_or(*def, |c| c.1);
                        let mut cond = cx().bool(false);
                        if tgt == *def {
                            for c in cases.iter() {
                                if c.1 != *def {
                                    let kc = k(*w, c.0);
                                    let t = cx().eq(e, kc);
                                    cond = cx().or(cond, t);
                                }
                            }
                            cond = cx().not(cond);
                        } else {
                            for c in cases.iter() {
                                if c.1 == tgt {
                                    let kc = k(*w, c.0);
                                    let t = cx().eq(e, kc);
                                    cond = cx().or(cond, t);
                                }
                            }
                        }
                        if !self.decide(cond)? {
                            unreachable!()
                        }
                        tgt
                    }
                    _ => panic!(),
                };
                self.jump(t);
            }
            Ins::Extract { d, a, path } => {
                let mut v = Self::opd(fr, a);
                for i in path.iter() {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => Val::I(0),
                    };
                }
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            Ins::Insert { d, a, v, path, ty } => {
                let base = Self::opd(fr, a);
                let v = Self::opd(fr, v);
                let r = insert(base, ty, path, v);
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            Ins::Copy { d, a } => {
                let v = Self::opd(fr, a);
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            Ins::Nop => fr.ip += 1,
            Ins::Rmw { d, op, w, p, v } => {
                let p = Self::opd(fr, p);
                let v = Self::opd(fr, v);
                let a = self.cval(&p)?;
                let n = (*w as usize + 7) / 8;
                let old = self.load(a, n)?;
                let old = trunc_to(old, *w, n as u32 * 8);
                let (x, y) = (old.e(*w), v.e(*w));
                let c = cx();
                let nv = match op.as_str() {
                    "xchg" => y,
                    "add" => c.add(x, y),
                    "sub" => c.sub(x, y),
                    "and" => c.and(x, y),
                    "or" => c.or(x, y),
                    "xor" => c.xor(x, y),
                    "umax" => {
                        let t = c.ult(x, y);
                        c.ite(t, y, x)
                    }
                    "umin" => {
                        let t = c.ult(x, y);
                        c.ite(t, x, y)
                    }
                    o => return inc(format!("atomicrmw {o}")),
                };
                self.store(a, &Val::of(nv), n)?;
                let fr = &mut self.s().top;
                fr.regs[*d as usize] = old;
                fr.ip += 1;
            }
            Ins::CmpXchg { d, w, p, c, n } => {
                let p = Self::opd(fr, p);
                let cv = Self::opd(fr, c);
                let nv = Self::opd(fr, n);
                let a = self.cval(&p)?;
                let nb = (*w as usize + 7) / 8;
                let old = self.load(a, nb)?;
                let old = trunc_to(old, *w, nb as u32 * 8);
                let c = cx().eq(old.e(*w), cv.e(*w));
                let ok = self.decide(c)?;
                if ok {
                    self.store(a, &nv, nb)?;
                }
                let fr = &mut self.s().top;
                fr.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::I(ok as u64)]));
                fr.ip += 1;
            }
            Ins::FBin { op, w, d, a, b } => {
                let (x, y) = (Self::opd(fr, a), Self::opd(fr, b));
                let r = match (x, y) {
                    (Val::I(x), Val::I(y)) => fbin(*op, *w, x, y),
                    _ => return inc("symbolic floating-point value"),
                };
                fr.regs[*d as usize] = Val::I(r);
                fr.ip += 1;
            }
            Ins::FNeg { w, d, a } => {
                let r = match Self::opd(fr, a) {
                    Val::I(x) => x ^ (1u64 << (*w - 1)),
                    _ => return inc("symbolic floating-point value"),
                };
                fr.regs[*d as usize] = Val::I(r);
                fr.ip += 1;
            }
            Ins::Fcmp { p, w, d, a, b } => {
                let (x, y) = (Self::opd(fr, a), Self::opd(fr, b));
                let r = match (x, y) {
                    (Val::I(x), Val::I(y)) => {
                        let g = |v: u64| {
                            if *w == 32 {
                                f32::from_bits(v as u32) as f64
                            } else {
                                f64::from_bits(v)
                            }
                        };
                        let (x, y) = (g(x), g(y));
                        let un = x.is_nan() || y.is_nan();
                        match p.as_str() {
                            "oeq" => x == y,
                            "one" => !un && x != y,
                            "olt" => x < y,
                            "ole" => x <= y,
                            "ogt" => x > y,
                            "oge" => x >= y,
                            "ord" => !un,
                            "uno" => un,
                            "ueq" => un || x == y,
                            "une" => x != y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "true" => true,
                            _ => false,
                        }
                    }
                    _ => return inc("symbolic floating-point value"),
                };
                fr.regs[*d as usize] = Val::I(r as u64);
                fr.ip += 1;
            }
            Ins::InsElem { d, a, v, i, ew, n } => {
                let (a, v, i) = (Self::opd(fr, a), Self::opd(fr, v), Self::opd(fr, i));
                let i = self.cval(&i)? as u32;
                let tw = ew * n;
                let ae = a.e(tw);
                let ve = v.e(*ew);
                let mut r = ve;
                if i > 0 {
                    let lo = cx().extract(ae, i * ew - 1, 0);
                    r = cx().concat(r, lo);
                }
                if i + 1 < *n {
                    let hi = cx().extract(ae, tw - 1, (i + 1) * ew);
                    r = cx().concat(hi, r);
                }
                self.set(*d, Val::of(r));
                self.s().top.ip += 1;
            }
            Ins::ExtElem { d, a, i, ew, n } => {
                let (a, i) = (Self::opd(fr, a), Self::opd(fr, i));
                let i = self.cval(&i)? as u32;
                let ae = a.e(ew * n);
                let r = cx().extract(ae, (i + 1) * ew - 1, i * ew);
                self.set(*d, Val::of(r));
                self.s().top.ip += 1;
            }
            Ins::Shuffle { d, a, b, ew, n, mask } => {
                let (a, b) = (Self::opd(fr, a), Self::opd(fr, b));
                let (ae, be) = (a.e(ew * n), b.e(ew * n));
                let mut r: Option<E> = None;
                for m in mask.iter() {
                    let x = if *m < 0 {
                        k(*ew, 0)
                    } else if (*m as u32) < *n {
                        let i = *m as u32;
                        cx().extract(ae, (i + 1) * ew - 1, i * ew)
                    } else {
                        let i = *m as u32 - n;
                        cx().extract(be, (i + 1) * ew - 1, i * ew)
                    };
                    r = Some(match r {
                        None => x,
                        Some(o) => cx().concat(x, o),
                    });
                }
                self.set(*d, Val::of(r.unwrap()));
                self.s().top.ip += 1;
            }
            Ins::Unreachable => {
                let loc = self.where_am_i();
                return Err(Stop::End(Outcome::Violation(
                    format!("reached unreachable code in {loc}"),
                    String::new(),
                )));
            }
        }
        Ok(())
    }
    pub fn do_ret(&mut self, v: Option<Val>) -> R<()> {
        let st = self.st.as_mut().unwrap();
        if st.threads[st.cur].frames.is_empty() {
            return self.thread_root_done(v);
        }
        let fr = self.pop_frame();
        match fr.marker {
            1 => {
                // vf_catch: normal completion
                if let Some(d) = fr.ret {
                    self.set(d, Val::I(0));
                }
            }
            _ => {
                if let (Some(d), Some(v)) = (fr.ret, v) {
                    self.set(d, v);
                }
            }
        }
        Ok(())
    }
    fn load_agg(&mut self, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::St(v, _) => {
                let mut out = vec![];
                for (i, t) in v.iter().enumerate() {
                    out.push(self.load_agg(a + ty.field_off(i), t)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Arr(n, t) => {
                let mut out = vec![];
                for i in 0..*n {
                    out.push(self.load_agg(a + i * t.size(), t)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            t => {
                let v = self.load(a, t.store_size() as usize)?;
                Ok(trunc_to(v, t.bits(), t.store_size() as u32 * 8))
            }
        }
    }
    fn store_agg(&mut self, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::St(ts, _) => {
                for (i, t) in ts.iter().enumerate() {
                    let x = match v {
                        Val::A(x) => x[i].clone(),
                        _ => Val::I(0),
                    };
                    self.store_agg(a + ty.field_off(i), t, &x)?;
                }
                Ok(())
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    let x = match v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => Val::I(0),
                    };
                    self.store_agg(a + i * t.size(), t, &x)?;
                }
                Ok(())
            }
            t => self.store(a, v, t.store_size() as usize),
        }
    }
}

fn konst_val(c: &Const) -> Val {
    match c {
        Const::Bits(b) => Val::W(Rc::new(*b)),
        Const::Agg(v) => Val::A(Rc::new(
            v.iter()
                .map(|c| match c {
                    Const::Bits(b) if *b <= u64::MAX as u128 => Val::I(*b as u64),
                    c => konst_val(c),
                })
                .collect(),
        )),
    }
}
pub fn trunc_to(v: Val, w: u32, have: u32) -> Val {
    if w == have {
        return v;
    }
    match v {
        Val::I(x) => Val::I(x & m64(w)),
        Val::W(x) => Val::wide(w, *x),
        Val::S(e) => Val::of(cx().extract(e, w - 1, 0)),
        v => v,
    }
}
fn insert(base: Val, ty: &Ty, path: &[u32], v: Val) -> Val {
    if path.is_empty() {
        return v;
    }
    let n = match ty {
        Ty::St(v, _) => v.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => panic!(),
    };
    let mut xs = match base {
        Val::A(x) => (*x).clone(),
        _ => vec![Val::I(0); n],
    };
    let i = path[0] as usize;
    let old = std::mem::replace(&mut xs[i], Val::I(0));
    xs[i] = insert(old, &ty.elem(i), &path[1..], v);
    Val::A(Rc::new(xs))
}
#[inline(always)]
fn bin_c(op: BinOp, w: u32, x: u64, y: u64) -> u64 {
    let m = m64(w);
    (match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        BinOp::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => {
            let s = sx(x as u128, w) as i64;
            (s >> y.min(63)) as u64
        }
        BinOp::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        BinOp::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        BinOp::SDiv => {
            let (a, b) = (sx(x as u128, w) as i64, sx(y as u128, w) as i64);
            if b == 0 {
                m
            } else {
                a.wrapping_div(b) as u64
            }
        }
        BinOp::SRem => {
            let (a, b) = (sx(x as u128, w) as i64, sx(y as u128, w) as i64);
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
    }) & m
}
fn lanes_map(lanes: u32, w: u32, x: &Val, y: &Val, mut f: impl FnMut(E, E) -> E) -> Val {
    let (xe, ye) = (x.e(w * lanes), y.e(w * lanes));
    let mut out: Option<E> = None;
    for i in 0..lanes {
        let a = cx().extract(xe, (i + 1) * w - 1, i * w);
        let b = cx().extract(ye, (i + 1) * w - 1, i * w);
        let r = f(a, b);
        out = Some(match out {
            None => r,
            Some(o) => cx().concat(r, o),
        });
    }
    Val::of(out.unwrap())
}
fn bin_e(op: BinOp, x: E, y: E) -> E {
    let c = cx();
    match op {
        BinOp::Add => c.add(x, y),
        BinOp::Sub => c.sub(x, y),
        BinOp::Mul => c.mul(x, y),
        BinOp::UDiv => c.udiv(x, y),
        BinOp::SDiv => c.sdiv(x, y),
        BinOp::URem => c.urem(x, y),
        BinOp::SRem => c.srem(x, y),
        BinOp::Shl => c.shl(x, y),
        BinOp::LShr => c.lshr(x, y),
        BinOp::AShr => c.ashr(x, y),
        BinOp::And => c.and(x, y),
        BinOp::Or => c.or(x, y),
        BinOp::Xor => c.xor(x, y),
    }
}
fn bin_slow(op: BinOp, w: u32, lanes: u32, x: &Val, y: &Val) -> Val {
    if lanes == 1 {
        let (a, b) = (x.e(w), y.e(w));
        return Val::of(bin_e(op, a, b));
    }
    if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
        let (a, b) = (x.e(w * lanes), y.e(w * lanes));
        return Val::of(bin_e(op, a, b));
    }
    lanes_map(lanes, w, x, y, |a, b| bin_e(op, a, b))
}
#[inline(always)]
fn icmp_c(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => {
            let s = 64 - w;
            let (a, b) = (((x << s) as i64), ((y << s) as i64));
            match p {
                Pred::Slt => a < b,
                Pred::Sle => a <= b,
                Pred::Sgt => a > b,
                _ => a >= b,
            }
        }
    }
}
fn icmp_e(p: Pred, x: E, y: E) -> E {
    let c = cx();
    match p {
        Pred::Eq => c.eq(x, y),
        Pred::Ne => c.ne(x, y),
        Pred::Ult => c.ult(x, y),
        Pred::Ule => c.ule(x, y),
        Pred::Ugt => c.ult(y, x),
        Pred::Uge => c.ule(y, x),
        Pred::Slt => c.slt(x, y),
        Pred::Sle => c.sle(x, y),
        Pred::Sgt => c.slt(y, x),
        Pred::Sge => c.sle(y, x),
    }
}
fn icmp_slow(p: Pred, w: u32, lanes: u32, x: &Val, y: &Val) -> Val {
    if lanes == 1 {
        let (a, b) = (x.e(w), y.e(w));
        return Val::of(icmp_e(p, a, b));
    }
    if let (Some(a), Some(b)) = (x.conc(), y.conc()) {
        let mut r = 0u128;
        for i in 0..lanes {
            let (p1, p2) = ((a >> (i * w)) as u64 & m64(w), (b >> (i * w)) as u64 & m64(w));
            if icmp_c(p, w, p1, p2) {
                r |= 1 << i;
            }
        }
        return Val::wide(lanes, r);
    }
    lanes_map(lanes, w, x, y, |a, b| icmp_e(p, a, b))
}
fn cast_slow(op: CastOp, lanes: u32, fw: u32, tw: u32, x: &Val) -> Option<Val> {
    let one = |e: E| -> Option<E> {
        let c = cx();
        Some(match op {
            CastOp::Trunc => c.extract(e, tw - 1, 0),
            CastOp::ZExt => c.zext(e, tw),
            CastOp::SExt => c.sext(e, tw),
            CastOp::Same => e,
            _ => {
                let v = c.is_const(e)?;
                let r = fcast(op, fw, tw, v)?;
                k(tw, r)
            }
        })
    };
    if lanes == 1 {
        return Some(Val::of(one(x.e(fw))?));
    }
    let xe = x.e(fw * lanes);
    let mut out: Option<E> = None;
    for i in 0..lanes {
        let a = cx().extract(xe, (i + 1) * fw - 1, i * fw);
        let r = one(a)?;
        out = Some(match out {
            None => r,
            Some(o) => cx().concat(r, o),
        });
    }
    Some(Val::of(out.unwrap()))
}
fn fcast(op: CastOp, fw: u32, tw: u32, v: u128) -> Option<u128> {
    let asf = |v: u128, w: u32| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
    let tof = |f: f64, w: u32| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
    Some(match op {
        CastOp::FpToUi => (asf(v, fw) as u128) & mask(tw),
        CastOp::FpToSi => (asf(v, fw) as i128 as u128) & mask(tw),
        CastOp::UiToFp => {
            if tw == 32 {
                ((v as f32).to_bits()) as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        CastOp::SiToFp => {
            let s = sx(v, fw);
            if tw == 32 {
                ((s as f32).to_bits()) as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        CastOp::FpExt | CastOp::FpTrunc => tof(asf(v, fw), tw),
        _ => return None,
    })
}
fn fbin(op: u8, w: u32, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            b'a' => a + b,
            b's' => a - b,
            b'm' => a * b,
            b'd' => a / b,
            _ => a % b,
        };
        r.to_bits() as u64
    } else {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        let r = match op {
            b'a' => a + b,
            b's' => a - b,
            b'm' => a * b,
            b'd' => a / b,
            _ => a % b,
        };
        r.to_bits()
    }
}

/// Readable path of a v0-mangled (or legacy) Rust symbol: identifiers only.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.into();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        // skip disambiguators s<base62>_
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                ids.push(s[j..j + n].to_string());
                i = j + n;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    ids.join("::")
}
