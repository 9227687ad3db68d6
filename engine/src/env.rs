//! Models of LLVM intrinsics, libc and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

macro_rules! exts {
    ($($id:ident = $s:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(u32)]
        pub enum X { None = 0, $($id),* }
        pub const XN: &[(&str, X)] = &[$(($s, X::$id)),*];
        impl X { pub fn of(i: u32) -> X { if i == 0 { X::None } else { XN[i as usize - 1].1 } } }
    };
}
exts! {
    Memcpy = "llvm.memcpy.", Memmove = "llvm.memmove.", Memset = "llvm.memset.",
    Assume = "llvm.assume", IsConst = "llvm.is.constant.",
    USubSat = "llvm.usub.sat.", UAddSat = "llvm.uadd.sat.", SSubSat = "llvm.ssub.sat.", SAddSat = "llvm.sadd.sat.",
    UMax = "llvm.umax.", UMin = "llvm.umin.", SMax = "llvm.smax.", SMin = "llvm.smin.",
    UAddO = "llvm.uadd.with.overflow.", USubO = "llvm.usub.with.overflow.", UMulO = "llvm.umul.with.overflow.",
    SAddO = "llvm.sadd.with.overflow.", SSubO = "llvm.ssub.with.overflow.", SMulO = "llvm.smul.with.overflow.",
    BSwap = "llvm.bswap.", BitRev = "llvm.bitreverse.", Ctlz = "llvm.ctlz.", Cttz = "llvm.cttz.", Ctpop = "llvm.ctpop.",
    Abs = "llvm.abs.", Fshl = "llvm.fshl.", Fshr = "llvm.fshr.", UCmp = "llvm.ucmp.", SCmp = "llvm.scmp.",
    Trap = "llvm.trap", Pause = "llvm.x86.sse2.pause", FpToUiSat = "llvm.fptoui.sat.", FpToSiSat = "llvm.fptosi.sat.", Pow = "llvm.pow.",
    Fabs = "llvm.fabs.", Floor = "llvm.floor.", Ceil = "llvm.ceil.", TruncF = "llvm.trunc.", Round = "llvm.round.", CopySign = "llvm.copysign.",
    Tls = "llvm.threadlocal.address.", ObjSize = "llvm.objectsize.", Expect = "llvm.expect.", Prefetch = "llvm.prefetch.",
    RedOr = "llvm.vector.reduce.or.", RedAnd = "llvm.vector.reduce.and.", RedAdd = "llvm.vector.reduce.add.",
    Bcmp = "bcmp", Memcmp = "memcmp", Memchr = "memchr", Memrchr = "memrchr", Strlen = "strlen",
    Malloc = "malloc", Calloc = "calloc", Realloc = "realloc", Free = "free", PosixMemalign = "posix_memalign", AlignedAlloc = "aligned_alloc",
    Errno = "__errno_location", Write = "write", Writev = "writev", Read = "read", Close = "close", Open = "open64", Fstat = "fstat64", Statx = "statx",
    Stat = "stat64", Lseek = "lseek64", Getcwd = "getcwd", Realpath = "realpath", Readlink = "readlink", Getenv = "getenv",
    Mmap = "mmap64", Munmap = "munmap", Mprotect = "mprotect",
    ClockGettime = "clock_gettime", Nanosleep = "clock_nanosleep", Nanosleep2 = "nanosleep", SchedYield = "sched_yield", Affinity = "sched_getaffinity", Sysconf = "sysconf",
    Getauxval = "getauxval", Getrandom = "getrandom", Syscall = "syscall", Dlsym = "dlsym", Gettid = "gettid",
    PCreate = "pthread_create", PJoin = "pthread_join", PDetach = "pthread_detach", PSelf = "pthread_self",
    PKeyCreate = "pthread_key_create", PKeyDelete = "pthread_key_delete", PSetSpec = "pthread_setspecific", PGetSpec = "pthread_getspecific",
    PAttrInit = "pthread_attr_init", PAttrDestroy = "pthread_attr_destroy", PAttrStack = "pthread_attr_setstacksize", PSetName = "pthread_setname_np",
    PGetAttr = "pthread_getattr_np", PGuard = "pthread_attr_getguardsize", PGetStack = "pthread_attr_getstack",
    Atexit = "__cxa_thread_atexit_impl", Sigaction = "sigaction", Signal = "signal", Sigaltstack = "sigaltstack", Sigrtmax = "__libc_current_sigrtmax",
    Abort = "abort",
    Socket = "socket", Bind = "bind", Listen = "listen", Accept4 = "accept4", Setsockopt = "setsockopt", Getsockopt = "getsockopt", Ioctl = "ioctl", Fcntl = "fcntl",
    EpollCreate = "epoll_create1", EpollCtl = "epoll_ctl", EpollWait = "epoll_wait", Eventfd = "eventfd", Recv = "recv", Send = "send", Shutdown = "shutdown",
    Socketpair = "socketpair", Strerror = "__xpg_strerror_r", Getsockname = "getsockname", Getpeername = "getpeername", Dup = "dup", Poll = "poll",
    PanicFmt = "#panic_fmt", PanicNounwind = "#panic_nounwind", AllocErr = "#alloc_error",
    VSym = "vf_sym", VAssume = "vf_assume", VAssert = "vf_assert", VChoice = "vf_choice", VConc = "vf_concretize", VCatch = "vf_catch",
    VReach = "vf_reach", VObserve = "vf_observe", VConfig = "vf_config", VPrint = "vf_print", VHash = "vf_hash", VHashOn = "vf_hash_on", VClock = "vf_set_clock",
    VNetConnect = "vf_net_connect", VNetSend = "vf_net_send", VNetClose = "vf_net_close", VNetRecv = "vf_net_recv", VKnown = "vf_known",
    VSteps = "vf_steps", VNetListening = "vf_net_listening",
}

/// Configuration keys of vf_config.
pub const CFG_MAX_STEPS: u32 = 1;
pub const CFG_HASH: u32 = 2; // 0 = all keys collide (insertion order), 1 = adversarial order
pub const CFG_EPOLLRDHUP: u64 = 0x2000;

pub fn install(m: &mut Module) {
    for f in m.fns.iter_mut() {
        let n = f.name;
        if f.body.is_none() {
            for (i, (s, _)) in XN.iter().enumerate() {
                if *s == n || (s.ends_with('.') && n.starts_with(s)) || (s.starts_with("llvm.") && *s == n) {
                    f.ext = i as u32 + 1;
                    break;
                }
            }
        } else {
            let t = if n.ends_with("9panicking9panic_fmt") {
                "#panic_fmt"
            } else if n.ends_with("9panicking14panic_nounwind")
                || n.ends_with("9panicking18panic_nounwind_fmt")
                || n.ends_with("17rust_begin_unwind")
                || n.ends_with("10rust_panic")
            {
                "#panic_nounwind"
            } else if n.ends_with("18handle_alloc_error") {
                "#alloc_error"
            } else {
                continue;
            };
            f.ext = XN.iter().position(|x| x.0 == t).unwrap() as u32 + 1;
        }
    }
}

const ENOENT: u64 = 2;
const EPIPE: u64 = 32;
const ECONNRESET: u64 = 104;
const EAGAIN: u64 = 11;
const ENOSYS: u64 = 38;
const ETIMEDOUT: u64 = 110;

impl Exec {
    fn finish(&mut self, d: Option<u32>, v: Val) -> R<()> {
        if let Some(d) = d {
            self.set(d, v);
        }
        self.s().top.ip += 1;
        Ok(())
    }
    fn arg_c(&mut self, a: &[Val], i: usize) -> R<u64> {
        let v = a[i].clone();
        self.cval(&v)
    }
    fn set_errno(&mut self, e: u64) -> R<()> {
        let p = self.errno_ptr()?;
        self.store(p, &Val::I(e), 4)
    }
    fn errno_ptr(&mut self) -> R<u64> {
        let c = self.s().cur;
        if let Some(p) = self.s().errno.get(&c) {
            return Ok(*p);
        }
        let p = self.malloc(8)?;
        self.s().errno.insert(c, p);
        Ok(p)
    }
    fn fail(&mut self, d: Option<u32>, e: u64, w: u32) -> R<()> {
        self.set_errno(e)?;
        self.finish(d, Val::I(m64(w)))
    }
    pub fn cstr(&mut self, p: u64) -> R<String> {
        let mut v = vec![];
        for i in 0..4096 {
            match self.load(p + i, 1)? {
                Val::I(0) => break,
                Val::I(b) => v.push(b as u8),
                _ => return inc("symbolic C string"),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    fn rstr(&mut self, p: u64, n: u64) -> R<String> {
        let b = self.bytes(p, n as usize)?;
        Ok(b.iter().map(|e| cx().is_const(*e).map_or('?', |c| c as u8 as char)).collect())
    }
    fn scalar2(&mut self, a: &[Val], w: u32) -> (E, E) {
        (a[0].e(w), a[1].e(w))
    }

    pub fn panic_here(&mut self, what: String) -> R<()> {
        // innermost vf_catch on this thread
        let st = self.st.as_ref().unwrap();
        let has = st.top.marker == 1 || st.threads[st.cur].frames.iter().any(|f| f.marker == 1);
        if has {
            *self.rep.panics_caught.entry(what).or_default() += 1;
            loop {
                let fr = self.pop_frame();
                if fr.marker == 1 {
                    if let Some(d) = fr.ret {
                        self.set(d, Val::I(1));
                    }
                    return Ok(());
                }
            }
        }
        let u = self.backtrace_user();
        Err(Stop::End(Outcome::Violation(format!("panic in {u}"), what)))
    }
    pub fn thread_root_done(&mut self, v: Option<Val>) -> R<()> {
        let st = self.st.as_mut().unwrap();
        let c = st.cur;
        if c == 0 {
            return Err(Stop::End(Outcome::Done));
        }
        if let Some(v) = v {
            if st.top.marker == 2 {
                if let Val::I(x) = v {
                    st.threads[c].ret = x;
                }
            }
        }
        st.threads[c].stack.clear();
        if let Some((f, arg)) = st.threads[c].dtors.pop() {
            let fid = ((f & !FN_BASE) >> 4) as u32;
            let func = self.m.func(fid);
            let st = self.st.as_mut().unwrap();
            let mut regs = vec![Val::I(0); func.nregs as usize];
            regs[0] = Val::I(arg);
            st.top = Frame { f: func, bb: 0, ip: 0, regs, ret: None, marker: 3 };
            st.threads[c].stack.push(Rc::new(Obj::zeroed(func.frame as usize)));
            return Ok(());
        }
        st.threads[c].wait = Wait::Done;
        for t in st.threads.iter_mut() {
            if t.wait == Wait::Join(c as u32) {
                t.wait = Wait::Run;
            }
        }
        self.reschedule()
    }
    pub fn spawn(&mut self, f: u64, arg: u64) -> R<u32> {
        let fid = ((f & !FN_BASE) >> 4) as u32;
        let func = self.m.func(fid);
        self.rep.funcs.insert(fid);
        let mut regs = vec![Val::I(0); func.nregs as usize];
        regs[0] = Val::I(arg);
        let fr = Frame { f: func, bb: 0, ip: 0, regs, ret: None, marker: 2 };
        let st = self.s();
        st.threads.push(Thread {
            frames: vec![],
            top: Some(Box::new(fr)),
            stack: vec![Rc::new(Obj::zeroed(func.frame as usize))],
            tls: Default::default(),
            dtors: vec![],
            keys: Default::default(),
            wait: Wait::Run,
            ret: 0,
            detached: false,
            timed_out: false,
        });
        Ok(st.threads.len() as u32 - 1)
    }
    fn switch_to(&mut self, t: usize) {
        let st = self.st.as_mut().unwrap();
        if t == st.cur {
            return;
        }
        let nt = st.threads[t].top.take().expect("thread has no frame");
        let old = std::mem::replace(&mut st.top, *nt);
        let c = st.cur;
        st.threads[c].top = Some(Box::new(old));
        st.cur = t;
    }
    /// The running thread cannot continue: pick another one.
    pub fn reschedule(&mut self) -> R<()> {
        self.s().need_sched = true;
        loop {
            self.wake_epollers();
            let st = self.st.as_mut().unwrap();
            let n = st.threads.len();
            let run: Vec<usize> = (1..=n).map(|i| (st.cur + i) % n).filter(|t| st.threads[*t].wait == Wait::Run).collect();
            if !run.is_empty() {
                let mut pick = run[0];
                if run.len() > 1 && st.cfg.get(&3).copied().unwrap_or(0) > st.sched.len() as u64 {
                    // scheduling choice is a symbolic input
                    let v = match st.pending {
                        Some(v) => v,
                        None => {
                            let e = self.fresh()?;
                            let idx = cx().n(e).a;
                            let lim = k(8, run.len() as u128);
                            let c = cx().ult(e, lim);
                            self.add_pc(c);
                            let st = self.s();
                            st.pending = Some(idx);
                            Rc::make_mut(&mut st.names).push(("schedule".into(), idx, 1));
                            idx
                        }
                    };
                    let e = cx().var(v);
                    let x = self.concretize(e)? as usize;
                    let st = self.s();
                    st.pending = None;
                    Rc::make_mut(&mut st.sched).push(x as u8);
                    pick = run[x];
                }
                self.switch_to(pick);
                self.s().need_sched = false;
                return Ok(());
            }
            // nothing runnable: let virtual time pass
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in st.threads.iter().enumerate() {
                let d = match t.wait {
                    Wait::Sleep(d) | Wait::FutexT(_, d) | Wait::Epoll(_, d) => d,
                    _ => continue,
                };
                if d != u64::MAX && best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
            match best {
                Some((d, i)) => {
                    st.clock = st.clock.max(d);
                    st.threads[i].timed_out = true;
                    st.threads[i].wait = Wait::Run;
                }
                None => {
                    let tr = self.backtrace_user();
                    return Err(Stop::End(Outcome::Violation(
                        "deadlock: every thread is blocked".into(),
                        tr,
                    )));
                }
            }
        }
    }
    fn wake_epollers(&mut self) {
        let st = self.st.as_mut().unwrap();
        for i in 0..st.threads.len() {
            if let Wait::Epoll(ep, _) = st.threads[i].wait {
                let ready = matches!(st.fds.get(&ep).map(|f| &f.kind), Some(FdKind::Epoll { ready, .. }) if !ready.is_empty());
                if ready {
                    st.threads[i].wait = Wait::Run;
                }
            }
        }
    }
    fn block(&mut self, w: Wait) -> R<()> {
        let st = self.s();
        let c = st.cur;
        st.threads[c].wait = w;
        st.threads[c].timed_out = false;
        Err(Stop::Switch)
    }
    fn took_timeout(&mut self) -> bool {
        let st = self.s();
        let c = st.cur;
        std::mem::replace(&mut st.threads[c].timed_out, false)
    }
    fn futex(&mut self, a: &[Val], d: Option<u32>) -> R<()> {
        let addr = self.arg_c(a, 1)?;
        let op = self.arg_c(a, 2)? & 0x7f;
        match op {
            0 | 9 => {
                if self.took_timeout() {
                    return self.fail(d, ETIMEDOUT, 64);
                }
                let val = self.arg_c(a, 3)? as u32;
                let cur = self.load(addr, 4)?;
                let cur = self.cval(&cur)? as u32;
                if cur != val {
                    return self.fail(d, EAGAIN, 64);
                }
                let tp = self.arg_c(a, 4)?;
                if tp == 0 {
                    self.block(Wait::Futex(addr))
                } else {
                    let s = self.load(tp, 8)?;
                    let n = self.load(tp + 8, 8)?;
                    let (s, n) = (self.cval(&s)?, self.cval(&n)?);
                    let mut t = s.saturating_mul(1_000_000_000).saturating_add(n);
                    if op == 0 {
                        t = t.saturating_add(self.s().clock);
                    } else {
                        t = t.saturating_sub(MONO0);
                    }
                    self.block(Wait::FutexT(addr, t))
                }
            }
            1 | 10 => {
                let mut n = self.arg_c(a, 3)? as i32 as i64;
                let st = self.s();
                let mut woke = 0;
                for t in st.threads.iter_mut() {
                    if n <= 0 {
                        break;
                    }
                    let hit = match t.wait {
                        Wait::Futex(x) | Wait::FutexT(x, _) => x == addr,
                        _ => false,
                    };
                    if hit {
                        t.wait = Wait::Run;
                        n -= 1;
                        woke += 1;
                    }
                }
                self.finish(d, Val::I(woke))
            }
            _ => self.fail(d, ENOSYS, 64),
        }
    }
    // ------------------------------------------------ fd readiness
    fn readiness(&self, fd: i32) -> u32 {
        let st = self.st.as_ref().unwrap();
        match st.fds.get(&fd).map(|f| &f.kind) {
            Some(FdKind::Event(n)) => (*n > 0) as u32 | 4,
            Some(FdKind::Listener { backlog, .. }) => !backlog.is_empty() as u32,
            Some(FdKind::Stream { rx, tx }) => {
                let mut r = if self.room(*tx) > 0 { 4 } else { 0 };
                if st.pipes[*rx].reset {
                    r |= 1 | 4 | 8 | 0x10 | 0x2000;
                }
                if !st.pipes[*rx].data.is_empty() || st.pipes[*rx].eof {
                    r |= 1;
                }
                if st.pipes[*rx].eof {
                    r |= 0x2000;
                }
                r
            }
            _ => 0,
        }
    }
    /// how many more bytes a pipe takes (setting 4; unlimited by default)
    fn room(&self, pipe: usize) -> usize {
        let st = self.st.as_ref().unwrap();
        let p = &st.pipes[pipe];
        if p.rclosed {
            return usize::MAX;
        }
        (st.cfg.get(&4).copied().unwrap_or(u64::MAX) as usize).saturating_sub(p.data.len())
    }
    fn find_writer(&self, pipe: usize) -> Option<i32> {
        let st = self.st.as_ref().unwrap();
        st.fds.iter().find_map(|(fd, f)| match f.kind {
            FdKind::Stream { tx, .. } if tx == pipe => Some(*fd),
            _ => None,
        })
    }
    /// something changed on fd: raise an edge in every epoll watching it
    fn edge(&mut self, fd: i32) {
        let r = self.readiness(fd);
        let st = self.st.as_mut().unwrap();
        for f in st.fds.values_mut() {
            if let FdKind::Epoll { reg, ready } = &mut f.kind {
                if let Some((ev, _)) = reg.get(&fd) {
                    let x = r & (*ev | 0x18);
                    if x != 0 {
                        *ready.entry(fd).or_default() |= x;
                    }
                }
            }
        }
        self.wake_epollers();
    }
    fn new_fd(&mut self, kind: FdKind) -> i32 {
        let st = self.s();
        let fd = st.next_fd;
        st.next_fd += 1;
        st.fds.insert(fd, Fd { kind, nonblock: true });
        fd
    }
    fn find_reader(&self, pipe: usize) -> Option<i32> {
        let st = self.st.as_ref().unwrap();
        st.fds.iter().find_map(|(fd, f)| match f.kind {
            FdKind::Stream { rx, .. } if rx == pipe => Some(*fd),
            _ => None,
        })
    }
    fn epoll_of(&self, fd: i32) -> i32 {
        match self.st.as_ref().unwrap().fds.get(&fd).map(|f| &f.kind) {
            Some(FdKind::EpollDup(o)) => *o,
            _ => fd,
        }
    }
    fn close_fd(&mut self, fd: i32) {
        if let Some(FdKind::Epoll { .. }) = self.s().fds.get(&fd).map(|f| &f.kind) {
            // duplicates keep the object alive
            let st = self.s();
            let dup: Vec<i32> = st.fds.iter().filter(|(_, f)| matches!(f.kind, FdKind::EpollDup(o) if o == fd)).map(|(k, _)| *k).collect();
            if let Some(first) = dup.first().copied() {
                let f = st.fds.remove(&fd).unwrap();
                st.fds.insert(first, f);
                for d in &dup[1..] {
                    st.fds.get_mut(d).unwrap().kind = FdKind::EpollDup(first);
                }
                return;
            }
        }
        let f = self.s().fds.remove(&fd);
        if let Some(Fd { kind: FdKind::Stream { rx, tx }, .. }) = f {
            let st = self.s();
            st.pipes[tx].eof = true;
            st.pipes[rx].rclosed = true;
            if !st.pipes[rx].data.is_empty() {
                // unread data is lost: TCP tells the peer so
                st.pipes[rx].data.clear();
                st.pipes[rx].refused = true;
                st.pipes[tx].reset = true;
            }
            if let Some(p) = self.find_reader(tx) {
                self.edge(p);
            }
        }
        if let Some(Fd { kind: FdKind::Listener { backlog, .. }, .. }) = &f {
            // a peer that was never accepted sees its connection reset
            for b in backlog.clone() {
                if let Some(Fd { kind: FdKind::Stream { rx, tx }, .. }) = self.s().fds.remove(&b) {
                    let st = self.s();
                    st.pipes[tx].eof = true;
                    st.pipes[rx].rclosed = true;
                }
            }
        }
        for f in self.s().fds.values_mut() {
            if let FdKind::Epoll { reg, ready } = &mut f.kind {
                reg.remove(&fd);
                ready.remove(&fd);
            }
        }
    }
    fn do_recv(&mut self, fd: i32, buf: u64, n: usize, d: Option<u32>) -> R<()> {
        let st = self.s();
        match st.fds.get_mut(&fd).map(|f| &mut f.kind) {
            Some(FdKind::File { data, pos }) => {
                let m = n.min(data.len() - *pos);
                let b = data[*pos..*pos + m].to_vec();
                *pos += m;
                self.put_conc(buf, &b)?;
                self.finish(d, Val::I(m as u64))
            }
            Some(FdKind::Event(c)) => {
                if *c == 0 {
                    return self.fail(d, EAGAIN, 64);
                }
                let v = *c;
                *c = 0;
                self.store(buf, &Val::I(v), 8)?;
                self.finish(d, Val::I(8))
            }
            Some(FdKind::Stream { rx, .. }) => {
                let rx = *rx;
                let full = self.room(rx) == 0;
                let p = &mut self.s().pipes[rx];
                if p.data.is_empty() {
                    if p.reset {
                        p.reset = false;
                        p.eof = true;
                        return self.fail(d, ECONNRESET, 64);
                    }
                    if p.eof {
                        return self.finish(d, Val::I(0));
                    }
                    return self.fail(d, EAGAIN, 64);
                }
                let m = n.min(p.data.len());
                let b: Vec<E> = p.data.drain(..m).collect();
                self.put_bytes(buf, &b)?;
                if let (true, Some(w)) = (full, self.find_writer(rx)) {
                    self.edge(w);
                }
                self.finish(d, Val::I(m as u64))
            }
            _ => self.fail(d, 9, 64),
        }
    }
    fn do_send(&mut self, fd: i32, b: Vec<E>, d: Option<u32>) -> R<()> {
        let st = self.s();
        match st.fds.get_mut(&fd).map(|f| &mut f.kind) {
            Some(FdKind::Event(c)) => {
                *c += 1;
                let n = b.len() as u64;
                self.edge(fd);
                self.finish(d, Val::I(n))
            }
            Some(FdKind::Stream { tx, .. }) => {
                let tx = *tx;
                if st.pipes[tx].refused {
                    return self.fail(d, EPIPE, 64);
                }
                if st.pipes[tx].rclosed {
                    // the first write after the peer has closed goes out and is answered with a reset
                    st.pipes[tx].refused = true;
                    self.edge(fd);
                    return self.finish(d, Val::I(b.len() as u64));
                }
                let n = b.len().min(self.room(tx));
                if n == 0 && !b.is_empty() {
                    return self.fail(d, EAGAIN, 64);
                }
                self.s().pipes[tx].data.extend(b.into_iter().take(n));
                let n = n as u64;
                if let Some(p) = self.find_reader(tx) {
                    self.edge(p);
                }
                self.finish(d, Val::I(n))
            }
            _ if fd <= 2 => {
                let n = b.len() as u64;
                if self.o.verbose {
                    let s: String = b.iter().map(|e| cx().is_const(*e).map_or('?', |c| c as u8 as char)).collect();
                    eprint!("{s}");
                }
                self.finish(d, Val::I(n))
            }
            _ => self.fail(d, 9, 64),
        }
    }
    fn bump_clock(&mut self) -> u64 {
        let st = self.s();
        st.clock += 10_000;
        st.clock
    }

    pub fn external(&mut self, ext: u32, fid: u32, a: &[Val], aw: &[u32], d: Option<u32>, rw: u32) -> R<()> {
        let x = X::of(ext);
        let c = cx();
        match x {
            X::Memcpy | X::Memmove => {
                let n = self.arg_c(a, 2)?;
                let (p, q) = (self.arg_c(a, 0)?, self.arg_c(a, 1)?);
                self.memcpy(p, q, n as usize)?;
                self.finish(None, Val::I(0))
            }
            X::Memset => {
                let n = self.arg_c(a, 2)? as usize;
                let p = self.arg_c(a, 0)?;
                match &a[1] {
                    Val::I(b) => {
                        if n > 0 {
                            let off = (p & ((1 << OSH) - 1)) as usize;
                            match self.obj_mut(p) {
                                Some(o) if off + n <= o.d.len() && !o.ro => {
                                    o.d[off..off + n].fill(*b as u8);
                                    if let Some(s) = &mut o.s {
                                        s[off..off + n].fill(0);
                                    }
                                }
                                _ => return self.fault("invalid write", p),
                            }
                        }
                    }
                    v => {
                        let e = v.e(8);
                        self.put_bytes(p, &vec![e; n])?;
                    }
                }
                self.finish(None, Val::I(0))
            }
            X::Assume | X::Prefetch => self.finish(None, Val::I(0)),
            X::IsConst => self.finish(d, Val::I(0)),
            X::Expect => {
                let v = a[0].clone();
                self.finish(d, v)
            }
            X::ObjSize => self.finish(d, Val::I(!0)),
            X::USubSat | X::UAddSat | X::UMax | X::UMin | X::SMax | X::SMin | X::SSubSat | X::SAddSat => {
                if aw[0] != rw || rw > 128 {
                    return inc("vector intrinsic");
                }
                let name = self.m.fns[fid as usize].name;
                if name.contains(".v") {
                    // element-wise over a packed vector
                    let ew: u32 = name.rsplit('i').next().unwrap().parse().unwrap_or(8);
                    let (p, q) = self.scalar2(a, rw);
                    let mut out: Option<E> = None;
                    for i in 0..rw / ew {
                        let u = c.extract(p, (i + 1) * ew - 1, i * ew);
                        let v = c.extract(q, (i + 1) * ew - 1, i * ew);
                        let r = minmax(x, u, v, ew);
                        out = Some(match out {
                            None => r,
                            Some(o) => c.concat(r, o),
                        });
                    }
                    return self.finish(d, Val::of(out.unwrap()));
                }
                let (p, q) = self.scalar2(a, rw);
                let r = minmax(x, p, q, rw);
                self.finish(d, Val::of(r))
            }
            X::RedOr | X::RedAnd | X::RedAdd => {
                let name = self.m.fns[fid as usize].name;
                let ew: u32 = name.rsplit('i').next().unwrap().parse().unwrap_or(8);
                let p = a[0].e(aw[0]);
                let mut r: Option<E> = None;
                for i in 0..aw[0] / ew {
                    let u = c.extract(p, (i + 1) * ew - 1, i * ew);
                    r = Some(match (r, x) {
                        (None, _) => u,
                        (Some(o), X::RedOr) => c.or(o, u),
                        (Some(o), X::RedAnd) => c.and(o, u),
                        (Some(o), _) => c.add(o, u),
                    });
                }
                self.finish(d, Val::of(r.unwrap()))
            }
            X::UAddO | X::USubO | X::UMulO | X::SAddO | X::SSubO | X::SMulO => {
                let w = aw[0];
                if let (Val::I(p), Val::I(q)) = (&a[0], &a[1]) {
                    let (p, q) = (*p as i128, *q as i128);
                    let (p, q) = if matches!(x, X::SAddO | X::SSubO | X::SMulO) {
                        (sx(p as u128, w), sx(q as u128, w))
                    } else {
                        (p, q)
                    };
                    let (r, of) = if x == X::UMulO {
                        let r = (p as u128) * (q as u128);
                        (r, r > mask(w))
                    } else {
                        let r = match x {
                            X::UAddO | X::SAddO => p + q,
                            X::USubO | X::SSubO => p - q,
                            _ => p * q,
                        };
                        let of = match x {
                            X::UAddO | X::USubO => r < 0 || r as u128 > mask(w),
                            _ => r != sx(r as u128 & mask(w), w),
                        };
                        (r as u128, of)
                    };
                    return self.finish(
                        d,
                        Val::A(Rc::new(vec![Val::I(r as u64 & m64(w)), Val::I(of as u64)])),
                    );
                }
                let (p, q) = self.scalar2(a, w);
                let (r, of) = match x {
                    X::UAddO => {
                        let r = c.add(p, q);
                        (r, c.ult(r, p))
                    }
                    X::USubO => {
                        let r = c.sub(p, q);
                        (r, c.ult(p, q))
                    }
                    X::UMulO => {
                        let r = c.mul(p, q);
                        let (_, h1) = c.range(p);
                        let (_, h2) = c.range(q);
                        if h1.checked_mul(h2).map_or(false, |h| h <= mask(w)) {
                            (r, c.bool(false))
                        } else if let Some(kq) = c.is_const(q).or(c.is_const(p)) {
                            let v = if c.is_const(q).is_some() { p } else { q };
                            if kq == 0 {
                                (r, c.bool(false))
                            } else {
                                let lim = k(w, mask(w) / kq);
                                (r, c.ult(lim, v))
                            }
                        } else if 2 * w <= 128 {
                            let (p2, q2) = (c.zext(p, 2 * w), c.zext(q, 2 * w));
                            let m2 = c.mul(p2, q2);
                            let hi = c.extract(m2, 2 * w - 1, w);
                            let z = k(w, 0);
                            (r, c.ne(hi, z))
                        } else {
                            return inc("wide multiplication overflow");
                        }
                    }
                    X::SAddO | X::SSubO => {
                        let r = if x == X::SAddO { c.add(p, q) } else { c.sub(p, q) };
                        let (p2, q2, r2) = (c.sext(p, w + 1), c.sext(q, w + 1), c.sext(r, w + 1));
                        let t = if x == X::SAddO { c.add(p2, q2) } else { c.sub(p2, q2) };
                        (r, c.ne(t, r2))
                    }
                    _ => {
                        if 2 * w > 128 {
                            return inc("wide multiplication overflow");
                        }
                        let r = c.mul(p, q);
                        let (p2, q2, r2) = (c.sext(p, 2 * w), c.sext(q, 2 * w), c.sext(r, 2 * w));
                        let t = c.mul(p2, q2);
                        (r, c.ne(t, r2))
                    }
                };
                self.finish(d, Val::A(Rc::new(vec![Val::of(r), Val::of(of)])))
            }
            X::BSwap => {
                let w = aw[0];
                let e = a[0].e(w);
                let n = w / 8;
                let mut r: Option<E> = None;
                for i in 0..n {
                    // byte i of the source becomes the most significant so far
                    let b = c.extract(e, 8 * i + 7, 8 * i);
                    r = Some(match r {
                        None => b,
                        Some(o) => c.concat(o, b),
                    });
                }
                self.finish(d, Val::of(r.unwrap()))
            }
            X::BitRev => {
                let w = aw[0];
                let e = a[0].e(w);
                let mut r: Option<E> = None;
                for i in 0..w {
                    let b = c.extract(e, i, i);
                    r = Some(match r {
                        None => b,
                        Some(o) => c.concat(o, b),
                    });
                }
                self.finish(d, Val::of(r.unwrap()))
            }
            X::Ctlz | X::Cttz | X::Ctpop => {
                let w = aw[0];
                if let Some(v) = a[0].conc() {
                    let v = v & mask(w);
                    let r = match x {
                        X::Ctlz => {
                            if v == 0 {
                                w
                            } else {
                                v.leading_zeros() - (128 - w)
                            }
                        }
                        X::Cttz => {
                            if v == 0 {
                                w
                            } else {
                                v.trailing_zeros()
                            }
                        }
                        _ => v.count_ones(),
                    };
                    return self.finish(d, Val::wide(w, r as u128));
                }
                let e = a[0].e(w);
                let r = match x {
                    X::Ctpop => {
                        let mut r = k(w, 0);
                        for i in 0..w {
                            let b = c.extract(e, i, i);
                            let b = c.zext(b, w);
                            r = c.add(r, b);
                        }
                        r
                    }
                    _ => {
                        let mut r = k(w, w as u128);
                        for j in 0..w {
                            // last assignment wins: iterate from the least significant priority
                            let i = if x == X::Ctlz { j } else { w - 1 - j };
                            let b = c.extract(e, i, i);
                            let kv = k(w, if x == X::Ctlz { (w - 1 - i) as u128 } else { i as u128 });
                            r = c.ite(b, kv, r);
                        }
                        r
                    }
                };
                self.finish(d, Val::of(r))
            }
            X::Abs => {
                let w = aw[0];
                let e = a[0].e(w);
                let z = k(w, 0);
                let n = c.sub(z, e);
                let s = c.slt(e, z);
                let r = c.ite(s, n, e);
                self.finish(d, Val::of(r))
            }
            X::Fshl | X::Fshr => {
                let w = aw[0];
                let s = (self.arg_c(a, 2)? as u32) % w;
                let (p, q) = self.scalar2(a, w);
                let r = if x == X::Fshl {
                    if s == 0 {
                        p
                    } else {
                        let h = c.extract(p, w - s - 1, 0);
                        let l = c.extract(q, w - 1, w - s);
                        c.concat(h, l)
                    }
                } else if s == 0 {
                    q
                } else {
                    let h = c.extract(p, s - 1, 0);
                    let l = c.extract(q, w - 1, s);
                    c.concat(h, l)
                };
                self.finish(d, Val::of(r))
            }
            X::UCmp | X::SCmp => {
                let (p, q) = self.scalar2(a, aw[0]);
                let (lt, gt) = if x == X::UCmp { (c.ult(p, q), c.ult(q, p)) } else { (c.slt(p, q), c.slt(q, p)) };
                let (m1, z, o) = (k(rw, mask(rw)), k(rw, 0), k(rw, 1));
                let t = c.ite(gt, o, z);
                let r = c.ite(lt, m1, t);
                self.finish(d, Val::of(r))
            }
            X::Trap | X::Abort | X::PanicNounwind | X::AllocErr => {
                let u = self.backtrace_user();
                Err(Stop::End(Outcome::Violation(format!("abort in {u}"), format!("{x:?}"))))
            }
            X::PanicFmt => {
                let l = self.arg_c(a, 2)?;
                let fp = self.load(l, 8)?;
                let fl = self.load(l + 8, 8)?;
                let ln = self.load(l + 16, 4)?;
                let (fp, fl, ln) = (self.cval(&fp)?, self.cval(&fl)?, self.cval(&ln)?);
                let f = self.rstr(fp, fl)?.trim_end_matches(|c| c == char::from(0)).to_string();
                self.panic_here(format!("{}:{}", f, ln))
            }
            X::Pause => {
                self.finish(None, Val::I(0))?;
                self.yield_now()
            }
            X::SchedYield => {
                self.finish(d, Val::I(0))?;
                self.yield_now()
            }
            X::FpToUiSat | X::FpToSiSat => match a[0].conc() {
                Some(v) => {
                    let f = if aw[0] == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                    let r = if x == X::FpToUiSat {
                        if f.is_nan() || f <= 0.0 {
                            0
                        } else if f >= mask(rw) as f64 {
                            mask(rw)
                        } else {
                            f as u128
                        }
                    } else {
                        let mx = (mask(rw) >> 1) as i128;
                        let v = if f.is_nan() { 0 } else { f as i128 };
                        v.clamp(-mx - 1, mx) as u128 & mask(rw)
                    };
                    self.finish(d, Val::wide(rw, r))
                }
                None => inc("symbolic floating-point value"),
            },
            X::Pow | X::Fabs | X::Floor | X::Ceil | X::TruncF | X::Round | X::CopySign => {
                let g = |v: &Val| -> Option<f64> {
                    let v = v.conc()?;
                    Some(if rw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) })
                };
                let Some(p) = g(&a[0]) else { return inc("symbolic floating-point value") };
                let r = match x {
                    X::Pow => match g(&a[1]) {
                        Some(q) => p.powf(q),
                        None => return inc("symbolic floating-point value"),
                    },
                    X::Fabs => p.abs(),
                    X::Floor => p.floor(),
                    X::Ceil => p.ceil(),
                    X::TruncF => p.trunc(),
                    X::Round => p.round(),
                    _ => match g(&a[1]) {
                        Some(q) => p.copysign(q),
                        None => return inc("symbolic floating-point value"),
                    },
                };
                let b = if rw == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() };
                self.finish(d, Val::I(b))
            }
            X::Tls => {
                let g = self.arg_c(a, 0)?;
                let cur = self.s().cur;
                let p = match self.s().threads[cur].tls.get(&(g >> OSH)) {
                    Some(p) => *p,
                    None => {
                        let o = self.m.globals[(g >> OSH) as usize - 1].init.clone().unwrap_or_default();
                        let id = self.s().mem.add(Obj { d: o, s: None, ro: false });
                        self.s().threads[cur].tls.insert(g >> OSH, id << OSH);
                        id << OSH
                    }
                };
                self.finish(d, Val::I(p + (g & ((1 << OSH) - 1))))
            }
            X::Bcmp | X::Memcmp => {
                let n = self.arg_c(a, 2)? as usize;
                let (p, q) = (self.arg_c(a, 0)?, self.arg_c(a, 1)?);
                if let (Some(u), Some(v)) = (self.conc_bytes(p, n)?, self.conc_bytes(q, n)?) {
                    let r = match u.cmp(&v) {
                        std::cmp::Ordering::Less => m64(rw),
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return self.finish(d, Val::I(r));
                }
                let (u, v) = (self.bytes(p, n)?, self.bytes(q, n)?);
                let r = if x == X::Bcmp {
                    let mut eq = c.bool(true);
                    for i in 0..n {
                        let t = c.eq(u[i], v[i]);
                        eq = c.and(eq, t);
                        if c.is_const(eq) == Some(0) {
                            break;
                        }
                    }
                    let ne = c.not(eq);
                    c.zext(ne, rw)
                } else {
                    let (m1, o) = (k(rw, mask(rw)), k(rw, 1));
                    let mut r = k(rw, 0);
                    for i in (0..n).rev() {
                        let lt = c.ult(u[i], v[i]);
                        let eq = c.eq(u[i], v[i]);
                        let t = c.ite(lt, m1, o);
                        r = c.ite(eq, r, t);
                    }
                    r
                };
                self.finish(d, Val::of(r))
            }
            X::Memchr | X::Memrchr => {
                let n = self.arg_c(a, 2)? as usize;
                let p = self.arg_c(a, 0)?;
                let ch = a[1].e(32);
                let ch = c.extract(ch, 7, 0);
                let b = self.bytes(p, n)?;
                let idx: Vec<usize> = if x == X::Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let e = c.eq(b[i], ch);
                    if self.decide(e)? {
                        return self.finish(d, Val::I(p + i as u64));
                    }
                }
                self.finish(d, Val::I(0))
            }
            X::Strlen => {
                let p = self.arg_c(a, 0)?;
                let s = self.cstr(p)?;
                self.finish(d, Val::I(s.len() as u64))
            }
            X::Malloc => {
                let n = self.arg_c(a, 0)?;
                let p = self.malloc(n)?;
                self.finish(d, Val::I(p))
            }
            X::Calloc => {
                let n = self.arg_c(a, 0)?;
                let m = self.arg_c(a, 1)?;
                let p = self.malloc(n.saturating_mul(m))?;
                self.finish(d, Val::I(p))
            }
            X::PosixMemalign => {
                let pp = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 2)?;
                let p = self.malloc(n)?;
                self.store(pp, &Val::I(p), 8)?;
                self.finish(d, Val::I(0))
            }
            X::AlignedAlloc => {
                let n = self.arg_c(a, 1)?;
                let p = self.malloc(n)?;
                self.finish(d, Val::I(p))
            }
            X::Realloc => {
                let n = self.arg_c(a, 1)?;
                let p = self.arg_c(a, 0)?;
                let q = self.malloc(n)?;
                if p != 0 {
                    let old = match self.obj(p) {
                        Some(o) => o.d.len(),
                        None => return self.fault("invalid realloc", p),
                    };
                    self.memcpy(q, p, old.min(n as usize))?;
                    self.free(p)?;
                }
                self.finish(d, Val::I(q))
            }
            X::Free => {
                let p = self.arg_c(a, 0)?;
                self.free(p)?;
                self.finish(d, Val::I(0))
            }
            X::Errno => {
                let p = self.errno_ptr()?;
                self.finish(d, Val::I(p))
            }
            X::Write | X::Send => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)? as usize;
                let b = self.bytes(p, n)?;
                self.do_send(fd, b, d)
            }
            X::Writev => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)?;
                let mut b = vec![];
                for i in 0..n {
                    let q = self.load(p + 16 * i, 8)?;
                    let l = self.load(p + 16 * i + 8, 8)?;
                    let (q, l) = (self.cval(&q)?, self.cval(&l)?);
                    b.extend(self.bytes(q, l as usize)?);
                }
                self.do_send(fd, b, d)
            }
            X::Read | X::Recv => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)? as usize;
                self.do_recv(fd, p, n, d)
            }
            X::Close => {
                let fd = self.arg_c(a, 0)? as i32;
                self.close_fd(fd);
                self.finish(d, Val::I(0))
            }
            X::Open => {
                let p = self.arg_c(a, 0)?;
                let s = self.cstr(p)?;
                match self.files.get(&s).cloned() {
                    Some(f) => {
                        let fd = self.new_fd(FdKind::File { data: f, pos: 0 });
                        self.finish(d, Val::I(fd as u64))
                    }
                    None => self.fail(d, ENOENT, 32),
                }
            }
            X::Fstat => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                match self.s().fds.get(&fd).map(|f| f.kind.clone()) {
                    Some(FdKind::File { data, .. }) => {
                        self.put_conc(p, &[0; 144])?;
                        self.store(p + 24, &Val::I(0o100644), 4)?;
                        self.store(p + 48, &Val::I(data.len() as u64), 8)?;
                        self.finish(d, Val::I(0))
                    }
                    _ => self.fail(d, 9, 32),
                }
            }
            X::Lseek => {
                let fd = self.arg_c(a, 0)? as i32;
                let off = self.arg_c(a, 1)? as i64;
                let wh = self.arg_c(a, 2)?;
                match self.s().fds.get_mut(&fd).map(|f| &mut f.kind) {
                    Some(FdKind::File { data, pos }) => {
                        let b = match wh {
                            0 => 0,
                            1 => *pos as i64,
                            _ => data.len() as i64,
                        };
                        *pos = (b + off).clamp(0, data.len() as i64) as usize;
                        let v = *pos as u64;
                        self.finish(d, Val::I(v))
                    }
                    _ => self.fail(d, 9, 64),
                }
            }
            X::Statx | X::Stat | X::Readlink | X::Dup | X::Poll => self.fail(d, ENOSYS, rw),
            X::Getcwd | X::Realpath | X::Dlsym => {
                self.set_errno(ENOSYS)?;
                self.finish(d, Val::I(0))
            }
            X::Getenv => {
                // the machine is in a zone other than UTC, nothing else is set
                let name = self.arg_c(a, 0)?;
                if self.cstr(name)? != "TZ" {
                    return self.finish(d, Val::I(0));
                }
                let p = self.malloc(16)?;
                for (i, c) in b"XST-5:30\0".iter().enumerate() {
                    self.store(p + i as u64, &Val::I(*c as u64), 1)?;
                }
                self.finish(d, Val::I(p))
            }
            X::Mmap => {
                let n = self.arg_c(a, 1)?;
                let p = self.malloc(n)?;
                self.finish(d, Val::I(p))
            }
            X::Munmap | X::Mprotect | X::Sigaction | X::Sigaltstack | X::Signal | X::PSetName | X::PAttrInit
            | X::PAttrDestroy | X::PAttrStack | X::PDetach | X::PKeyDelete | X::PGetAttr | X::Setsockopt => {
                self.finish(d, Val::I(0))
            }
            X::PGuard => {
                let p = self.arg_c(a, 1)?;
                self.store(p, &Val::I(4096), 8)?;
                self.finish(d, Val::I(0))
            }
            X::PGetStack => {
                let p = self.arg_c(a, 1)?;
                let q = self.arg_c(a, 2)?;
                self.store(p, &Val::I(1 << 40), 8)?;
                self.store(q, &Val::I(8 << 20), 8)?;
                self.finish(d, Val::I(0))
            }
            X::Sigrtmax => self.finish(d, Val::I(64)),
            X::ClockGettime => {
                let id = self.arg_c(a, 0)?;
                let p = self.arg_c(a, 1)?;
                let t = self.bump_clock();
                if id == 0 || id == 5 {
                    match self.s().wall {
                        Some((e, n)) => {
                            self.store(p, &Val::of(e), 8)?;
                            self.store(p + 8, &Val::of(n), 8)?;
                        }
                        None => {
                            self.store(p, &Val::I(1_700_000_000 + t / 1_000_000_000), 8)?;
                            self.store(p + 8, &Val::I(t % 1_000_000_000), 8)?;
                        }
                    }
                } else {
                    let t = t + MONO0;
                    self.store(p, &Val::I(t / 1_000_000_000), 8)?;
                    self.store(p + 8, &Val::I(t % 1_000_000_000), 8)?;
                }
                self.finish(d, Val::I(0))
            }
            X::Nanosleep | X::Nanosleep2 => {
                if self.took_timeout() {
                    return self.finish(d, Val::I(0));
                }
                let i = if x == X::Nanosleep { 2 } else { 0 };
                let p = self.arg_c(a, i)?;
                let s = self.load(p, 8)?;
                let n = self.load(p + 8, 8)?;
                let t = self.cval(&s)? * 1_000_000_000 + self.cval(&n)?;
                let abs = x == X::Nanosleep && self.arg_c(a, 1)? & 1 != 0;
                let t = if abs { t.saturating_sub(MONO0) } else { self.s().clock + t };
                self.block(Wait::Sleep(t))
            }
            X::Affinity => self.fail(d, ENOSYS, rw),
            X::Sysconf => {
                let n = self.arg_c(a, 0)?;
                let v = match n {
                    30 => 4096,
                    83 | 84 => 2,
                    _ => 1,
                };
                self.finish(d, Val::I(v))
            }
            X::Getauxval => self.finish(d, Val::I(0)),
            X::Getrandom => {
                let p = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 1)?;
                self.put_conc(p, &vec![7; n as usize])?;
                self.finish(d, Val::I(n))
            }
            X::Gettid => {
                let t = self.s().cur as u64 + 100;
                self.finish(d, Val::I(t))
            }
            X::Syscall => {
                let nr = self.arg_c(a, 0)?;
                match nr {
                    202 => self.futex(a, d),
                    186 => {
                        let t = self.s().cur as u64 + 100;
                        self.finish(d, Val::I(t))
                    }
                    318 => {
                        let p = self.arg_c(a, 1)?;
                        let n = self.arg_c(a, 2)?;
                        self.put_conc(p, &vec![7; n as usize])?;
                        self.finish(d, Val::I(n))
                    }
                    _ => self.fail(d, ENOSYS, 64),
                }
            }
            X::PSelf => {
                let t = self.s().cur as u64 + 1;
                self.finish(d, Val::I(t))
            }
            X::PCreate => {
                let p = self.arg_c(a, 0)?;
                let f = self.arg_c(a, 2)?;
                let arg = self.arg_c(a, 3)?;
                let t = self.spawn(f, arg)?;
                self.store(p, &Val::I(t as u64 + 1), 8)?;
                self.finish(d, Val::I(0))
            }
            X::PJoin => {
                let t = self.arg_c(a, 0)? as u32 - 1;
                if self.s().threads[t as usize].wait == Wait::Done {
                    return self.finish(d, Val::I(0));
                }
                self.block(Wait::Join(t))
            }
            X::PKeyCreate => {
                let p = self.arg_c(a, 0)?;
                let c = self.s().cfg.entry(1000).or_insert(1);
                *c += 1;
                let kx = *c;
                self.store(p, &Val::I(kx), 4)?;
                self.finish(d, Val::I(0))
            }
            X::PSetSpec => {
                let kx = self.arg_c(a, 0)?;
                let v = self.arg_c(a, 1)?;
                let st = self.s();
                let c = st.cur;
                st.threads[c].keys.insert(kx, v);
                self.finish(d, Val::I(0))
            }
            X::PGetSpec => {
                let kx = self.arg_c(a, 0)?;
                let st = self.s();
                let v = st.threads[st.cur].keys.get(&kx).copied().unwrap_or(0);
                self.finish(d, Val::I(v))
            }
            X::Atexit => {
                let f = self.arg_c(a, 0)?;
                let o = self.arg_c(a, 1)?;
                let st = self.s();
                let c = st.cur;
                st.threads[c].dtors.push((f, o));
                self.finish(d, Val::I(0))
            }
            // ------------------------------------------------ sockets
            X::Socket => {
                let fd = self.new_fd(FdKind::Socket);
                self.finish(d, Val::I(fd as u64))
            }
            X::Strerror => {
                let p = self.arg_c(a, 1)?;
                self.put_conc(p, b"error\0")?;
                self.finish(d, Val::I(0))
            }
            X::Socketpair => {
                let p = self.arg_c(a, 3)?;
                let st = self.s();
                let (x1, x2) = (st.pipes.len(), st.pipes.len() + 1);
                st.pipes.push(Pipe::default());
                st.pipes.push(Pipe::default());
                let f1 = self.new_fd(FdKind::Stream { rx: x1, tx: x2 });
                let f2 = self.new_fd(FdKind::Stream { rx: x2, tx: x1 });
                self.store(p, &Val::I(f1 as u64), 4)?;
                self.store(p + 4, &Val::I(f2 as u64), 4)?;
                self.finish(d, Val::I(0))
            }
            X::Bind => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let port = self.load(p + 2, 2)?;
                let port = (self.cval(&port)? as u16).swap_bytes();
                let busy = self.s().fds.values().any(|f| matches!(f.kind, FdKind::Listener { port: q, .. } if q == port));
                if busy {
                    return self.fail(d, 98, 32);
                }
                if let Some(f) = self.s().fds.get_mut(&fd) {
                    f.kind = FdKind::Listener { port, backlog: vec![] };
                }
                self.finish(d, Val::I(0))
            }
            X::Listen | X::Shutdown => {
                if x == X::Shutdown {
                    let fd = self.arg_c(a, 0)? as i32;
                    let how = self.arg_c(a, 1)?;
                    if let Some(FdKind::Stream { tx, .. }) = self.s().fds.get(&fd).map(|f| f.kind.clone()) {
                        if how != 0 {
                            self.s().pipes[tx].eof = true;
                            if let Some(p) = self.find_reader(tx) {
                                self.edge(p);
                            }
                        }
                    }
                }
                self.finish(d, Val::I(0))
            }
            X::Accept4 => {
                let fd = self.arg_c(a, 0)? as i32;
                let sa = self.arg_c(a, 1)?;
                let sl = self.arg_c(a, 2)?;
                let got = match self.s().fds.get_mut(&fd).map(|f| &mut f.kind) {
                    Some(FdKind::Listener { backlog, .. }) if !backlog.is_empty() => Some(backlog.remove(0)),
                    _ => None,
                };
                match got {
                    Some(n) => {
                        if sa != 0 {
                            self.put_sockaddr(sa, 40000 + n as u16)?;
                            self.store(sl, &Val::I(16), 4)?;
                        }
                        self.finish(d, Val::I(n as u64))
                    }
                    None => self.fail(d, EAGAIN, 32),
                }
            }
            X::Getsockname | X::Getpeername => {
                let fd = self.arg_c(a, 0)? as i32;
                let sa = self.arg_c(a, 1)?;
                let sl = self.arg_c(a, 2)?;
                let port = match self.s().fds.get(&fd).map(|f| f.kind.clone()) {
                    Some(FdKind::Listener { port, .. }) => port,
                    _ => 40000 + fd as u16,
                };
                self.put_sockaddr(sa, port)?;
                self.store(sl, &Val::I(16), 4)?;
                self.finish(d, Val::I(0))
            }
            X::Getsockopt => {
                let p = self.arg_c(a, 3)?;
                self.store(p, &Val::I(0), 4)?;
                self.finish(d, Val::I(0))
            }
            X::Ioctl | X::Fcntl => {
                let cmd = self.arg_c(a, 1)?;
                if x == X::Fcntl && (cmd == 1030 || cmd == 0) {
                    // F_DUPFD_CLOEXEC
                    let fd = self.arg_c(a, 0)? as i32;
                    match self.s().fds.get(&fd).map(|f| f.kind.clone()) {
                        Some(mut kx) => {
                            if let FdKind::Epoll { .. } = kx {
                                kx = FdKind::EpollDup(fd);
                            }
                            let n = self.new_fd(kx);
                            return self.finish(d, Val::I(n as u64));
                        }
                        None => return self.fail(d, 9, 32),
                    }
                }
                self.finish(d, Val::I(0))
            }
            X::EpollCreate => {
                let fd = self.new_fd(FdKind::Epoll { reg: BTreeMap::new(), ready: BTreeMap::new() });
                self.finish(d, Val::I(fd as u64))
            }
            X::Eventfd => {
                let n = self.arg_c(a, 0)?;
                let fd = self.new_fd(FdKind::Event(n));
                self.finish(d, Val::I(fd as u64))
            }
            X::EpollCtl => {
                let ep = self.arg_c(a, 0)? as i32;
                let ep = self.epoll_of(ep);
                let op = self.arg_c(a, 1)?;
                let fd = self.arg_c(a, 2)? as i32;
                let p = self.arg_c(a, 3)?;
                let (mut ev, mut data) = (0u64, 0u64);
                if op != 2 {
                    let v = self.load(p, 4)?;
                    ev = self.cval(&v)?;
                    let v = self.load(p + 4, 8)?;
                    data = self.cval(&v)?;
                }
                let r = self.readiness(fd);
                if let Some(FdKind::Epoll { reg, ready }) = self.s().fds.get_mut(&ep).map(|f| &mut f.kind) {
                    if op == 2 {
                        reg.remove(&fd);
                        ready.remove(&fd);
                    } else {
                        reg.insert(fd, (ev as u32, data));
                        let y = r & (ev as u32 | 0x18);
                        if y != 0 {
                            *ready.entry(fd).or_default() |= y;
                        }
                    }
                }
                self.finish(d, Val::I(0))
            }
            X::EpollWait => {
                let ep = self.arg_c(a, 0)? as i32;
                let ep = self.epoll_of(ep);
                let p = self.arg_c(a, 1)?;
                let max = self.arg_c(a, 2)? as usize;
                let tmo = self.arg_c(a, 3)? as i32;
                let mut out: Vec<(u32, u64)> = vec![];
                let to = self.took_timeout();
                if let Some(FdKind::Epoll { reg, ready }) = self.s().fds.get_mut(&ep).map(|f| &mut f.kind) {
                    let ks: Vec<i32> = ready.keys().copied().take(max).collect();
                    for fd in ks {
                        let r = ready.remove(&fd).unwrap();
                        if let Some((_, data)) = reg.get(&fd) {
                            out.push((r, *data));
                        }
                    }
                }
                if out.is_empty() && tmo != 0 && !to {
                    let dl = if tmo < 0 { u64::MAX } else { self.s().clock + tmo as u64 * 1_000_000 };
                    return self.block(Wait::Epoll(ep, dl));
                }
                for (i, (r, data)) in out.iter().enumerate() {
                    self.store(p + 12 * i as u64, &Val::I(*r as u64), 4)?;
                    self.store(p + 12 * i as u64 + 4, &Val::I(*data), 8)?;
                }
                self.finish(d, Val::I(out.len() as u64))
            }
            // ------------------------------------------------ harness interface
            X::VNetListening => {
                let port = self.arg_c(a, 0)? as u16;
                let l = self.s().fds.values().any(|f| matches!(f.kind, FdKind::Listener { port: q, .. } if q == port));
                self.finish(d, Val::I(l as u64))
            }
            X::VNetConnect => {
                let port = self.arg_c(a, 0)? as u16;
                let l = self.s().fds.iter().find_map(|(fd, f)| match f.kind {
                    FdKind::Listener { port: q, .. } if q == port => Some(*fd),
                    _ => None,
                });
                let Some(l) = l else { return self.finish(d, Val::I(m64(32))) };
                let st = self.s();
                let (x1, x2) = (st.pipes.len(), st.pipes.len() + 1);
                st.pipes.push(Pipe::default());
                st.pipes.push(Pipe::default());
                let srv = self.new_fd(FdKind::Stream { rx: x1, tx: x2 });
                let cli = self.new_fd(FdKind::Stream { rx: x2, tx: x1 });
                if let Some(FdKind::Listener { backlog, .. }) = self.s().fds.get_mut(&l).map(|f| &mut f.kind) {
                    backlog.push(srv);
                }
                self.edge(l);
                self.finish(d, Val::I(cli as u64))
            }
            X::VNetSend => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)? as usize;
                let b = self.bytes(p, n)?;
                self.do_send(fd, b, d)
            }
            X::VNetRecv => {
                let fd = self.arg_c(a, 0)? as i32;
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)? as usize;
                self.do_recv(fd, p, n, d)
            }
            X::VNetClose => {
                let fd = self.arg_c(a, 0)? as i32;
                self.close_fd(fd);
                self.finish(d, Val::I(0))
            }
            X::VSym => {
                let p = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 1)? as usize;
                let np = self.arg_c(a, 2)?;
                let nl = self.arg_c(a, 3)?;
                let name = self.rstr(np, nl)?;
                let first = self.s().nvars;
                let mut es = vec![];
                for _ in 0..n {
                    es.push(self.fresh()?);
                }
                self.put_bytes(p, &es)?;
                Rc::make_mut(&mut self.s().names).push((name, first, n as u32));
                self.finish(d, Val::I(0))
            }
            X::VChoice => {
                let n = self.arg_c(a, 0)?;
                if n <= 1 {
                    return self.finish(d, Val::I(0));
                }
                let v = match self.s().pending {
                    Some(v) => v,
                    None => {
                        let e = self.fresh()?;
                        let idx = c.n(e).a;
                        let lim = k(8, n as u128);
                        let cond = c.ult(e, lim);
                        self.add_pc(cond);
                        let st = self.s();
                        st.pending = Some(idx);
                        Rc::make_mut(&mut st.names).push(("choice".into(), idx, 1));
                        idx
                    }
                };
                let e = c.var(v);
                let r = self.concretize(e)?;
                self.s().pending = None;
                self.finish(d, Val::I(r as u64))
            }
            X::VConc => {
                let e = a[0].e(aw[0]);
                let v = self.concretize(e)?;
                self.finish(d, Val::I(v as u64))
            }
            X::VAssume => {
                let e = a[0].e(aw[0]);
                let z = k(aw[0], 0);
                let cnd = c.ne(e, z);
                self.assume(cnd)?;
                self.finish(d, Val::I(0))
            }
            X::VAssert => {
                let e = a[0].e(aw[0]);
                let z = k(aw[0], 0);
                let cnd = c.ne(e, z);
                let p = self.arg_c(a, 1)?;
                let n = self.arg_c(a, 2)?;
                self.rep.asserts += 1;
                match c.is_const(cnd) {
                    Some(0) => {
                        let key = self.rstr(p, n)?;
                        return Err(Stop::End(Outcome::Violation(key, "assertion is false on this path".into())));
                    }
                    Some(_) => {}
                    None => {
                        self.rep.asserts_sym += 1;
                        let nc = c.not(cnd);
                        self.sol.stats.assert_queries += 1;
                        if let Some(m) = self.feasible(nc, true)? {
                            let key = self.rstr(p, n)?;
                            self.record_violation(key, "solver counterexample".into(), &m);
                            // continue with the assertion assumed
                            self.assume(cnd)?;
                        } else {
                            self.know(cnd);
                        }
                    }
                }
                self.finish(d, Val::I(0))
            }
            X::VCatch => {
                let f = self.arg_c(a, 0)?;
                let arg = a[1].clone();
                self.s().top.ip += 1;
                self.push_frame(((f & !FN_BASE) >> 4) as u32, &[arg], d, 1)
            }
            X::VReach => {
                let p = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 1)?;
                let s = self.rstr(p, n)?;
                *self.rep.reach.entry(s).or_default() += 1;
                self.finish(d, Val::I(0))
            }
            X::VObserve => {
                let p = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 1)? as usize;
                let b = self.bytes(p, n)?;
                Rc::make_mut(&mut self.s().obs).push((b, true));
                self.finish(d, Val::I(0))
            }
            X::VConfig => {
                let kx = self.arg_c(a, 0)? as u32;
                let v = self.arg_c(a, 1)?;
                self.s().cfg.insert(kx, v);
                self.finish(d, Val::I(0))
            }
            X::VSteps => {
                let v = self.s().steps;
                self.finish(d, Val::I(v))
            }
            X::VPrint => {
                let p = self.arg_c(a, 0)?;
                let n = self.arg_c(a, 1)?;
                if self.o.verbose {
                    let b = self.bytes(p, n as usize)?;
                    let m = self.s().model.clone();
                    let s: String = b.iter().map(|e| c.eval(*e, &m) as u8 as char).collect();
                    eprintln!("[harness] {s}");
                }
                self.finish(d, Val::I(0))
            }
            X::VClock => {
                let e = a[0].e(64);
                let n = a[1].e(64);
                self.s().wall = Some((e, n));
                self.finish(d, Val::I(0))
            }
            X::VKnown => self.finish(d, Val::I(0)),
            X::VHash => self.hash_slot(a, d),
            X::VHashOn => {
                let v = self.s().cfg.get(&CFG_HASH).copied().unwrap_or(0);
                self.finish(d, Val::I((v != 0) as u64))
            }
            X::None => inc("unknown external"),
        }
    }
    /// Adversarial hash: the first time a key is seen its slot is a free choice,
    /// which makes the iteration order of small maps arbitrary.
    fn hash_slot(&mut self, a: &[Val], d: Option<u32>) -> R<()> {
        let mode = self.s().cfg.get(&CFG_HASH).copied().unwrap_or(0);
        if mode == 0 {
            return self.finish(d, Val::I(0));
        }
        let key = a[0].e(64);
        let memo = self.s().hash_memo.clone();
        let hit = memo.iter().find(|x| x.0 == key);
        if let Some((_, s)) = hit {
            let s = *s;
            return self.finish(d, Val::I(s));
        }
        // a symbolic key is any of those seen, or another one
        for (x, s) in memo.iter() {
            let c = cx().eq(*x, key);
            if self.decide(c)? {
                let s = *s;
                return self.finish(d, Val::I(s));
            }
        }
        if mode >= 1000 {
            // one choice: slots ascend or descend, so that every pair of keys is
            // iterated in both orders without exploring all permutations
            let dir = match self.s().hash_dir {
                Some(d) => d,
                None => {
                    let v = match self.s().pending {
                        Some(v) => v,
                        None => {
                            let e = self.fresh()?;
                            let idx = cx().n(e).a;
                            let cond = cx().ult(e, k(8, 2));
                            self.add_pc(cond);
                            let st = self.s();
                            st.pending = Some(idx);
                            Rc::make_mut(&mut st.names).push(("hash-order".into(), idx, 1));
                            idx
                        }
                    };
                    let e = cx().var(v);
                    let r = self.concretize(e)? as u64;
                    self.s().pending = None;
                    self.s().hash_dir = Some(r);
                    r
                }
            };
            let n = self.s().hash_memo.len() as u64;
            let pick = if dir == 0 { n % 64 } else { 63 - n % 64 };
            Rc::make_mut(&mut self.s().hash_memo).push((key, pick));
            return self.finish(d, Val::I(pick));
        }
        let used: Vec<u64> = self.s().hash_memo.iter().map(|x| x.1).collect();
        let free: Vec<u64> = (0..mode).filter(|s| !used.contains(s)).collect();
        let pick = if free.len() <= 1 {
            *free.first().unwrap_or(&0)
        } else {
            let v = match self.s().pending {
                Some(v) => v,
                None => {
                    let e = self.fresh()?;
                    let idx = cx().n(e).a;
                    let lim = k(8, free.len() as u128);
                    let cond = cx().ult(e, lim);
                    self.add_pc(cond);
                    let st = self.s();
                    st.pending = Some(idx);
                    Rc::make_mut(&mut st.names).push(("hash-order".into(), idx, 1));
                    idx
                }
            };
            let e = cx().var(v);
            let r = self.concretize(e)? as usize;
            self.s().pending = None;
            free[r]
        };
        Rc::make_mut(&mut self.s().hash_memo).push((key, pick));
        self.finish(d, Val::I(pick))
    }
    fn put_sockaddr(&mut self, p: u64, port: u16) -> R<()> {
        let mut b = [0u8; 16];
        b[0] = 2;
        b[2..4].copy_from_slice(&port.to_be_bytes());
        b[4..8].copy_from_slice(&[127, 0, 0, 1]);
        self.put_conc(p, &b)
    }
    fn yield_now(&mut self) -> R<()> {
        if self.s().threads.len() == 1 {
            return Ok(());
        }
        self.reschedule()
    }
    pub fn record_violation(&mut self, key: String, detail: String, m: &[u8]) {
        self.rep.viol_count += 1;
        if self.o.after_viol > 0 && !self.o.known.contains(&key) {
            crate::par::stop_by(self.o.t0.elapsed().as_millis() as u64 + self.o.after_viol * 1000);
        }
        let n = self.viol_keys.entry(key.clone()).or_default();
        *n += 1;
        if *n > 3 || self.rep.viols.len() >= self.o.max_viols {
            return;
        }
        let st = self.st.as_ref().unwrap();
        let mut bytes = m.to_vec();
        bytes.truncate(st.nvars as usize);
        self.rep.viols.push(Viol {
            key,
            detail,
            bytes,
            names: (*st.names).clone(),
            sched: (*st.sched).clone(),
        });
    }
}
pub const MONO0: u64 = 1_000_000_000_000;

fn minmax(x: X, p: E, q: E, w: u32) -> E {
    let c = cx();
    match x {
        X::UMax => {
            let t = c.ult(p, q);
            c.ite(t, q, p)
        }
        X::UMin => {
            let t = c.ult(p, q);
            c.ite(t, p, q)
        }
        X::SMax => {
            let t = c.slt(p, q);
            c.ite(t, q, p)
        }
        X::SMin => {
            let t = c.slt(p, q);
            c.ite(t, p, q)
        }
        X::USubSat => {
            let t = c.ult(p, q);
            let z = k(w, 0);
            let s = c.sub(p, q);
            c.ite(t, z, s)
        }
        X::UAddSat => {
            let s = c.add(p, q);
            let t = c.ult(s, p);
            let m = k(w, mask(w));
            c.ite(t, m, s)
        }
        _ => {
            let (p2, q2) = (c.sext(p, w + 1), c.sext(q, w + 1));
            let s = if x == X::SAddSat { c.add(p2, q2) } else { c.sub(p2, q2) };
            let mx = k(w + 1, mask(w) >> 1);
            let mn = k(w + 1, !(mask(w) >> 1));
            let gt = c.slt(mx, s);
            let lt = c.slt(s, mn);
            let r = c.ite(lt, mn, s);
            let r = c.ite(gt, mx, r);
            c.extract(r, w - 1, 0)
        }
    }
}
