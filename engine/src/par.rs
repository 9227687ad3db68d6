//! Work sharing over OS processes: a process with spare pending states forks a
//! child that explores the oldest of them.
use crate::exec::*;
use std::ffi::c_void;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn signal(s: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const MAXP: usize = 64;
#[repr(C)]
pub struct Shared {
    pub slots: [AtomicI32; MAXP],
    pub parts: AtomicU64,
    pub crashed: AtomicU64,
    pub paths: AtomicU64,
    pub stop: AtomicU64,
}
pub struct Par {
    pub sh: &'static Shared,
    pub jobs: usize,
    pub slot: Option<usize>, // None: root
    pub dir: String,
    pub last: std::time::Instant,
}
static mut PAR: Option<Par> = None;
#[allow(static_mut_refs)]
pub fn par() -> &'static mut Par {
    unsafe { PAR.as_mut().unwrap() }
}
pub fn init(jobs: usize, dir: &str) {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096 * 4, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        signal(17, 1); // SIGCHLD ignored: children are reaped
        PAR = Some(Par {
            sh: &*(p as *const Shared),
            jobs,
            slot: None,
            dir: dir.into(),
            last: std::time::Instant::now(),
        });
    }
}
/// time (ms since the start) at which every process stops; 0 = not decided
pub fn stop_at() -> u64 {
    par().sh.stop.load(SeqCst)
}
pub fn stop_by(ms: u64) {
    let s = &par().sh.stop;
    let _ = s.fetch_update(SeqCst, SeqCst, |o| if o == 0 || ms < o { Some(ms) } else { None });
}
pub fn maybe_split(x: &mut Exec) {
    let p = par();
    if p.jobs <= 1 || x.work.len() < 2 {
        return;
    }
    let now = std::time::Instant::now();
    if now.duration_since(p.last).as_millis() < 8 {
        return;
    }
    for i in 0..p.jobs - 1 {
        if p.sh.slots[i].load(SeqCst) == 0 && p.sh.slots[i].compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
            let me = unsafe { getpid() };
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent's exit only if it is killed
                unsafe { prctl(1, 0, 0, 0, 0) };
                let _ = me;
                p.sh.slots[i].store(unsafe { getpid() }, SeqCst);
                p.slot = Some(i);
                let st = x.work.swap_remove(0);
                x.work.clear();
                x.work.push(st);
                x.st = None;
                x.rep = Report::default();
                x.viol_keys.clear();
                x.sol.stats = Default::default();
                p.last = std::time::Instant::now();
                child_main(x);
            } else if pid > 0 {
                x.work.remove(0);
                p.last = std::time::Instant::now();
                return;
            } else {
                p.sh.slots[i].store(0, SeqCst);
                return;
            }
        }
    }
    p.last = now;
}
fn child_main(x: &mut Exec) -> ! {
    x.explore();
    let p = par();
    let n = p.sh.parts.fetch_add(1, SeqCst);
    let f = format!("{}/part-{}", p.dir, n);
    let tmp = format!("{f}.tmp");
    std::fs::write(&tmp, ser(x)).unwrap();
    std::fs::rename(&tmp, &f).unwrap();
    if let Some(i) = p.slot {
        p.sh.slots[i].store(0, SeqCst);
    }
    unsafe { _exit(0) }
}
/// Root: wait until every other process is gone; detect crashed ones.
pub fn wait_all() {
    let p = par();
    loop {
        let mut live = false;
        for s in p.sh.slots.iter() {
            let pid = s.load(SeqCst);
            if pid != 0 {
                live = true;
                if pid > 0 && unsafe { kill(pid, 0) } != 0 && s.compare_exchange(pid, 0, SeqCst, SeqCst).is_ok() {
                    p.sh.crashed.fetch_add(1, SeqCst);
                }
            }
        }
        if !live {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
}
fn names(n: &[(String, u32, u32)]) -> String {
    n.iter().map(|x| format!("{}:{}:{}", x.0, x.1, x.2)).collect::<Vec<_>>().join(",")
}
fn unnames(s: &str) -> Vec<(String, u32, u32)> {
    if s.is_empty() {
        return vec![];
    }
    s.split(',')
        .map(|x| {
            let mut r = x.rsplitn(3, ':');
            let c = r.next().unwrap().parse().unwrap();
            let b = r.next().unwrap().parse().unwrap();
            (r.next().unwrap().to_string(), b, c)
        })
        .collect()
}
fn ser(x: &Exec) -> String {
    let r = &x.rep;
    let s = &x.sol.stats;
    let mut o = String::new();
    for (k, v) in [
        ("paths", r.paths),
        ("done", r.done),
        ("infeasible", r.infeasible),
        ("forks", r.forks),
        ("steps", r.steps),
        ("sym_steps", r.sym_steps),
        ("viol_count", r.viol_count),
        ("asserts", r.asserts),
        ("asserts_sym", r.asserts_sym),
        ("queries", s.queries),
        ("sat", s.sat),
        ("unsat", s.unsat),
        ("cache", s.cache_hits),
        ("domain", s.domain),
        ("time_us", s.time_us),
        ("ints", s.ints),
        ("assert_queries", s.assert_queries),
    ] {
        o += &format!("n\t{k}\t{v}\n");
    }
    o += &format!("m\tmax_us\t{}\nm\tmax_depth\t{}\nm\tmax_vars\t{}\n", s.max_us, r.max_depth, r.max_vars);
    for v in &r.viols {
        o += &format!("v\t{}\t{}\t{}\t{}\t{}\n", esc(&v.key), esc(&v.detail), hex(&v.bytes), hex(&v.sched), esc(&names(&v.names)));
    }
    for (k, v) in &r.inconclusive {
        o += &format!("i\t{}\t{v}\n", esc(k));
    }
    for (k, v) in &r.reach {
        o += &format!("r\t{}\t{v}\n", esc(k));
    }
    for (k, v) in &r.panics_caught {
        o += &format!("p\t{}\t{v}\n", esc(k));
    }
    for v in &r.samples {
        let ob: Vec<String> = v.obs.iter().map(|b| hex(b)).collect();
        o += &format!("s\t{}\t{}\t{}\n", hex(&v.bytes), ob.join(","), esc(&names(&v.names)));
    }
    let f: Vec<String> = r.funcs.iter().map(|x| x.to_string()).collect();
    o += &format!("f\t{}\n", f.join(","));
    o
}
/// Merge a part written by a child into the root's report.
pub fn merge_all(x: &mut Exec) {
    let p = par();
    for n in 0..p.sh.parts.load(SeqCst) {
        let f = format!("{}/part-{}", p.dir, n);
        let Ok(t) = std::fs::read_to_string(&f) else {
            p.sh.crashed.fetch_add(1, SeqCst);
            continue;
        };
        let _ = std::fs::remove_file(&f);
        for l in t.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            let r = &mut x.rep;
            let s = &mut x.sol.stats;
            match c[0] {
                "n" => {
                    let v: u64 = c[2].parse().unwrap();
                    *match c[1] {
                        "paths" => &mut r.paths,
                        "done" => &mut r.done,
                        "infeasible" => &mut r.infeasible,
                        "forks" => &mut r.forks,
                        "steps" => &mut r.steps,
                        "sym_steps" => &mut r.sym_steps,
                        "viol_count" => &mut r.viol_count,
                        "asserts" => &mut r.asserts,
                        "asserts_sym" => &mut r.asserts_sym,
                        "queries" => &mut s.queries,
                        "sat" => &mut s.sat,
                        "unsat" => &mut s.unsat,
                        "cache" => &mut s.cache_hits,
                        "domain" => &mut s.domain,
                        "time_us" => &mut s.time_us,
                        "ints" => &mut s.ints,
                        _ => &mut s.assert_queries,
                    } += v;
                }
                "m" => {
                    let v: u64 = c[2].parse().unwrap();
                    match c[1] {
                        "max_us" => s.max_us = s.max_us.max(v),
                        "max_depth" => r.max_depth = r.max_depth.max(v as u32),
                        _ => r.max_vars = r.max_vars.max(v as u32),
                    }
                }
                "v" => {
                    let key = unesc(c[1]);
                    let n = x.viol_keys.entry(key.clone()).or_default();
                    *n += 1;
                    if *n <= 3 {
                        r.viols.push(Viol {
                            key,
                            detail: unesc(c[2]),
                            bytes: unhex(c[3]),
                            sched: unhex(c[4]),
                            names: unnames(&unesc(c[5])),
                        })
                    }
                }
                "i" => *r.inconclusive.entry(unesc(c[1])).or_default() += c[2].parse::<u64>().unwrap(),
                "r" => *r.reach.entry(unesc(c[1])).or_default() += c[2].parse::<u64>().unwrap(),
                "p" => *r.panics_caught.entry(unesc(c[1])).or_default() += c[2].parse::<u64>().unwrap(),
                "s" => {
                    if r.samples.len() < 4096 {
                        r.samples.push(Sample {
                            bytes: unhex(c[1]),
                            obs: if c[2].is_empty() { vec![] } else { c[2].split(',').map(unhex).collect() },
                            names: unnames(&unesc(c[3])),
                        })
                    }
                }
                "f" => {
                    for v in c[1].split(',').filter(|v| !v.is_empty()) {
                        r.funcs.insert(v.parse().unwrap());
                    }
                }
                _ => {}
            }
        }
    }
}
