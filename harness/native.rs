//! Native implementations of the harness primitives: inputs come from a
//! recorded byte list; verdicts go to stdout.
#![allow(dead_code, static_mut_refs)]
use std::io::{Read, Write};
use std::sync::Mutex;

pub struct Rt {
    pub input: Vec<u8>,
    pub pos: usize,
    pub obs: Vec<Vec<u8>>,
    pub failed: Vec<String>,
    pub order: bool,
    pub conns: Vec<Option<std::net::TcpStream>>,
}
static RT: Mutex<Rt> =
    Mutex::new(Rt { input: vec![], pos: 0, obs: vec![], failed: vec![], order: false, conns: vec![] });
fn rt() -> std::sync::MutexGuard<'static, Rt> {
    RT.lock().unwrap_or_else(|e| e.into_inner())
}
fn next() -> u8 {
    let mut r = rt();
    let b = r.input.get(r.pos).copied().unwrap_or(0);
    r.pos += 1;
    b
}
pub fn finish(code: &str) -> ! {
    let r = rt();
    for o in &r.obs {
        println!("OBS {}", o.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
    for f in &r.failed {
        println!("FAIL {f}");
    }
    println!("END {code}");
    std::io::stdout().flush().unwrap();
    unsafe { _exit(0) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
/// Counts live heap bytes; past the limit (VF_HEAP, bytes) the run ends as "memory".
pub struct Counting;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
unsafe fn over() -> ! {
    println!("END memory");
    _exit(0)
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::sync::atomic::Ordering::Relaxed;
        let lim = LIMIT.load(Relaxed);
        if l.size() > lim || LIVE.fetch_add(l.size(), Relaxed) + l.size() > lim {
            LIMIT.store(usize::MAX, Relaxed);
            over()
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub unsafe fn vf_sym(p: *mut u8, n: usize, _: *const u8, _: usize) {
    for i in 0..n {
        *p.add(i) = next();
    }
}
pub unsafe fn vf_choice(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    next() as u32
}
pub unsafe fn vf_assume(c: u8) {
    if c == 0 {
        finish("assume");
    }
}
pub unsafe fn vf_assert(c: u8, m: *const u8, n: usize) {
    if c == 0 {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned();
        rt().failed.push(s);
    }
}
pub unsafe fn vf_reach(_: *const u8, _: usize) {}
pub unsafe fn vf_observe(p: *const u8, n: usize) {
    rt().obs.push(std::slice::from_raw_parts(p, n).to_vec());
}
pub unsafe fn vf_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn vf_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    let d = d as usize;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f(d as *mut u8))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
pub unsafe fn vf_config(k: u32, _v: u64) {
    if k == 2 {
        rt().order = true;
    }
}
pub unsafe fn vf_print(p: *const u8, n: usize) {
    eprintln!("[harness] {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
static mut CLOCK: Option<(i64, i64)> = None;
pub unsafe fn vf_set_clock(s: i64, n: i64) {
    CLOCK = Some((s, n));
}
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// Overrides libc's clock so that the code under test sees the replayed time.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    if id == 0 {
        if let Some((s, n)) = CLOCK {
            (*t).s = s;
            (*t).n = n;
            return 0;
        }
    }
    syscall(228, id as i64, t) as i32
}
pub unsafe fn vf_steps() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    syscall(228, 2i64, &mut t as *mut Ts);
    t.s as u64 * 1_000_000_000 + t.n as u64
}
pub unsafe fn vf_net_listening(port: u32) -> u32 {
    // asks the kernel without consuming a connection slot of the server
    let hex = format!(":{:04X} ", port);
    let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    t.lines().any(|l| {
        let c: Vec<&str> = l.split_whitespace().collect();
        c.len() > 3 && format!("{} ", c[1]).ends_with(&hex) && c[3] == "0A"
    }) as u32
}
pub unsafe fn vf_net_connect(port: u32) -> i32 {
    match std::net::TcpStream::connect(("127.0.0.1", port as u16)) {
        Ok(s) => {
            s.set_nonblocking(true).unwrap();
            s.set_nodelay(true).unwrap();
            let mut r = rt();
            r.conns.push(Some(s));
            r.conns.len() as i32 - 1
        }
        Err(_) => -1,
    }
}
pub unsafe fn vf_net_send(c: i32, p: *const u8, n: usize) -> isize {
    let mut r = rt();
    match r.conns[c as usize].as_mut() {
        Some(s) => match s.write(std::slice::from_raw_parts(p, n)) {
            Ok(k) => k as isize,
            Err(_) => -1,
        },
        None => -1,
    }
}
pub unsafe fn vf_net_recv(c: i32, p: *mut u8, n: usize) -> isize {
    let mut r = rt();
    match r.conns[c as usize].as_mut() {
        Some(s) => match s.read(std::slice::from_raw_parts_mut(p, n)) {
            Ok(k) => k as isize,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => -1,
            Err(_) => 0,
        },
        None => -1,
    }
}
pub unsafe fn vf_net_close(c: i32) {
    rt().conns[c as usize] = None;
}

/// argv: harness name, input bytes in hex
pub fn main(find: fn(&str) -> Option<fn()>) {
    let a: Vec<String> = std::env::args().collect();
    let f = find(&a[1]).expect("unknown harness");
    let h = a.get(2).cloned().unwrap_or_default();
    if let Ok(v) = std::env::var("VF_HEAP") {
        LIMIT.store(v.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    rt().input = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    // enough stack that only unbounded recursion overflows it
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(f);
            finish(if r.is_ok() { "ok" } else { "panic" })
        })
        .unwrap();
    let _ = t.join();
    finish("died")
}
pub fn vf_port() -> u16 {
    // stays reserved for this process until it ends: binding again is allowed
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    l.local_addr().unwrap().port()
}
