mod env;
mod exec;
mod expr;
mod ir;
mod lia;
mod mem;
mod par;
mod solver;
use exec::*;
use expr::*;
use mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

impl Exec {
    pub fn explore(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.stopped {
                *self.rep.inconclusive.entry("time limit: paths left unexplored".into()).or_default() += 1;
                continue;
            }
            self.st = Some(st);
            let (s0, y0) = (self.s().steps, self.s().sym_steps);
            let _ = y0;
            let out = self.run_path();
            self.rep.paths += 1;
            let (s1, y1, dep) = (self.s().steps, self.s().sym_steps, self.s().depth);
            self.rep.steps += s1 - s0;
            self.rep.sym_steps += y1 - y0;
            self.rep.max_depth = self.rep.max_depth.max(dep);
            match out {
                Outcome::Done => {
                    self.rep.done += 1;
                    self.sample_ctr = self.sample_ctr.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + self.o.seed);
                    let n = self.rep.done;
                    let keep = self.rep.samples.len() < self.o.nsamples;
                    let slot = if keep {
                        Some(self.rep.samples.len())
                    } else if self.o.nsamples > 0 && (self.sample_ctr >> 33) % n < self.o.nsamples as u64 {
                        Some((self.sample_ctr >> 13) as usize % self.o.nsamples)
                    } else {
                        None
                    };
                    if let Some(i) = slot {
                        let st = self.st.as_ref().unwrap();
                        let m = st.model.clone();
                        cx().new_eval();
                        let obs: Vec<Vec<u8>> =
                            st.obs.iter().map(|o| o.0.iter().map(|e| cx().eval(*e, &m) as u8).collect()).collect();
                        let mut bytes = (*m).clone();
                        bytes.truncate(st.nvars as usize);
                        let s = Sample { bytes, obs, names: (*st.names).clone() };
                        if keep {
                            self.rep.samples.push(s)
                        } else {
                            self.rep.samples[i] = s
                        }
                    }
                }
                Outcome::Infeasible => self.rep.infeasible += 1,
                Outcome::Violation(k, d) => {
                    let m = self.s().model.clone();
                    if self.o.verbose {
                        eprintln!("VIOL {k}: {d}\n  {}", self.backtrace().join("\n  "));
                    }
                    self.record_violation(k, d, &m);
                }
                Outcome::Inconclusive(r) => {
                    if self.o.verbose {
                        eprintln!("INCONCLUSIVE {r}\n  {}", self.backtrace().join("\n  "));
                    }
                    let u = self.where_am_i();
                    *self.rep.inconclusive.entry(format!("{r} (in {u})")).or_default() += 1;
                }
            }
            self.st = None;
            let p = par::par();
            p.sh.paths.fetch_add(1, SeqCst);
            if self.o.max_paths > 0 && p.sh.paths.load(SeqCst) > self.o.max_paths {
                self.stopped = true;
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o + "\""
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ll = args[1].clone();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut known = vec![];
    let mut files = std::collections::HashMap::new();
    let mut i = 2;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        if k == "verbose" {
            opt.insert(k, "1".into());
            i += 1;
            continue;
        }
        let v = args[i + 1].clone();
        if k == "file" {
            let (a, b) = v.split_once('=').unwrap();
            files.insert(a.to_string(), Rc::new(std::fs::read(b).expect("file")));
        } else if k == "known" {
            known.push(v);
        } else {
            opt.insert(k, v);
        }
        i += 2;
    }
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().unwrap());
    let t0 = std::time::Instant::now();
    expr::init();
    let mut m = ir::Module::load(&ll);
    env::install(&mut m);
    if opt.contains_key("parse-all") {
        let mut n = 0;
        for i in 0..m.fns.len() {
            if m.fns[i].body.is_some() {
                n += m.func(i as u32).ninstr;
            }
        }
        eprintln!("parsed {} functions, {} instructions, {} globals in {:?}", m.fns.len(), n, m.globals.len(), t0.elapsed());
        return;
    }
    let entry = opt.get("entry").expect("--entry").clone();
    let out = opt.get("out").expect("--out").clone();
    let _ = std::fs::create_dir_all(&out);
    for e in std::fs::read_dir(&out).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("part-") {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let fix = *m.fn_ix.get(entry.as_str()).unwrap_or_else(|| panic!("no function {entry}"));
    let mut mem = Heap::new();
    for g in &m.globals {
        let d = g.init.clone().unwrap_or_else(|| vec![0; g.size as usize]);
        mem.add(Obj { d, s: None, ro: g.constant });
    }
    mem.bytes = 0;
    par::init(num("jobs", 8) as usize, &out);
    if let Some(t) = opt.get("timeout") {
        par::stop_by(t.parse::<u64>().unwrap() * 1000);
    }
    let o = Opts {
        max_steps: num("max-steps", 50_000_000),
        max_heap: num("max-heap", 256 << 20),
        max_paths: num("max-paths", 0),
        max_viols: num("max-viols", 40) as usize,
        nsamples: num("samples", 4) as usize,
        seed: num("seed", 1),
        verbose: opt.contains_key("verbose"),
        trace_from: opt.get("trace").map_or(u64::MAX, |s| s.parse().unwrap()),
        t0,
        after_viol: num("after-viol", 0),
        known: known.clone(),
    };
    let mut x = Exec {
        m,
        st: None,
        work: vec![],
        sol: solver::Solver::new(num("rlimit", 2_000_000) as u32),
        rep: Report::default(),
        sample_ctr: o.seed,
        o,
        globals: vec![],
        exts: Default::default(),
        files,
        reserve: Default::default(),
        viol_keys: Default::default(),
        stopped: false,
        tick: 0,
        on_fork: Some(par::maybe_split),
        ptr_cache: Default::default(),
        dummy: 0,
    };
    let f = x.m.func(fix);
    x.rep.funcs.insert(fix);
    let top = Frame { f, bb: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], ret: None, marker: 2 };
    let th = Thread {
        frames: vec![],
        top: None,
        stack: vec![Rc::new(Obj::zeroed(f.frame as usize))],
        tls: Default::default(),
        dtors: vec![],
        keys: Default::default(),
        wait: Wait::Run,
        ret: 0,
        detached: false,
        timed_out: false,
    };
    x.work.push(Box::new(State {
        top,
        threads: vec![th],
        cur: 0,
        mem,
        pc: vec![],
        known: Default::default(),
        lemmas: Default::default(),
        dom: Rc::new(vec![]),
        multi: [0; 4],
        model: Rc::new(vec![]),
        nvars: 0,
        steps: 0,
        sym_steps: 0,
        pending: None,
        obs: Default::default(),
        names: Default::default(),
        depth: 0,
        errno: Default::default(),
        fds: Default::default(),
        pipes: vec![],
        clock: 0,
        wall: None,
        cfg: Default::default(),
        hash_memo: Default::default(),
        hash_dir: None,
        sched: Default::default(),
        evict: 0,
        trace: Default::default(),
        next_fd: 10,
        need_sched: false,
    }));
    let load_ms = t0.elapsed().as_millis();
    x.explore();
    par::wait_all();
    par::merge_all(&mut x);
    let crashed = par::par().sh.crashed.load(SeqCst);
    if crashed > 0 {
        x.rep.inconclusive.insert("worker process died".into(), crashed);
    }
    // summary
    let r = &x.rep;
    let s = &x.sol.stats;
    let mut j = String::from("{\n");
    for (k, v) in [
        ("paths", r.paths),
        ("completed", r.done),
        ("infeasible", r.infeasible),
        ("forks", r.forks),
        ("instructions", r.steps),
        ("symbolic_branches", r.sym_steps),
        ("violating_paths", r.viol_count),
        ("asserts", r.asserts),
        ("asserts_symbolic", r.asserts_sym),
        ("solver_queries", s.queries),
        ("solver_sat", s.sat),
        ("solver_unsat", s.unsat),
        ("solver_cache_hits", s.cache_hits),
        ("domain_decisions", s.domain),
        ("assert_queries", s.assert_queries),
        ("solver_us", s.time_us),
        ("over_integers", s.ints),
        ("solver_max_us", s.max_us),
        ("max_depth", r.max_depth as u64),
        ("max_symbolic_bytes", r.max_vars as u64),
        ("load_ms", load_ms as u64),
        ("wall_ms", t0.elapsed().as_millis() as u64),
        ("workers_crashed", crashed),
    ] {
        j += &format!(" \"{k}\": {v},\n");
    }
    j += &format!(" \"solver\": {},\n", js(&solver::version()));
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let nm = |n: &[(String, u32, u32)]| {
        let v: Vec<String> = n.iter().map(|x| format!("[{}, {}, {}]", js(&x.0), x.1, x.2)).collect();
        format!("[{}]", v.join(", "))
    };
    j += &format!(" \"inconclusive\": {},\n \"reach\": {},\n \"panics_caught\": {},\n", map(&r.inconclusive), map(&r.reach), map(&r.panics_caught));
    let v: Vec<String> = r
        .viols
        .iter()
        .map(|v| format!("  {{\"key\": {}, \"detail\": {}, \"bytes\": \"{}\", \"names\": {}}}", js(&v.key), js(&v.detail), hex(&v.bytes), nm(&v.names)))
        .collect();
    j += &format!(" \"violations\": [\n{}\n ],\n", v.join(",\n"));
    let v: Vec<String> = r
        .samples
        .iter()
        .map(|v| {
            let o: Vec<String> = v.obs.iter().map(|b| format!("\"{}\"", hex(b))).collect();
            format!("  {{\"bytes\": \"{}\", \"obs\": [{}], \"names\": {}}}", hex(&v.bytes), o.join(","), nm(&v.names))
        })
        .collect();
    j += &format!(" \"samples\": [\n{}\n ],\n", v.join(",\n"));
    let v: Vec<String> = r.funcs.iter().map(|f| js(x.m.fns[*f as usize].name)).collect();
    j += &format!(" \"functions\": [{}]\n}}\n", v.join(", "));
    std::fs::write(format!("{out}/summary.json"), j).unwrap();
}
