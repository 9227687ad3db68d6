"""Decides one property: builds the IR and the native binary from /repo, runs the
symbolic executor on every harness of the property, confirms each counterexample
against the native build, writes the evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time
import unit as U

V, B = U.V, U.B
KNOWN = os.path.join(V, "known_findings.txt")


class Entry:
    pass


def parse_harness(path):
    """entries with their settings: '///' lines are the stated bounds, '//@' the options"""
    out, doc, opt = [], [], {}
    for line in open(path):
        s = line.strip()
        if s.startswith("///"):
            doc.append(s[3:].strip())
        elif s.startswith("//@"):
            for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', s[3:]):
                opt[k] = v.strip('"')
        else:
            m = re.match(r"pub fn (h_\w+)\(\)", s)
            if m:
                e = Entry()
                e.name, e.doc, e.opt = m.group(1), " ".join(doc), opt
                out.append(e)
            if s and not s.startswith("#["):
                doc, opt = [], {}
    return out


def known_findings():
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(C\d+) key=\"([^\"]*)\"\s*(.*)", line.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


# a configuration as a file
CONFIG = """[Default]
connection_type = "acceptor"
begin_string = FIX.4.3

[Session]
sender_comp_id = "%s"
target_comp_id = T
socket_accept_port = %d
"""


def strip_bytes(v):
    """inputs the native build consumes: without the executor's own choices"""
    b = bytes.fromhex(v["bytes"])
    out = b""
    if not v["names"]:
        return b
    for n, base, cnt in v["names"]:
        if n in ("schedule", "hash-order"):
            continue
        out += b[base:base + cnt]
    return out


def native(binary, entry, data, heap, timeout):
    env = dict(os.environ, VF_HEAP=str(heap), RUST_BACKTRACE="0", TZ="XST-5:30")
    try:
        r = subprocess.run([binary, entry, data.hex()], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout, env=env, cwd=B)
    except subprocess.TimeoutExpired:
        return {"end": "timeout", "fail": [], "obs": []}
    res = {"end": None, "fail": [], "obs": []}
    for line in r.stdout.decode("utf8", "replace").splitlines():
        if line.startswith("OBS "):
            res["obs"].append(line[4:])
        elif line == "OBS":
            res["obs"].append("")
        elif line.startswith("FAIL "):
            res["fail"].append(line[5:])
        elif line.startswith("END "):
            res["end"] = line[4:]
    if res["end"] is None:
        res["end"] = "signal %d" % r.returncode
    return res


def confirms(key, r, known=()):
    if key in r["fail"]:
        return True  # recorded only when every earlier assumption held
    if key.startswith("panic"):
        # a task's panic is caught by the runtime: what it leads to is seen instead
        return r["end"] == "panic" or any(f not in known for f in r["fail"])
    if key.startswith("memory exhaustion"):
        return r["end"] == "memory"
    if key.startswith("no termination") or key.startswith("deadlock"):
        return r["end"] == "timeout" or any(f not in known for f in r["fail"])
    if key.startswith("unbounded recursion") or key.startswith("stack"):
        return r["end"].startswith("signal")
    if key.startswith("memory fault"):
        return r["end"].startswith("signal")
    return False


def confirm(binary, entry, v, heap, opt, known=()):
    data = strip_bytes(v)
    rand = any(n in ("schedule", "hash-order") for n, _, _ in v["names"]) or opt.get("retry")
    key = v["key"]
    slow = key.startswith(("no termination", "deadlock"))
    to = float(opt.get("native_timeout", 20 if slow else 30))
    # a real map is iterated in another order in every run, the order that was explored may be one of many
    tries = max(400 if rand else 64, int(opt.get("retry", 1)))
    if slow:
        tries = 1
    t0 = time.time()
    last = None
    with cf.ThreadPoolExecutor(8) as ex:
        done = 0
        while done < tries and time.time() - t0 < 60:
            k = min(8, tries - done)
            for r in ex.map(lambda _: native(binary, entry, data, heap, to), range(k)):
                last = r
                if confirms(key, r, known):
                    return True, data, r
            done += k
    return False, data, last


def size(s, d):
    if s is None:
        return d
    m = re.match(r"([\d.]+(?:e\d+)?)([kMG]?)$", s)
    return int(float(m.group(1)) * {"": 1, "k": 1 << 10, "M": 1 << 20, "G": 1 << 30}[m.group(2)])


def demangle(n):
    for tool in ("rustfilt", "c++filt"):
        pass
    return n


class Checker:
    def __init__(self, prop, tier, seed, verbose=False, only=None):
        self.prop, self.tier, self.seed, self.verbose, self.only = prop, tier, seed, verbose, only
        self.t0 = time.time()

    def build(self):
        import fcntl
        os.makedirs(B, exist_ok=True)
        with open(os.path.join(B, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)  # two checks at a time must not build into each other
            self.build_locked()

    def build_locked(self):
        # the harness dictionary as a file, for code that reads one
        with open(os.path.join(V, "harness", "common.rs")) as f:
            x = re.search(r'const DICT: &str = r#"(.*?)"#;', f.read(), re.S).group(1)
        # and with field 58 in the trailer or the header, and one that is no dictionary
        text = '<field name="Text" required="N"/>'
        self.files = {"dict.xml": x, "other/dict.xml": x.replace("<trailer>", "<trailer>" + text), "resources/FIX43.xml": x.replace("<header>", "<header>" + text),
                      "bad.xml": x[:len(x) // 2], "one.toml": CONFIG % ("A", 10114), "two.toml": (CONFIG % ("B", 10115)).replace("\n", "\r\n"),
                      "other/one.toml": CONFIG % ("C", 10116), "bad.toml": CONFIG.split("[Session]")[1] % ("D", 10117)}
        for k, v in self.files.items():
            U.put(os.path.join(B, k), v)
        self.unit = self.prop.lower()
        h = "h_%s.rs" % self.unit
        self.entries = parse_harness(os.path.join(V, "harness", h))
        self.engine = U.build_engine()
        d, names = U.gen(self.unit, h)
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(U.build_ir, self.unit, d)
            b = ex.submit(U.build_native, self.unit, d)
            self.ll, self.t_ir = a.result()
            self.bin, self.t_nat = b.result()

    def run(self):
        self.build()
        budget = 700 if self.tier == "quick" else 880
        sel = []
        for e in self.entries:
            if self.only and e.name != self.only:
                continue
            t = e.opt.get("tier", "both")
            if t == "both" or t == self.tier:
                sel.append(e)
        known = known_findings()
        kkeys = [k for p, k in known if p == self.prop]
        res, viols, seen_known, unconf = [], [], {}, []
        for i, e in enumerate(sel):
            left = budget - (time.time() - self.t0)
            to = min(left, float(e.opt.get("timeout", 240 if self.tier == "quick" else 800)))
            if to < 5:
                res.append((e, None))
                continue
            heap = size(e.opt.get("heap"), 64 << 20)
            out = os.path.join(B, "out", e.name)
            os.makedirs(out, exist_ok=True)
            sj = os.path.join(out, "summary.json")
            if os.path.exists(sj):
                os.unlink(sj)
            cmd = [self.engine, self.ll, "--entry", "e_" + e.name, "--out", out, "--jobs", "8", "--timeout", str(int(to)),
                   "--max-steps", str(size(e.opt.get("steps"), 20_000_000)), "--max-heap", str(heap), "--samples", e.opt.get("samples", "6"),
                   "--seed", str(self.seed), "--after-viol", e.opt.get("after", "15")]
            for k in kkeys:
                cmd += ["--known", k]
            for f in [x for x in e.opt.get("files", "").split(",") if x]:
                a, b = f.split(":")
                cmd += ["--file", "%s=%s" % (a, self.repo_file(b))]
            t1 = time.time()
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to + 60)
                msg = p.stdout.decode("utf8", "replace")[-2000:]
            except subprocess.TimeoutExpired:
                msg = "executor did not stop in time"
            if not os.path.exists(sj):
                res.append((e, {"error": msg, "wall": time.time() - t1}))
                continue
            s = json.load(open(sj))
            s["wall"] = time.time() - t1
            # replay a sample of completed paths and compare what they observed
            s["validated"], s["mismatch"] = 0, []
            if e.opt.get("validate", "yes") == "yes":
                with cf.ThreadPoolExecutor(8) as ex:
                    def one(x):
                        if any(n in ("schedule", "hash-order") for n, _, _ in x["names"]):
                            return None
                        return native(self.bin, e.name, strip_bytes(x), heap, 60), x
                    for r in ex.map(one, s["samples"]):
                        if r is None:
                            continue
                        r, x = r
                        if r["end"] == "ok" and r["obs"] == x["obs"]:
                            s["validated"] += 1
                        else:
                            s["mismatch"].append({"input": strip_bytes(x).hex(), "symbolic": x["obs"], "native": r})
            keys = {}
            for v in s["violations"]:
                keys.setdefault(v["key"], []).append(v)
            for k, vs in keys.items():
                ok = False
                for v in vs[:3]:
                    ok, data, r = confirm(self.bin, e.name, v, heap, e.opt, kkeys)
                    if ok:
                        break
                rec = {"entry": e.name, "key": k, "detail": v["detail"], "input": data.hex(), "names": v["names"], "native": r, "heap": heap}
                if not ok:
                    unconf.append(rec)
                elif (self.prop, k) in known:
                    seen_known[k] = rec
                else:
                    viols.append(rec)
            res.append((e, s))
        return self.report(sel, res, viols, seen_known, known, unconf)

    def repo_file(self, f):
        if f in self.files:
            return os.path.join(B, f)
        return os.path.join(U.REPO, f) if not f.startswith("/") else f

    def report(self, sel, res, viols, seen_known, known, unconf):
        rd = os.path.join(B, "replay")
        os.makedirs(rd, exist_ok=True)
        lines = []
        for k, rec in seen_known.items():
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, known[(self.prop, k)]))
        for i, rec in enumerate(viols):
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump(dict(rec, property=self.prop, replay="python3 /verif/run.py replay " + p), f, indent=1)
            rec["path"] = p
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, p))
            lines.append("  %s: %s (input %s)" % (rec["entry"], rec["key"], rec["input"][:200]))
        tot = dict(paths=0, completed=0, instructions=0, forks=0, symbolic_branches=0, solver_queries=0, solver_sat=0, solver_unsat=0,
                   solver_cache_hits=0, domain_decisions=0, asserts=0, asserts_symbolic=0, assert_queries=0, solver_us=0, over_integers=0)
        fns, per, validated, samples, complete = set(), [], 0, [], True
        for e, s in res:
            if s is None or "error" in s:
                complete = False
                per.append({"harness": e.name, "bounds": e.doc, "result": "not explored: " + (s["error"] if s else "no time left")})
                continue
            for k in tot:
                tot[k] += s.get(k, 0)
            fns.update(s["functions"])
            validated += s["validated"]
            want = [x for x in e.opt.get("reach", "").split(",") if x]
            missing = [x for x in want if x not in s["reach"]]
            inc = dict(s["inconclusive"])
            if inc or missing:
                complete = False
            per.append({"harness": e.name, "bounds": e.doc, "paths": s["paths"], "completed": s["completed"],
                        "exhaustive_within_bounds": not inc, "inconclusive": inc, "witnesses_reached": s["reach"], "witnesses_missing": missing,
                        "queries": s["solver_queries"], "solver_s": round(s["solver_us"] / 1e6, 3), "byte_domain_decisions": s["domain_decisions"],
                        "asserts": s["asserts"], "asserts_symbolic": s["asserts_symbolic"], "wall_s": round(s["wall"], 2),
                        "replayed_samples_agreeing": s["validated"], "replay_mismatches": s["mismatch"], "panics_caught": s["panics_caught"]})
            for x in s["samples"][:2]:
                samples.append({"harness": e.name, "input": strip_bytes(x).hex(), "observed": x["obs"]})
        ours = sorted({f for f in (pretty(x) for x in fns) if f})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "states": tot["paths"], "transitions": tot["instructions"], "traces_validated_against_impl": validated, "samples": samples[:8],
                "explanation": "states = symbolic paths of the compiled code explored to the end, transitions = LLVM instructions executed symbolically; "
                               "each path stands for every input that satisfies its path condition",
                "exhaustive_within_bounds": complete,
                "harnesses": per, "functions_encoded": ours, "functions_encoded_total": len(fns),
                "queries": {"total": tot["solver_queries"], "over_integers": tot["over_integers"], "sat": tot["solver_sat"], "unsat": tot["solver_unsat"], "cache_hits": tot["solver_cache_hits"],
                            "decided_by_byte_domains": tot["domain_decisions"], "assertions_checked": tot["asserts"],
                            "assertions_symbolic": tot["asserts_symbolic"], "assertion_queries": tot["assert_queries"], "solver_s": round(tot["solver_us"] / 1e6, 2)},
                "ir_build_s": round(self.t_ir, 1), "native_build_s": round(self.t_nat, 1),
                "violations": viols, "known_findings_reproduced": list(seen_known), "unconfirmed_counterexamples": unconf,
            },
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in per:
            print("%s %s: %s" % (self.prop, p["harness"], p.get("result") or "%d paths, %d queries, %.1f s%s%s%s%s" % (
                p["paths"], p["queries"], p["wall_s"], "" if p["exhaustive_within_bounds"] else " INCOMPLETE %s" % p["inconclusive"],
                " MISSING-WITNESS %s" % p["witnesses_missing"] if p["witnesses_missing"] else "",
                " MISMATCH %d" % len(p["replay_mismatches"]) if p["replay_mismatches"] else "",
                "")))
        for u in unconf:
            print("unconfirmed (not reported): %s %s input %s native %s" % (u["entry"], u["key"], u["input"][:100], u["native"]["end"]))
        for l in lines:
            print(l)
        print("%s %s: %s in %.0f s" % (self.prop, self.tier, "VIOLATED" if viols else ("held" if complete else "no violation found; exploration incomplete"), time.time() - self.t0))
        return 1 if viols else 0


def pretty(m):
    """functions of the code under test, from their mangled names (v0)"""
    if "6fix_rs" not in m:
        return None
    parts = re.findall(r"(\d+)", m)
    out, i = [], 0
    # decode length-prefixed identifiers
    idx = 0
    while idx < len(m):
        c = re.match(r"(\d+)_?", m[idx:])
        if c and int(c.group(1)) > 0 and idx + len(c.group(0)) + int(c.group(1)) <= len(m):
            n = int(c.group(1))
            s = m[idx + len(c.group(0)): idx + len(c.group(0)) + n]
            if re.match(r"^[A-Za-z_]\w*$", s):
                out.append(s)
                idx += len(c.group(0)) + n
                continue
        idx += 1
    if "fix_rs" not in out:
        return None
    k = out.index("fix_rs")
    if k > 1:
        return None
    r = "::".join(out[k + 1:k + 4])
    return None if r.startswith("verif_") or not r else r
