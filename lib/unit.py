"""Builds, from /repo's working tree plus one harness file, the whole-program
LLVM IR that the symbolic executor runs and the native replay binary."""
import glob, os, re, shutil, subprocess, sys, time, json

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
NIGHTLY = "nightly"
STABLE = "stable"
IRFLAGS = ("-C panic=abort -C embed-bitcode=yes -C lto=fat -C codegen-units=1 -C opt-level=1 -C debuginfo=0 "
           "-C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no --cfg vf_ir --cap-lints allow")
NATFLAGS = "--cap-lints allow"


class BuildError(Exception):
    pass


def put(path, text):
    """write only on change, so that cargo sees content changes and nothing else"""
    mode = "b" if isinstance(text, bytes) else ""
    try:
        with open(path, "r" + mode) as f:
            if f.read() == text:
                return
    except (OSError, UnicodeDecodeError):
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w" + mode) as f:
        f.write(text)


def mirror(src, dst, skip=()):
    """make dst's contents equal to src's, touching only files that differ"""
    want = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            want.add(r)
            if r in skip:
                continue
            with open(os.path.join(root, f), "rb") as h:
                put(os.path.join(dst, r), h.read())
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in want and r not in skip:
                os.unlink(os.path.join(root, f))


def entries(text):
    return re.findall(r"^pub fn (h_\w+)\(\)", text, re.M)


def gen(unit, harness):
    """harness: file name under /verif/harness"""
    d = os.path.join(B, "units", unit)
    hdir = os.path.join(V, "harness")
    src = os.path.join(REPO, "src")
    own = ("lib.rs", "replay.rs", "verif_rt.rs", "verif_native.rs", "verif_h.rs", "verif_common.rs")
    mirror(src, os.path.join(d, "src"), skip=own)
    for x in ("build", "resources"):
        if os.path.isdir(os.path.join(REPO, x)):
            mirror(os.path.join(REPO, x), os.path.join(d, x))
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        toml = f.read()
    toml = re.sub(r"(?ms)^\[(lib|\[bin\]|workspace|dev-dependencies)\].*?(?=^\[|\Z)", "", toml)
    toml += ('\n[lib]\nname = "fix_rs"\npath = "src/lib.rs"\ncrate-type = ["rlib"]\n'
             '\n[[bin]]\nname = "replay"\npath = "src/replay.rs"\n\n[workspace]\n'
             '\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n'
             '\n[profile.dev.package."*"]\ndebug-assertions = false\n'
             '\n[profile.dev.build-override]\nopt-level = 0\ndebug = 0\n')
    toml = toml.replace("[package]", "[package]\nautobins = false", 1)
    put(os.path.join(d, "Cargo.toml"), toml)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(V, "lib", "Cargo.lock")
    with open(lock) as f:
        lt = f.read()
    lf = os.path.join(d, "Cargo.lock.src")
    if not os.path.exists(lf) or open(lf).read() != lt or not os.path.exists(os.path.join(d, "Cargo.lock")):
        put(lf, lt)
        put(os.path.join(d, "Cargo.lock"), lt)
    root = "lib.rs" if os.path.exists(os.path.join(src, "lib.rs")) else "main.rs"
    with open(os.path.join(src, root)) as f:
        main = f.read()
    with open(os.path.join(hdir, harness)) as f:
        h = f.read()
    names = entries(h)
    main += "\n#[allow(warnings)]\npub mod verif_rt;\n#[cfg(not(vf_ir))]\n#[allow(warnings)]\npub mod verif_native;\n"
    main += "#[allow(warnings)]\nmod verif_common;\n#[allow(warnings)]\nmod verif_h;\n"
    for n in names:
        main += '#[cfg(vf_ir)]\n#[no_mangle]\npub extern "C" fn e_%s() {\n    verif_h::%s()\n}\n' % (n, n)
    main += "pub fn verif_find(n: &str) -> Option<fn()> {\n    match n {\n"
    for n in names:
        main += '        "%s" => Some(verif_h::%s as fn()),\n' % (n, n)
    main += "        _ => None,\n    }\n}\n"
    put(os.path.join(d, "src", "lib.rs"), main)
    put(os.path.join(d, "src", "replay.rs"),
        "#[cfg(not(vf_ir))]\nfn main() {\n    fix_rs::verif_native::main(fix_rs::verif_find)\n}\n#[cfg(vf_ir)]\nfn main() {}\n")
    for a, b in (("rt.rs", "verif_rt.rs"), ("native.rs", "verif_native.rs"), (harness, "verif_h.rs"), ("common.rs", "verif_common.rs")):
        with open(os.path.join(hdir, a)) as f:
            put(os.path.join(d, "src", b), f.read())
    return d, names


def patched_std():
    """a copy of the nightly standard library whose SipHash asks the executor
    for the hash value (see DESIGN.md, 'hash stub')"""
    dst = os.path.join(B, "rustlib")
    mark = os.path.join(dst, ".ok")
    if os.path.exists(mark):
        return dst
    sr = subprocess.check_output(["rustc", "+" + NIGHTLY, "--print", "sysroot"], text=True).strip()
    lib = os.path.join(sr, "lib", "rustlib", "src", "rust", "library")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree(lib, os.path.join(dst, "library"), symlinks=True)
    p = os.path.join(dst, "library", "core", "src", "hash", "sip.rs")
    with open(p) as f:
        t = f.read()
    i = t.index("impl<S: Sip> super::Hasher for Hasher<S>")
    a, b = t[:i], t[i:]
    b = b.replace("let length = msg.len();", "if unsafe { vf_hash_on() } == 0 {\n            return;\n        }\n        let length = msg.len();", 1)
    b = b.replace("        let mut state = self.state;\n", "        if unsafe { vf_hash_on() } == 0 {\n            return 0;\n        }\n        let mut state = self.state;\n", 1)
    # short keys, as tags are, stay readable: the executor can tell symbolic ones apart
    b = b.replace("        let mut state = self.state;\n", "        if self.ntail == self.length {\n            return unsafe { vf_hash(((self.length as u64) << 56) | self.tail ^ ((self.k0 & 0xffffff) << 32)) };\n        }\n        let mut state = self.state;\n", 1)
    b = b.replace("        state.v0 ^ state.v1 ^ state.v2 ^ state.v3\n", "        unsafe { vf_hash(state.v0 ^ state.v1 ^ state.v2 ^ state.v3) }\n", 1)
    assert b.count("vf_hash") == 4, "SipHash source has an unexpected shape"
    t = a + 'unsafe extern "C" {\n    fn vf_hash_on() -> u32;\n    fn vf_hash(k: u64) -> u64;\n}\n' + b
    with open(p, "w") as f:
        f.write(t)
    open(mark, "w").close()
    return dst


def run(cmd, env, cwd, what, timeout=1500):
    t0 = time.time()
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, "\n".join(r.stdout.splitlines()[-60:])))
    return time.time() - t0


def cargo_env(flags, target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_TARGET_DIR"] = os.path.join(B, target)
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    return e


TRIPLE = "x86_64-unknown-linux-gnu"


def build_ir(unit, d):
    e = cargo_env(IRFLAGS, "target-ir")
    e["__CARGO_TESTS_ONLY_SRC_ROOT"] = os.path.join(patched_std(), "library")
    out = os.path.join(B, "ir", unit + ".ll")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    pat = os.path.join(B, "target-ir", TRIPLE, "debug", "**", "fix_rs*.ll")
    # force the final crate to be regenerated: the IR is never reused between runs
    for x in glob.glob(pat, recursive=True):
        os.unlink(x)
    os.utime(os.path.join(d, "src", "lib.rs"))
    t = run(["cargo", "+" + NIGHTLY, "rustc", "--offline", "--lib", "--crate-type", "cdylib", "-Zbuild-std=std,panic_abort",
             "--target", TRIPLE, "--", "--emit=llvm-ir,link"], e, d, "IR build of " + unit)
    lls = glob.glob(pat, recursive=True)
    if len(lls) != 1:
        raise BuildError("expected one IR file, got %r" % lls)
    os.rename(lls[0], out)
    return out, t


def build_native(unit, d):
    e = cargo_env(NATFLAGS, "target-native")
    t = run(["cargo", "+" + STABLE, "build", "--offline", "--bin", "replay"], e, d, "native build of " + unit)
    out = os.path.join(B, "bin", unit)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy2(os.path.join(B, "target-native", "debug", "replay"), out)
    return out, t


def build_engine():
    e = cargo_env("", "target-engine")
    run(["cargo", "+" + STABLE, "build", "--release", "--offline"], e, os.path.join(V, "engine"), "engine build")
    return os.path.join(B, "target-engine", "release", "irsym")
