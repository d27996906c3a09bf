"""Builds the engine, the harness crate (for the engine and natively) and runs harnesses."""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil, fcntl

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
STABLE = "1.81.0-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
MIRI_SYSROOT = "/root/.cache/miri"
REG = "/root/.cargo/registry/src/index.crates.io-6f17d22bba15001f"


class Group:
    """A harness crate with the source trees of /repo that it compiles, and its builds."""

    def __init__(self, name, path, crate, exe, trees, pkgs, extra):
        self.name, self.dir, self.crate, self.exe, self.trees, self.pkgs, self.extra = name, os.path.join(V, path), crate, exe, trees, pkgs, extra


GROUPS = {g.name: g for g in (
    Group("main", "", "harness", "replay", ["pallets/democracy", "pallets/elections-phragmen", "pallets/on-slash-vesting"],
          ["pallet-democracy", "pallet-elections-phragmen", "on-slash-vesting"], []),
    # pallets whose third-party dependencies are not in this sandbox: their sources against stand-ins (stubs/)
    Group("fin", "grp/fin", "hfin", "replay-fin", ["pallets/linear-release", "pallets/proxy-bonding", "polimec-common/common"],
          ["pallet-linear-release", "pallet-proxy-bonding", "polimec-common", "jwt-compact", "pallet-timestamp", "staging-xcm"], ["grp/ws", "stubs"]),
    Group("fund", "grp/fund", "hfund", "replay-fund",
          ["pallets/funding", "pallets/linear-release", "pallets/proxy-bonding", "pallets/on-slash-vesting", "polimec-common/common"],
          ["pallet-funding", "pallet-linear-release", "pallet-proxy-bonding", "on-slash-vesting", "polimec-common", "jwt-compact", "pallet-timestamp",
           "pallet-xcm", "staging-xcm", "xcm-executor"], ["grp/ws", "stubs"]),
)}


class Fail(Exception):
    pass


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e.update(
        HOME="/root", CARGO_NET_OFFLINE="true", SKIP_WASM_BUILD="1", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Fail(f"{what} failed ({p.returncode}):\n{p.stdout[-6000:]}")
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, ff in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                fs += [os.path.join(d, f) for f in sorted(ff)]
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stamp(name):
    p = os.path.join(B, name + ".stamp")
    return open(p).read() if os.path.exists(p) else ""


def put_stamp(name, v):
    with open(os.path.join(B, name + ".stamp"), "w") as f:
        f.write(v)


def build_engine():
    h = tree_hash([os.path.join(V, "mirsym", x) for x in ("src", "Cargo.toml")])
    exe = os.path.join(B, "mirsym", "release", "mirsym")
    if stamp("engine") == h and os.path.exists(exe):
        return exe
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "mirsym")
    e["RUSTUP_TOOLCHAIN"] = "nightly-" + TRIPLE
    run(["cargo", "build", "--release", "--offline"], os.path.join(V, "mirsym"), e, "engine build")
    put_stamp("engine", h)
    return exe


def sysroot():
    if glob.glob(MIRI_SYSROOT + f"/lib/rustlib/{TRIPLE}/lib/libcore-*.rlib"):
        return MIRI_SYSROOT
    e = base_env()
    d = os.path.join(B, "sysroot")
    e["MIRI_SYSROOT"] = d
    run(["cargo", "+nightly-" + TRIPLE, "miri", "setup"], V, e, "miri sysroot")
    return d


def hashes(g):
    r = tree_hash([os.path.join(REPO, t) for t in g.trees] + [os.path.join(REPO, "Cargo.toml")])
    h = tree_hash([p for p in [os.path.join(g.dir, x) for x in (
        "harness/src", "harness/Cargo.toml", "symroot/src", "symroot/Cargo.toml", "symroot/Cargo.lock", "replay/src", "replay/Cargo.toml",
        "replay/Cargo.lock")] + [os.path.join(V, x) for x in ["symrt/src", "symrt/Cargo.toml", "replay/src"] + g.extra] if os.path.exists(p)])
    return r, h


def gen_pri():
    d = os.path.join(B, "pri")
    if os.path.exists(os.path.join(d, "Cargo.toml")):
        return
    src = os.path.join(REG, "sp-runtime-interface-28.0.0")
    tmp = d + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src, tmp)
    f = os.path.join(tmp, "src/impls.rs")
    s = open(f).read()
    # these assert that pointers have 32 bits (wasm); the engine interprets a 64-bit target
    s = re.sub(r"(?m)^assert_eq_size!.*$", "", s)
    open(f, "w").write(s)
    os.rename(tmp, d)


def tdir(k, g):
    return os.path.join(B, k if g.name == "main" else f"{k}-{g.name}")


def sym_env(g):
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["RUSTC"] = NIGHTLY + "/bin/rustc"
    e["CARGO_TARGET_DIR"] = tdir("sym", g)
    e["RUSTFLAGS"] = f"-Zalways-encode-mir -Cpanic=abort --cap-lints=allow --sysroot {sysroot()}"
    return e


def build_sym(g, rh):
    """MIR of the pallets and harnesses from /repo's current tree; returns the rustc arguments for the engine."""
    gen_pri()
    e = sym_env(g)
    cwd = os.path.join(g.dir, "symroot")
    st, args_f = stamp("sym-" + g.name), os.path.join(B, f"sym-{g.name}.args")
    if st == rh and os.path.exists(args_f):
        return json.load(open(args_f))
    if st:
        run(["cargo", "clean", "--offline", "--target", TRIPLE] + sum((["-p", p] for p in g.pkgs + [g.crate, "symrt", "symroot"]), []), cwd, e, "cargo clean")
    put_stamp("sym-" + g.name, "dirty")
    out = run(["cargo", "check", "-v", "--offline", "--target", TRIPLE], cwd, e, "build of the pallets for the engine")
    d = os.path.join(tdir("sym", g), TRIPLE, "debug", "deps")
    hs = sorted(glob.glob(d + f"/lib{g.crate}-*.rmeta"), key=os.path.getmtime)
    a = ["--crate-name", "symroot", "--edition=2021", os.path.join(g.dir, "symroot/src/lib.rs"), "--crate-type", "lib", "--emit=metadata",
         "-o", "/dev/null", "--target", TRIPLE, "-L", "dependency=" + d, "-L", "dependency=" + os.path.join(tdir("sym", g), "debug/deps"),
         "--extern", g.crate + "=" + hs[-1], "-Zalways-encode-mir", "-Cpanic=abort", "--cap-lints=allow", "--sysroot", sysroot(),
         "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
    json.dump(a, open(args_f, "w"))
    put_stamp("sym-" + g.name, rh)
    return a


def build_nat(g, rh):
    exe = os.path.join(tdir("nat", g), "debug", g.exe)
    st = stamp("nat-" + g.name)
    if st == rh and os.path.exists(exe):
        return exe
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_TARGET_DIR"] = tdir("nat", g)
    cwd = os.path.join(g.dir, "replay")
    if st:
        run(["cargo", "clean", "--offline"] + sum((["-p", p] for p in g.pkgs + [g.crate, "symrt", "replay"]), []), cwd, e, "cargo clean")
    put_stamp("nat-" + g.name, "dirty")
    run(["cargo", "build", "--offline"], cwd, e, "native build of the harnesses")
    put_stamp("nat-" + g.name, rh)
    return exe


def build_all(group="main"):
    g = GROUPS[group]
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rh = "-".join(hashes(g))
        import threading
        res = {}

        def go(k, f):
            try:
                res[k] = f()
            except Exception as ex:
                res[k] = ex

        ts = [threading.Thread(target=go, args=x) for x in
              (("engine", build_engine), ("sym", lambda: build_sym(g, rh)), ("nat", lambda: build_nat(g, rh)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for v in res.values():
            if isinstance(v, Exception):
                raise v
        return res["engine"], res["sym"], res["nat"]


def sym_run(exe, args, harness, env=None, out=None, group="main"):
    e = base_env()
    e["LD_LIBRARY_PATH"] = NIGHTLY + "/lib"
    e.update(env or {})
    return subprocess.Popen([exe, GROUPS[group].crate + "::" + harness, out] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def nat_run(exe, jobs, timeout=300):
    """jobs: list of (harness, [(name, value)]) -> list of outcome line lists."""
    inp = "".join("RUN %s\n%sGO\n" % (h, "".join("IN %s %s\n" % (n, v) for n, v in ins)) for h, ins in jobs)
    p = subprocess.run([exe], input=inp, capture_output=True, text=True, timeout=timeout)
    res, cur = [], []
    for l in p.stdout.splitlines():
        if l == "DONE":
            res.append(cur)
            cur = []
        else:
            cur.append(l)
    if len(res) != len(jobs):
        raise Fail(f"native run ended early ({p.returncode}): {p.stdout[-500:]} {p.stderr[-2000:]}")
    return res
