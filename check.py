#!/usr/bin/env python3
"""check.py <property> | check.py --setup | check.py --replay <file>

Decides one property of the crate in /repo: builds the harness against /repo's working tree, runs
the stages of the property, writes evidence/<property>.json. Exit 0: held. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken. Anything else: the check itself failed.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough, default quick).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRATE_DIR", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
START = time.time()
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


class CheckError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - START:7.1f}]", *a, flush=True)


def tree_hash():
    """Hash of everything the builds depend on."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "build.rs")]
    roots += [os.path.join(HERE, x) for x in ("refs", "facade", "harness", "configs", "toy", "port", "bare")]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, fs in os.walk(r) if "/target" not in d for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def target_dir():
    """Build output of exactly this tree; the output of other trees is removed."""
    base = os.path.join(HERE, "target")
    mine = os.path.join(base, tree_hash())
    os.makedirs(mine, exist_ok=True)
    os.utime(mine)
    others = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
    for d in others[:-2]:
        if d != mine:
            shutil.rmtree(d, ignore_errors=True)
    return mine


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTUP_TOOLCHAIN")}
    e["CARGO_HOME"] = os.environ.get("CARGO_HOME", e.get("CARGO_HOME", "")) or os.path.expanduser("~/.cargo")
    e.update(kw)
    return e


def cargo(crate, target, args, toolchain=None, kw={}):
    os.makedirs(target, exist_ok=True)  # cargo would rename one into place, over what another is building
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "--locked", "-q"] + args
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env(CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError(f"building {crate} {args} failed:\n{r.stdout[-6000:]}")


def parallel(jobs):
    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        for f in [ex.submit(*j) for j in jobs]:
            f.result()


def build_harness(t, more=""):
    parallel([(cargo, "harness", t, ["--profile", "release", "--features", more]), (cargo, "harness", t, ["--profile", "checked", "--features", f"std {more}"])])
    h = {b: os.path.join(t, b, "harness") for b in ("release", "checked")}
    r = subprocess.run([h["release"], "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError(r.stdout)
    return h


# std, opt-level of the library, overflow checks and debug assertions
CONFIGS = {
    "o3-nostd": ("", "3", "false"),
    "o3-nostd-checked": ("", "3", "true"),
    "o3-std": ("std", "3", "false"),
    "o3-std-checked": ("std", "3", "true"),
    "o0-nostd": ("", "0", "false"),
    "o0-nostd-checked": ("", "0", "true"),
    "o0-std": ("std", "0", "false"),
    "o0-std-checked": ("std", "0", "true"),
    "os-nostd": ("", '"s"', "false"),
    "o1-std-checked": ("std", "1", "true"),
}


def build_configs(t):
    """The recording harness around the library in each configuration."""

    def one(name, std, opt, checks):
        args = ["--profile", "release", "--features", " ".join(["record", std]).strip()]
        for p in ("facade", "crypto-pure"):
            for k, v in (("opt-level", opt), ("overflow-checks", checks), ("debug-assertions", checks)):
                args += ["--config", f"profile.release.package.{p}.{k}={v}"]
        cargo("harness", os.path.join(t, "configs", name), args)

    parallel([(one, n, *c) for n, c in CONFIGS.items()])
    paths = {n: os.path.join(t, "configs", n, "release", "harness") for n in CONFIGS}
    os.environ["C19_PEERS"] = " ".join(f"{n}={p}" for n, p in paths.items() if n != "o3-nostd")
    return paths["o3-nostd"]


def configurations(prop):
    exe = build_configs(target_dir())
    log("built")
    return [harness_stage(exe, "recorder", prop)]


def build_trace(t, opts):
    """The harness around the library compiled with reports of its control flow and accesses."""

    def one(opt):
        args = ["--profile", "release", "--features", "trace"]
        for p in ("facade", "crypto-pure"):
            args += ["--config", f"profile.release.package.{p}.opt-level={opt}"]
        cargo("harness", os.path.join(t, f"trace-o{opt}"), args, kw={"RUSTC_WRAPPER": os.path.join(HERE, "configs", "trace.sh")})

    parallel([(one, o) for o in opts])
    return [os.path.join(t, f"trace-o{o}", "release", "harness") for o in opts]


def traces(prop):
    # The unoptimised build branches where the source does. Branches that the optimiser makes out
    # of masks are looked for in thorough runs.
    opts = [0] if TIER == "quick" else [0, 3]
    exes = build_trace(target_dir(), opts)
    log("built")
    return [harness_stage(e, f"trace-o{o}", prop, fixed=False) for e, o in zip(exes, opts)]


def build_cov(t, more="", at=""):
    """The harness around the library compiled with reports of its edges and comparisons. Higher
    optimisation levels merge comparisons, which hides how close an input came."""
    args = ["--profile", "release", "--features", f"cov std {more}"]
    for p in ("facade", "crypto-pure"):
        for k, v in (("opt-level", "2"), ("overflow-checks", "true"), ("debug-assertions", "true")):
            args += ["--config", f"profile.release.package.{p}.{k}={v}"]
    d = os.path.join(t, at, "cov")
    cargo("harness", d, args, kw={"RUSTC_WRAPPER": os.path.join(HERE, "configs", "cov.sh")})
    return os.path.join(d, "release", "harness")


def build_work(t):
    """The harness that measures calls: around the library as users compile it, with reports of its
    edges, and guided by them."""
    d = {x: os.path.join(t, f"work-{x}") for x in ("release", "counted", "fuzz")}
    slow = [x for p in ("facade", "crypto-pure") for x in ("--config", f"profile.release.package.{p}.opt-level=0")]
    parallel(
        [
            (cargo, "harness", d["release"], ["--profile", "release", "--features", "work std"]),
            (cargo, "harness", d["counted"], ["--profile", "release", "--features", "work std", *slow], None, {"RUSTC_WRAPPER": os.path.join(HERE, "configs", "work.sh")}),
            (build_cov, t, "work", "work-fuzz"),
        ]
    )
    return {f"work-{x}": os.path.join(p, "cov" if x == "fuzz" else "", "release", "harness") for x, p in d.items()}


def resources(prop):
    h = build_work(target_dir())
    log("built")
    stats = [harness_stage(h[b], b, prop) for b in ("work-release", "work-counted")]
    st = harness_stage(h["work-fuzz"], "work-fuzz", prop, FUZZ[prop], fixed=False)
    st["rule"] = "stage work-fuzz: the same cases, from choice streams mutated under the guidance of edges, counts and comparison operands of the instrumented library; work and allocations only"
    return stats + [st]


def build_toy(t):
    """Not part of what must build: a crate may close its traits."""
    try:
        parallel([(cargo, "toy", os.path.join(t, "toy"), ["--profile", b]) for b in ("release", "checked")])
    except CheckError as e:
        log(f"toy block cipher left out: {e}")


# (build, length, nonce, key) of GCM messages that need the whole range of the counter
TOY = {
    "C07": [("release", (1 << 36) - 33, "0102030405060708090a0b0c", 90)],
    "C18": [("release", (1 << 36) - 33, "f1f2f3f4f5f6f7f8f9fafbfc", 7), ("checked", (1 << 36) - 33, "000000000000000000000000", 1)],
}


class Toys:
    def __init__(self, t, prop):
        self.prop, self.jobs = prop, []
        for build, *args in TOY.get(prop, []):
            exe = os.path.join(t, "toy", build, "toy")
            if os.path.exists(exe):
                args = [str(x) for x in args] + ["400" if TIER == "quick" else "3600"] + ["panics"] * (prop == "C18")
                self.jobs.append((build, args, subprocess.Popen([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))

    def __enter__(self):
        return self

    def __exit__(self, *_):
        for *_, p in self.jobs:
            p.kill()
            p.wait()

    def result(self):
        if not self.jobs:
            return []
        start, samples, n = time.time(), [], 0
        for build, args, p in self.jobs:
            out = p.communicate()[0].strip()
            if p.returncode == 1:
                path = work(f"{self.prop}-replay-toy.txt")
                with open(path, "w") as f:
                    f.write(f"property: {self.prop}\nfailure: GCM over a toy block cipher: {out}\nargs: {' '.join(args)}\nbuild: toy-{build}\n")
                raise Violation(path, out[-500:])
            n += p.returncode == 0
            samples.append(f"toy {build} {' '.join(args)}: {out}")
            log(f"{self.prop} toy {build}: {out}")
        return [{"stage": "toy", "evaluations": n, "distinct_nontrivial": n, "rule": "stage toy: Gcm over a block cipher of one xor, message of the greatest documented length; the last 64 MiB of ciphertext are compared", "samples": samples, "labels": {"counter to its end": n}, "wall_s": round(time.time() - start, 1)}]


# Executions of the coverage-guided stage, relative to the cases of the other stages.
FUZZ = dict(C01=0.6, C02=1.2, C03=2, C04=2, C05=0.5, C06=0.4, C07=0.2, C08=0.3, C09=0.25, C10=0.7, C11=1.2, C12=0.7, C13=0.5, C14=0.4, C15=0.35, C16=0.2, C17=0.3, C18=0.35, C21=0.25, C22=0.3, C24=1, C25=0.5)


class Violation(Exception):
    def __init__(self, path, msg):
        self.path, self.msg = path, msg


def work(*name):
    d = os.path.join(HERE, "work")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, *name)


def harness_stage(exe, build, prop, scale=1.0, fixed=True, extra=()):
    """One run of the harness; returns its statistics."""
    stage = build
    out, rep, jr = work(f"{prop}-{stage}.json"), work(f"{prop}-replay-{stage}.txt"), work(f"{prop}-{stage}.journal")
    for f in (out, rep, jr):
        if os.path.exists(f):
            os.remove(f)
    args = [prop, "--tier", TIER, "--seed", str(SEED), "--stage", stage, "--scale", str(scale), "--replay", rep, *extra]
    if not fixed:
        args.append("--no-fixed")
    limit = 800 if TIER == "quick" else 24 * 3600
    try:
        r = subprocess.run([exe, "run", *args, "--out", out, "--journal", jr, "--hashes", out + ".hashes"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        raise CheckError(f"{stage} took over {limit} s")
    with open(rep, "a") if os.path.exists(rep) else open(os.devnull, "w") as f:
        f.write(f"build: {build}\n")
    if r.returncode == 1 and os.path.exists(rep):
        raise Violation(rep, r.stdout.strip()[-500:])
    if r.returncode < 0 and -r.returncode in CRASH:
        crash(exe, build, prop, args, rep, jr, -r.returncode)
    if r.returncode:
        raise CheckError(f"{stage} ended with {r.returncode}:\n{r.stdout[-3000:]}")
    with open(out) as f:
        st = json.load(f)
    st["hashes"], st["exe"] = out + ".hashes", exe
    log(f"{prop} {stage}: {st['evaluations']} evaluations, {st['distinct_nontrivial']} distinct non-trivial, {st['wall_s']} s")
    return st


def crash(exe, build, prop, args, rep, jr, sig):
    """The process died: find the case that brings it down."""
    import struct

    with open(jr, "rb") as f:
        raw = f.read()
    if build.endswith("fuzz"):
        cases = []
        for k in range(0, len(raw), (1 << 16) + 4):
            (n,) = struct.unpack_from("<I", raw, k)
            with open(f"{jr}.{k}", "wb") as f:
                f.write(raw[k + 4 : k + 4 + n])
            cases.append(["--choices", f"{jr}.{k}"])
    else:
        cases = [["--index", str(i)] for i in sorted({x - 1 for (x,) in struct.iter_unpack("<Q", raw) if x})]
    log(f"process died of signal {sig} while on cases {cases}")
    for c in cases:
        r = subprocess.run([exe, "one", *args, *c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode == 1 and os.path.exists(rep):
            raise Violation(rep, r.stdout.decode(errors="replace")[-500:])
        if r.returncode < 0 and -r.returncode in CRASH:
            said = r.stdout.decode(errors="replace")
            why = re.search(r"^SUMMARY: (.*)|^(unsafe precondition.*)", said, re.M)
            msg = f"the process dies of signal {-r.returncode}" + (f": {why.group(0)}" if why else "")
            subprocess.run([exe, "blame", *args, *c, "--msg", msg], check=True, stderr=subprocess.DEVNULL)
            with open(rep, "a") as f:
                f.write(f"build: {build}\n")
            raise Violation(rep, msg)
    raise CheckError(f"died of signal {sig}; no single case reproduces it")


def two_builds(prop, scale=1.0):
    t = target_dir()
    built = []
    parallel([(lambda: built.append(build_harness(t)),), (build_cov, t)] + ([(build_toy, t)] if prop in TOY else []))
    h = built[0]
    log("built")
    with Toys(t, prop) as toys:
        return stages(t, h, prop, scale) + toys.result()


def build_generic(t):
    """The harness with primitives of its own under the library's generic constructions."""
    t = os.path.join(t, "generic")
    built = {}
    parallel([(lambda: built.update(build_harness(t, "generic")),), (lambda: built.update(fuzz=build_cov(t, "generic")),)])
    return built


def own_primitives(prop):
    t = target_dir()
    try:
        h = build_generic(t)
    except CheckError as e:
        # A crate may close its traits; what it must do is build for its users.
        build_harness(t)
        if "could not compile" not in str(e):
            raise
        log(f"no primitives from outside fit: {e}")
        return []
    log("built")
    return stages(t, h, prop, 1.0)


def stages(t, h, prop, scale):
    stats = [harness_stage(h["checked"], "checked", prop, scale), harness_stage(h["release"], "release", prop, scale)]
    st = harness_stage(h.get("fuzz") or build_cov(t), "fuzz", prop, FUZZ[prop], fixed=False)
    st["rule"] = "stage fuzz: the same cases and oracle, from choice streams mutated under the guidance of edges, counts and comparison operands of the instrumented library"
    return stats + [st]


def merge(stats):
    files = [s["hashes"] for s in stats if "hashes" in s]
    distinct = sum(s["distinct_nontrivial"] for s in stats if "hashes" not in s)
    if files:
        distinct += int(subprocess.check_output([stats[0]["exe"], "union", *files]))
        for f in files:
            os.remove(f)
    labels = {}
    for s in stats:
        for k, v in s.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for s in stats:
        samples += s["samples"][: max(2, 8 // len(stats))]
    return {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": distinct,
        "rule": " || ".join(dict.fromkeys(s["rule"] for s in stats)),
        "samples": samples,
        "labels": labels,
        "stages": [{k: v for k, v in s.items() if k not in ("samples", "rule", "labels", "property", "hashes", "exe")} for s in stats],
    }


def evidence(prop, stats, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {
        "property": prop,
        "tier": TIER if TIER == "thorough" else "quick",
        "seed": SEED,
        "level": "exploration",
        "coverage": merge(stats) if stats else {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run ended with a violation" if violations else "nothing could be run", "samples": []},
        "assumptions": ["the reference implementations in refs/ are right where OpenSSL's answers do not reach", "behaviour is that of the code compiled by this toolchain for x86-64"],
        "wall_s": round(time.time() - START, 1),
        "violations": violations,
    }
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1)


# ---- C23: other machines. Programs for them are built with the nightly toolchain, which has the
# sources of the standard library; what the toolchain cannot do is left out, and the log says so.

BARE = ["thumbv6m-none-eabi", "wasm32-unknown-unknown"]
MIRI = "s390x-unknown-linux-gnu"
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"


def vendor(t):
    """Packages for -Zbuild-std without a network: those of the standard library and the locked one."""
    d, tmp = os.path.join(t, "vendor"), os.path.join(t, f"vendor.{os.getpid()}")
    if not os.path.isdir(d):
        root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=env()).strip()
        lib = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
        os.makedirs(tmp)
        for x in os.listdir(lib):
            os.symlink(os.path.join(lib, x), os.path.join(tmp, x))
        with open(os.path.join(HERE, "port", "Cargo.lock")) as f:
            lock = f.read()
        for name, version, checksum in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([^"]+)"', lock):
            src = glob.glob(os.path.join(env()["CARGO_HOME"], "registry", "src", "*", f"{name}-{version}"))
            at = os.path.join(tmp, f"{name}-{version}")
            if src and not os.path.exists(at):
                shutil.copytree(src[0], at)
                with open(os.path.join(at, ".cargo-checksum.json"), "w") as f:
                    json.dump({"files": {}, "package": checksum}, f)
        os.rename(tmp, d)
    return ["--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{d}"']


def try_cargo(crate, target, args, kw={}):
    os.makedirs(target, exist_ok=True)
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "-q", *args], cwd=os.path.join(HERE, crate), env=env(CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def build_bare(t):
    """Targets without an operating system for which the library builds; a violation if the toolchain
    serves one and the library does not build for it."""
    packages, done = vendor(t), []

    def one(target):
        args = ["--release", "--target", target, "-Zbuild-std=core", *packages]
        d = os.path.join(t, "bare", target)
        rc, out = try_cargo("bare", d, args)
        if rc:
            log(f"the toolchain does not serve {target}: {out[-500:]}")
            return
        rc, out = try_cargo("bare", d, args + ["--features", "library"])
        if rc:
            path = work("C23-replay-bare.txt")
            errors = [x for x in out.splitlines() if x.startswith("error")]
            with open(path, "w") as f:
                f.write(f"property: C23\nbuild: bare\nfailure: does not build for {target} with the std feature off: {errors[:3]}\n\n{out[-6000:]}")
            raise Violation(path, f"does not build for {target}: {errors[:3]}")
        done.append(target)

    parallel([(one, b) for b in BARE])
    return done


def build_wasm(t):
    """A program that is a peer of the recording harness on a 32-bit machine."""
    if not shutil.which("node"):
        return log("no node")
    d = os.path.join(t, "port")
    args = ["--release", "--lib", "--features", "record", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_unwind", *vendor(t)]
    rc, out = try_cargo("port", d, args, dict(RUSTFLAGS="-Cpanic=unwind"))
    if rc:
        return log(f"no WebAssembly: {out[-2000:]}")
    exe = os.path.join(d, "peer.sh")
    run, wasm = os.path.join(HERE, "port", "run.mjs"), os.path.join(d, "wasm32-unknown-unknown", "release", "port.wasm")
    with open(exe, "w") as f:
        f.write(f'#!/bin/sh\nexec node {run} {wasm} "$@"\n')
    os.chmod(exe, 0o755)
    r = subprocess.run([exe, "ops", "1", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "32 bits" not in r.stdout:
        return log(f"no WebAssembly: {r.stdout[-2000:]}")
    return exe


def miri_run(t, args, limit, target=MIRI, flags=MIRIFLAGS):
    kw = dict(MIRIFLAGS=flags, XDG_CACHE_HOME=os.path.join(t, "xdg"))
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--target", target, "--", *args]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "port"), env=env(CARGO_TARGET_DIR=os.path.join(t, "miri"), **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout


def miri(t, args, limit):
    rc, out = miri_run(t, args, limit)
    return out if rc == 0 else None


def miri_setup(t, target):
    e = env(XDG_CACHE_HOME=os.path.join(t, "xdg"))
    return subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=os.path.join(HERE, "port"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def build_miri(t):
    r = miri_setup(t, MIRI)
    out = r.returncode == 0 and miri(t, ["0", "/dev/null"], 300)
    if not out or "big-endian" not in out:
        log(f"no {MIRI}: {r.stdout[-2000:]} {out}")
        return False
    return True


def build_recorder(t):
    d = os.path.join(t, "recorder")
    cargo("harness", d, ["--profile", "release", "--features", "record std"])
    return os.path.join(d, "release", "harness")


KEY = "x" + bytes(range(32)).hex()
NONCE = "x" + bytes(range(100, 112)).hex()
# lengths that do not fit 32 bits, counted in bits or bytes
LONG = ["long-sha 256 4294967303", "long-sha 512 4294967303", f"long-data gcm128 {KEY[:33]} {NONCE} 536870919", f"long-data chapoly {KEY} {NONCE} 536870919", "long-sha 224 536870919", "long-sha 384 536870919"]
LONGER = [f"long-message gcm256 {KEY} {NONCE} 536870919", f"long-message chapoly {KEY} {NONCE} 536870919"]


def op_lines(exe, *args):
    return subprocess.run([exe, *args], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()


def shares(lines):
    """What eight interpreters are given; two of them the operations on curves, which take seconds each."""
    curves = [l for l in lines if l.startswith(("x-", "ed-"))]
    rest = [l for l in lines if not l.startswith(("x-", "ed-"))]
    return [c for c in [curves[k::2] for k in range(2)] + [rest[k::6] for k in range(6)] if c]


def ops_stage(name, exe, run, lines, limit, t0):
    """Operations with the answers of this machine, on another one."""
    chunks = shares(lines)

    def one(k):
        path = work(f"C23-{name}-{k}.ops")
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in chunks[k]))
        out = run(path, limit)
        os.remove(path)
        return out

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(chunks))))
    ran, labels, samples = 0, {}, []
    for c, out in zip(chunks, outs):
        if out is None:
            log(f"{name}: no answer")
            continue
        n = int(re.search(r"^ran (\d+)$", out, re.M).group(1))
        ran += n
        samples += c[:1]
        for l in c[:n]:
            labels[l.split()[0]] = labels.get(l.split()[0], 0) + 1
    bad = differing(outs)
    if bad:
        raise op_violation(name, exe, run, bad)
    distinct = len({l for c, out in zip(chunks, outs) if out for l in c[: int(re.search(r"^ran (\d+)$", out, re.M).group(1))]})
    log(f"C23 {name}: {ran} operations of {len(lines)}")
    return {"stage": name, "evaluations": ran, "distinct_nontrivial": distinct, "rule": f"stage {name}: single operations with generated arguments, answers of this machine against those of the other; every operation counts", "samples": samples, "labels": labels, "wall_s": round(time.time() - t0, 1)}


def differing(outs):
    return sorted((x for out in outs if out for x in re.findall(r"^differs (.*)\ngot (.*)$", out, re.M)), key=lambda x: len(x[0]))


def op_violation(name, exe, run, bad):
    """Shrinks by trying all smaller operations at once."""
    line, got = bad[0]
    for step in range(6):
        lines = op_lines(exe, "ops-smaller", line.split(" = ")[0])
        path = work(f"C23-{name}-smaller.ops")
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in lines))
        more = differing([run(path, 30)])
        os.remove(path)
        if not more:
            break
        line, got = more[0]
    path = work(f"C23-replay-{name}.txt")
    with open(path, "w") as f:
        f.write(f"property: C23\nbuild: {name}\nline: {line}\nfailure: {line.split(' = ')[0]} answers {got} on {name}\nshrink steps: {step}\n")
    return Violation(path, f"{line.split(' = ')[0][:200]} answers {got[:80]} on {name}, {line.split(' = ')[1][:80]} here")


def run_wasm(wasm):
    def f(path, limit):
        r = subprocess.run([wasm, "ops", str(limit), path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return r.stdout if r.returncode == 0 else None

    return f


def machines(prop):
    t, quick = target_dir(), TIER == "quick"
    vendor(t)
    built = {}
    jobs = dict(here=build_recorder, bare=build_bare, wasm=build_wasm, miri=build_miri)
    # what builds here but not for another machine is a violation, and so found out first
    parallel([(lambda n=n: built.update({n: jobs[n](t)}),) for n in ("here", "bare")])
    parallel([(lambda n=n: built.update({n: jobs[n](t)}),) for n in ("wasm", "miri")])
    log("built")
    stats = []
    if built["wasm"]:
        os.environ["C19_PEERS"] = f"wasm32={built['wasm']}"
        stats.append(harness_stage(built["here"], "wasm32", prop))
        t0 = time.time()
        lines = op_lines(built["here"], "ops", str(SEED), "0", "4000" if quick else "200000")
        stats.append(ops_stage("wasm32-ops", built["here"], run_wasm(built["wasm"]), lines, 200 if quick else 3600, t0))
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            lines = [x[0] for x in ex.map(lambda l: op_lines(built["here"], "op", l), LONG if quick else LONG + LONGER)]
        stats.append(ops_stage("wasm32-long", built["here"], run_wasm(built["wasm"]), lines, 200 if quick else 3600, t0))
    if built["miri"]:
        t0 = time.time()
        n, limit = (900, 120) if quick else (60000, 3600)
        lines = op_lines(built["here"], "ops", str(SEED + 1000), "0", str(n))
        stats.append(ops_stage("s390x", built["here"], lambda path, limit: miri(t, [str(limit), path], limit + 200), lines, limit, t0))
    if stats and built["bare"]:
        stats.append({"stage": "bare", "evaluations": len(built["bare"]), "distinct_nontrivial": len(built["bare"]), "rule": "stage bare: the library with all generic code builds for a machine without an operating system", "samples": built["bare"], "labels": {}, "wall_s": 0})
    return stats


def replay_machines(t, build, path):
    vendor(t)
    if build == "bare":
        try:
            print(f"builds for {build_bare(t)}")
            return 0
        except Violation as v:
            print(v.msg)
            return 1
    here, wasm = build_recorder(t), build_wasm(t) if build.startswith("wasm32") else None
    if build == "wasm32":
        os.environ["C19_PEERS"] = f"wasm32={wasm}"
        return subprocess.run([here, "replay", path]).returncode
    with open(path) as f:
        line = next(l[6:].strip() for l in f if l.startswith("line: "))
    lines = op_lines(here, "op", line.split(" = ")[0])
    p = work("C23-replayed.ops")
    with open(p, "w") as f:
        f.write(lines[0] + "\n")
    if build == "s390x" and not build_miri(t):
        return 2
    out = run_wasm(wasm)(p, 600) if wasm else miri(t, ["600", p], 800)
    print(lines[0], out, sep="\n")
    return 1 if differing([out]) else 0


# ---- C25: builds in which misuse of memory ends the process, and an interpreter that knows what is
# undefined. Made with the nightly toolchain; what it cannot do is left out, and the log says so.

HOST = "x86_64-unknown-linux-gnu"
HOSTFLAGS = "-Zmiri-disable-isolation"
# name -> sanitizer, opt-level and debug assertions of the library, further features, whether to build std
SANITIZED = {"asan": ("address", 1, "false", "", False), "asan-fuzz": ("address", 2, "true", "cov", False), "msan": ("memory", 1, "true", "", True)}
os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
os.environ["MSAN_OPTIONS"] = "abort_on_error=1"


def build_sanitized(t, names):
    vendor(t)
    done = {}

    def one(name):
        sanitizer, opt, checks, more, std = SANITIZED[name]
        args = ["--profile", "release", "--features", f"std {more}", "--target", HOST]
        for p in ("facade", "crypto-pure"):
            for k, v in (("opt-level", opt), ("overflow-checks", checks), ("debug-assertions", checks)):
                args += ["--config", f"profile.release.package.{p}.{k}={v}"]
        kw = dict(RUSTFLAGS=f"-Zsanitizer={sanitizer}")
        if more:
            kw["RUSTC_WRAPPER"] = os.path.join(HERE, "configs", "cov.sh")
        if std:
            args += ["-Zbuild-std=std,panic_unwind", *vendor(t)]
        d = os.path.join(t, name)
        rc, out = try_cargo("harness", d, args, kw)
        if rc:
            return log(f"no {name}: {out[-2000:]}")
        exe = os.path.join(d, HOST, "release", "harness")
        for kind in ["uninit"] if sanitizer == "memory" else ["heap", "stack"]:
            r = subprocess.run([exe, "oops", kind], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != -signal.SIGABRT or "SUMMARY: " not in r.stdout:
                return log(f"no {name}: misses {kind}: {r.stdout[-1000:]}")
        done[name] = exe

    parallel([(one, n) for n in names])
    return done


def build_interpreter(t):
    r = miri_setup(t, HOST)
    for kind in ("heap", "uninit"):
        rc, out = (1, "") if r.returncode else miri_run(t, ["oops", kind], 300, HOST, HOSTFLAGS)
        if rc != 1 or "Undefined Behavior" not in out:
            log(f"no interpreter: {r.stdout[-1000:]} {out[-1000:]}")
            return False
    return True


def undefined(t, lines, seconds):
    """Runs operations in the interpreter: how many ran, and the one that is undefined with why."""
    path = work(f"C25-{hashlib.sha256(''.join(lines).encode()).hexdigest()[:12]}.ops")
    with open(path, "w") as f:
        f.write("".join(l + "\n" for l in lines))
    rc, out = miri_run(t, [str(seconds), path, "aloud"], seconds + 250, HOST, HOSTFLAGS)
    os.remove(path)
    on = re.findall(r"^on (.*)$", out, re.M)
    why = re.search(r"Undefined Behavior: (.*)", out)
    if why and on:
        return len(on), (on[-1], why.group(1))
    if rc != 0:
        log(f"interpreter: no answer: {out[-500:]}")
    return len(on) if rc == 0 else 0, None


def interpreted(t, exe, n, limit):
    t0 = time.time()
    lines = op_lines(exe, "ops", str(SEED + 2000), "0", str(n))
    chunks = shares(lines)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda c: undefined(t, c, limit), chunks))
    bad = sorted((b for _, b in outs if b), key=lambda b: len(b[0]))
    if bad:
        line, why = bad[0]
        for step in range(6):
            # all smaller operations, as far as the first that is undefined
            _, more = undefined(t, sorted(op_lines(exe, "ops-smaller", line.split(" = ")[0]), key=len), 40)
            if not more or len(more[0]) >= len(line):
                break
            line, why = more
        path = work("C25-replay-miri.txt")
        with open(path, "w") as f:
            f.write(f"property: C25\nbuild: miri\nline: {line}\nfailure: undefined behaviour: {why}\nshrink steps: {step}\n")
        raise Violation(path, f"{line.split(' = ')[0][:200]}: undefined behaviour: {why}")
    ran = [l for (k, _), c in zip(outs, chunks) for l in c[:k]]
    log(f"C25 miri: {len(ran)} operations of {n}")
    labels = {}
    for l in ran:
        labels[l.split()[0]] = labels.get(l.split()[0], 0) + 1
    return {"stage": "miri", "evaluations": len(ran), "distinct_nontrivial": len(set(ran)), "rule": "stage miri: single operations with generated arguments in an interpreter that stops at undefined behaviour; every operation counts", "samples": ran[:3], "labels": labels, "wall_s": round(time.time() - t0, 1)}


def memory(prop):
    t, quick = target_dir(), TIER == "quick"
    plain = os.path.join(t, "release", "harness")
    built = {}
    vendor(t)
    parallel([(cargo, "harness", t, ["--profile", "release"]), (lambda: built.update(build_sanitized(t, SANITIZED)),), (lambda: built.update(miri=build_interpreter(t)),)])
    log("built")
    stats = []
    for name, scale in (("asan", 1.0), ("asan-fuzz", FUZZ[prop]), ("msan", 1.0)):
        if name in built:
            stats.append(harness_stage(built[name], name, prop, scale, fixed=name != "asan-fuzz"))
    if built["miri"]:
        stats.append(interpreted(t, plain, 2000 if quick else 40000, 120 if quick else 3600))
    return stats


def replay_memory(t, build, path):
    if build != "miri":
        exe = build_sanitized(t, [build]).get(build)
        return 2 if not exe else subprocess.run([exe, "replay", path]).returncode
    if not build_interpreter(t):
        return 2
    with open(path) as f:
        line = next(l[6:].strip() for l in f if l.startswith("line: "))
    _, bad = undefined(t, [line], 600)
    print(bad or f"{line}: defined")
    return 1 if bad else 0


PROPS = {f"C{n:02}": two_builds for n in list(range(1, 19)) + [21]}
PROPS["C19"] = configurations
PROPS["C20"] = traces
PROPS["C22"] = own_primitives
PROPS["C23"] = machines
PROPS["C24"] = resources
PROPS["C25"] = memory


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build_harness(target_dir())
        build_configs(target_dir())
        build_trace(target_dir(), [0])
        build_cov(target_dir())
        build_toy(target_dir())
        build_work(target_dir())
        vendor(target_dir())
        try:
            for b in (build_recorder, build_bare, build_wasm, build_miri, build_interpreter):
                b(target_dir())
            build_sanitized(target_dir(), SANITIZED)
        except Violation as v:
            log(v.msg)
        try:
            build_generic(target_dir())
        except CheckError as e:
            log(f"no primitives from outside fit: {e}")
        log("set up")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            build = next((l.split()[1] for l in f if l.startswith("build:")), "checked")
        t = target_dir()
        if build.startswith("toy-"):
            build_toy(t)
            with open(sys.argv[2]) as f:
                args = next(l.split()[1:] for l in f if l.startswith("args:"))
            return subprocess.run([os.path.join(t, "toy", build[4:], "toy"), *args]).returncode
        with open(sys.argv[2]) as f:
            own = any(l.split() == ["property:", "C22"] for l in f)
        if "property: C23\n" in open(sys.argv[2]).read():
            return replay_machines(t, build, sys.argv[2])
        if "property: C25\n" in open(sys.argv[2]).read():
            rc = replay_memory(t, build, sys.argv[2])
            return 1 if rc < 0 else rc
        if own:
            h = build_generic(t)
        elif build == "recorder":
            h = {build: build_configs(t)}
        elif build.startswith("trace-o"):
            h = {build: build_trace(t, [int(build[7:])])[0]}
        elif build.endswith("fuzz"):
            h = {build: build_cov(t)}
        else:
            h = build_harness(t)
        rc = subprocess.run([h[build], "replay", sys.argv[2]]).returncode
        if rc < 0:
            print(f"the process dies of signal {-rc}")
        return 1 if rc < 0 else rc
    prop = sys.argv[1]
    if prop not in PROPS:
        print(__doc__)
        return 2
    try:
        stats = PROPS[prop](prop)
    except Violation as v:
        evidence(prop, [], 1)
        print(f"{prop}: {v.msg}")
        print(f"VIOLATION property={prop} replay={v.path}", flush=True)
        return 1
    except CheckError as e:
        print(f"{prop}: check failed: {e}", flush=True)
        return 2
    evidence(prop, stats, 0)
    log(f"{prop}: held")
    return 0


if __name__ == "__main__":
    sys.exit(main())
