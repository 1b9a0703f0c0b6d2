"""Shared machinery of the checks: builds the symbolic executor, compiles the harness crate together with
/repo's current sources to LLVM bitcode, runs harnesses, replays counterexamples and sampled paths natively."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TGT = os.path.join(VERIF, "target")
TOOLCHAIN = "1.72.1"          # the toolchain of /repo's own build
NCPU = os.cpu_count() or 4

# harness crate -> the /repo packages whose sources it encodes
CRATES = {
    "dex": dict(lib="dexh", packages=["serum_dex"], roots=["dex/src", "dex/Cargo.toml"]),
    "pool": dict(lib="poolh", packages=["serum-pool", "serum-pool-schema", "serum_assert_owner"],
                 roots=["pool/src", "pool/Cargo.toml", "pool/schema", "assert-owner"]),
    "proxy": dict(lib="proxyh", packages=["serum-dex-permissioned", "serum_dex"],
                  roots=["dex/permissioned", "dex/src", "dex/Cargo.toml"]),
    "crank": dict(lib="crankh", flags="--cfg serum_verify", packages=["crank", "serum-common", "serum_dex"],
                  roots=["dex/crank", "common", "dex/src", "dex/Cargo.toml"]),
    "admin": dict(lib="adminh", packages=["serum-pool-admin-controlled", "serum-pool", "serum-pool-schema"],
                  roots=["pool", os.path.join(VERIF, "harness", "pool", "src")]),
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(toolchain):
    e = dict(os.environ)
    e["HOME"] = "/root" if os.path.isdir("/root/.cargo") else e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    else:
        e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def sh(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, "\n".join(l for l in r.stdout.splitlines())[-6000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(TGT, exist_ok=True)
        self.p = os.path.join(TGT, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".in", ".lock"))]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def fresh(crate, tdir):
    """cargo decides by mtime; force the packages of /repo and the harness to be rebuilt when contents changed"""
    c = CRATES[crate]
    h = tree_hash([os.path.join(REPO, r) for r in c["roots"]] + [os.path.join(VERIF, "harness", crate)])
    stamp = os.path.join(tdir, "content.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for p in c["packages"] + [c["lib"]]:
            for prof in ("sx", "release", "debug"):
                for n in {p, p.replace("-", "_"), p.replace("_", "-")}:
                    for d in glob.glob(os.path.join(tdir, prof, ".fingerprint", n + "-*")):
                        shutil.rmtree(d, ignore_errors=True)
    return stamp, h


def build_engine():
    with Lock("engine"):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(TGT, "engine")],
           os.path.join(VERIF, "engine"), env(None), "building the symbolic executor")
    return os.path.join(TGT, "engine", "release", "sx")


def build_bitcode(crate):
    c = CRATES[crate]
    tdir = os.path.join(TGT, "bc-" + crate)
    with Lock("bc-" + crate):
        stamp, h = fresh(crate, tdir)
        e = env(TOOLCHAIN)
        e["RUSTFLAGS"] = ("--cfg sx " + c.get("flags", "")).strip()
        bc = os.path.join(tdir, "sx", "deps", c["lib"] + ".bc")
        if os.path.exists(bc) and not (os.path.exists(stamp) and open(stamp).read() == h):
            os.remove(bc)
        sh(["cargo", "rustc", "--offline", "--locked", "--profile", "sx", "--lib", "--target-dir", tdir,
            "--crate-type", "cdylib", "--", "--emit=llvm-bc"],
           os.path.join(VERIF, "harness", crate), e, "compiling %s with /repo's sources to bitcode" % crate)
        if not os.path.exists(bc):
            raise CheckError("no bitcode at " + bc)
        open(stamp, "w").write(h)
    return bc


def build_native(crate, prof):
    tdir = os.path.join(TGT, "native-" + crate + "-" + prof)
    with Lock("native-" + crate + "-" + prof):
        stamp, h = fresh(crate, tdir)
        e = env(TOOLCHAIN)
        if CRATES[crate].get("flags"):
            e["RUSTFLAGS"] = CRATES[crate]["flags"]
        sh(["cargo", "build", "--offline", "--locked", "--bin", "replay", "--target-dir", tdir]
           + (["--release"] if prof == "release" else []),
           os.path.join(VERIF, "harness", crate), e, "native %s build of %s" % (prof, crate))
        open(stamp, "w").write(h)
    return os.path.join(tdir, "release" if prof == "release" else "debug", "replay")


def replay(binary, harness, draws, timeout=30):
    """run a harness natively on an assignment; (kind, detail)"""
    try:
        r = subprocess.run([binary, harness, "-"], input="\n".join(draws.split()) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""
    obs = [l[4:].strip() for l in r.stdout.splitlines() if l.startswith("OBS ") or l == "OBS"]
    if r.returncode == 0 and "REPLAY-OK" in r.stdout:
        return "ok", obs[0] if obs else ""
    if r.returncode == 10:
        return "violation", [l for l in r.stdout.splitlines() if l.startswith("REPLAY-VIOLATION")][0]
    if r.returncode == 20:
        return "assumption", ""
    if r.returncode == 101:
        return "panic", r.stdout[-400:]
    return "crash", "exit %s %s" % (r.returncode, r.stdout[-400:])


def session_cpu(sid):
    """clock ticks used so far by all live processes of a session (and their reaped children)"""
    t = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read().rpartition(")")[2].split()
            except OSError:
                continue
            if f[3] == str(sid):
                t += sum(map(int, f[11:15]))
    return t


def kill_session(sid):
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if open("/proc/%s/stat" % d).read().rpartition(")")[2].split()[3] == str(sid):
                    os.kill(int(d), 9)
            except (OSError, ProcessLookupError):
                pass


STALL = 25


def run_sx(sx, bc, harness, opts, out, jobs, tmo):
    """Runs the executor. z3's timer thread deadlocks on rare occasions, which leaves a process that never again
    uses the processor: such a run is abandoned and started again, as is one in which a process died."""
    cmd = [sx, bc, harness, "--jobs", str(jobs), "--time", str(tmo), "--out", out] + list(opts)
    for attempt in range(3):
        with open(out + ".log", "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        t0 = last = time.time()
        used = -1
        stalled = False
        while p.poll() is None:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if now - last > 5 or used < 0:
                u = session_cpu(p.pid)
                if u != used:
                    used, last = u, now
                elif now - last > STALL:
                    stalled = True
            # a hard stop a little after the executor's own limit
            if stalled or now - t0 > tmo + 60:
                kill_session(p.pid)
                p.wait()
                if stalled:
                    break
                raise CheckError("%s: executor did not stop in time" % harness)
        if stalled:
            continue
        o = open(out + ".log").read()
        os.remove(out + ".log")
        if os.path.exists(out):
            r = json.load(open(out))
            # a solver process that died is no verdict either
            if attempt == 2 or not any("crashed" in e for e in r["errors"]):
                return r
            log("%s: %s, again" % (harness, r["errors"]))
            os.remove(out)
        elif attempt == 2:
            raise CheckError("%s: executor failed (%s): %s" % (harness, p.returncode, (o or "")[-2000:]))
    raise CheckError("%s: executor stalled" % harness)
