"""Shared machinery of the checks: build, run the symbolic executor, replay, evidence."""
import json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import irbuild

VERIF = irbuild.VERIF
ENGINE = os.path.join(VERIF, "engine")
BIN = os.path.join(ENGINE, "target", "release", "mmsym")


def build_engine():
    src = glob.glob(os.path.join(ENGINE, "src", "*.rs")) + [os.path.join(ENGINE, "Cargo.toml")]
    if os.path.exists(BIN) and all(os.path.getmtime(s) <= os.path.getmtime(BIN) for s in src):
        return
    e = irbuild.clean_env()
    p = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=ENGINE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        sys.exit(2)


LLVM = "/lib/rustlib/x86_64-unknown-linux-gnu/bin"
LIBC = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "fma", "fmaf"}


def retarget(lls, outdir):
    """Machine code of this machine from IR that was made for another one: (objects, None) or (None, error).
    What the IR leaves undefined is the core library's panics (which end the process) and the allocator (which
    has the same name in any program of this compiler)."""
    root = subprocess.run(["rustc", "+stable", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    os.makedirs(outdir, exist_ok=True)
    objs, undef, defined = [], set(), set()
    for i, l in enumerate(lls):
        with open(l) as f:
            t = f.read()
        t = re.sub(r"^target (datalayout|triple) = .*$", "", t, flags=re.M)
        t = re.sub(r'"(target-cpu|target-features|tune-cpu|probe-stack|frame-pointer)"="[^"]*"', "", t)
        src, obj = os.path.join(outdir, "u%d.ll" % i), os.path.join(outdir, "u%d.o" % i)
        with open(src, "w") as f:
            f.write('target triple = "x86_64-unknown-linux-gnu"\n' + t)
        p = subprocess.run([root + LLVM + "/llc", "-O1", "-relocation-model=pic", "-filetype=obj", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return None, p.stdout
        objs.append(obj)
        for x in subprocess.run(["nm", obj], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            w = x.split()
            if w[-2] == "U":
                undef.add(w[-1])
            elif w[-2] in "TtDdRrBbVvWw":
                defined.add(w[-1])
    A = [".text"]
    for u in sorted(undef - defined - LIBC):
        if u.startswith(("mmv_", "_GLOBAL_OFFSET_TABLE_")):
            continue
        if "___rust_" not in u:
            A += [".weak %s" % u, "%s:" % u, "jmp mm_panicked@PLT"]
    A.append('.section .note.GNU-stack,"",@progbits')
    s = os.path.join(outdir, "glue.s")
    with open(s, "w") as f:
        f.write("\n".join(A) + "\n")
    p = subprocess.run(["gcc", "-c", s, "-o", s[:-1] + "o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    return objs + [s[:-1] + "o"], None


def build_replay(config, outdir, cache_sym, lls=None):
    feats, env, profile = irbuild.CONFIGS[config]
    ext = config in irbuild.TARGETS
    extra = []
    if ext:
        objs, err = retarget(lls, os.path.join(outdir, "native-" + config))
        if objs is None:
            return None, err
        feats = "ext,cgemm" + (",constconf" if "constconf" in feats else "")
        extra = ["--", "-A", "warnings"] + [x for o in objs + ["-lm"] for x in ("-C", "link-arg=" + o)]
    target = os.path.join(outdir, "replay-" + config)
    e = irbuild.clean_env()
    e.update(env)
    e["CARGO_TARGET_DIR"] = target
    e["MM_CACHE_SYM"] = cache_sym or "none"
    e["RUSTFLAGS"] = "-A warnings" + (" --cfg mmverif" if config in irbuild.HOOKED else "") + irbuild.cpu_flags(config)
    p = subprocess.run(["cargo", "rustc" if ext else "build", "-q", "--offline", "--profile", profile, "--features", feats] + extra, cwd=os.path.join(VERIF, "replay"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    return os.path.join(target, profile, "mmreplay"), None


def cache_symbol(lls):
    for l in lls:
        with open(l) as f:
            m = re.search(r"@([A-Za-z0-9_]*std_detect[A-Za-z0-9_]*CACHE[A-Za-z0-9_]*)", f.read())
        if m:
            return m.group(1)
    return None


def run_job(job, lls, workdir, name):
    jf = os.path.join(workdir, name + ".job")
    of = os.path.join(workdir, name + ".json")
    L = ["ll " + x for x in lls]
    L.append("out " + of)
    L.append("solver " + job.get("solver", "z3-new"))
    L.append("deadline %s" % job.get("deadline", 60))
    L.append("want " + " ".join(job["want"]))
    if job.get("kinds") is not None:
        L.append("kinds " + " ".join(job["kinds"]))
    if job.get("log"):
        L.append("logaccess")
    if job.get("traces"):
        L.append("traces %d" % job["traces"])
    for k in ("pathcap", "maxcost", "rounds", "maxviol", "closeenv", "heavy"):
        if k in job:
            L.append("%s %s" % (k, job[k]))
    for k in ("closefail", "closeagain"):
        if job.get(k):
            L.append(k)
    for c in job.get("close", []):
        L.append("close " + c)
    L += ["scen " + s for s in job["scens"]]
    with open(jf, "w") as f:
        f.write("\n".join(L) + "\n")
    t = time.time()
    try:
        p = subprocess.run([BIN, jf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=job.get("deadline", 60) * 1.5 + 120)
        err = p.stderr[-3000:] if p.returncode != 0 else None
    except subprocess.TimeoutExpired:
        err = "the executor did not end in time"
    if err is not None or not os.path.exists(of):
        return None, err or "no output"
    with open(of) as f:
        d = json.load(f)
    d["label"] = job.get("label", name)
    d["config"] = job["config"]
    d["seconds"] = round(time.time() - t, 2)
    return d, None


# ---------------------------------------------------------------- replay
MODES = {
    "value": "value", "unwritten": "value", "beta0_read": "value", "bits": "bits", "history": "history", "foreign": "foreign", "special": "special",
    "panic": "panic", "trap": "panic", "unreachable": "panic", "race": "race", "cap": "cap", "feature": "none", "uninit": "uninit", "rounding": "rounding", "probe": "probe",
    "global_write": "history", "global_atomic_write": "history",
}
DECISIVE = {"value", "unwritten", "bits", "history", "foreign", "special", "panic", "probe"}


def frac(v):
    """an SMT real as a float"""
    t = v.replace("(", " ( ").replace(")", " ) ").split()

    def ev(i):
        if t[i] == "(":
            op = t[i + 1]
            i += 2
            a = []
            while t[i] != ")":
                x, i = ev(i)
                a.append(x)
            i += 1
            if op == "-":
                return (-a[0] if len(a) == 1 else a[0] - a[1]), i
            if op == "/":
                return a[0] / a[1], i
            raise ValueError(op)
        x = t[i].rstrip("?")
        return Fraction(x), i + 1
    try:
        return float(ev(0)[0])
    except Exception:
        return None


def call_line(model, ci, calls):
    c = calls[ci]
    scal = ci
    f, m, k, n = c["f"], c["m"], c["k"], c["n"]
    if f[0] in "=~":
        scal = int(f[1:])
        f, m, k, n = (calls[scal][x] for x in ("f", "m", "k", "n"))
    U = 2 ** 64 - 1
    d = []
    for nm, v in (("m", m), ("k", k), ("n", n)):
        if v == U:
            v = int(model.get("%d.%s" % (ci, nm), "0"))
        d.append(v)
    g = lambda x: model.get("%d.%s" % (ci, x), "0")
    bz = g("beta_is_zero")
    bz = {"1": 1, "0": 0}.get(bz, -1)
    return "%s %d %d %d %s %s %d %d%s" % (f, d[0], d[1], d[2], " ".join(g(x) for x in ("rsa", "csa", "rsb", "csb", "rsc", "csc")),
                                          " ".join(g("base_" + x) for x in "abc"), bz, scal, " shared" if "@" in calls[scal].get("lay", "") else "")


def replay_text(v):
    mode = MODES.get(v["kind"], "mem")
    ex, mo = v["extra"], v["model"]
    if v["calls"][0]["f"].startswith("!"):
        mode = "probe"
    if v["scen"].find("allocfail") >= 0:
        mode = "alloc"
    if mode == "foreign" and "Junk" in v["what"]:
        mode = "uninit"
    if mode in ("foreign", "history") and any(c["f"].startswith("~") for c in v["calls"]):
        mode = "stale"
    L = ["# %s: %s" % (v["kind"], v["what"].replace("\n", " ")[:600]), "# scenario %s, configuration %s" % (v["scen"], v["config"]), "# at %s" % v["where"], "mode " + mode]
    for i in range(len(v["calls"])):
        L.append("call " + call_line(mo, i, v["calls"]))
    L.append("target %d" % min(int(ex.get("call", "0")), len(v["calls"]) - 1))
    if "cell" in ex:
        L.append("cell " + ex["cell"].replace(",", " "))
    second = {k[7:]: x for k, x in ex.items() if k.startswith("second.")}
    if second:
        for i in range(len(v["calls"])):
            L.append("second " + call_line(second, i, v["calls"]))
    for k in ("cpu0", "cpu1", "cpu2", "env_len", "env_hex", "ncpu"):
        if mo.get(k, "") != "":
            L.append("%s %s" % (k, mo[k]))
    for k in ("allowed", "used", "conc"):
        if k in ex:
            L.append("%s %s" % (k, ex[k]))
    for key, src in (("leaf", mo.get("leaves", "")), ("role", ex.get("values", ""))):
        for x in src.split(";"):
            w = x.split(" ", 4)
            if len(w) == 5:
                f = frac(w[4])
                if f is not None:
                    L.append("%s %s %s %s %r" % (key, w[0], w[2], w[3], f))
    L.append("# features " + mo.get("features", ""))
    L.append("# path " + ex.get("path", "")[:2000])
    return "\n".join(L) + "\n"


def run_replay(binary, path):
    try:
        p = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return "timeout", "the replay did not end"
    return {3: "yes", 0: "no", 4: "unrealisable"}.get(p.returncode, "error %d" % p.returncode), p.stdout.strip()[-1500:]


def trace_text(traces):
    L = ["mode trace"]
    for t in traces:
        c = "%s %d %d %d %s %s" % (t["f"], t["m"], t["k"], t["n"], " ".join(t[x] for x in ("rsa", "csa", "rsb", "csb", "rsc", "csc")), " ".join(t["base_" + x] for x in "abc"))
        L.append("trace %s %r %r %r %r %s %s" % (c, t["alpha"][0], t["alpha"][1], t["beta"][0], t["beta"][1], " ".join(t.get("cpu%d" % i, "0") for i in range(3)), t["bits"]))
    return "\n".join(L) + "\n"
