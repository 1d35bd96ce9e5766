"""Compiler IR of /repo's current working tree, one build per configuration."""
import os, re, shutil, subprocess, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CRATES = ("matrixmultiply", "mmharness", "once_cell", "num_cpus", "rawpointer", "thread_tree")

SMALL = {}
for p in "SDCZ":
    SMALL["MATMUL_%sGEMM_MC" % p] = "10"
    SMALL["MATMUL_%sGEMM_KC" % p] = "11"
    SMALL["MATMUL_%sGEMM_NC" % p] = "13"
SMALL8 = {k: "8" for k in SMALL}
# every parameter different, so that a swapped pair shows
MIXED = {}
for i, p in enumerate("SDCZ"):
    MIXED["MATMUL_%sGEMM_MC" % p] = str(9 + i)
    MIXED["MATMUL_%sGEMM_KC" % p] = "0%d" % (20 + 3 * i) if p == "D" else str(20 + 3 * i)
    MIXED["MATMUL_%sGEMM_NC" % p] = str(40 + 5 * i)

# some variables set, the others at their defaults; a value of 20 digits and one with zeros in front
PARTIAL = {"MATMUL_DGEMM_KC": "00000000000000000077", "MATMUL_ZGEMM_NC": "65536", "MATMUL_SGEMM_MC": "8", "MATMUL_CGEMM_KC": "100"}

# the largest blocks, and the smallest that the documented ordering admits for every kernel
WIDE = {k: "65536" for k in SMALL}

CONFIGS = {
    # name: (features, extra environment, cargo profile)
    "std": ("std,cgemm", {}, "release"),
    "thr": ("threading,cgemm", {}, "release"),
    "small": ("std,cgemm,constconf", SMALL, "release"),
    "small8": ("std,cgemm,constconf", SMALL8, "release"),
    "mixed": ("std,cgemm,constconf", MIXED, "release"),
    "partial": ("std,cgemm,constconf", PARTIAL, "release"),
    "wide": ("std,cgemm,constconf", WIDE, "release"),
    "thrsmall": ("threading,cgemm,constconf", SMALL8, "release"),
    "fallback": ("std,cgemm", {"MMTEST_FEATURE": "fallback"}, "release"),
    "nostd": ("cgemm", {}, "release"),
    "dbg": ("std,cgemm", {}, "dbg"),
    "thrdbg": ("threading,cgemm,constconf", SMALL8, "dbg"),
    "smalldbg": ("std,cgemm,constconf", SMALL, "dbg"),
    "nostddbg": ("cgemm", {}, "dbg"),
    "nostdavx": ("cgemm", {}, "release"),
    "nostdfma": ("cgemm,constconf", SMALL, "release"),
    "nostdhsw": ("cgemm", {}, "release"),
    "a64": ("cgemm", {}, "release"),
    "a64small": ("cgemm,constconf", SMALL, "release"),
    "a64mixed": ("cgemm,constconf", MIXED, "release"),
    "a64dbg": ("cgemm", {}, "dbg"),
}
# processor features chosen when compiling (without std the kernels are selected by them)
FLAGS = {"nostdavx": "+avx", "nostdfma": "+avx,+fma", "nostdhsw": "+avx2,+fma"}
# configurations for another processor; the core library is compiled from rust-src along with them
A64 = "aarch64-unknown-linux-gnu"
TARGETS = {c: A64 for c in CONFIGS if c.startswith("a64")}


# configurations built with the guarded access to private items
HOOKED = {"mixed", "partial", "a64mixed"}


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("MATMUL_", "MMTEST_", "CARGO_", "RUST"))}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    if "RUSTUP_HOME" in os.environ:
        e["RUSTUP_HOME"] = os.environ["RUSTUP_HOME"]
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def cpu_flags(config):
    return " -C target-feature=" + FLAGS[config] if config in FLAGS else ""


def build(config, outdir, extra_env=None, hook=None):
    """Returns (list of .ll files, error text or None)."""
    feats, env, profile = CONFIGS[config]
    hook = config in HOOKED if hook is None else hook
    target = os.path.join(outdir, config)
    shutil.rmtree(target, ignore_errors=True)
    e = clean_env()
    e.update(env)
    e.update(extra_env or {})
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_BOOTSTRAP"] = "1"  # for share-generics only: library generics are compiled into the crate that uses them
    e["RUSTFLAGS"] = "-Z share-generics=no --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -A warnings" + (" --cfg mmverif" if hook else "") + cpu_flags(config)
    triple = TARGETS.get(config)
    other = ["-Z", "build-std=core,alloc", "--target", triple] if triple else []
    p = subprocess.run(["cargo", "build", "-q", "--offline"] + other + ["--profile", profile, "--features", feats],
                       cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return [], p.stdout
    lls = []
    for f in sorted(glob.glob(os.path.join(target, triple or "", profile, "deps", "*.ll"))):
        if os.path.basename(f).rsplit("-", 1)[0] in CRATES:
            lls.append(f)
    if triple and lls:
        core = [f for f in glob.glob(os.path.join(target, triple, profile, "deps", "*.ll")) if os.path.basename(f).rsplit("-", 1)[0] in ("core", "alloc")]
        x = helpers(lls, core)
        if x:
            lls.append(os.path.join(target, "helpers.ll"))
            with open(lls[-1], "w") as f:
                f.write(x)
    return lls, None


STOP = re.compile(r"panic|_fail|___rust_|handle_alloc_error|3fmt|^llvm\.|slice_(start|end|index)|copy_from_slice_impl")


def helpers(lls, core):
    """The definitions of the core library's small functions that the IR calls (a precompiled core library has them inlined)."""
    defs, globs = {}, {}
    for c in core:
        with open(c) as f:
            t = f.read()
        for m in re.finditer(r"^define [^\n]*?@([\w.$]+)\(.*?^}\n", t, re.M | re.S):
            defs[m.group(1)] = m.group(0)
        for m in re.finditer(r"^@([\w.$]+) = .*$", t, re.M):
            globs[m.group(1)] = m.group(0)
    have, need = set(), []
    for l in lls:
        with open(l) as f:
            t = f.read()
        have |= set(re.findall(r"^define [^\n]*?@([\w.$]+)\(", t, re.M))
        need += re.findall(r"^declare [^\n]*?@([\w.$]+)\(", t, re.M)
    out, done = [], set()
    while need:
        n = need.pop()
        if n in have or n in done or STOP.search(n):
            continue
        done.add(n)
        if n in defs:
            d = re.sub(r",? ![\w.]+ !\d+", "", defs[n])
            d = re.sub(r"^(define )(internal |private |hidden |linkonce_odr |weak_odr )*", r"\1", re.sub(r" #\d+", "", d))
            out.append(d)
            need += [x for x in re.findall(r"@([\w.$]+)", d) if x != n]
        elif n in globs:
            out.append(re.sub(r",? ![\w.]+ !\d+", "", globs[n]))
            need += [x for x in re.findall(r"@([\w.$]+)", globs[n]) if x != n]
    if not out:
        return ""
    text = "\n".join(out)
    known = set(re.findall(r"^(?:define [^\n]*?)?@([\w.$]+)(?:\(| = )", text, re.M))
    decl = []
    for n in sorted(set(re.findall(r"@([\w.$]+)\(", text)) - known):
        for c in core:
            with open(c) as f:
                m = re.search(r"^(?:declare|define) ([^\n]*@%s\([^\n]*?)( unnamed_addr)?( #\d+)?( \{)?$" % re.escape(n), f.read(), re.M)
            if m:
                s = re.sub(r"%[\w.]+(?=[,)])", "", m.group(1))
                decl.append("declare " + re.sub(r"^(internal |private |hidden |linkonce_odr |weak_odr )*", "", s))
                break
    return text + "\n" + "\n".join(decl) + "\n"
