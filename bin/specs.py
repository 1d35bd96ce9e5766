"""What each check explores, in which configurations, with which obligations."""

REAL, CPLX = ["sgemm", "dgemm"], ["cgemm", "zgemm"]
ALL = REAL + CPLX


def grid(fs, ms, ks, ns, lay="sym", pre=""):
    out = []
    for f in fs:
        for m in ms:
            for k in ks:
                for n in ns:
                    out.append("%s%s %d %d %d %s" % (pre, f, m, k, n, lay))
    return out


def uniq(l):
    return list(dict.fromkeys(l))


def tiles(fs, big, lay="sym"):
    """sizes around every tile edge of the kernels (MR, NR in {2,4,8,16}) and every unrolling remainder in k"""
    T = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17] if big else [1, 3, 4, 5, 8, 9]
    K = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17] if big else [1, 2, 4, 5, 8, 9]
    out = grid(fs, T, [3], T, lay)
    out += grid(fs, [1, 3, 9], K, [2, 5, 9], lay)
    out += grid(fs, [0, 1, 5, 9], [0, 1], [0, 1, 5, 9], lay)
    return uniq(out)


ASSUME = [
    "the LLVM IR that rustc 1.99.1 emits at opt-level 1 without vectorisation means what the machine code built from the same source does (bit comparisons of executor and machine on sampled paths support this)",
    "strides that are used are at most 2^44 elements in magnitude; addresses are below 2^63; distinct objects lie in distinct 1 TiB slots",
    "the caller's contract: the matrices are valid for their dimensions, elements of C are distinct and C does not overlap A or B",
    "x86-64, and AArch64 without std (32-bit processors are not covered); CPU features are consistent with what hardware implies",
    "z3's unsat answers",
]
BOUND = "each dimension at the concrete sizes listed in samples/jobs (sizes around every kernel tile edge, every block edge and every size the executor found to take a branch side not taken before); all else symbolic: strides, base addresses, alpha, beta, matrix contents, CPU features, thread-local and heap placement"


def job(config, want, scens, **k):
    d = {"config": config, "want": want, "scens": scens, "label": k.pop("label", config)}
    d.update(k)
    return d


def edges(fs, deep=False):
    """sizes just past the block edges of the default configuration (real MC 64, KC 256, NC 1024; complex MC 32, NC 512)"""
    out = []
    for f in fs:
        r = f in REAL
        mc, nc = (64, 1024) if r else (32, 512)
        out += ["%s %d 3 3 sym" % (f, mc + 1), "%s 3 257 2 sym" % f, "%s 2 2 %d sym" % (f, nc + 1), "%s %d 258 2 srr" % (f, mc + 1)]
        if deep:
            out += ["%s %d 2 2 sym" % (f, mc), "%s 2 256 3 sym" % f, "%s 2 2 %d sym" % (f, nc), "%s %d 2 9 sym" % (f, 2 * mc + 3), "%s 2 515 2 sym" % f,
                    "%s 2 2 %d rsr" % (f, 2 * nc + 3), "%s 2 258 %d rrr +fma b1" % (f, nc + 1), "%s %d 3 %d rsr" % (f, mc + 1, nc + 1), "%s %d 258 9 grn" % (f, mc + 9), "%s 9 258 17 cgz" % f]
    return out


def blocks(fs, deep=False):
    """sizes that wrap around every blocking loop of the small configuration (MC, KC, NC = 10, 11, 13)"""
    out = grid(fs, [9, 11, 21], [10, 12, 23], [12, 14, 27])
    for f in fs:
        out += ["%s 3 2 40 sym" % f, "%s 2 34 3 sym" % f, "%s 31 2 3 sym" % f, "%s 31 34 40 rrr" % f]
    if deep:
        out += grid(fs, [1, 10, 20, 33], [1, 11, 22, 34], [1, 13, 26, 40])
    return uniq(out)


def same(fs):
    """A and B are the same memory: B = A, and B = A transposed"""
    out = []
    for f in fs:
        out += ["%s %d %d %d sym@s" % (f, x, x, x) for x in (1, 3, 4, 5, 9)]
        out += ["%s %d %d %d sym@t" % (f, m, k, m) for m, k in ((3, 2), (5, 4), (9, 5))] + ["%s 8 8 8 rrr@s" % f, "%s 11 12 11 rcr@t" % f]
    return out


CLOSE = "%s sym 40,40,40 200,300,200 1100,600,1100 6000,4000,6000 70000,1,70000"


# sizes up to these, at costs up to this, for this many sides of size-dependent decisions that nothing cheaper takes
HEAVY = {True: "3000 9000 3000 5000000 3", False: "6000 12000 6000 20000000 8"}


def std_jobs(fs, want, kinds, tier, log=False, extra=(), wit=(), big=None, close=True, aarch64=True):
    """the sizes and configurations every single-call obligation is decided on"""
    q = tier == "quick"
    big = (not q) if big is None else big
    dl = (lambda a, b: a if q else b)
    mk = lambda cfg, sc, **k: job(cfg, want, sc, kinds=kinds, witness=list(wit), log=log, **k)
    jobs = [
        mk("std", tiles(fs, big) + edges(fs, not q) + same(fs), label="std tiles and block edges", rounds=3 if q else 6, maxcost=60000 if q else 600000, deadline=dl(130, 500), traces=6, **({"close": [CLOSE % ",".join(fs)], "heavy": HEAVY[q]} if close else {})),
        mk("small", blocks(fs, not q) + same(fs), label="small blocks", deadline=dl(60, 300)),
        mk("fallback", tiles(fs, big) + same(fs), label="portable kernels", deadline=dl(40, 200), traces=3),
        mk("nostd", tiles(fs, big), label="no_std", deadline=dl(30, 200)),
        mk("nostdavx", tiles(fs, big), label="no_std, AVX", deadline=dl(20, 100)),
        mk("nostdfma", blocks(fs, not q), label="no_std, FMA, small blocks", deadline=dl(20, 100)),
        mk("nostdhsw", tiles(fs, big), label="no_std, AVX2 and FMA", deadline=dl(20, 100)),
    ]
    if aarch64:
        jobs.append(mk("a64", tiles(fs, big) + edges(fs, not q) + same(fs), label="AArch64", deadline=dl(60, 300), traces=4))
        jobs.append(mk("a64small", blocks(fs, not q), label="AArch64, small blocks", deadline=dl(30, 150)))
    if want and set(want) != {"leak"}:
        jobs.append(mk("thrsmall", thread_sizes(fs, not q), label="threading build", deadline=dl(90, 300)))
    return jobs + list(extra)


def thread_sizes(fs, deep=False):
    """the threading build with blocks of 8: with one thread, and with every number of threads the size admits"""
    out = []
    for f in fs:
        out += ["%s 9 3 9 sym" % f, "%s 9 11 14 rsr" % f, "%s 21 12 27 rrr" % f]
    big = {"sgemm": "sgemm 12 1930 5 rrr -avx t32", "dgemm": "dgemm 12 3856 5 rrr +fma t32", "cgemm": "cgemm 12 1930 3 rrr -avx t32", "zgemm": "zgemm 12 1930 3 rrr +fma t32"}
    out += [big[f] for f in fs]
    if deep:
        out += ["%s 9 11 14 sym" % f for f in fs] + ["%s 40 300 75 rcr t32" % f for f in fs]
    return out


def spec(jobs, kinds, explain, **k):
    d = {"jobs": jobs, "kinds": kinds, "bounds": BOUND, "assume": ASSUME, "explain": explain}
    d.update(k)
    return d


def c01(t): return spec(std_jobs(REAL, ["func"], ["none"], t, wit=["func_q"]), ["value"],
                        "Every element of C on every path is compared with the definition as polynomials over the reals by the solver, for every admissible alpha, beta and data.")


def c02(t): return spec(std_jobs(CPLX, ["func"], ["none"], t, wit=["func_q"]), ["value"],
                        "Real and imaginary part of every element of C on every path are compared with the definition as polynomials over the reals by the solver, for every admissible alpha, beta and data.")


def c03(t): return spec(std_jobs(ALL, ["written"], ["beta0_read"], t, wit=["written_checks", "beta0_paths"]), ["beta0_read", "unwritten"],
                        "On every path whose condition admits beta = 0, the solver decides whether any load can touch an element of C that the call has not written yet, and whether every element is written.")


def c04(t): return spec(std_jobs(ALL, [], ["oob_write", "const_write", "bad_pointer"], t, extra=threaded(t, [], ["oob_write", "const_write", "bad_pointer"])), ["oob_write", "const_write"],
                        "For every store of every path the solver decides whether its address can lie anywhere but in the m*n elements of C or the call's own working memory.")


def c05(t): return spec(std_jobs(ALL, [], ["oob_read", "bad_pointer"], t, extra=threaded(t, [], ["oob_read", "bad_pointer"])), ["oob_read", "bad_pointer"],
                        "For every load of every path the solver decides whether its address can lie anywhere but in the elements of A, B and C or the call's own working memory.")


SCRATCH = ["oob_scratch", "uninit", "misaligned", "uaf", "double_free", "bad_dealloc", "bad_alloc", "bad_pointer", "unwinding"]


def threaded(t, want, kinds, label="threads"):
    sc = ["dgemm 12 3856 5 rrr +fma b1 t32", "sgemm 2 8200 9 rrr +fma b1 t32", "cgemm 12 4370 3 rrr -avx b0 t32"]
    return [job("thrsmall", want, sc, kinds=kinds, label=label, deadline=40 if t == "quick" else 200)]


def c06(t):
    q = t == "quick"
    fails = ["allocfail " + s for s in tiles(ALL, False)[:: 5 if q else 1]] + ["allocfail " + s for s in blocks(ALL)[:: 6 if q else 1]]
    ex = [job("std", ["leak"], fails, kinds=SCRATCH, label="failing allocations", deadline=20 if q else 200, witness=["alloc_error_paths"])]
    return spec(std_jobs(ALL, ["leak"], SCRATCH, t, wit=["leak_checks"], extra=ex + threaded(t, ["leak"], SCRATCH)), SCRATCH[:-1] + ["leak", "foreign", "unwinding"],
                "Every access to heap blocks, stack buffers and thread-local buffers is checked by the solver for bounds, for the alignment it assumes (at every placement of the block the allocator may return) and for initialisation by this call; every block is released once with its own layout, and nothing is accessed when an allocation fails.",
                filter=lambda v: v["kind"] != "foreign" or "Junk" in v["what"])


def pairs7(deep):
    S = {"sgemm": ["3 2 3", "9 5 7"], "dgemm": ["3 2 3", "9 5 7"], "cgemm": ["3 2 3", "5 3 4"], "zgemm": ["3 2 3", "5 3 4"]}
    P = ["sgemm 9 3 9 rcr", "dgemm 9 5 9 rrr", "cgemm 5 1 3 srr", "zgemm 3 3 3 rcr", "sgemm 1 0 9 rrr", "dgemm 0 3 3 rrr"]
    out = []
    for f in ALL:
        for x in S[f]:
            for p in P:
                lay = "sym" if x == "3 2 3" else "rsr"
                out.append("%s %s %s ; %s ; =0" % (f, x, lay, p))
                if deep:
                    for p2 in P:
                        out.append("%s %s rrr ; %s ; %s ; =0" % (f, x, p, p2))
            # the same matrices with new contents
            out.append("%s %s %s ; ~0" % (f, x, lay))
            out.append("%s %s %s ; ~0 ; ~0" % (f, x, lay))
    return out


def c07(t):
    q = t == "quick"
    W, K = ["iso", "prev"], ["global_write"]
    ex = [job("std", W, pairs7(not q), kinds=K, label="histories", deadline=60 if q else 500, witness=["iso_checks"]),
          job("small", W, ["%s 11 12 14 rrr ; %s 12 13 15 rcr ; =0" % (f, g) for f in ALL for g in ALL] + ["%s %s rrr ; ~0" % (f, d) for f in ALL for d in ("11 12 14", "5 3 5", "8 4 8")] + ["%s 21 23 27 %s ; ~0" % (f, l) for f in ALL for l in ("rcr", "gsc", "crg")], kinds=K, label="histories, small blocks", deadline=40 if q else 300),
          job("std", W, ["%s %s sym ; ~0" % (f, d) for f in ALL for d in ("1 1 1", "4 4 4", "9 9 9", "2 17 5")], kinds=K, label="the same memory again", rounds=3 if q else 5, maxcost=40000 if q else 300000, closeagain=True, close=[CLOSE % ",".join(ALL)], deadline=100 if q else 400, witness=["seq_checks"]),
          job("thrsmall", W, ["dgemm 12 300 5 rrr b1 ; sgemm 9 5 9 rcr ; =0", "cgemm 9 9 9 rrr ; zgemm 9 9 9 rcr ; =0", "sgemm 9 9 9 rrr ; sgemm 1 1 1 rrr ; =0", "dgemm 9 5 9 rrr ; ~0", "sgemm 12 300 5 rrr b1 ; ~0"], kinds=K, label="histories, threading build", deadline=40 if q else 300),
          job("a64", W, pairs7(False)[::2], kinds=K, label="histories, AArch64", deadline=40 if q else 200)]
    return spec(ex, ["history", "foreign", "global_write"],
                "A call, another call, and the first call again run symbolically in one state (same thread-local buffer, same statics, blocks released and handed out anew): the solver decides whether the second result can differ from the first, or depend on anything an earlier call left; stores to process-wide memory are reported.",
                bounds="histories of two to three (thorough: four) calls of the listed functions and sizes, on the same memory with new contents or on memory of their own; " + BOUND)


def c08(t): return spec(std_jobs(ALL, ["iso", "prop"], ["none"], t, wit=["iso_checks", "prop_q"]), ["foreign", "special"],
                        "For every element of every path the solver decides whether an operand outside its row, column and itself can influence it, and whether a NaN or an infinity in an operand that counts can be lost.")


def c09(t): return spec(std_jobs(ALL, ["layout"], ["none"], t, wit=["layout_pairs"]), ["bits"],
                        "All paths of a size whose conditions differ only in layout (strides, bases) are compared pairwise: the floating-point terms of every element must be the same function of the same operands, rounding by rounding, or the paths cannot both be taken with the same features and scalars.")


def c10(t):
    q = t == "quick"
    sc = []
    for ft, b in (("+fma", "b1"), ("-fma +avx", "b0"), ("-avx", "b1")):
        sc.append("dgemm 12 3856 5 rrr %s %s t32" % (ft, b))
    sc += ["cgemm 12 4370 3 rrr -avx b0 t32", "zgemm 12 4370 3 rrr +fma b1 t32", "sgemm 12 3000 9 rrr +fma b1 t32", "sgemm 2 8200 9 rrr +fma b1 t32"]
    if not q:
        sc += ["sgemm 12 3000 9 rrr %s t32" % x for x in ("+fma b0", "-avx b1", "-fma +avx b1")]
        sc += ["dgemm 25 1000 9 crc +fma b1 t32", "zgemm 25 1000 9 rcr +fma b1 t32", "dgemm 9 2000 17 rrc +fma b0 t32", "cgemm 9 3000 9 ccc +fma b0 t32", "sgemm 33 1000 9 rrr +fma b1 t32"]
    return spec([job("thrsmall", ["threads"], sc, kinds=["race"], log=True, label="threads", deadline=200 if q else 700, witness=["thread_paths", "race_checks"])], ["race", "bits"],
                "Each size runs once with one thread and once with every admitted thread count; the accesses of tasks that the fork-join structure leaves unordered must not overlap with a write among them, and the terms of C must be the single-threaded ones.")


def c11(t):
    q = t == "quick"
    S1, D1 = "sgemm 1 3277 9 rrr +fma b1 t32", "dgemm 12 3856 5 rrr -avx b1 t32"
    sc = ["env:any:3 " + S1, "env:any:4 dgemm 2 5 6 sym", "env:any:1 " + D1, "env:any:2 " + D1, "env:=18446744073709551616 " + S1, "env:=000000000000000000000002 " + S1]
    if not q:
        sc += ["env:any:3 " + D1, "env:any:2 zgemm 12 4370 3 rrr +fma b1 t32", "env:any:2 cgemm 12 4370 3 rrr +fma b1 t32", "env:any:4 sgemm 2 5 6 sym", "env:any:5 dgemm 2 5 6 rrr"]
    return spec([job("thrsmall", ["cap"], sc, kinds=["none"], label="environment", deadline=200 if q else 600, witness=["cap_checks"])], ["cap"],
                "The bytes of MATMUL_NUM_THREADS (and their number, and whether it is set), and the number of physical cores are symbolic; on every path the largest set of tasks that may run at once is compared by the solver with the documented bound.",
                bounds="values of up to 3 (thorough 5) arbitrary bytes and selected longer ones; " + BOUND)


def c12(t): return spec(std_jobs(ALL, ["func"], ["feature"], t, wit=["func_q"]), ["feature", "value"],
                        "The CPU feature words are symbolic; for every function compiled for extra features that is entered, the solver decides whether a CPU without one of them can get there; every feature combination's result is compared with the definition.")


PANIC = ["panic", "unreachable", "trap"]


def c14(t):
    q = t == "quick"
    mk = lambda cfg, sc, **k: job(cfg, [], sc, kinds=PANIC, **k)
    big = not q
    jobs = [
        mk("dbg", tiles(ALL, big) + edges(ALL, not q), label="debug", rounds=3 if q else 6, close=[CLOSE % ",".join(ALL)], maxcost=30000 if q else 300000, deadline=150 if q else 400, traces=4),
        mk("smalldbg", blocks(ALL, not q), label="debug, small blocks", deadline=90 if q else 300),
        mk("nostddbg", tiles(ALL, False), label="debug, no_std", deadline=60 if q else 150),
        mk("thrdbg", ["dgemm 12 3856 5 rrr +fma b1 t32", "sgemm 9 9 9 sym", "cgemm 9 9 9 sym"], label="debug, threads", deadline=60 if q else 200),
        mk("std", tiles(ALL, big), label="release", deadline=60 if q else 200, traces=4),
        mk("fallback", tiles(ALL, big), label="release, portable", deadline=40 if q else 150),
        mk("a64dbg", tiles(ALL, big) + edges(ALL), label="debug, AArch64", deadline=60 if q else 150),
    ]
    return spec(jobs, PANIC, "For every panic, failed assertion, overflow check and unreachable instruction the solver decides whether a valid call can reach it, with unused strides and the pointers of empty matrices arbitrary.")


def c15(t): return spec(std_jobs(ALL, ["depth"], ["none"], t, wit=["depth_q"]), ["rounding"],
                        "For every element of every path the number of roundings that any product or the old element passes through is bounded by the solver over the element's expression; operations narrower than the element type count as unbounded.")


def c16(t):
    E = []
    for f in ALL:
        E += ["%s %s sym" % (f, d) for d in ("0 0 0", "0 0 5", "0 5 0", "5 0 0", "0 5 9", "5 9 0", "0 * *", "9 * 0", "0 0 *", "2 0 0")]
        E += ["%s %d 0 %d sym" % (f, m, n) for m in (1, 2, 3, 5, 8, 9, 17) for n in (1, 2, 4, 5, 9, 17)]
    E += edges0()
    # the number of rows symbolic too (an empty loop over the rows is only left out of optimised code)
    S = ["%s * * 0 sym" % f for f in ALL] + ["%s * 0 0 sym" % f for f in ALL]
    W, K = ["func", "written"], ["oob_read", "oob_write", "const_write", "beta0_read", "bad_pointer"] + PANIC
    q = t == "quick"
    jobs = [job(c, W, E + (S if c in ("std", "small") else []), kinds=K, label=c, deadline=50 if q else 200, witness=["func_q"], **({"traces": 4} if c in ("std", "fallback", "a64") else {})) for c in ("std", "small", "fallback", "nostd", "dbg", "thrsmall", "a64")]
    return spec(jobs, ["value", "unwritten"] + K, "With one or two dimensions empty (and the others partly symbolic) every load and store is checked by the solver, and C is compared with beta*C.")


def edges0():
    return ["%s %d 0 2 sym" % (f, 65) for f in ALL] + ["%s 2 0 1025 sym" % f for f in ALL]


def parse_jobs(q):
    """every string of digits up to 20 long, selected longer ones, and arbitrary bytes"""
    top = "18446744073709551615"
    ex = ["env:any:d19 !h_parse_exact", "env:any:d19 !h_parse_zeros"]
    for i in range(20):
        for d in range(10):
            if d != int(top[i]):
                ex.append("env:any:p%s%dd%d !h_parse_%s" % (top[:i], d, 19 - i, "zeros" if i == d == 0 else "exact"))
    ex.append("env:any:p%sd0 !h_parse_exact" % top)
    rj = ["env:any:p%sd%d !h_parse_zeros" % ("0" * z, 22 - z) for z in (3, 4, 10, 21)]
    ex.append("env:any:%d !h_parse_exact" % (6 if q else 9))
    rj += ["env:any:%d !h_parse_reject" % (12 if q else 16)]
    rj += ["env:any:p%s !h_parse_reject" % x for x in ("1844674407370955d5", "1844674407370955d4", "18446744073709551615d2", "2d19", "2d20", "5d20", "9d20", "99999999999999999d4")]
    rj += ["env:any:p18446744073709551616d0 !h_parse_reject", "env:any:p18446744073709551620d0 !h_parse_reject", "env:any:p20000000000000000000d0 !h_parse_reject"]
    W = ["probe_q"]
    return [job("mixed", [], ex, kinds=PANIC, label="parsing", deadline=60, witness=W + ["probe_returns"]), job("mixed", [], rj, kinds=["none"], label="rejection and long texts", deadline=60, witness=W)]


def c13(t):
    q = t == "quick"
    W, K = ["func", "written"], ["oob_read", "oob_write", "oob_scratch", "const_write", "bad_pointer"] + PANIC
    B = ["!h_blocks_s", "!h_blocks_d", "!h_blocks_c", "!h_blocks_z"]
    mk = lambda cfg, sc, **k: job(cfg, W, sc, kinds=K, witness=["func_q"], **k)
    X = {"sgemm": (9, 20, 40), "dgemm": (10, 23, 45), "cgemm": (11, 26, 50), "zgemm": (12, 29, 55)}
    mixed = []
    for f, (mc, kc, nc) in X.items():
        mixed += ["%s %d %d %d %s" % (f, m, k, n, "rrr" if q else "sym") for m, k, n in ((mc + 1, 2, 3), (2 * mc + 3, kc + 1, 5), (3, 2 * kc + 1, 5), (3, 2, nc + 1), (mc + 2, 3, 2 * nc + 1))]
    part = ["sgemm 9 2 3 sym", "sgemm 17 257 2 rrr", "dgemm 2 78 3 sym", "dgemm 9 155 5 rrr", "cgemm 3 101 2 sym", "cgemm 33 101 2 rrr", "zgemm 3 2 513 sym", "zgemm 9 5 9 sym"]
    jobs = parse_jobs(q) + [
        job("mixed", [], B, kinds=PANIC, label="block sizes", deadline=20, witness=["probe_returns"]),
        job("partial", [], B, kinds=PANIC, label="block sizes, some defaults", deadline=20, witness=["probe_returns"]),
        job("a64mixed", [], B, kinds=PANIC, label="block sizes, AArch64", deadline=20, witness=["probe_returns"]),
        mk("a64mixed", mixed, label="four different settings, AArch64", deadline=40 if q else 300),
        mk("mixed", mixed, label="four different settings", deadline=40 if q else 300),
        mk("partial", part, label="some defaults", deadline=30 if q else 200),
        mk("small", blocks(ALL, not q), label="10, 11, 13", deadline=40 if q else 300),
        mk("small8", blocks(ALL, not q), label="smallest blocks", deadline=40 if q else 300),
        mk("wide", tiles(ALL, not q) + ["dgemm 65 257 9 rrr", "cgemm 33 257 9 rrr"], label="largest blocks", deadline=30 if q else 200),
    ]
    return spec(jobs, ["value", "unwritten", "probe"] + K, "The parameters' texts are symbolic strings (through the guarded hook), compared with an independent decimal reader on every path; block sizes of the selected kernel are compared with the settings on every CPU; and results and memory accesses are decided under six choices of the block sizes.",
                bounds="all digit strings up to 20 digits, longer ones with the listed prefixes, arbitrary bytes up to 12 (thorough 16); block size choices 8/8/8, 10/11/13, four different triples, partly default, and all 65536; " + BOUND)


SPECS = {"C13": c13, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C14": c14, "C15": c15, "C16": c16}
