#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiler's LLVM IR of /repo, decided by Z3 (%s)"
W = {
    "C01": "polynomial identity per element of C, all paths",
    "C02": "polynomial identity per element of C, all paths",
    "C03": "reads of C and completeness of writes on all beta=0 paths",
    "C04": "address of every store on every path",
    "C05": "address of every load on every path",
    "C06": "bounds, alignment, initialisation and release of working memory on every path",
    "C07": "symbolic call histories in one program state",
    "C08": "operand dependence and NaN/infinity flow per element",
    "C09": "comparison of the rounding-exact result terms of all layout paths",
    "C10": "access sets of unordered tasks; result terms of all thread counts",
    "C11": "symbolic environment value and core count",
    "C12": "symbolic CPU feature words",
    "C13": "symbolic constant text and block sizes",
    "C14": "reachability of every panic and trap, debug and release IR",
    "C15": "rounding count per element's expression",
    "C16": "empty dimensions, partly symbolic sizes",
}
NOTE = ("Bounded: holds for every input within the stated sizes (sizes concrete, chosen at every tile and block edge and closed under branches taken; "
        "strides, addresses, scalars, data, CPU features symbolic). Trusts the executor's reading of LLVM IR (compared bit for bit with native runs on sampled paths each run), rustc's lowering, and Z3. x86-64 only.")
NA = {}


def main():
    import specs
    checks = []
    for i in sorted(W):
        if i in specs.SPECS:
            checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH % W[i], "level": "model_checking", "level_note": NOTE})
        else:
            NA[i] = "the check is not built yet"
    m = {"version": 1, "setup_cmd": "cd engine && cargo build --release --offline", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "Engine: /verif/engine (symbolic executor). Checks read /repo's working tree, compile it to LLVM IR in /verif/.work and remove that again."}
    if "C13" in specs.SPECS:
        m["hooks"] = {"guard": "--cfg mmverif", "enable": "RUSTFLAGS='--cfg mmverif' (bin/irbuild.py)", "source_commits": ["af85e98eb2834f104fcaf101cef3253fff0bf85a"]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
