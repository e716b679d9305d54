#!/usr/bin/env python3
"""C28 driver: stages the Python package with the freshly built extension in a scratch directory, runs histories in
worker processes (heap checking on), turns violations and crashes into VIOLATION lines, writes the evidence.
usage: c28.py REPO EXTENSION [--case N]"""
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.abspath(__file__))
root = os.environ.get("VERIF_DIR", os.path.dirname(here))
repo, ext = sys.argv[1], sys.argv[2]
tier = os.environ.get("VERIF_TIER", "quick")
tier = "thorough" if tier == "thorough" else "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
only = int(sys.argv[sys.argv.index("--case") + 1]) if "--case" in sys.argv else None
t0 = time.time()
budget = {"quick": 45, "thorough": 900}[tier]
nw = 8
MUST = ["relations_compared", "nonempty_relations", "mutable_iterations", "bytes_round_trips", "errors_as_exceptions",
        "same_machine_twice", "string_paths", "attached_tables_refuse_change", "global_checks", "op:const", "op:draw",
        "op:alg-replace", "op:relabel_tables", "isomorphic_True", "isomorphic_False"]

scratch = tempfile.mkdtemp(prefix="c28-pkg-")
code = 0
try:
    shutil.copytree(os.path.join(repo, "rustfst-python/rustfst"), os.path.join(scratch, "rustfst"),
                    ignore=shutil.ignore_patterns("__pycache__", "dylib"))
    os.mkdir(os.path.join(scratch, "rustfst/dylib"))
    shutil.copy(ext, os.path.join(scratch, "rustfst/dylib/dylib.so"))
    env = dict(os.environ, PYTHONPATH=scratch, PYTHONMALLOC="malloc", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0", TMPDIR=scratch, LC_ALL="C.UTF-8", PYTHONUTF8="1")
    dbg = "/usr/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"

    def start(i):
        e = dict(env)
        # half of the workers with glibc's checking allocator, half at full speed
        if i % 2 == 1 and os.path.exists(dbg):
            e.update(LD_PRELOAD=dbg, MALLOC_CHECK_="3", GLIBC_TUNABLES="glibc.malloc.check=3")
        out = os.path.join(scratch, f"w{i}.json")
        first, count = (only, 1) if only is not None else (i * 10 ** 6, 10 ** 6)
        err = open(os.path.join(scratch, f"w{i}.err"), "wb")
        p = subprocess.Popen([sys.executable, os.path.join(here, "worker.py"), out, str(seed), str(first), str(count), str(budget)],
                             env=e, cwd=scratch, stdout=err, stderr=err)
        return p, out

    ps = [start(i) for i in range(1 if only is not None else nw)]
    tot = collections.Counter()
    cases = distinct = 0
    samples, viols, incon = [], [], []
    for i, (p, out) in enumerate(ps):
        try:
            rc = p.wait(timeout=budget + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        case = open(out + ".case").read() if os.path.exists(out + ".case") else "none"
        err = open(os.path.join(scratch, f"w{i}.err"), errors="replace").read()[-1500:]
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            cases += d["done"]
            distinct += d["distinct"]
            tot.update(d["counts"])
            samples += d["samples"][:1]
            if d["violation"]:
                viols.append(d["violation"])
        elif case == "none":
            # the package could not even be imported or the interpreter failed to start
            viols.append({"case": 0, "message": f"worker ended with {rc} before the first case", "trace": err})
        else:
            name = f"signal {signal.Signals(-rc).name}" if isinstance(rc, int) and rc < 0 else str(rc)
            viols.append({"case": int(case), "message": f"the process ended with {name}", "trace": err})
    if not viols and only is None:
        for k in MUST:
            if tot[k] == 0:
                incon.append(f"never observed: {k}")
    os.makedirs(os.path.join(root, "evidence/replay"), exist_ok=True)
    for v in viols[:3]:
        rp = os.path.join(root, f"evidence/replay/C28-seed{seed}-case{v['case']}.json")
        v["replay"] = f"VERIF_SEED={seed} ./check.sh C28 --case {v['case']}"
        json.dump(v, open(rp, "w"), indent=1, ensure_ascii=False)
        print(f"VIOLATION property=C28 replay={rp}")
        print("  " + v["message"][:1500])
        code = 1
    if only is None:
        json.dump({
            "property": "C28", "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": cases, "distinct_nontrivial": distinct,
                "rule": "histories of 10-45 calls on the real Python package loaded with the freshly built extension: construction by calls, bytes and files, edits, iterators that outlive edits and their machine, transitions and transition lists, symbol tables, copies, every algorithm with its configurations, drawing, relabelling, refused calls, garbage collection and drops in random order. An independent Python model predicts every value; algorithm results on acyclic machines are compared with the enumerated relation. Freed memory is scribbled over, half of the workers use glibc's checking allocator; a crash is a violation. Non-trivial: distinct sequences of operations.",
                "observed": dict(sorted(tot.items())), "samples": samples, "inconclusive": incon,
            },
            "wall_s": round(time.time() - t0, 1),
        }, open(os.path.join(root, "evidence/C28.json"), "w"), indent=1, ensure_ascii=False)
    if code == 0:
        print(f"C28 {tier} seed {seed}: {cases} histories, {tot['calls']} calls, {tot['relations_compared']} relations compared, {tot['machines_observed']} machines observed")
        if incon:
            print("\n".join(incon))
            code = 2
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(code)
