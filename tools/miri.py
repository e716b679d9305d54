#!/usr/bin/env python3
"""Runs the workloads of C27 under Miri and adds what it observed to evidence/C27.json.
usage: miri.py [--one WORKLOAD CASE SEED]
A report of undefined behaviour or a data race is a violation; running out of time is not."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
thorough = os.environ.get("VERIF_TIER") == "thorough"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0",
           MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows")
base = ["cargo", "+nightly", "miri", "run", "-q", "--locked", "--manifest-path", f"{root}/harness/Cargo.toml",
        "--bin", "c27", "--target-dir", f"{root}/target/miri", "--", "--inproc"]
WORK = [f"c{i:02d}" for i in range(1, 25)] + ["c29"]
SECS = 600 if thorough else 20
BAD = re.compile(r"Undefined Behavior|Data race detected|unsafe precondition")


def go(w, first, count, secs, sd):
    e = dict(env, C27_ONLY=w)
    p = subprocess.Popen(base + [str(first), str(count), str(secs), str(sd)], env=e, cwd=root,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    late = False
    try:
        out, err = p.communicate(timeout=secs + 30)
    except subprocess.TimeoutExpired:
        late = True
        os.killpg(p.pid, 9)
        out, err = p.communicate()
    last = re.findall(r"^CASE (\d+)", err, re.M)
    done = max(0, len(last) - 1) if late or "DONE" not in out else len(last)
    bad = BAD.search(err)
    msg = ""
    if bad:
        lines = err.splitlines()
        k = next(i for i, l in enumerate(lines) if BAD.search(l))
        msg = "\n".join(lines[k:k + 25])
    return dict(workload=w, first=first, last=int(last[-1]) if last else first, done=done, late=late, bad=msg,
                rc=p.returncode, tail=err[-600:] if p.returncode not in (0, -9) and not bad else "")


def main():
    if sys.argv[1:2] == ["--one"]:
        w, c, sd = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        r = go(w, c, 1, 600, sd)
        print(r["bad"] or ("no report" if not r["tail"] else r["tail"]))
        sys.exit(1 if r["bad"] else 0)
    t0 = time.time()
    b = subprocess.run(base + ["0", "0", "0", "1"], env=env, cwd=root, capture_output=True, text=True)
    if b.returncode != 0:
        print("miri build failed:\n" + b.stderr[-3000:])
        sys.exit(2)
    t1 = time.time()
    # the order puts the long ones first
    res = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        futs = [ex.submit(go, w, 0, 1_000_000, SECS, seed) for w in WORK]
        for f in futs:
            res.append(f.result())
    viol = [r for r in res if r["bad"]]
    stop = [r for r in res if r["tail"]]
    evp = f"{root}/evidence/C27.json"
    ev = json.load(open(evp))
    ob = ev["coverage"].setdefault("observed", {})
    for r in res:
        ob[f"miri:cases:{r['workload']}"] = r["done"]
    ob["miri:cases"] = sum(r["done"] for r in res)
    ob["miri:interpreted_seconds"] = int((time.time() - t1) * (os.cpu_count() or 8))
    if stop:
        ob["miri:stopped_early"] = len(stop)
    ev["wall_s"] = round(ev.get("wall_s", 0) + time.time() - t0, 1)
    rc = 0
    seen = set()
    for r in viol:
        rep = f"{root}/evidence/replays/C27-miri-{r['workload']}-{r['last']}.txt"
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        open(rep, "w").write(f"./checks/C27.sh --miri {r['workload']} {r['last']} {seed}\n\n{r['bad']}\n")
        if not seen:
            print(f"VIOLATION property=C27 replay={rep}")
        print(f"  under Miri, workload {r['workload']} case {r['last']}: {r['bad'].splitlines()[0]}")
        seen.add(r["workload"])
        rc = 1
    ev["violations"] = ev.get("violations", 0) + len(viol)
    json.dump(ev, open(evp, "w"), indent=1)
    for r in stop:
        print(f"note: {r['workload']} stopped at case {r['last']} (rc {r['rc']}): {r['tail'].splitlines()[-1] if r['tail'].splitlines() else ''}")
    print(f"C27 miri: {ob['miri:cases']} cases interpreted in {time.time()-t1:.0f} s (build {t1-t0:.0f} s), {len(viol)} reports")
    sys.exit(rc)


main()
