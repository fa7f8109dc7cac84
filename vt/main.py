"""Entry point: python -m vt.main <ID> [--replay FILE] [--check NAME]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import warnings

from vt import deps

deps.setup()
ROOT = deps.ROOT

# One check may use the whole machine; workers themselves are single threaded.
NSHARDS = int(os.environ.get("VERIF_SHARDS", "0")) or max(
    1, min(8, os.cpu_count() or 1)
)
BUDGET = {"quick": 40.0, "thorough": 780.0}


def load_prop(pid):
    warnings.filterwarnings("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import dask

    dask.config.set(scheduler="synchronous")
    mod = importlib.import_module(f"vt.props.{pid.lower()}")
    warnings.filterwarnings("ignore")
    return mod.P


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        items = json.load(f)["findings"]
    return [k for k in items if k["property"] == pid]


def write_replay(pid, fl):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    from vt.core import case_hash

    path = os.path.join(
        d, f"{pid}-{fl['check']}-{case_hash(fl['check'], fl['case'])}.json"
    )
    with open(path, "w") as f:
        json.dump({"property": pid, **fl}, f, indent=1, default=str)
    return path


def do_replay(pid, path):
    from vt.core import run_case

    prop = load_prop(pid)
    with open(path) as f:
        rep = json.load(f)
    check = {c.name: c for c in prop.checks}[rep["check"]]
    _, err = run_case(check, rep["case"])
    if err:
        print(f"replay fails: {err}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay passes")
    return 0


def do_shard(pid, args):
    from vt.core import shard_run

    prop = load_prop(pid)
    k, n = map(int, args.shard.split("/"))
    res = shard_run(
        prop, args.tier, args.seed, k, n, args.budget, only=args.check
    )
    with open(args.out, "w") as f:
        json.dump(res, f, default=str)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--check")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument(
        "--tier", default=os.environ.get("VERIF_TIER") or "quick"
    )
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1)
    )
    args = ap.parse_args()
    pid = args.pid
    if args.tier not in BUDGET:
        args.tier = "quick"
    if args.budget is None:
        args.budget = BUDGET[args.tier]
    if args.replay:
        return do_replay(pid, args.replay)
    if args.shard:
        return do_shard(pid, args)

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vt-{pid}-")
    env = dict(os.environ)
    env["TMPDIR"] = tmp
    env.setdefault("NUMBA_NUM_THREADS", "1")
    if args.tier == "quick":
        env.setdefault("NUMBA_OPT", "1")  # compile faster
    procs = []
    try:
        for k in range(NSHARDS):
            out = os.path.join(tmp, f"shard{k}.json")
            cmd = [sys.executable, "-m", "vt.main", pid,
                   "--shard", f"{k}/{NSHARDS}", "--out", out,
                   "--tier", args.tier, "--seed", str(args.seed),
                   "--budget", str(args.budget)]
            if args.check:
                cmd += ["--check", args.check]
            log = open(os.path.join(tmp, f"shard{k}.log"), "w+")
            procs.append(
                (subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=log,
                                  stderr=subprocess.STDOUT), out, log)
            )
        results = []
        broken = []
        hard = time.time() + args.budget + 120
        for k, (p, out, log) in enumerate(procs):
            try:
                p.wait(timeout=max(1.0, hard - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.flush()
            log.seek(0)
            text = log.read()
            log.close()
            if p.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                broken.append((k, p.returncode, text[-3000:]))
        code = finish(pid, args, results, broken, t0)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return code


def finish(pid, args, results, broken, t0):
    from vt.core import run_case

    failures = {}
    for r in results:
        for fl in r["failures"]:
            cur = failures.get(fl["check"])
            if cur is None or len(json.dumps(fl["case"])) < len(
                json.dumps(cur["case"])
            ):
                failures[fl["check"]] = fl
    nviol = 0
    unrepro = []
    known = known_findings(pid)
    prop = None
    if failures or known:
        prop = load_prop(pid)
        bynames = {c.name: c for c in prop.checks}
    for name, fl in failures.items():
        err = None
        for _ in range(4):
            _, err = run_case(bynames[name], fl["case"])
            if err:
                break
        if not err:
            unrepro.append(fl)
            print(f"note: unreproducible failure ignored: {name}: "
                  f"{fl['error']}")
            continue
        fl = dict(fl, error=err)
        path = write_replay(pid, fl)
        nviol += 1
        print(f"{pid}/{name}: {err}")
        print(f"VIOLATION property={pid} replay={path}")
    nknown = 0
    for kf in known:
        probe = bynames.get(kf["check"]) if prop else None
        if probe is None:
            continue
        _, err = run_case(probe, dict(kf["case"], _probe=True))
        if err:
            nknown += 1
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    ev = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    per = {}
    hashes = set()
    samples = []
    for r in results:
        hashes.update(r["hashes"])
        for s in r["samples"]:
            if sum(x["check"] == s["check"] for x in samples) < 2:
                samples.append(s)
        for name, st in r["checks"].items():
            d = per.setdefault(
                name, {"evaluations": 0, "nontrivial": 0, "rejected": 0,
                       "skipped_for_time": 0, "tags": {}})
            for key in ("evaluations", "nontrivial", "rejected",
                        "skipped_for_time"):
                d[key] += st[key]
            for t, c in st["tags"].items():
                d["tags"][t] = d["tags"].get(t, 0) + c
    if prop is None:
        prop = load_prop(pid)
    ev["coverage"] = {
        "evaluations": sum(d["evaluations"] for d in per.values()),
        "distinct_nontrivial": len(hashes),
        "rule": prop.rule,
        "samples": samples,
        "per_check": per,
        "shards": len(results),
        "known_findings_seen": nknown,
        "unreproduced": unrepro,
    }
    ev["assumptions"] = [
        "numpy, scipy, dask, xarray, GDAL/rasterio and shapely behave as "
        "documented; oracles are independent numpy/pure-python models",
    ]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    total = ev["coverage"]["evaluations"]
    print(f"{pid}: {total} cases, {len(hashes)} distinct non-trivial, "
          f"{nviol} violation(s), {ev['wall_s']} s")
    if os.environ.get("VT_VERBOSE"):
        for n, d in per.items():
            print("  ", n, {k: v for k, v in d.items() if k != "tags"},
                  dict(sorted(d["tags"].items(), key=lambda x: -x[1])[:14]))
    if nviol:
        return 1
    if broken:
        for k, rc, text in broken:
            print(f"harness error: shard {k} ended with {rc}\n{text}",
                  file=sys.stderr)
        return 2
    if total == 0:
        print("harness error: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
