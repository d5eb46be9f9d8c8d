"""Check driver.

  python3 -m vlib.run C07 --tier quick        run a property's check
  python3 -m vlib.run C07 --replay FILE       replay one saved failing case
  python3 -m vlib.run --setup                 unpack deps, warm the compile cache

Exit 0: property held on everything explored.  Exit 1: a VIOLATION line was
printed.  Exit 2: the machinery itself failed (never a verdict).
"""

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import env  # noqa: E402

NPROC = int(os.environ.get("VERIF_PROCS", "8"))
KNOWN = os.path.join(env.VERIF, "known_findings.json")


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def list_tests(pid, tier, seed):
    """Ask a child for the tests (the parent never imports the code)."""
    code = (
        "import json,sys\n"
        "from vlib import env; env.setup_path()\n"
        "import importlib\n"
        "m=importlib.import_module('vlib.props.%s')\n"
        "print('TESTS'+json.dumps([dict(name=t.name,quick=t.quick,thorough=t.thorough,"
        "rule=t.rule,shards=t.shards,cost=t.cost) for t in m.TESTS]))\n"
        "print('META'+json.dumps(dict(assumptions=getattr(m,'ASSUMPTIONS',[]))))\n"
        % pid.lower()
    )
    r = subprocess.run(
        [env.PY, "-c", code],
        env=env.child_env(seed, tier),
        cwd=env.VERIF,
        capture_output=True,
        text=True,
    )
    tests = meta = None
    for line in r.stdout.splitlines():
        if line.startswith("TESTS"):
            tests = json.loads(line[5:])
        if line.startswith("META"):
            meta = json.loads(line[4:])
    if tests is None:
        raise RuntimeError(
            "cannot load property module %s:\n%s\n%s" % (pid, r.stdout, r.stderr[-4000:])
        )
    return tests, meta


def plan(tests, tier):
    """Split the cases of every test over the workers (a fixed function of the
    test list, so that a seed fixes the run)."""
    tasks = []
    for t in tests:
        n = t[tier]
        if n <= 0:
            continue
        sh = max(1, min(t["shards"], NPROC, n))
        per = -(-n // sh)
        for s in range(sh):
            tasks.append((per * t["cost"] + 2.0, t["name"], s, per))
    tasks.sort(key=lambda x: (-x[0], x[1], x[2]))
    work = [[0.0, []] for _ in range(NPROC)]
    for c, name, s, n in tasks:
        # prefer a worker that does not have this test yet
        w = min(work, key=lambda w: (w[0] + (c if any(x[0] == name for x in w[1]) else 0)))
        w[0] += c
        w[1].append((name, s, n))
    return [w[1] for w in work if w[1]]


def spawn(pid, tier, seed, outp, args, limit, log):
    e = env.child_env(seed, tier)
    e["VERIF_LIMIT_S"] = str(limit)
    return subprocess.Popen(
        [env.PY, "-m", "vlib.worker", pid, tier, str(seed), outp] + args,
        env=e,
        cwd=env.VERIF,
        stdout=log,
        stderr=log,
        start_new_session=True,
    )


def kill(ps):
    for p in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    for p in ps:
        p.wait()


def read_out(path):
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
    return res


def run_cases(pid, tier, seed, items, tmp, limit=600):
    fn = os.path.join(tmp, "cases.json")
    with open(fn, "w") as f:
        json.dump(items, f)
    outp = os.path.join(tmp, "cases.out")
    if os.path.exists(outp):
        os.remove(outp)
    with open(os.path.join(tmp, "cases.log"), "w") as log:
        p = spawn(pid, tier, seed, outp, ["--case", fn], limit, log)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            kill([p])
    return [r for r in read_out(outp) if "verdict" in r]


def save_replay(pid, body):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib

    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def write_evidence(pid, tier, seed, tests, meta, results, wall, violations, extra):
    per = {}
    allnt = set()
    for r in results:
        d = per.setdefault(
            r["test"],
            dict(evaluations=0, trivial=0, inconclusive=0, known_excluded=0,
                 not_run=0, labels={}, samples=[], nt=set()),
        )
        d["evaluations"] += r["evals"]
        d["trivial"] += r["trivial"]
        d["inconclusive"] += r["inconclusive"]
        d["known_excluded"] += r["known"]
        d["not_run"] += r["skipped"]
        d["nt"].update(r["nontrivial"])
        allnt.update(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if len(d["samples"]) < 3:
            d["samples"] += r["samples"][: 3 - len(d["samples"])]
    rules = {t["name"]: t["rule"] for t in tests}
    samples = []
    for name, d in per.items():
        for s in d["samples"][:2]:
            samples.append("%s: %s" % (name, s))
    cov = dict(
        evaluations=sum(d["evaluations"] for d in per.values()),
        distinct_nontrivial=len(allnt),
        rule="Cases are drawn by seeded Hypothesis strategies, one JSON value per case; "
        "non-trivial, per test: "
        + "; ".join("%s = %s" % (n, rules[n]) for n in per),
        samples=samples[:40],
        tests={
            n: dict(
                evaluations=d["evaluations"],
                distinct_nontrivial=len(d["nt"]),
                trivial=d["trivial"],
                inconclusive=d["inconclusive"],
                known_excluded=d["known_excluded"],
                not_run=d["not_run"],
                labels=d["labels"],
            )
            for n, d in per.items()
        },
    )
    cov.update(extra)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=cov,
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2),
        violations=violations,
    )
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def check(pid, tier, seed, verbose=False, only=None):
    t0 = time.time()
    env.ensure_deps()
    os.makedirs(env.CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    procs = []
    try:
        tests, meta = list_tests(pid, tier, seed)
        if only:
            tests = [t for t in tests if t["name"] in only]
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        for t in tests:
            t[tier] = int(max(1, t[tier] * scale)) if t[tier] > 0 else 0
        limit = 420 if tier == "quick" else float(os.environ.get("VERIF_LIMIT_S", "3000"))
        work = plan(tests, tier)
        outs = []
        for i, tasks in enumerate(work):
            outp = os.path.join(tmp, "w%d.out" % i)
            log = open(os.path.join(tmp, "w%d.log" % i), "w")
            procs.append(
                spawn(pid, tier, seed, outp, [json.dumps(tasks)], limit, log)
            )
            log.close()
            outs.append(outp)
        hard = t0 + limit + 200
        cand = None
        while True:
            alive = [p for p in procs if p.poll() is None]
            for i, o in enumerate(outs):
                for r in read_out(o):
                    if "violation" in r and cand is None:
                        cand = (i, r)
            if cand or not alive or time.time() > hard:
                break
            time.sleep(0.25)
        if cand or alive:
            kill(procs)
        results, errors = [], []
        for i, o in enumerate(outs):
            rs = read_out(o)
            results += [r for r in rs if "evals" in r]
            errors += [r["error"] for r in rs if "error" in r]
            if not cand and not any("done" in r for r in rs) and procs[i].poll() is not None:
                with open(os.path.join(tmp, "w%d.log" % i)) as f:
                    tail = f.read()[-3000:]
                if time.time() <= hard:
                    errors.append(
                        "worker %d ended with %s; last: %s\n%s"
                        % (i, procs[i].returncode, rs[-1:], tail)
                    )
        nviol = 0
        if cand:
            i, r = cand
            v = r["violation"]
            body = dict(
                property=pid, test=r["test"], case=v["case"], info=v["info"], seed=seed,
                tier=tier,
            )
            again = run_cases(pid, tier, seed, [dict(test=r["test"], case=v["case"])], tmp)
            if again and again[0]["verdict"] == "violation":
                nviol = 1
                body["info"] = again[0]["info"]
            else:
                # not on its own: replay the deterministic history of that worker
                outp = os.path.join(tmp, "again.out")
                with open(os.path.join(tmp, "again.log"), "w") as log:
                    p = spawn(pid, tier, seed, outp, [json.dumps(work[i])], limit, log)
                    procs.append(p)
                    while p.poll() is None and not any(
                        "violation" in x for x in read_out(outp)
                    ):
                        time.sleep(0.25)
                    kill([p])
                if any("violation" in x for x in read_out(outp)):
                    nviol = 1
                    body["history"] = work[i]
                else:
                    errors.append(
                        "a failure did not reproduce: %s %s %s"
                        % (r["test"], json.dumps(v["case"])[:1500], v["info"][:1500])
                    )
        # recorded findings: still there?
        kf_lines = []
        if not nviol and not errors:
            kfs = known_findings(pid)
            if kfs:
                got = run_cases(pid, tier, seed, kfs, tmp)
                for k, g in zip(kfs, got):
                    if g["verdict"] == "violation":
                        kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        extra = dict(workers=len(work))
        if kf_lines:
            extra["known_findings"] = kf_lines
        if not errors or nviol:
            write_evidence(
                pid, tier, seed, tests, meta, results, time.time() - t0, nviol, extra
            )
        if verbose:
            agg = {}
            for r in results:
                a = agg.setdefault(r["test"], [0, 0, 0.0, 0, 0, {}])
                a[0] += r["evals"]
                a[1] += len(r["nontrivial"])
                a[2] = max(a[2], r["wall"])
                a[3] += r["inconclusive"]
                a[4] += r["skipped"]
                for k, c in r["labels"].items():
                    a[5][k] = a[5].get(k, 0) + c
            for n, a in sorted(agg.items()):
                sl = max((r["slow"] for r in results if r["test"] == n), key=lambda s: s.get("t", 0))
                if sl.get("t", 0) > 8:
                    print("  slowest: %.1f s %s" % (sl["t"], json.dumps(sl["case"])))
                print("  %-26s evals=%d nontrivial=%d maxwall=%.1f inconcl=%d skipped=%d %s"
                      % (n, a[0], a[1], a[2], a[3], a[4], a[5]))
        for line in kf_lines:
            print(line)
        if nviol:
            path = save_replay(pid, body)
            print("%s: %s" % (body["test"], body["info"]))
            print("case: %s" % json.dumps(body["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if errors:
            print("ERROR in the machinery for %s:" % pid)
            for e in errors[:3]:
                print(e)
            return 2
        print(
            "%s %s: held on %d cases (%d distinct non-trivial), %.1f s"
            % (
                pid,
                tier,
                sum(r["evals"] for r in results),
                len(set().union(*[set(r["nontrivial"]) for r in results]) if results else ()),
                time.time() - t0,
            )
        )
        return 0
    finally:
        kill(procs)
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    with open(path) as f:
        body = json.load(f)
    pid = body["property"]
    env.ensure_deps()
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if "history" in body:
            outp = os.path.join(tmp, "o")
            with open(os.path.join(tmp, "log"), "w") as log:
                p = spawn(pid, body["tier"], body["seed"], outp,
                          [json.dumps(body["history"])], 800, log)
                p.wait()
            bad = [r["violation"]["info"] for r in read_out(outp) if "violation" in r]
        else:
            got = run_cases(pid, body.get("tier", "quick"), body.get("seed", 1), [body], tmp)
            if not got or got[0]["verdict"] == "error":
                print("ERROR: %s" % (got or "no result"))
                return 2
            bad = [g["info"] for g in got if g["verdict"] == "violation"]
        if bad:
            print(bad[0])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("replay passes")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    env.ensure_deps()
    os.makedirs(env.CACHE, exist_ok=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay)
        return check(a.pid, a.tier, seed, a.v, a.only)
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
