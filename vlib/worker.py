"""Runs (test, shard) tasks of one property in one process.

usage: worker.py PID TIER SEED OUT TASKS_JSON
       worker.py PID TIER SEED OUT --case FILE     (bypasses Hypothesis)
"""

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from vlib import env

env.setup_path()

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT_S", "300"))


def seed_of(seed, name, shard):
    h = hashlib.sha256(("%s/%s/%s" % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def in_code_under_test(tb):
    """Does the traceback go through the package under test?"""
    root = os.path.join(env.REPO, "jax_galsim") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(test, case):
    """(verdict, info): 'ok'/'trivial'/'violation'/'error'/'inconclusive'."""
    from vlib.core import Inconclusive, Violation

    try:
        r = test.fn(case)
    except Violation as e:
        return "violation", str(e)
    except Inconclusive as e:
        return "inconclusive", str(e)
    except Exception as e:  # noqa: BLE001
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, (MemoryError, KeyboardInterrupt)):
            return "error", text
        tb = e.__traceback__
        # JAX filters frames: look at the whole chain of causes
        seen, chain = set(), e
        hit = False
        while chain is not None and id(chain) not in seen:
            seen.add(id(chain))
            hit = hit or in_code_under_test(chain.__traceback__)
            chain = chain.__cause__ or chain.__context__
        if hit or in_code_under_test(tb):
            return (
                "violation",
                "unexpected %s on a valid input: %s" % (type(e).__name__, str(e)[:500])
                + "\n" + text[-1500:],
            )
        return "error", text
    return ("ok" if r is None or r else "trivial"), ""


class Found(Exception):
    pass


def rss_mb():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4096 // 2**20


def tame():
    """JAX keeps every compiled function: let go of them when they fill the memory."""
    if rss_mb() > MEMORY[0]:
        import gc

        import jax

        jax.clear_caches()
        gc.collect()
        # what cannot be freed must not make every case clear the caches
        MEMORY[0] = max(2000, rss_mb() + 700)


MEMORY = [2000]


def run_task(test, shard, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine, providers

    from vlib import core

    engine.MAX_SHRINKING_SECONDS = 45
    # Hypothesis mixes in literals it finds in local source files; without that
    # the cases depend on the seed alone, not on how the code is written.
    none = providers.Constants()
    providers._get_local_constants = lambda: none
    core.LABELS.clear()
    st = dict(evals=0, trivial=0, inconclusive=0, skipped=0, known=0)
    nontrivial, samples = set(), []
    last = {}
    err = {}
    slow = {}

    @hypothesis.seed(seed_of(seed, test.name, shard))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(test.strategy())
    def body(case):
        if err or time.time() - T0 > LIMIT:
            st["skipped"] += 1
            return
        case = json.loads(json.dumps(case))
        if test.known is not None and test.known(case):
            st["known"] += 1
            return
        st["evals"] += 1
        tame()
        tc = time.time()
        verdict, info = run_case(test, case)
        if time.time() - tc > slow.get("t", 0):
            slow.update(t=time.time() - tc, case=case)
        if verdict == "error":
            err["text"] = "case %s\n%s" % (canon(case)[:2000], info)
            return
        if verdict == "violation":
            last.update(case=case, info=info)
            raise Found()
        if verdict == "inconclusive":
            st["inconclusive"] += 1
        elif verdict == "trivial":
            st["trivial"] += 1
        else:
            h = hashlib.sha256((test.name + canon(case)).encode()).hexdigest()[:16]
            if h not in nontrivial:
                nontrivial.add(h)
                if len(samples) < 2 or (len(samples) < 4 and len(nontrivial) % 37 == 0):
                    samples.append(canon(case)[:600])

    t = time.time()
    flaky = None
    try:
        body()
    except Found:
        pass
    except hypothesis.errors.Flaky as e:
        flaky = str(e)[:300]
    except BaseException as e:  # noqa: BLE001
        if not last:
            err["text"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-3000:]
    out = dict(
        test=test.name,
        shard=shard,
        n=n,
        wall=time.time() - t,
        labels=dict(core.LABELS),
        nontrivial=sorted(nontrivial),
        samples=samples,
        slow=slow,
        **st,
    )
    if last:
        out["violation"] = dict(last, flaky=flaky)
    if err:
        out["error"] = err["text"]
    return out


def main():
    pid, tier, seed, outp, spec = sys.argv[1:6]
    out = open(outp, "w")

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    mod = importlib.import_module("vlib.props." + pid.lower())
    tests = {t.name: t for t in mod.TESTS}
    import jax_galsim

    if not os.path.realpath(jax_galsim.__file__).startswith(
        os.path.realpath(env.REPO) + os.sep
    ):
        emit(dict(error="jax_galsim imported from %s" % jax_galsim.__file__))
        return 3
    if spec == "--case":
        with open(sys.argv[6]) as fh:
            items = json.load(fh)
        for it in items:
            if it["test"] not in tests:
                emit(dict(test=it["test"], verdict="error", info="no such test"))
                continue
            v, info = run_case(tests[it["test"]], it["case"])
            emit(dict(test=it["test"], verdict=v, info=info))
        return 0
    for name, shard, n in json.loads(spec):
        emit(dict(start=name, shard=shard))
        emit(run_task(tests[name], shard, n, seed))
    emit(dict(done=True, wall=time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
