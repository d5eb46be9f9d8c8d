"""Environment of every check: where things live, which interpreter runs the
code under test, and the Hypothesis dependency (unzipped from the offline
wheelhouse, because the interpreter that has JAX does not have it)."""

import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
DEPS = os.path.join(VERIF, ".deps")
CACHE = os.path.join(VERIF, ".cache", "jax")
WHEELS = "/opt/veriftools/wheels"
PYVENV_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NEEDED = ("hypothesis", "sortedcontainers")


def ensure_deps():
    """Make hypothesis importable without touching anything outside /verif."""
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        return DEPS
    tmp = tempfile.mkdtemp(prefix=".deps.tmp", dir=VERIF)
    try:
        for name in NEEDED:
            whl = [
                f
                for f in (os.listdir(WHEELS) if os.path.isdir(WHEELS) else [])
                if f.startswith(name + "-")
                and f.endswith(".whl")
                and ("cp312" in f or "py3-none-any" in f)
            ]
            if whl:
                with zipfile.ZipFile(os.path.join(WHEELS, sorted(whl)[-1])) as z:
                    z.extractall(tmp)
            else:
                shutil.copytree(
                    os.path.join(PYVENV_SP, name), os.path.join(tmp, name)
                )
        try:
            os.rename(tmp, DEPS)
        except OSError:
            if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return DEPS


def child_env(seed, tier):
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1",
        JAX_COMPILATION_CACHE_DIR=CACHE,
        JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
        JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONNOUSERSITE="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(VERIF, ".cache", "hypothesis"),
        VERIF_SEED=str(seed),
        VERIF_TIER=tier,
        PYTHONPATH=os.pathsep.join([REPO, VERIF]),
    )
    return env


def setup_path():
    """sys.path for a worker: the code under test, this package, hypothesis."""
    d = ensure_deps()
    if d not in sys.path:
        sys.path.append(d)
