"""Worker process: builds and decides verification cases."""
import os
import sys
import time
import traceback


def setup():
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ.setdefault("KERAS_BACKEND", "tensorflow")
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    for k in ("OMP_NUM_THREADS", "TF_NUM_INTRAOP_THREADS", "TF_NUM_INTEROP_THREADS"):
        os.environ[k] = "1"
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = os.path.join(os.environ.get("REPO_DIR", "/repo"), "src")
    sys.path.insert(0, src)
    import warnings

    warnings.filterwarnings("ignore")
    from symx import cover, z3load  # noqa: F401  (z3 before tensorflow)

    cover.start()
    import decomon

    assert os.path.realpath(decomon.__file__).startswith(os.path.realpath(src)), decomon.__file__


def load(pid):
    import importlib

    mod = importlib.import_module(f"props.{pid}")
    return {c[0]: c for c in mod.cases()}


def main(pid, tier, seed, known, inq, outq):
    sys.stdout = open(os.devnull, "w")
    try:
        setup()
        from symx import core, cover
        from symx import expr as E

        cs = load(pid)
    except BaseException:
        outq.put(("fatal", os.getpid(), traceback.format_exc()[-3000:]))
        return
    while True:
        name = inq.get()
        if name is None:
            break
        outq.put(("start", os.getpid(), name))
        t0 = time.time()
        try:
            E.reset()
            case = cs[name][2]()
            case.name = name
            o = core.run_case(case, seed, known, tier)
        except Exception as e:
            o = core.Outcome(name)
            fr = traceback.extract_tb(e.__traceback__)
            if any("/decomon/" in f.filename for f in fr) and not isinstance(e, (MemoryError, ImportError)):
                # the code under test raises when the configuration is built
                core.construction_raises(o, known, e)
            else:
                o.errors.append(f"building the case: {type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}")
        o.wall = time.time() - t0
        outq.put(("done", os.getpid(), o.as_dict()))
    outq.put(("cover", os.getpid(), cover.drain()))
