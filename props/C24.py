import importlib

from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "batches of two samples; the other sample takes any values at all, valid bounds or not",
    "the configurations are those of the cases of the property named in each case",
])
# property -> one case out of n in the quick tier (all of them in the thorough one)
SOURCES = {"C01": 1, "C03": 1, "C04": 1, "C05": 2, "C06": 1, "C07": 3, "C08": 1, "C09": 1, "C10": 3, "C11": 4, "C12": 4, "C13": 3,
           "C14": 8, "C15": 8, "C21": 8}


def batch(c, tag):
    import numpy as np
    from symx import core, tfx

    if type(c) is not core.Case or not c.args:
        return core.Case("", lambda x: x, [tfx.symvar("x", (1, 1), -1, 1)], lambda o, r, e: [], bounds="refused or without input")
    rnd = np.random.RandomState(len(tag))
    args = []
    for i, a in enumerate(c.args):
        if a.ndim == 0:  # the radius of a ball
            args.append(a)
            continue
        if a.shape[0] != 1:
            raise ValueError(f"input {i} of shape {a.shape}")
        if all(e.is_const() for e in a.reshape(-1)):
            v = np.array([float(e.cval()) for e in a.reshape(-1)]).reshape(a.shape)
            o = tfx.const_arr(v + np.round(rnd.uniform(-0.1, 0.1, a.shape) * 64) / 64)
        else:
            o = tfx.symvar(f"other{i}", a.shape, -4, 4)
        args.append(np.concatenate([o, a]))

    def viol(outs, refs, ex):
        if len(outs) != len(refs):
            return L.bad("number of outputs")(outs[0].dtype == object)
        r = []
        for i, (o, s) in enumerate(zip(outs, refs)):
            if o.ndim == 0 or o.shape[0] not in (1, 2) or o.shape[1:] != s.shape[1:]:
                return L.bad(f"shape {o.shape} of output {i} in a batch of two, {s.shape} alone")(o.dtype == object)
            d = np.asarray(o[-1:] - s)
            r += [(f"output {i}", d), (f"output {i}-", -d)]
        return r

    return core.Case("", c.impl, args, viol, ref=c.impl, rargs=c.args, variables=c.variables, bounds="batch of two: " + c.bounds, axioms=None, defined=False)


def cases():
    for pid, n in SOURCES.items():
        k = 0
        for name, opts, b in importlib.import_module(f"props.{pid}").cases():
            # not defined on arbitrary values of the other sample; averaged over the batch; already several samples
            if name.startswith(("frac_pos", "log")) or (pid == "C21" and (" loss " in name or "batch 2" in name)):
                continue
            k += 1
            tag = f"{pid} {name}"
            tier = "quick" if k % n == 0 and opts.get("tier", "quick") == "quick" else "thorough"
            yield tag, dict(opts, tier=tier), (lambda b=b, tag=tag: batch(b(), tag))
