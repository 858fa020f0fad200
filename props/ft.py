"""Slope parameters (finetune=True)."""
from __future__ import annotations

import numpy as np

from symx import tfx
from symx.core import Case

from . import lib


def _params(model, original):
    own = {id(v) for v in original.weights}
    return [v for v in model.trainable_weights if id(v) not in own]


def projections(make_model, n_in, method, slope="volume-slope"):
    """the constraint of every slope parameter maps any value into [0,1], leaves [0,1] alone; initial values are 1"""
    from decomon.models import clone

    m = make_model()
    cm = clone(m, method=method, finetune=True, slope=slope)
    ps = _params(cm, m)
    if not ps:
        raise AssertionError("no slope parameter")
    args = [tfx.symvar(f"p{i}", tuple(v.shape), -5, 5) for i, v in enumerate(ps)]

    def impl(*a):
        r = []
        for v, x in zip(ps, a):
            c = v.constraint(x) if v.constraint is not None else x
            r += [c, v.constraint(c) if v.constraint is not None else c]
        return r

    def viol(outs, refs, ex):
        r = []
        for i, v in enumerate(ps):
            c, cc = outs[2 * i], outs[2 * i + 1]
            r += [(f"{v.path} above 1", c - 1), (f"{v.path} below 0", -c), (f"{v.path} moved", cc - c), (f"{v.path} moved-", c - cc)]
        return r

    return Case("", impl, args, viol, bounds=f"{method}: every slope parameter {[v.path for v in ps]} with values in [-5,5]")


def constraint(name, shape):
    import decomon.layers.utils as U

    c = getattr(U, name)()
    w = tfx.symvar("w", shape, -5, 5)

    def viol(outs, refs, ex):
        o, oo, w = outs[0], outs[1], ex["w"]
        r = []
        if name in ("NonNeg", "ClipAlpha", "ClipAlphaGrid"):
            r += [("negative", -o)]
        if name == "NonPos":
            r += [("positive", o)]
        if name in ("ClipAlpha", "ClipAlphaGrid"):
            r += [("above 1", o - 1)]
        if name == "ClipAlphaGrid":
            r += [("sum above 1", sum(list(o[1:]), o[0]) - 1)]
        return r + [("not a projection", oo - o), ("not a projection-", o - oo)]

    return Case("", lambda a: [c(a), c(c(a))], [w], viol, extras=dict(w=w), bounds=f"{name} on values in [-5,5], shape {shape}")


def same_as_unoptimised(make_model, n_in, method, key=(), slope="volume-slope", reset=False, domain="box"):
    """slope parameters at their initial value (or put back to it) give the bounds of the conversion without them"""
    from decomon.models import clone

    from .prep import same_outputs

    m = make_model()
    lib.set_conc(m, *key)
    pd = lib.perturbation(domain)
    a = clone(m, method=method, finetune=True, slope=slope, perturbation_domain=pd)
    b = clone(m, method=method, slope=slope, perturbation_domain=pd)
    if reset:
        for i, v in enumerate(_params(a, m)):
            v.assign(lib.dyadic(tuple(v.shape), "ft", i, *key, lo=0, hi=1).astype("float32"))
        a.reset_finetuning()
    x, xs, assume, nl, note = lib.domain_point(domain, n_in, 1, 2, None, 0.5)
    return Case("", lambda t: a(t), [x], same_outputs, ref=lambda t: b(t), rargs=[x], assume=assume, nl=nl,
                bounds=f"{method}, slope {slope}, {note}, concrete weights" + (", slope parameters reset" if reset else ""))


def maxfun(name, shapes, mode, n_in, key=(), conc=None, domain="box", **kw):
    """max_, maximum, minimum with finetune parameters"""
    import keras.ops as K
    import decomon.layers.utils as U
    import decomon.utils as D

    op, ref = {"max_": (U.max_, lambda y: K.max(y, -1)), "min_": (U.min_, lambda y: K.min(y, -1)),
               "max_ 1": (lambda *a, **k: U.max_(*a, axis=1, **k), lambda y: K.max(y, 1)),
               "maximum": (D.maximum, lambda y, z: K.maximum(y, z)), "minimum": (D.minimum, lambda y, z: K.minimum(y, z))}[name]
    p = tfx.symvar("ft", tuple(shapes[0]), 0, 1)
    return lib.util(op, ref, shapes, mode, n_in=n_in, key=key, conc=conc, domain=domain, finetune=p, **kw)

