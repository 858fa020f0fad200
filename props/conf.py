"""A layer rebuilt from its configuration (loaded in worker processes only)."""
import keras
import numpy as np

from symx import tfx
from symx.core import Case

from . import lib


def _same(outs, refs, ex):
    if len(outs) != len(refs):
        return lib.bad(f"{len(refs)} outputs instead of {len(outs)} once rebuilt")(outs[0].dtype == object)
    r = []
    for i, (a, b) in enumerate(zip(outs, refs)):
        if a.shape != b.shape:
            return lib.bad(f"output {i}: shape {b.shape} instead of {a.shape} once rebuilt")(outs[0].dtype == object or b.dtype == object)
        r += [(f"output {i} +", a - b), (f"output {i} -", b - a)]
    return r


def _rebuild(layer, args, variables):
    """the layer made from the configuration of another one, holding the same (symbolic) values as weights"""
    new = type(layer).from_config(layer.get_config())
    if getattr(layer, "keras_weights_names", None) and getattr(layer, "shared", False):
        new.share_weights(layer)
    inner = getattr(new, "layer", None)
    if inner is not None and inner is not layer.layer:  # the layer stood for is used once, as the first one was
        old = layer.layer.input
        inner([keras.Input(i.shape[1:]) for i in old] if isinstance(old, list) else keras.Input(old.shape[1:]))
    for x in (layer, new):
        if not x.built:
            x([keras.Input(a.shape[1:]) for a in args])
    values = {id(v): a for v, a in variables}
    pairs = list(variables)

    def give(v, w):
        if v is w:
            return
        if tuple(v.shape) != tuple(w.shape):
            raise AssertionError(f"weight {w.name} of shape {w.shape} instead of {v.shape}")
        if id(v) in values:
            pairs.append((w, values[id(v)]))
        else:
            w.assign(v)

    if len(layer.weights) != len(new.weights):
        raise AssertionError(f"{len(new.weights)} weights instead of {len(layer.weights)}")
    byname = {w.name: w for w in new.weights}
    own = [v.name for v in layer.weights]
    if len(byname) == len(set(own)) == len(own) and set(own) == set(byname):
        for v in layer.weights:
            give(v, byname[v.name])
    else:
        for v, w in zip(layer.weights, new.weights):
            give(v, w)
    return new, pairs


def rebuilt(c):
    """from a case on one decomon layer: the layer rebuilt from its configuration gives the same outputs"""
    layer = getattr(c, "decomon_layer", None) or getattr(c, "backward", None)
    inner = getattr(layer, "layer", None)
    if layer is None or (inner is not None and (inner.weights or hasattr(inner, "mode"))):
        return Case("", lambda x: x, [tfx.symvar("x", (1, 1), -1, 1)], lambda o, r, e: [], bounds="not a layer rebuilt here")
    try:
        new, variables = _rebuild(layer, c.args, c.variables)
    except AssertionError as e:
        return Case("", lambda *a: layer(list(a)), c.args, lambda o, r, ex, e=str(e): lib.bad(e)(o[0].dtype == object), bounds=c.bounds)
    return Case("", lambda *a: layer(list(a)), c.args, _same, ref=lambda *a: new(list(a)), rargs=c.args, variables=variables,
                assume=c.assume, defined=False, bounds="rebuilt from its configuration: " + c.bounds)


def direct(make, shapes, label=None):
    """a layer taking tensors of any values"""
    args = [tfx.symvar(f"a{i}", (1,) + s, -2, 2) for i, s in enumerate(shapes)]
    labels = [keras.ops.convert_to_tensor(np.array([label], "float32"))] if label else []
    layer = make()
    new = type(layer).from_config(layer.get_config())
    return Case("", lambda *a: layer(list(a) + labels), args, _same, ref=lambda *a: new(list(a) + labels), rargs=args, defined=False,
                bounds=f"{type(layer).__name__} rebuilt from its configuration, inputs {shapes}")


def _shapes(mode, n, h, domain):
    x = (2, n) if domain == "box" else (n,)
    return {"hybrid": [x, (h,), (n, h), (h,), (h,), (n, h), (h,)], "affine": [x, (n, h), (h,), (n, h), (h,)], "ibp": [(h,), (h,)]}[mode]


def crown_layer(kind, mode, domain, dim=True):
    from decomon.models import crown
    from decomon.models.utils import Convert2Mode

    n, h, o = 2, 3, 1
    back = [(h, o), (o,), (h, o), (o,)]
    pd = lib.perturbation(domain)
    if kind == "Fuse":
        return direct(lambda: crown.Fuse(mode), _shapes(mode, n, h, domain) + back)
    if kind == "Convert2BackwardMode":
        return direct(lambda: crown.Convert2BackwardMode(mode, pd), _shapes(mode, n, h, domain) + [(n, o), (o,), (n, o), (o,)])
    if kind == "MergeWithPrevious":
        kw = dict(input_shape_layer=(None, n, h), backward_shape_layer=(None, h, o)) if dim else {}
        return direct(lambda: crown.MergeWithPrevious(**kw), [(n, h), (h,), (n, h), (h,)] + back)
    return direct(lambda: Convert2Mode(mode_from=kind, mode_to=mode, perturbation_domain=pd, **(dict(input_dim=n) if dim else {})),
                  _shapes(kind, n, h, domain))


def metric(which, mode, domain, backward=False, label=(0, 1, 0)):
    """metric layers: any bounds of 3 outputs, concrete labels"""
    from decomon.metrics import loss, metric as M

    n, o = 2, 3
    pd = lib.perturbation(domain)
    ins = _shapes(mode, n, o, domain)
    if which in ("fusion", "asymptotic"):
        return direct(lambda: loss.DecomonLossFusion(asymptotic=which == "asymptotic", perturbation_domain=pd, mode=mode), ins)
    if which == "radius":
        return direct(lambda: loss.DecomonRadiusRobust(backward=backward, perturbation_domain=pd, mode=mode), ins)
    cls = dict(score=M.AdversarialScore, check=M.AdversarialCheck, upper=M.UpperScore)[which]
    x = (2, n) if domain == "box" else (n,)
    head = [x, x] if mode == "ibp" else [x]
    b = [(1, n, o), (1, o), (1, n, o), (1, o)]
    return direct(lambda: cls(mode != "affine", mode != "ibp", "backward" if backward else "forward", pd), head + ins + (b if backward else []), label)
