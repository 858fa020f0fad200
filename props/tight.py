"""Exactness of the bounds where nothing is relaxed (loaded in worker processes only)."""
import keras
import numpy as np
from keras import layers as KL

from symx import expr as E
from symx import tfx
from symx.core import Case
from symx.states import State, split_outs, lin

from . import lib

NO = {"ibp": 2, "affine": 5, "hybrid": 7}


def _per_output(outs, mode):
    k = NO[mode]
    return [split_outs(mode, outs[i:i + k]) for i in range(0, len(outs), k)]


def _eq(label, a, b):
    a, b = np.asarray(a), np.asarray(b)
    return [(label + " +", a.reshape(b.shape) - b), (label + " -", b - a.reshape(b.shape))]


def at_point(make, n_in, method, slope="volume-slope", key=(), conc=None, axioms=None, tol=None, **kw):
    """a box reduced to a point: every bound is the output at that point"""
    from decomon.models import clone

    m = make()
    lib.set_conc(m, *key)
    cm = clone(m, method=method, slope=slope)
    mode = lib.model_mode(cm)
    xs = tfx.symvar("xs", (n_in,), -2, 2) if conc is None else tfx.const_arr(lib.dyadic((n_in,), "pt", conc, lo=-2, hi=2))
    x = np.stack([xs, xs])[None]

    def viol(outs, refs, ex):
        r = []
        for i, (d, z) in enumerate(zip(_per_output(outs, mode), refs)):
            z = z[0]
            if "u_c" in d:
                r += _eq(f"upper {i}", d["u_c"], z) + _eq(f"lower {i}", d["l_c"], z)
            if "w_u" in d:
                r += _eq(f"affine upper {i}", lin(d["w_u"], d["b_u"], ex["xs"]), z.reshape(d["b_u"].shape))
                r += _eq(f"affine lower {i}", lin(d["w_l"], d["b_l"], ex["xs"]), z.reshape(d["b_u"].shape))
        return r

    return Case("", lambda a: cm(a), [x], viol, ref=lambda y: m(y), rargs=[xs[None]], extras=dict(xs=xs), axioms=axioms,
                bounds=f"{method}, slope {slope}, boxes reduced to a point of [-2,2]^{n_in}", **kw)


def affine_network(make, n_in, method, key=(), domain="box", **kw):
    """without non-linear units: the affine bounds are the network, the constant ones its extrema over the domain"""
    from decomon.models import clone

    m = make()
    lib.set_conc(m, *key)
    pd = lib.perturbation(domain, 0.5)
    cm = clone(m, method=method, perturbation_domain=pd)
    mode = lib.model_mode(cm)
    x, xs, assume, nl, note = lib.domain_point(domain, n_in, 2, 2, None, 0.5)
    # the network is affine: its exact matrix (concrete weights)
    z0 = [np.asarray(v) for v in _list(m(np.zeros((1, n_in), "float32")))]
    cols = [[np.asarray(v) for v in _list(m(np.eye(n_in, dtype="float32")[i:i + 1]))] for i in range(n_in)]
    mats = [np.stack([cols[i][k][0] - z0[k][0] for i in range(n_in)]).astype(float) for k in range(len(z0))]

    def viol(outs, refs, ex):
        r = []
        for i, (d, z) in enumerate(zip(_per_output(outs, mode), refs)):
            z = z[0]
            if "w_u" in d:
                r += _eq(f"affine upper {i}", lin(d["w_u"], d["b_u"], ex["xs"]), z.reshape(d["b_u"].shape))
                r += _eq(f"affine lower {i}", lin(d["w_l"], d["b_l"], ex["xs"]), z.reshape(d["b_u"].shape))
            if "u_c" in d:
                # value of the affine map at the vertex of the box reaching its maximum
                lo, hi = ex["x"][0] if domain == "box" else (ex["x"][0] - 0.5, ex["x"][0] + 0.5)
                up, dn = z * 0, z * 0
                for k in range(n_in):
                    w = mats[i][k]
                    up = up + np.where(w > 0, 1, 0) * w * (hi[k] - ex["xs"][k]) + np.where(w > 0, 0, 1) * w * (lo[k] - ex["xs"][k])
                    dn = dn + np.where(w > 0, 1, 0) * w * (lo[k] - ex["xs"][k]) + np.where(w > 0, 0, 1) * w * (hi[k] - ex["xs"][k])
                r += _eq(f"upper {i}", d["u_c"], (z + up).reshape(d["u_c"].shape))
                r += _eq(f"lower {i}", d["l_c"], (z + dn).reshape(d["u_c"].shape))
        return r

    return Case("", lambda a: cm(a), [x], viol, ref=lambda y: m(y), rargs=[xs[None]], extras=dict(xs=xs, x=x), assume=assume, nl=nl,
                bounds=f"{method}, affine network, {note}", **kw)


def _list(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def not_looser(make, n_in, method, than, key=(), conc=None, slope="volume-slope", **kw):
    """the constant bounds of a method are within those of another one"""
    from decomon.models import clone

    m = make()
    lib.set_conc(m, *key)
    a, b = clone(m, method=method, slope=slope, final_ibp=True, final_affine=False), clone(m, method=than)
    x, xs, assume, nl, note = lib.domain_point("box", n_in, 1, 1, conc, 0.5)

    def viol(outs, refs, ex):
        r = []
        for i in range(0, len(refs), 2):
            r += [(f"upper {i // 2}", outs[i].reshape(refs[i].shape) - refs[i]),
                  (f"lower {i // 2}", refs[i + 1] - outs[i + 1].reshape(refs[i + 1].shape))]
        return r

    return Case("", lambda v: a(v), [x], viol, ref=lambda v: b(v), rargs=[x], assume=assume, nl=nl,
                bounds=f"{method} against {than}, slope {slope}, {note}", **kw)


def linear_interval(make_layer, yshape, key=(), **kw):
    """interval bounds of a linear layer: its value at the vertex of the box of inputs reaching the extremum of each output"""
    from decomon.layers.convert import to_decomon

    layer = lib.built(make_layer(), yshape)
    lib.set_conc(layer, *key)
    dl = to_decomon(layer, input_dim=1, ibp=True, affine=False, shared=True)
    st = State("ibp", 1, yshape)
    n = int(np.prod(yshape))
    z0 = np.asarray(layer(np.zeros((1,) + yshape, "float32")))[0].astype(float)
    mat = np.stack([np.asarray(layer(np.eye(n, dtype="float32")[i].reshape((1,) + yshape)))[0] - z0 for i in range(n)]).astype(float)

    def viol(outs, refs, ex):
        u, l = ex["u"].reshape(-1), ex["l"].reshape(-1)
        up, dn = z0 + 0 * refs[0][0], z0 + 0 * refs[0][0]
        for i in range(n):
            pos, neg = np.maximum(mat[i], 0), np.minimum(mat[i], 0)
            up, dn = up + pos * u[i] + neg * l[i], dn + pos * l[i] + neg * u[i]
        return _eq("upper", outs[0][0], up) + _eq("lower", outs[1][0], dn)

    return Case("", lambda *a: dl(list(a)), st.args, viol, ref=lambda y: layer(y), rargs=[st.yb], extras=dict(u=st.u_c, l=st.l_c),
                assume=st.assume, bounds=f"interval bounds of a linear layer with concrete weights, input {yshape}, any valid interval", **kw)


def monotone_interval(fn, yshape, axioms=None, **kw):
    """interval bounds of an increasing function: its values at the ends"""
    from decomon.layers.convert import to_decomon

    layer = lib.built(fn(), yshape)
    dl = to_decomon(layer, input_dim=1, ibp=True, affine=False, shared=True)
    st = State("ibp", 1, yshape)

    def viol(outs, refs, ex):
        return _eq("upper", outs[0], refs[0]) + _eq("lower", outs[1], refs[1])

    return Case("", lambda *a: dl(list(a)), st.args, viol, ref=lambda u, l: [layer(u), layer(l)], rargs=st.args,
                assume=st.assume, axioms=axioms, bounds=f"interval bounds of an increasing function, input {yshape}, any valid interval", **kw)


def relu_ends(mode, slope, sign, n_in=1, **kw):
    """relu of an exact affine input over a box: the upper bound is exact at the ends of the interval when n_in is 1;
    sign > 0 (< 0): an interval that keeps its sign gives both bounds exactly"""
    from decomon.layers.convert import to_decomon
    from decomon.core import get_affine, get_ibp

    layer = lib.built(KL.Activation("relu"), (1,))
    dl = to_decomon(layer, input_dim=n_in, slope=slope, ibp=get_ibp(mode), affine=get_affine(mode), shared=True)
    w = lib.dyadic((n_in, 1), "relu ends", sign, n_in, lo=0.5, hi=2) * np.where(np.arange(n_in) % 2, -1, 1)[:, None]
    st = State(mode, n_in, (1,), w_fixed=(w, w), ws=0)
    lo, hi = st.x[0]
    vert = []
    for i in range(n_in):
        vert.append((lo[i], hi[i]) if w[i, 0] > 0 else (hi[i], lo[i]))
    ends = [np.array([v[k] for v in vert], dtype=object) for k in (0, 1)]
    assume = list(st.assume)
    val = [lin(st.w_u, st.b_u, e) for e in ends]  # the input at the lower and upper end
    if mode == "hybrid":
        assume += [E.eq(a, b) for a, b in ((val[1][0], st.u_c[0]), (val[0][0], st.l_c[0]))]
    if sign > 0:
        assume.append(E.ge(val[0][0], E.ZERO))
    elif sign < 0:
        assume.append(E.ge(E.ZERO, val[1][0]))
    else:  # an unstable unit, with a non degenerate interval
        g = E.const(0.125)
        assume += [E.ge(-val[0][0], g), E.ge(val[1][0], g)]

    def viol(outs, refs, ex):
        d = split_outs(mode, outs)
        r = []
        for k, e in (("low", ex["e0"]), ("high", ex["e1"])):
            z = refs[0 if k == "low" else 1][0]
            r += _eq(f"affine upper at the {k} end", lin(d["w_u"], d["b_u"], e), z)
            if sign:
                r += _eq(f"affine lower at the {k} end", lin(d["w_l"], d["b_l"], e), z)
        if mode == "hybrid":
            r += _eq("upper", d["u_c"], refs[1][0]) + _eq("lower", d["l_c"], refs[0][0])
        return r

    return Case("", lambda *a: dl(list(a)), st.args, viol, ref=lambda a, b: [layer(a), layer(b)], rargs=[val[0][None], val[1][None]],
                extras=dict(e0=ends[0], e1=ends[1]), assume=assume, nl=st.nl,
                bounds=f"relu, {mode}, {slope}, exact affine input over any box of dimension {n_in}", **kw)


def _fun(n, f):
    def make():
        i = keras.Input((n,))
        return keras.Model(i, f(i))

    return (n, make)


def _bn(x):
    return KL.Dense(2)(KL.BatchNormalization()(KL.Dense(3)(x)))


LINEAR = {
    "linear": _fun(2, lambda x: KL.Dense(2)(KL.Dense(3)(x))),
    "linear conv": _fun(4, lambda x: KL.Flatten()(KL.Conv2D(2, 2, padding="same")(KL.Reshape((2, 2, 1))(x)))),
    "linear add": _fun(2, lambda x: KL.Add()([KL.Dense(2)(x), x])),
    "linear average": _fun(2, lambda x: KL.Average()([KL.Dense(2)(x), x, KL.Dense(2)(x)])),
    "linear batchnorm": _fun(2, _bn),
    "linear permute": _fun(4, lambda x: KL.Flatten()(KL.Dense(2)(KL.Permute((2, 1))(KL.Reshape((2, 2))(x))))),
    "linear two heads": _fun(2, lambda x: [KL.Dense(2)(x), KL.Subtract()([KL.Dense(2)(x), x])]),
}
