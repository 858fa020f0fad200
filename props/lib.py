"""Builders shared by the property modules (loaded in worker processes only)."""
import hashlib
import random
from fractions import Fraction

import numpy as np

from symx import z3load  # noqa: F401
from symx import core, smt, tfx
from symx import expr as E
from symx.core import Case, concrete_run, lin, p_abs, p_max, p_min, p_relu
from symx.states import State, domain_obj, enclosure, split_outs

import keras
import tensorflow as tf
from keras import layers as KL

from decomon.core import BallDomain, BoxDomain, get_affine, get_ibp, get_mode

MODES = ("ibp", "affine", "hybrid")
GRID = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0]


def rng_of(*key):
    return np.random.RandomState(int(hashlib.sha256(repr(key).encode()).hexdigest()[:8], 16))


def dyadic(shape, *key, lo=-2.0, hi=2.0, den=8, sparse=0.0):
    r = rng_of(*key)
    a = np.round(r.uniform(lo, hi, shape) * den) / den
    if sparse:
        a = a * (r.uniform(0, 1, shape) > sparse)
    return a


def w_pattern(n_in, yshape, *key):
    """two concrete weight tensors with mixed signs, equal entries and zeros"""
    r = rng_of("wp", *key)
    sh = (n_in,) + tuple(yshape)
    wu = r.choice(GRID, sh)
    wl = np.where(r.uniform(0, 1, sh) < 0.3, wu, r.choice(GRID, sh))
    return wu, wl


def perturbation(domain, eps=0.5):
    if domain == "box":
        return BoxDomain()
    return BallDomain(eps=eps, p={"linf": np.inf, "l1": 1, "l2": 2}[domain])


def built(layer, *shapes):
    ins = [KL.Input(tuple(s)) for s in shapes]
    layer(ins[0] if len(ins) == 1 else ins)
    return layer


def sym_weights(layer, lo=-2, hi=2, special=None):
    """every weight of the layer becomes a symbolic variable"""
    out = []
    for i, v in enumerate(layer.weights):
        l, h = (special or {}).get(v.name, (lo, hi))
        out.append((v, tfx.symvar(f"wt{i}_{v.name}", tuple(v.shape), l, h)))
    return out


def conc_weights(layer, *key, special=None, **kw):
    out = []
    for i, v in enumerate(layer.weights):
        a = dyadic(tuple(v.shape), "w", i, *key, **kw)
        if special and v.name in special:
            l, h = special[v.name]
            a = np.round(rng_of("sp", i, *key).uniform(l, h, tuple(v.shape)) * 8) / 8
        v.assign(a.astype("float32"))
    return out


def fwd(
    make_layer,
    yshapes,
    mode,
    n_in=1,
    domain="box",
    weights="sym",
    w_fixed=None,
    slope="volume-slope",
    dc=False,
    finetune=False,
    fast=True,
    shared=True,
    identity=False,
    key=(),
    wlo=-2,
    whi=2,
    B=4,
    special=None,
    batch=1,
    fine_sym=True,
    xfix=False,
    refvalue=None,
    cs=None,
    ws=None,
    conc=None,
    viol=None,
    axioms=None,
    **kw,
):
    """decomon's forward version of a keras layer, on arbitrary bounds valid at an arbitrary point"""
    from decomon.layers.convert import to_decomon

    layer = built(make_layer(), *yshapes)
    pd = perturbation(domain)
    dl = to_decomon(
        layer, input_dim=n_in, slope=slope, dc_decomp=dc, perturbation_domain=pd, finetune=finetune,
        ibp=get_ibp(mode), affine=get_affine(mode), shared=shared, fast=fast,
    )
    variables = sym_weights(layer, wlo, whi, special) if weights == "sym" else conc_weights(layer, *key, special=special)
    if weights == "sym":  # a decomon layer holding copies of the weights gets the same values
        own = {id(v) for v, _ in variables}
        for n in dl.keras_weights_names:
            src, dst = getattr(layer, n, None), getattr(dl, n, None)
            if dst is not None and id(dst) not in own:
                variables.append((dst, next(a for v, a in variables if v is src)))
                own.add(id(dst))
    elif layer.weights:
        dl.reset_layer(layer)
    sts = []
    for i, ysh in enumerate(yshapes):
        wf = w_fixed if isinstance(w_fixed, tuple) else w_pattern(n_in, ysh, i, *key) if w_fixed else None
        sts.append(
            State(mode, n_in, ysh, domain=domain, pre="" if i == 0 else f"i{i}", share=sts[0] if i else None,
                  w_fixed=wf, dc=dc, identity=identity, B=B, cs=cs, ws=ws, conc=None if conc is None else 1000 * conc + i, xfix=[Fraction(1, 2)] * n_in if xfix else None)
        )
    args = [a for s in sts for a in s.args]
    assume = [f for s in sts for f in s.assume]
    if finetune:
        for v in dl.trainable_weights:
            if not any(v is u for u in layer.weights):
                variables = variables + [(v, tfx.symvar("ft_" + v.name, tuple(v.shape), 0, 1))]
    yb = [s.yb for s in sts]
    ref = (lambda *ys: layer(ys[0] if len(ys) == 1 else list(ys))) if refvalue is None else refvalue
    ex = {}
    if mode != "ibp":
        ex = dict(xs=sts[0].xs, x=sts[0].x)
    c = Case(
        "", lambda *a: dl(list(a)), args, viol or enclosure(mode, dc), ref=ref, rargs=yb, variables=variables,
        extras=ex, assume=assume, nl=sts[0].nl, hints=sts[0].hints(), axioms=axioms,
        bounds=f"{mode}, domain {domain} of dim {n_in}, input shapes {list(map(tuple, yshapes))}, |values|<={B}, slacks<=8, "
        + ("concrete box and incoming bounds, point and value symbolic" if conc is not None else "incoming affine weights: fixed sign pattern" if w_fixed else "all symbolic")
        + (", layer weights symbolic" if weights == "sym" and variables else ""),
        **kw,
    )
    c.layer, c.decomon_layer, c.states = layer, dl, sts
    return c


def tangent_contract(c, name, mode, sign=1):
    """the tangent branch of the S-shaped hulls becomes any line satisfying its contract"""
    import decomon.utils as D

    real = c.impl
    st = c.states[0]
    y = st.y.reshape(-1)[0]
    t = [tfx.symvar(n, (1, 1), lo, hi) for n, lo, hi in (("twu", 0, 1), ("tbu", -6, 6), ("twl", 0, 1), ("tbl", -6, 6))]
    fn = getattr(keras.ops, name)
    f = tfx.trace(fn, [(1, 1)]).run(np.array([[y]], dtype=object))[0].reshape(-1)[0]
    wu, bu, wl, bl = [a.reshape(-1)[0] for a in t]
    c.assume = list(c.assume) + [E.ge(E.mul(wu, y) + bu, f), E.ge(f, E.mul(wl, y) + bl)]
    # the interval is not degenerate (below K.epsilon() the slope of the chord is replaced: see C26 for points)
    g = E.const(Fraction(1, 1000))
    dp, dm = (st.dp[0], st.dm[0]) if st.domain == "box" else (E.as_expr(st.eps) - st.d[0], E.as_expr(st.eps) + st.d[0])
    up, dn = (dp, dm) if sign > 0 else (dm, dp)
    if mode == "affine":
        c.assume.append(E.ge(up + dn, g))
    else:
        su, sl = (st.u_c - st.y).reshape(-1)[0], (st.y - st.l_c).reshape(-1)[0]
        c.assume.append(E.or_(E.and_(E.ge(su, g), E.ge(up, g)), E.and_(E.ge(sl, g), E.ge(dn, g))))
    c.args = list(c.args) + t

    def impl(*a):
        a, h = a[:-4], a[-4:]
        old = {n: getattr(D, n, None) for n in ("get_t_upper", "get_t_lower")}
        try:
            if old["get_t_upper"] is not None:
                D.get_t_upper = lambda *x, **k: list(h[:2])
            if old["get_t_lower"] is not None:
                D.get_t_lower = lambda *x, **k: list(h[2:])
            return real(*a)
        finally:
            for n, v in old.items():
                if v is not None:
                    setattr(D, n, v)

    c.impl = impl
    c.replay_impl = lambda *a: real(*a[:-4])
    return c


def util(op, ref, yshapes, mode, n_in=1, domain="box", w_fixed=True, key=(), B=4, cs=None, ws=None, conc=None, dc=False,
         positive=None, axioms=None, dense_viol=None, assume=(), finetune=None, **kw):
    """a decomon function of bounds lists: op(list per input, mode=, perturbation_domain=) against ref(y...)"""
    pd = perturbation(domain)
    sts = []
    for i, ysh in enumerate(yshapes):
        sts.append(State(mode, n_in, ysh, domain=domain, pre="" if i == 0 else f"i{i}", share=sts[0] if i else None,
                         w_fixed=w_pattern(n_in, ysh, i, *key) if w_fixed else None, B=B, cs=cs, ws=ws, dc=dc,
                         conc=None if conc is None else 1000 * conc + i, positive=positive))
    k = len(sts[0].args)

    def impl(*a):
        return op(*[list(a[i * k:(i + 1) * k]) for i in range(len(sts))], mode=mode, perturbation_domain=pd,
                  **(dict(dc_decomp=True) if dc else {}), **(dict(finetune=True, finetune_params=a[-1]) if finetune is not None else {}))

    c = Case("", impl, [a for s in sts for a in s.args] + ([] if finetune is None else [finetune]), dense_viol or enclosure(mode, dc), ref=ref,
             rargs=[s.yb for s in sts], extras=dict(xs=sts[0].xs, x=sts[0].x) if mode != "ibp" else {},
             assume=[f for s in sts for f in s.assume] + list(assume), nl=sts[0].nl, hints=sts[0].hints(), axioms=axioms,
             bounds=f"{mode}, domain {domain} of dim {n_in}, input shapes {list(map(tuple, yshapes))}, |values|<={B}, "
             + ("concrete box and incoming bounds, point and value symbolic" if conc is not None else
                "incoming affine weights: fixed sign pattern" if w_fixed else "all symbolic"), **kw)
    c.states = sts
    return c


def or_refused(make, what):
    """the enclosure case of a configuration the code may refuse: when it does, there is nothing to enclose"""
    try:
        c = make()
        tfx.trace(c.impl, [a.shape for a in c.args])
        return c
    except Exception as e:
        why = type(e).__name__
    c = Case("", None, [], lambda o, r, x: [("refused", o[0])], bounds=f"{what}: refused with {why}", validate=False)
    c.encode = lambda out: [([], [tfx.const_arr([0.0])], [])]
    return c


# ---------------------------------------------------------------- whole networks
METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid",
           "forward-ibp", "forward-affine", "forward-hybrid")
NOUT = {"ibp": 2, "affine": 5, "hybrid": 7}


def set_conc(model, *key, lo=-1.5, hi=1.5, den=8):
    """concrete dyadic weights for a Keras model (variances positive)"""
    for i, v in enumerate(model.weights):
        pos = "variance" in v.name
        v.assign(dyadic(tuple(v.shape), "mw", i, *key, lo=0.25 if pos else lo, hi=hi, den=den).astype("float32"))


def multi_enclosure(mode, flat=False):
    """the bounds of every output of a network, in order, enclose the output at the point"""
    k = NOUT[mode]
    one = enclosure(mode)

    def viol(outs, refs, ex):
        if len(outs) != k * len(refs):
            o = np.ones(1) if outs[0].dtype != object else tfx.const_arr([1.0])
            return [(f"{len(outs)} bound tensors for {len(refs)} outputs", o)]
        r = []
        if flat:  # crown gives flattened bounds
            refs = [y.reshape((1, -1)) for y in refs]
        for i, y in enumerate(refs):
            pre = f"output {i} " if len(refs) > 1 else ""
            r += [(pre + n, v) for n, v in one(outs[i * k:(i + 1) * k], [y], ex)]
        return r

    return viol


def domain_point(domain, n_in, B=1, xw=2, conc=None, eps=0.5, xs_range=None):
    """(input of the converted network, the point, assumptions, nonlinear assumptions, extras, note)"""
    assume, nl = [], []
    if conc is not None:
        r = rng_of("box", conc, n_in)
        c = np.round(r.uniform(-1, 1, n_in) * 8) / 8
        if domain == "box":
            w = np.round(r.uniform(0.25, xw, n_in) * 8) / 8
            xs = np.array([E.var(f"xs_{i}", c[i], c[i] + w[i]) for i in range(n_in)], dtype=object)
            x = tfx.const_arr(np.stack([c, c + w]))[None]
            return x, xs, assume, nl, "concrete box"
        d = tfx.symvar("d", (n_in,), -eps, eps)
        xs = tfx.const_arr(c) + d
        x = tfx.const_arr(c)[None]
    else:
        xs = tfx.symvar("xs", (n_in,), -B, B)
        if domain == "box":
            dm, dp = tfx.symvar("dm", (n_in,), 0, xw), tfx.symvar("dp", (n_in,), 0, xw)
            return np.stack([xs - dm, xs + dp])[None], xs, assume, nl, f"box symbolic, widths<={2 * xw}"
        d = tfx.symvar("d", (n_in,), -eps, eps)
        x = (xs - d)[None]
    if domain == "l1":
        assume.append(E.ge(E.const(eps), tfx._sum([E.abs_(v) for v in d])))
    elif domain == "l2":
        nl.append(E.ge(E.const(eps * eps), tfx._sum([E.mul(v, v) for v in d])))
    return x, xs, assume, nl, f"{domain} ball of radius {eps}, centre {'concrete' if conc is not None else 'symbolic'}"


def model_mode(m):
    return get_mode(m.ibp, m.affine).value


def e2e(make_model, n_in, method, domain="box", slope="volume-slope", key=(), sym=(), B=1, xw=2, conc=None, eps=0.5,
        clone_kw=None, wlo=-1.5, whi=1.5, symrange=1.0, viol=None, axioms=None, assign=None, domain_eps=None, slopes=None, **kw):
    """a whole Keras network converted with clone(); sym: indices of the weights left symbolic (around 0)"""
    from decomon.models import clone

    m = make_model()
    set_conc(m, *key, lo=wlo, hi=whi)
    if assign:
        assign(m)
    pd = perturbation(domain, eps)
    cm = clone(m, method=method, perturbation_domain=pd, slope=slope, **(clone_kw or {}))
    mode = model_mode(cm)
    x, xs, assume, nl, note = domain_point(domain, n_in, B, xw, conc, eps)
    variables = []
    for i, v in enumerate(m.weights):
        if i in sym:
            variables.append((v, tfx.symvar(f"wt{i}", tuple(v.shape), -symrange, symrange)))
    if slopes:  # slope parameters of the converted network: the slopes-th one symbolic, or all of them
        own = {id(v) for v in m.weights}
        params = [v for v in cm.trainable_weights if id(v) not in own]
        for i, v in enumerate(params):
            if slopes == "all" or i % len(params) == slopes - 1:
                variables.append((v, tfx.symvar(f"ft{i}", tuple(v.shape), 0, 1)))
            else:
                v.assign(dyadic(tuple(v.shape), "ft", i, *key, lo=0, hi=1).astype("float32"))
    # the weights of the converted network are the variables of the original one (see C25): bind any copy as well
    k = len(m.outputs)
    hints = []
    c = Case("", lambda a: cm(a), [x], viol or multi_enclosure(mode, method.startswith("crown")), ref=lambda y: m(y), rargs=[xs[None]],
             variables=variables, extras=dict(xs=xs, x=x) if mode != "ibp" else {}, assume=assume, nl=nl, hints=hints,
             axioms=axioms, bounds=f"{method}, slope {slope}, {note}, network {getattr(make_model, '__name__', '')}"
             + (", weights symbolic: " + " ".join(m.weights[i].path for i in sym) if sym else ", concrete weights"), **kw)
    c.model, c.clone, c.mode = m, cm, mode
    return c


# ---------------------------------------------------------------- backward layers
def affine_of(outs, y, k=0):
    """(upper, lower) values at the flattened y of the affine functions outs[k:k+4]"""
    w_u, b_u, w_l, b_l = [np.asarray(a[0], dtype=a.dtype) for a in outs[k:k + 4]]
    yf = y.reshape(-1)
    return lin_flat(w_u, yf, b_u), lin_flat(w_l, yf, b_l)


def lin_flat(w, y, b):
    if w.ndim == 1:
        return w * y + b
    r = b
    for i in range(w.shape[0]):
        r = r + w[i] * y[i]
    return np.asarray(r, dtype=object if object in (w.dtype, y.dtype, b.dtype) else b.dtype)


def bad(label):
    return lambda sym: [(label, tfx.const_arr([1.0]) if sym else np.ones(1))]


def backward_viol(exact):
    def viol(outs, refs, ex):
        z, y = refs[0][0], ex["y"]
        sym = outs[0].dtype == object
        n_in, n_out = y.size, z.size
        want = [(n_in, n_out), (n_out,)] * 2
        got = [tuple(a.shape[1:]) for a in outs[:4]]
        if got != want and got != [(n_out,)] * 4:
            return bad(f"shapes {got} instead of {want}")(sym)
        up, lo = affine_of(outs, y)
        zf = z.reshape(-1)
        r = [("upper", zf - up), ("lower", lo - zf)]
        if exact:
            r += [("exact upper", up - zf), ("exact lower", zf - lo)]
        return r

    return viol


def bwd(make_layer, yshape, mode="hybrid", exact=True, n_in=1, domain="box", slope="volume-slope", decomon=False, weights="sym", key=(),
        special=None, finetune=False, B=4, w_fixed=True, conc=None, cs=None, ws=None, axioms=None, y_only=False, wrap=None, **kw):
    """a backward layer: affine functions of the layer's own flattened input, given valid bounds of that input"""
    from decomon.backward_layers.convert import to_backward
    from decomon.layers.convert import to_decomon

    layer = built(make_layer(), yshape)
    pd = perturbation(domain)
    wf = w_fixed if isinstance(w_fixed, tuple) else w_pattern(n_in, yshape, *key) if w_fixed else None
    st = State(mode, n_in, yshape, domain=domain, w_fixed=wf, B=B, cs=cs, ws=ws,
               conc=conc)
    target = layer
    if decomon:
        target = to_decomon(layer, input_dim=n_in, slope=slope, perturbation_domain=pd, ibp=get_ibp(mode), affine=get_affine(mode),
                            shared=True, finetune=False)
        target([KL.Input(a.shape[1:]) for a in st.args])
    bl = to_backward(target, slope=slope, mode=mode, perturbation_domain=pd, finetune=finetune)
    variables = sym_weights(layer, special=special) if weights == "sym" else conc_weights(layer, *key, special=special)
    if decomon and weights != "sym":
        target.reset_layer(layer)
    elif decomon:  # a decomon layer holding copies of the weights gets the same values
        ids = {id(v) for v, _ in variables}
        for n in target.keras_weights_names:
            src, dst = getattr(layer, n, None), getattr(target, n, None)
            if dst is not None and id(dst) not in ids:
                variables.append((dst, next(a for v, a in variables if v is src)))
                ids.add(id(dst))
    own = {id(v) for v, _ in variables}
    ft = []
    if finetune:
        bl.build([(None,) + tuple(a.shape[1:]) for a in st.args])
        for v in bl.trainable_weights:
            if id(v) not in own:
                ft.append((v, tfx.symvar("ft_" + v.name, tuple(v.shape), 0, 1)))
    impl = (lambda *a: bl(list(a))) if wrap is None else wrap(bl)
    c = Case("", impl, st.args, backward_viol(exact), ref=lambda y: layer(y), rargs=[st.yb],
             variables=variables + ft, extras=dict(y=st.y), assume=st.assume, nl=st.nl, hints=st.hints(), axioms=axioms,
             bounds=f"backward, {mode}, domain {domain} of dim {n_in}, input shape {tuple(yshape)}, |values|<={B}"
             + (", layer weights symbolic" if variables else "") + (", slope parameters in [0,1]" if ft else ""), **kw)
    c.layer, c.backward, c.states = layer, bl, [st]
    return c


# ---------------------------------------------------------------- backward merges
def branch_viol(joint=False):
    """each affine function of a branch alone encloses the outer affine bounds of the merged value (joint: their sum is it)"""

    def viol(outs, refs, ex):
        z, ys = refs[0][0].reshape(-1), [ex[k] for k in sorted(ex) if k.startswith("y")]
        outer = [ex[f"o{i}"] for i in range(4)] if "o0" in ex else None
        sym = outs[0].dtype == object
        if len(outs) != 4 * len(ys):
            return bad(f"{len(outs)} tensors for {len(ys)} branches")(sym)
        if outer is None:
            hi, lo = z, z
        else:
            hi, lo = lin_flat(outer[0][0], z, outer[1][0]), lin_flat(outer[2][0], z, outer[3][0])
        r, tot = [], 0
        for i, y in enumerate(ys):
            want = [(y.size, hi.size), (hi.size,)] * 2
            got = [tuple(a.shape[1:]) for a in outs[4 * i:4 * i + 4]]
            if got != want:
                return bad(f"branch {i}: shapes {got} instead of {want}")(sym)
            up, dn = affine_of(outs, y, 4 * i)
            if joint:
                tot = (up, dn) if i == 0 else (tot[0] + up, tot[1] + dn)
            else:
                r += [(f"branch {i} upper", hi - up), (f"branch {i} lower", dn - lo)]
        if joint:
            r = [("upper", hi - tot[0]), ("upper exact", tot[0] - hi), ("lower", tot[1] - lo), ("lower exact", lo - tot[1])]
        return r

    return viol


def bmerge(make_layer, yshapes, mode, func=None, decomon=False, n_in=1, domain="box", key=(), B=4, m=2, sym_outer=False, joint=False,
           conc=None, cs=None, ws=None, axioms=None, nout=None, **kw):
    """a backward merge layer, or the function behind it with incoming backward bounds"""
    from decomon.backward_layers.convert import to_backward
    from decomon.layers.convert import to_decomon

    pd = perturbation(domain)
    sts = [State(mode, n_in, s, domain=domain, pre="" if i == 0 else f"i{i}", w_fixed=w_pattern(n_in, s, i, *key), B=B, cs=cs, ws=ws)
           if conc is None else
           State(mode, n_in, s, domain=domain, pre="" if i == 0 else f"i{i}", w_fixed=w_pattern(n_in, s, i, *key), B=B, conc=1000 * conc + i)
           for i, s in enumerate(yshapes[:1])]
    for i, s in enumerate(yshapes[1:], 1):
        sts.append(State(mode, n_in, s, domain=domain, pre=f"i{i}", share=sts[0], w_fixed=w_pattern(n_in, s, i, *key), B=B, cs=cs, ws=ws,
                         conc=None if conc is None else 1000 * conc + i))
    k = len(sts[0].args)
    args = [a for s in sts for a in s.args]
    ex = {f"y{i}": s.y for i, s in enumerate(sts)}
    layer = built(make_layer(), *yshapes)
    if func is None:
        target = layer
        if decomon:
            target = to_decomon(layer, input_dim=n_in, slope="volume-slope", perturbation_domain=pd, ibp=get_ibp(mode),
                                affine=get_affine(mode), shared=True, finetune=False)
            target([KL.Input(a.shape[1:]) for a in args])
        bl = to_backward(target, mode=mode, perturbation_domain=pd)

        def impl(*a):
            return [t for b in bl(list(a)) for t in b]
    else:
        n = int(np.prod(layer.output.shape[1:]))
        if sym_outer:
            ws_ = [tfx.symvar(s, (1, n, m), -2, 2) for s in ("ow_u", "ow_l")]
        else:
            wu, wl = w_pattern(n, (m,), "outer", *key)
            ws_ = [tfx.const_arr(wu[None]), tfx.const_arr(wl[None])]
        bs = [tfx.symvar(s, (1, m), -2, 2) for s in ("ob_u", "ob_l")]
        outer = [ws_[0], bs[0], ws_[1], bs[1]]
        args = args + outer
        ex.update({f"o{i}": o for i, o in enumerate(outer)})

        def impl(*a):
            a, o = list(a[:-4]), list(a[-4:])
            return [t for b in func(*[a[i * k:(i + 1) * k] for i in range(len(sts))], *o, perturbation_domain=pd, mode=mode) for t in b]

    c = Case("", impl, args, branch_viol(joint), ref=lambda *ys: layer(list(ys)), rargs=[s.yb for s in sts], extras=ex,
             assume=[f for s in sts for f in s.assume], nl=sts[0].nl, hints=sts[0].hints(), axioms=axioms,
             bounds=f"backward merge, {mode}, domain {domain} of dim {n_in}, input shapes {list(map(tuple, yshapes))}, |values|<={B}"
             + ("" if func is None else ", incoming backward bounds " + ("symbolic" if sym_outer else "with fixed weights")), **kw)
    c.states = sts
    return c


# ---------------------------------------------------------------- composition and conversion of bounds
def compose(layer_of, n_in, n_h, n_out, key=(), sym=(), diag=(), equal=False, B=2):
    """composition of affine bounds inner (n_in -> n_h) and outer (n_h -> n_out); sym: the tensors whose weights are symbolic"""
    def weights(name, i, o, k):
        if name in diag:
            w = dyadic((i,), "dg", name, *key)
            return tfx.const_arr(w[None])
        if name in sym:
            return tfx.symvar(name, (1, i, o), -2, 2)
        return tfx.const_arr(w_pattern(i, (o,), name[0], *key)[k][None])

    x = tfx.symvar("x", (n_in,), -B, B)
    h = tfx.symvar("h", (n_h,), -B, B)
    wi, wj = weights("iu", n_in, n_h, 0), weights("il", n_in, n_h, 1)
    wo, wp = weights("ou", n_h, n_out, 0), weights("ol", n_h, n_out, 1)
    bi, bj = tfx.symvar("bi", (1, n_h), -B, B), tfx.symvar("bj", (1, n_h), -B, B)
    bo, bp = tfx.symvar("bo", (1, n_out), -B, B), tfx.symvar("bp", (1, n_out), -B, B)
    if equal:
        wj, bj, wp, bp = wi, bi, wo, bo
    up, lo = lin_flat(wi[0], x, bi[0]), lin_flat(wj[0], x, bj[0])
    assume = [E.ge(a, b) for a, b in zip(up, h)] + [E.ge(a, b) for a, b in zip(h, lo)]
    args = [wi, bi, wj, bj, wo, bo, wp, bp]

    def viol(outs, refs, ex):
        x, h, wo, bo, wp, bp = [ex[k] for k in ("x", "h", "wo", "bo", "wp", "bp")]
        sym = outs[0].dtype == object
        got = [tuple(a.shape[1:]) for a in outs[-4:]]
        want = [(n_in, n_out), (n_out,)] * 2
        if got != want:
            return bad(f"shapes {got} instead of {want}")(sym)
        u, l = affine_of(outs[-4:], x)
        hu, hl = lin_flat(wo[0], h, bo[0]), lin_flat(wp[0], h, bp[0])
        r = [("upper", hu - u), ("lower", l - hl)]
        if equal:
            r += [("upper exact", u - hu), ("lower exact", hl - l)]
        return r

    c = Case("", lambda *a: layer_of(list(a)), args, viol, extras=dict(x=x, h=h, wo=wo, bo=bo, wp=wp, bp=bp), assume=assume,
             bounds=f"{n_in} -> {n_h} -> {n_out}, |values|<={B}, weights " + ("symbolic: " + " ".join(sym) if sym else "of fixed signs"))
    return c


def fuse_case(mode, n_in, n_h, n_out, key=(), domain="box"):
    """Fuse: bounds of the network's input (in some mode) with backward bounds"""
    from decomon.models.crown import Fuse

    pd = perturbation(domain)
    st = State(mode, n_in, (n_h,), domain=domain, w_fixed=w_pattern(n_in, (n_h,), *key), B=2)
    wu, wl = w_pattern(n_h, (n_out,), "o", *key)
    o = [tfx.const_arr(wu[None]), tfx.symvar("bo", (1, n_out), -2, 2), tfx.const_arr(wl[None]), tfx.symvar("bp", (1, n_out), -2, 2)]
    layer = Fuse(mode)

    def viol(outs, refs, ex):
        y, z = ex["y"].reshape(-1), ex["xs"] if mode != "ibp" else ex["y"].reshape(-1)
        o = [ex[f"o{i}"][0] for i in range(4)]
        u, l = affine_of(outs, z)
        hu, hl = lin_flat(o[0], y, o[1]), lin_flat(o[2], y, o[3])
        return [("upper", hu - u), ("lower", l - hl)]

    ex = dict(y=st.y, **{f"o{i}": a for i, a in enumerate(o)})
    if mode != "ibp":
        ex["xs"] = st.xs
    c = Case("", lambda *a: layer(list(a)), st.args + o, viol, extras=ex, assume=st.assume, nl=st.nl, hints=st.hints(),
             bounds=f"Fuse {mode}, {n_in} -> {n_h} -> {n_out}")
    c.states = [st]
    return c


def e2e_back(make_model, n_in, method, m=2, four=False, domain="box", slope="volume-slope", key=(), conc=None, B=1, xw=2, eps=0.5,
             clone_kw=None, wlo=-1.5, whi=1.5):
    """clone(model, back_bounds=...): bounds on the given affine functions of the output"""
    from decomon.models import clone

    mod = make_model()
    set_conc(mod, *key, lo=wlo, hi=whi)
    n = int(np.prod(mod.output_shape[1:]))
    pd = perturbation(domain, eps)
    kt = [KL.Input((n, m))] if not four else [KL.Input((n, m)), KL.Input((m,)), KL.Input((n, m)), KL.Input((m,))]
    cm = clone(mod, method=method, perturbation_domain=pd, slope=slope, back_bounds=kt, **(clone_kw or {}))
    mode = model_mode(cm)
    x, xs, assume, nl, note = domain_point(domain, n_in, B, xw, conc, eps)
    wu, wl = w_pattern(n, (m,), "C", *key)
    if four:
        o = [tfx.const_arr(wu[None]), tfx.symvar("bo", (1, m), -2, 2), tfx.const_arr(wl[None]), tfx.symvar("bp", (1, m), -2, 2)]
    else:
        o = [tfx.const_arr(wu[None])]

    def viol(outs, refs, ex):
        y = refs[0][0].reshape(-1)
        o = [ex[f"o{i}"][0] for i in range(4 if four else 1)]
        z = np.zeros(m)
        hu = lin_flat(o[0], y, o[1] if four else z)
        hl = lin_flat(o[2], y, o[3]) if four else hu
        outs = [np.asarray(a) for a in outs]
        if len(outs) != NOUT[mode]:
            return bad(f"{len(outs)} bounds")(outs[0].dtype == object)
        from symx.states import split_outs as so

        d = so(mode, outs)
        r = []
        if "u_c" in d:
            if d["u_c"].shape != (m,):
                return bad(f"shape {d['u_c'].shape} instead of {(m,)}")(outs[0].dtype == object)
            r += [("upper", hu - d["u_c"]), ("lower", d["l_c"] - hl)]
        if "w_u" in d:
            if d["b_u"].shape != (m,):
                return bad(f"shape {d['b_u'].shape} instead of {(m,)}")(outs[0].dtype == object)
            r += [("affine upper", hu - lin_flat(d["w_u"], ex["xs"], d["b_u"])), ("affine lower", lin_flat(d["w_l"], ex["xs"], d["b_l"]) - hl)]
        return r

    return Case("", lambda *a: cm(list(a)), [x] + o, viol, ref=lambda y: mod(y), rargs=[xs[None]],
                extras=dict(xs=xs, **{f"o{i}": a for i, a in enumerate(o)}), assume=assume, nl=nl,
                bounds=f"{method}, {'4 back_bounds' if four else 'one matrix as back_bounds'}, {note}")


def convert2mode(mode_from, mode_to, n_in, yshape, domain="box", key=(), tight=True):
    from decomon.models.utils import Convert2Mode

    pd = perturbation(domain)
    st = State(mode_from, n_in, yshape, domain=domain, w_fixed=w_pattern(n_in, yshape, *key), B=3)
    layer = Convert2Mode(mode_from=mode_from, mode_to=mode_to, perturbation_domain=pd, input_dim=n_in)
    lost = mode_from == "ibp" and mode_to != "ibp"
    ex = {}
    if not lost and mode_to != "ibp":
        ex = dict(xs=st.xs, x=st.x)
    if mode_from != "affine":
        ex.update(u_c=st.u_c, l_c=st.l_c)
    if mode_from != "ibp":
        ex.update(w_u=st.w_u, b_u=st.b_u, w_l=st.w_l, b_l=st.b_l, p=st.xs)
    enc = enclosure(mode_to)
    tightest = mode_from != "ibp" and mode_to != "affine"

    def viol(outs, refs, ex):
        from symx.states import lin as slin, sample as smp, split_outs as so

        best = [np.asarray(a) for a in outs[-2:]] if tightest else []
        if tightest:
            outs = outs[:-2]
        if len(outs) != NOUT[mode_to]:
            return bad(f"{len(outs)} bounds")(np.asarray(outs[0]).dtype == object)
        d = so(mode_to, outs)
        y = smp(refs[0])
        r = []
        if tightest:  # as tight as the affine bounds given
            r += [("upper not tight", d["u_c"] - best[0][0]), ("lower not tight", best[1][0] - d["l_c"])]
        if lost:  # the affine functions are constant
            r = [("upper", y - d["b_u"]), ("lower", d["b_l"] - y)]
            r += [(k, s * d[k]) for k in ("w_u", "w_l") for s in (1, -1)]
            if mode_to == "hybrid":
                r += [("upper ibp", y - d["u_c"]), ("lower ibp", d["l_c"] - y)]
        else:
            r += enc(outs, refs, ex)
        if mode_to != "affine" and mode_from != "affine":  # as tight as the constant bounds given
            r += [("upper loosened", d["u_c"] - ex["u_c"]), ("lower loosened", ex["l_c"] - d["l_c"])]
        if mode_to != "ibp" and mode_from != "ibp":
            p = ex["p"]
            r += [("affine upper loosened", slin(d["w_u"], d["b_u"], p) - slin(ex["w_u"], ex["b_u"], p)),
                  ("affine lower loosened", slin(ex["w_l"], ex["b_l"], p) - slin(d["w_l"], d["b_l"], p))]
        return r

    def impl(*a):
        o = list(layer(list(a)))
        if tightest:
            x, w_u, b_u, w_l, b_l = a if mode_from == "affine" else (a[0], a[2], a[3], a[5], a[6])
            o += [pd.get_upper(x, w_u, b_u), pd.get_lower(x, w_l, b_l)]
        return o

    c = Case("", impl, st.args, viol, ref=lambda y: y, rargs=[st.yb], extras=ex, assume=st.assume, nl=st.nl,
             hints=st.hints(), bounds=f"{mode_from} to {mode_to}, domain {domain} of dim {n_in}, shape {yshape}")
    c.states = [st]
    return c


def completed(mode, n_in, yshape, compute, tight, domain="box", key=(), dc=False):
    """InputsOutputsSpec.get_fullinputs_from_inputsformode"""
    from decomon.core import InputsOutputsSpec

    pd = perturbation(domain)
    st = State(mode, n_in, yshape, domain=domain, w_fixed=w_pattern(n_in, yshape, *key), B=3, dc=dc)
    spec = InputsOutputsSpec(mode=mode, perturbation_domain=pd, dc_decomp=dc)
    have_c = mode != "affine" or compute
    is_tight = mode == "affine" and compute or mode == "hybrid" and tight

    def impl(*a):
        x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = spec.get_fullinputs_from_inputsformode(list(a), compute_ibp_from_affine=compute, tight=tight)
        r = ([u_c, l_c] if have_c else []) + ([x, w_u, b_u, w_l, b_l] if mode != "ibp" else []) + ([h, g] if dc else [])
        if is_tight:
            r += [pd.get_upper(x, w_u, b_u), pd.get_lower(x, w_l, b_l)]
        return r

    ex = dict(u=st.u_c, l=st.l_c) if mode != "affine" else {}
    if mode != "ibp":
        ex.update(x=st.x, w_u=st.w_u, b_u=st.b_u, w_l=st.w_l, b_l=st.b_l)
    if dc:
        ex.update(h=st.h, g=st.g)

    def viol(outs, refs, ex):
        y = refs[0][0]
        o = [a[0] for a in outs]
        r = []
        if have_c:
            u, l = o[:2]
            o = o[2:]
            r += [("upper", y - u), ("lower", l - y)]
            if mode != "affine":
                r += [("upper loosened", u - ex["u"]), ("lower loosened", ex["l"] - l)]
            if is_tight:
                r += [("upper not tight", u - o[-2]), ("lower not tight", o[-1] - l)]
        names = (["x", "w_u", "b_u", "w_l", "b_l"] if mode != "ibp" else []) + (["h", "g"] if dc else [])
        for n, a in zip(names, o):
            e = ex[n][0] if n == "x" else ex[n]
            if a.shape != e.shape:
                return bad(f"shape of {n}")(outs[0].dtype == object)
            r += [(n + " changed", a - e), (n + " changed-", e - a)]
        return r

    c = Case("", impl, st.args, viol, ref=lambda y: y, rargs=[st.yb], extras=ex, assume=st.assume, nl=st.nl, hints=st.hints(),
             bounds=f"completion in mode {mode}, domain {domain} of dim {n_in}, shape {yshape}")
    c.states = [st]
    return c


def convert2backward(mode, n_in, n_out, domain="box", key=()):
    """Convert2BackwardMode: backward bounds over the network's input into bounds in a mode"""
    from decomon.models.crown import Convert2BackwardMode

    pd = perturbation(domain)
    layer = Convert2BackwardMode(mode, pd)
    st = State(mode, n_in, (n_in,), domain=domain, w_fixed=w_pattern(n_in, (n_in,), *key), B=2)
    wu, wl = w_pattern(n_in, (n_out,), "o", *key)
    o = [tfx.const_arr(wu[None]), tfx.symvar("bo", (1, n_out), -2, 2), tfx.const_arr(wl[None]), tfx.symvar("bp", (1, n_out), -2, 2)]
    pt = st.y if mode == "ibp" else st.xs
    ex = dict(pt=pt, **{f"o{i}": a for i, a in enumerate(o)})
    if mode != "ibp":
        ex["x"] = st.x

    def viol(outs, refs, ex):
        from symx.states import split_outs as so

        d = so(mode, outs)
        p, o = ex["pt"].reshape(-1), [ex[f"o{i}"][0] for i in range(4)]
        hu, hl = lin_flat(o[0], p, o[1]), lin_flat(o[2], p, o[3])
        r = []
        if "u_c" in d:
            r += [("upper", hu - d["u_c"]), ("lower", d["l_c"] - hl)]
        if "w_u" in d:
            u, l = lin_flat(d["w_u"], p, d["b_u"]), lin_flat(d["w_l"], p, d["b_l"])
            r += [("affine upper", hu - u), ("affine lower", l - hl), ("affine upper loosened", u - hu), ("affine lower loosened", hl - l)]
            r += [("domain", d["x"] - ex["x"][0]), ("domain-", ex["x"][0] - d["x"])]
        return r

    c = Case("", lambda *a: layer(list(a)), st.args + o, viol, extras=ex, assume=st.assume, nl=st.nl, hints=st.hints(),
             bounds=f"backward bounds into {mode}, domain {domain} of dim {n_in}, {n_out} outputs")
    c.states = [st]
    return c
