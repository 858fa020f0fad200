"""Losses and metrics built on top of a converted model (decomon.metrics)."""
from __future__ import annotations

import numpy as np

from symx import expr as E
from symx import tfx
from symx.core import Case
from symx.states import State

from .lib import KL, bad, dyadic, enclosure, lin_flat, model_mode, or_refused, perturbation, rng_of, set_conc, util, w_pattern  # noqa: F401


def bounds_model(mode, n_in, n_out, domain="box"):
    """a DecomonModel whose outputs are its inputs: its bounds are whatever it is given"""
    import keras
    from decomon.models.models import DecomonModel

    x = (2, n_in) if domain == "box" else (n_in,)
    w, b = (n_in, n_out), (n_out,)
    shapes = {"hybrid": [x, b, w, b, b, w, b], "affine": [x, w, b, w, b], "ibp": [b, b]}[mode]
    ins = [keras.Input(s) for s in shapes]
    return DecomonModel(ins, [KL.Activation("linear")(i) for i in ins], perturbation_domain=perturbation(domain),
                        ibp=mode != "affine", affine=mode != "ibp")


def batch(mode, n_in, n_out, n, domain="box", key=(), B=3, **kw):
    """(args, values (n, n_out), assumptions, nl, hints): the bounds of n samples, arbitrary and valid at one point of each"""
    sts = [State(mode, n_in, (n_out,), domain=domain, pre=f"s{i}_", B=B, slack=4, w_fixed=w_pattern(n_in, (n_out,), i, *key), **kw)
           for i in range(n)]
    args = [np.concatenate([s.args[k] for s in sts], 0) for k in range(len(sts[0].args))]
    return sts, args, np.stack([s.y for s in sts])


def margin(f, label):
    """max over sources s and targets t of f_t - f_s"""
    r = None
    for s in range(len(label)):
        for t in range(len(label)):
            if label[s] and not label[t]:
                d = f[t] - f[s]
                r = d if r is None else p_max(r, d)
    return r


def p_max(a, b):
    return E.max_(a, b) if isinstance(a, E.Expr) or isinstance(b, E.Expr) else max(a, b)


def p_min(a, b):
    return E.min_(a, b) if isinstance(a, E.Expr) or isinstance(b, E.Expr) else min(a, b)


def a1(v):
    return np.array([v], dtype=object) if isinstance(v, E.Expr) else np.array([float(v)])


def cross_hints(st):
    """Cauchy-Schwarz for the differences between the upper weights of a label and the lower weights of another"""
    import math
    from fractions import Fraction

    if not st.nl or st.mode == "ibp":
        return []
    ev, hs, n = E.as_expr(st.eps), [], st.w_u.shape[-1]
    for s in range(n):
        for t in range(n):
            if s != t:
                v = [(st.w_u[i, t] - st.w_l[i, s]).cval() for i in range(st.n_in)]
                nrm = Fraction(math.sqrt(float(sum(c * c for c in v)))) + Fraction(1, 10**6)
                e = tfx._sum([E.scale(d, c) for d, c in zip(st.d, v)])
                hs += [E.ge(E.scale(ev, nrm), e), E.ge(E.scale(ev, nrm), -e)]
    return hs


def _case(sts, impl, args, viol, ref, rargs, ex, bounds, **kw):
    return Case("", impl, args, viol, ref=ref, rargs=rargs, extras=ex, assume=[f for s in sts for f in s.assume],
                nl=[f for s in sts for f in s.nl], hints=[h for s in sts for h in s.hints() + cross_hints(s)], bounds=bounds, **kw)


def labels_of(n_out):
    r = [[int(i == k) for i in range(n_out)] for k in range(n_out)]
    if n_out > 2:
        r.append([1, 1] + [0] * (n_out - 2))
    return r


def adv_loss(mode, domain, n_in, n_out, n=1, sigmoid=False, clip=None, softmax=False, key=(), via="get_model", **kw):
    import keras.ops as K
    from decomon.metrics.loss import get_adv_loss, get_model

    dm = bounds_model(mode, n_in, n_out, domain)
    packed = get_model(dm)
    loss = get_adv_loss(dm, sigmoid=sigmoid, clip_value=clip, softmax=softmax)
    sts, args, y = batch(mode, n_in, n_out, n, domain, key, **kw.pop("state", {}))
    labs = labels_of(n_out)
    per = [[labs[(k + 2 * i) % len(labs)] for i in range(n)] for k in range(len(labs))]

    def impl(*a):
        p = packed(list(a))
        return [loss(K.convert_to_tensor(np.array(l, "float32")), p) for l in per]

    def ref(y):
        f = K.softmax(y) if softmax else y
        o = []
        for l in per:
            m = K.stack([K.max(K.stack([f[i, t] - f[i, s] for s in range(n_out) for t in range(n_out) if l[i][s] and not l[i][t]]))
                         for i in range(n)])
            o.append(K.mean(K.sigmoid(m) if sigmoid else m))
        return o

    def viol(outs, refs, ex):
        r = []
        for k, l in enumerate(per):
            r.append((f"labels {l}", a1(np.asarray(refs[k]).reshape(-1)[0] - np.asarray(outs[k]).reshape(-1)[0])))
        return r

    return _case(sts, impl, args, viol, ref, [y], {}, f"{mode}, {domain} of dim {n_in}, {n_out} outputs, batch of {n}, every label"
                 + (", sigmoid" if sigmoid else "") + (", softmax" if softmax else "") + (f", clip {clip}" if clip is not None else ""), **kw)


def side_loss(which, mode, domain, n_in, n_out, n=1, key=(), **kw):
    import keras.ops as K
    from decomon.metrics import loss as M

    dm = bounds_model(mode, n_in, n_out, domain)
    packed = M.get_model(dm)
    loss = (M.get_upper_loss if which == "upper" else M.get_lower_loss)(dm)
    sts, args, y = batch(mode, n_in, n_out, n, domain, key)
    rf = tfx.symvar("ref", (n, n_out), -3, 3)
    sg = 1 if which == "upper" else -1

    def viol(outs, refs, ex):
        return [("loss", a1(np.asarray(refs[0]).reshape(-1)[0] - np.asarray(outs[0]).reshape(-1)[0]))]

    return _case(sts, lambda r, *a: loss(r, packed(list(a))), [rf] + args, viol, lambda r, y: K.mean(K.max(sg * (y - r), -1)), [rf, y], {},
                 f"{mode}, {domain} of dim {n_in}, {n_out} outputs, batch of {n}, reference symbolic", **kw)


def fusion(mode, domain, n_in, n_out, n=1, asymptotic=False, key=(), via="layer", **kw):
    """upper bound of the cross entropy of every label (asymptotic: of its largest margin)"""
    import keras.ops as K
    from decomon.metrics import loss as M

    if via == "layer":
        layer = M.DecomonLossFusion(asymptotic=asymptotic, perturbation_domain=perturbation(domain), mode=mode)
        f = lambda *a: layer(list(a), mode=mode)
    else:
        m = (M.build_asymptotic_crossentropy_model if asymptotic else M.build_crossentropy_model)(bounds_model(mode, n_in, n_out, domain))
        f = lambda *a: m(list(a))
    st = kw.pop("state", {})
    sts, args, y = batch(mode, n_in, n_out, n, domain, key, **st)

    def impl(*a):
        r = f(*a)
        u = None
        if not asymptotic:  # the shift used by the log-sum-exp
            u = a[0] if mode == "ibp" else K.minimum(a[1], perturbation(domain).get_upper(a[0], a[2], a[3])) if mode == "hybrid" else perturbation(domain).get_upper(a[0], a[1], a[2])
        return [r] + ([K.max(u, -1)[:, None]] if u is not None else [])

    def viol(outs, refs, ex):
        o = outs[0]
        if tuple(o.shape) != (n, n_out):
            return bad(f"shape {o.shape}")(o.dtype == object)
        if asymptotic:
            y = ex["y"]
            r = []
            for i in range(n):
                for l in range(n_out):
                    r.append((f"label {l} sample {i}", a1(margin(y[i], [int(k == l) for k in range(n_out)]) - o[i, l])))
            return r
        sh = np.asarray(outs[1])
        r = []
        for i in range(n):
            # log sum exp(y - shift) + shift, the real function on both sides
            if isinstance(o[0, 0], E.Expr):
                t = tfx._sum([E.fn("exp", y - sh[i, 0]) for y in ex["y"][i]])
                lse = E.fn("log", t) + sh[i, 0]
            else:
                lse = np.log(np.sum(np.exp(ex["y"][i] - sh[i, 0]))) + sh[i, 0]
            for l in range(n_out):
                r.append((f"label {l} sample {i}", a1(lse - ex["y"][i][l] - o[i, l])))
        return r

    return _case(sts, impl, args, viol, None, [], dict(y=y),
                 f"{mode}, {domain} of dim {n_in}, {n_out} outputs, batch of {n}, every label", **kw)


def radius(mode, n_in, n_out, backward=False, key=(), via="layer", conc=None, **kw):
    """DecomonRadiusRobust: 1 - value is a fraction of the box within which no other label wins"""
    from decomon.metrics import loss as M

    if via == "layer":
        layer = M.DecomonRadiusRobust(backward=backward, perturbation_domain=perturbation("box"), mode=mode)
        f = lambda *a: layer(list(a))
    else:
        m = M.build_radius_robust_model(bounds_model(mode, n_in, n_out, "box"))
        f = lambda *a: m(list(a))
    r = rng_of("radius", n_in, n_out, conc, *key)
    lo = np.round(r.uniform(-2, 1, n_in) * 8) / 8
    hi = lo + np.round(r.uniform(0.25, 3, n_in) * 8) / 8
    x = tfx.const_arr(np.stack([lo, hi]))[None]
    xs = np.array([E.var(f"xs_{i}", lo[i] - 2, hi[i] + 2) for i in range(n_in)], dtype=object)  # clear of the box: eps may exceed 1
    wu, wl = w_pattern(n_in, (n_out,), *key)
    y = tfx.symvar("y", (n_out,), -3, 3)
    zu, zl = tfx.symvar("zu", (n_out,), 0, 2), tfx.symvar("zl", (n_out,), 0, 2)
    bu, bl = [], []
    wu, wl = tfx.const_arr(wu), tfx.const_arr(wl)
    for j in range(n_out):
        bu.append(y[j] + zu[j] - tfx._sum([wu[i, j] * xs[i] for i in range(n_in)]))
        bl.append(y[j] - zl[j] - tfx._sum([wl[i, j] * xs[i] for i in range(n_in)]))
    bu, bl = np.array(bu, dtype=object), np.array(bl, dtype=object)
    c = tfx.const_arr(np.full((1, n_out), 50.0))
    aff = [a[None] for a in (wu, bu, wl, bl)]
    args = [x] + ([c] + aff[:2] + [-c] + aff[2:] if mode == "hybrid" else aff)
    # the point lies within the fraction e of the box around its centre, for the least e that contains it
    e = None
    for i in range(n_in):
        d = E.scale(E.abs_(xs[i] - E.const((lo[i] + hi[i]) / 2)), 2 / (hi[i] - lo[i]))
        e = d if e is None else p_max(e, d)
    ex = dict(y=y, e=np.array([e], dtype=object))

    def viol(outs, refs, ex):
        o, y, e = outs[0], ex["y"], ex["e"][0]
        if tuple(o.shape) != (1, n_out):
            return bad(f"shape {o.shape}")(o.dtype == object)
        r = []
        for l in range(n_out):
            for t in range(n_out):
                if t == l:
                    continue
                m = y[t] if backward else y[t] - y[l]
                # within the radius (e < 1 - value) and the margin is positive
                inside = 1 - o[0, l] - e
                # both at once: min(inside, margin) > 0
                r.append((f"label {l} against {t}", a1(p_min(inside, m))))
        return r

    return Case("", lambda *a: f(*a), args, viol, extras=ex,
                bounds=f"{mode}, concrete box of dim {n_in}, {n_out} outputs, point anywhere around the box", **kw)


def metric(which, mode, domain, n_in, n_out, n=1, backward=False, key=(), via="layer", target=None, **kw):
    import keras.ops as K
    from decomon.metrics import metric as M

    cls = dict(score=M.AdversarialScore, check=M.AdversarialCheck, upper=M.UpperScore)[which]
    sts, args, y = batch(mode, n_in, n_out, n, domain, key, **kw.pop("state", {}))
    if via == "layer":
        layer = cls(mode != "affine", mode != "ibp", "backward" if backward else "forward", perturbation(domain))
    else:
        bld = dict(score=M.build_formal_adv_model, check=M.build_formal_adv_check_model, upper=M.build_formal_upper_model)[which]
    assume = []
    z = sts[0].x if n == 1 else np.concatenate([s.x for s in sts], 0)
    extra = []
    if backward:  # other valid affine bounds
        wu, wl = w_pattern(n_in, (n_out,), "bk", *key)
        zu, zl = tfx.symvar("bzu", (n, n_out), 0, 2), tfx.symvar("bzl", (n, n_out), 0, 2)
        bu, bl = np.empty((n, 1, n_out), object), np.empty((n, 1, n_out), object)
        for i in range(n):
            for j in range(n_out):
                bu[i, 0, j] = y[i, j] + zu[i, j] - tfx._sum([E.scale(sts[i].xs[k], wu[k, j]) for k in range(n_in)])
                bl[i, 0, j] = y[i, j] - zl[i, j] - tfx._sum([E.scale(sts[i].xs[k], wl[k, j]) for k in range(n_in)])
        rep = lambda w: tfx.const_arr(np.stack([w[None]] * n))
        extra = [rep(wu), bu, rep(wl), bl]
    labs = labels_of(n_out)
    if which == "upper":
        labs = labs + [[1] * n_out]

    def impl(*a):
        z, a = a[0], list(a[1:])
        bnds, ext = (a[:-4], a[-4:]) if backward else (a, [])
        res = []
        for k in range(len(labs)):
            l = K.convert_to_tensor(np.array([labs[(k + i) % len(labs)] for i in range(n)], "float32"))
            head = [z] if mode != "ibp" else [z, z]
            res.append(layer(head + bnds + ext + [l]))
        return res

    def viol(outs, refs, ex):
        r = []
        for k in range(len(labs)):
            o = np.asarray(outs[k])
            if tuple(o.shape) != (n,):
                return bad(f"shape {o.shape}")(outs[0].dtype == object)
            for i in range(n):
                l = labs[(k + i) % len(labs)]
                if which == "upper":
                    v = None
                    for j in range(n_out):
                        if l[j]:
                            v = ex["y"][i][j] if v is None else v + ex["y"][i][j]
                    r.append((f"labels {l} sample {i}", a1(v - o[i])))
                elif which == "score":
                    r.append((f"labels {l} sample {i}", a1(margin(ex["y"][i], l) - o[i])))
        return r

    return _case(sts, impl, [z] + args + extra, viol, None, [], dict(y=y),
                 f"{mode}, {domain} of dim {n_in}, {n_out} outputs, batch of {n}, every label" + (", with backward bounds" if backward else ""), **kw)


def attained(mode, n_in, n_out, n=1, backward=False, key=(), **kw):
    """AdversarialCheck: its value is attained by the margin at a point of the box (here one of its corners): positive means
    that the box contains an adversarial example"""
    import itertools

    import keras.ops as K
    from decomon.metrics import metric as M

    layer = M.AdversarialCheck(mode != "affine", mode != "ibp", "backward" if backward else "forward", perturbation("box"))
    lo, wd = tfx.symvar("lo", (n, n_in), -2, 2), tfx.symvar("wd", (n, n_in), 0, 3)
    x = np.stack([lo, lo + wd], 1)
    corners = list(itertools.product((0, 1), repeat=n_in))
    yv = tfx.symvar("yv", (n, len(corners), n_out), -4, 4)
    assume = []

    def affine(tag, lead):
        wu, wl = w_pattern(n_in, (n_out,), tag, *key)
        bu, bl = tfx.symvar("bu" + tag, (n, n_out), -4, 4), tfx.symvar("bl" + tag, (n, n_out), -4, 4)
        for i in range(n):
            for c, cn in enumerate(corners):
                for j in range(n_out):
                    u = bu[i, j] + tfx._sum([E.scale(x[i, cn[k], k], wu[k, j]) for k in range(n_in)])
                    l = bl[i, j] + tfx._sum([E.scale(x[i, cn[k], k], wl[k, j]) for k in range(n_in)])
                    assume.extend([E.ge(u, yv[i, c, j]), E.ge(yv[i, c, j], l)])
        rep = lambda w: tfx.const_arr(np.stack([w] * n))
        r = [rep(wu), bu, rep(wl), bl]
        return [a[:, None] for a in r] if lead else r

    aff = affine("f", False) if mode != "ibp" else []
    if mode != "affine":
        uc, lc = tfx.symvar("uc", (n, n_out), -4, 4), tfx.symvar("lc", (n, n_out), -4, 4)
        for i in range(n):
            for c in range(len(corners)):
                for j in range(n_out):
                    assume.extend([E.ge(uc[i, j], yv[i, c, j]), E.ge(yv[i, c, j], lc[i, j])])
    args = {"ibp": lambda: [x, x, uc, lc], "affine": lambda: [x, x] + aff,
            "hybrid": lambda: [x, x, uc] + aff[:2] + [lc] + aff[2:]}[mode]()
    args += affine("b", True) if backward else []
    labs = labels_of(n_out)

    def impl(*a):
        return [layer(list(a) + [K.convert_to_tensor(np.array([labs[(k + i) % len(labs)] for i in range(n)], "float32"))])
                for k in range(len(labs))]

    def viol(outs, refs, ex):
        r = []
        for k in range(len(labs)):
            o = np.asarray(outs[k])
            if tuple(o.shape) != (n,):
                return bad(f"shape {o.shape}")(outs[0].dtype == object)
            for i in range(n):
                l = labs[(k + i) % len(labs)]
                best = None
                for c in range(len(corners)):
                    m = margin(ex["yv"][i, c], l)
                    best = m if best is None else p_max(best, m)
                r.append((f"labels {l} sample {i}", a1(o[i] - best)))
        return r

    return Case("", impl, args, viol, extras=dict(yv=yv), assume=assume,
                bounds=f"{mode}, symbolic box of dim {n_in}, {n_out} outputs, batch of {n}, arbitrary values at its corners"
                + (", with backward bounds" if backward else ""), **kw)


def net_metric(name, which, method, conc=0, key=(), **kw):
    """the certificate models built from a converted network"""
    import keras.ops as K
    from decomon.metrics import loss as ML
    from decomon.metrics import metric as M
    from decomon.models import clone

    from .lib import domain_point
    from .nets import NETS

    n_in, make = NETS[name]
    m = make()
    set_conc(m, "metric", name, *key)
    dm = clone(m, method=method)
    n_out = m.outputs[0].shape[-1]
    x, xs, assume, nl, note = domain_point("box", n_in, conc=conc)
    labs = labels_of(n_out)
    if which in ("score", "upper"):
        g = (M.build_formal_adv_model if which == "score" else M.build_formal_upper_model)(dm)
        impl = lambda z: [g([z, K.convert_to_tensor(np.array([l], "float32"))]) for l in labs]
    elif which == "adv_loss":
        packed, loss = ML.get_model(dm), ML.get_adv_loss(dm)
        impl = lambda z: [loss(K.convert_to_tensor(np.array([l], "float32")), packed(z)) for l in labs]
    else:
        g = ML.build_asymptotic_crossentropy_model(dm)
        labs = labs[:n_out]
        impl = lambda z: [g(z)[:, k] for k in range(n_out)]

    def viol(outs, refs, ex):
        y = refs[0][0]
        r = []
        for k, l in enumerate(labs):
            v = sum((y[j] for j in range(n_out) if l[j]), 0 * y[0]) if which == "upper" else margin(y, l)
            r.append((f"labels {l}", a1(v - np.asarray(outs[k]).reshape(-1)[0])))
        return r

    c = Case("", impl, [x], viol, ref=lambda y: m(y), rargs=[xs[None]], assume=assume, nl=nl,
             bounds=f"{which} of network {name}, {method}, {note}", **kw)
    return c
