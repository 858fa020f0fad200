"""The convex/concave decomposition (h, g) carried by dc_decomp=True."""
from __future__ import annotations

import numpy as np

from symx import expr as E
from symx import tfx
from symx.core import Case
from symx.states import sample, split_outs  # noqa: F401

from .lib import KL, bad, built, conc_weights, or_refused, perturbation, rng_of, w_pattern


def _half(v):
    from fractions import Fraction

    return E.scale(v, Fraction(1, 2)) if isinstance(v, E.Expr) else v / 2


def half(a):
    return np.frompyfunc(_half, 1, 1)(a) if a.dtype == object else a / 2


class Three:
    """two points of the domain and the middle between them; h convex and g concave between them, bounds valid at all three"""

    def __init__(self, mode, n_in, yshape, pre="", share=None, domain="box", key=(), B=3, conc=None):
        """conc: concrete domain and concrete incoming bounds; the points of the domain and the decomposition stay symbolic"""
        rnd = None if conc is None else rng_of("dc", pre, domain, n_in, conc)
        quarter = lambda lo, hi, sh: np.round(rnd.uniform(lo, hi, sh) * 4) / 4
        v = lambda n, sh, lo, hi: tfx.symvar(pre + n, sh, lo, hi)
        self.assume = []
        n = (2,) + tuple(yshape)
        h, g = v("h", n, -B, B), v("g", n, -B, B)
        hm = half(h[0] + h[1]) - v("th", yshape, 0, B)
        gm = half(g[0] + g[1]) + v("tg", yshape, 0, B)
        self.h, self.g = np.concatenate([h, hm[None]]), np.concatenate([g, gm[None]])
        self.y = self.h + self.g
        if share is None:
            ab = v("xs", (2, n_in), -2, 2)
            self.xs = np.concatenate([ab, half(ab[0] + ab[1])[None]])
            if domain == "box":
                if rnd is None:
                    lo, wd = v("lo", (n_in,), -2, 2), v("wd", (n_in,), 0, 4)
                else:
                    lo, wd = tfx.const_arr(quarter(-1.5, 0, (n_in,))), tfx.const_arr(quarter(1, 2.5, (n_in,)))
                self.x = np.stack([np.stack([lo, lo + wd])] * 3)
                for k in range(2):
                    for i in range(n_in):
                        self.assume += [E.ge(ab[k, i], lo[i]), E.ge(lo[i] + wd[i], ab[k, i])]
            else:
                c = v("c", (n_in,), -2, 2) if rnd is None else tfx.const_arr(quarter(-1, 1, (n_in,)))
                self.x = np.stack([c] * 3)
                e = E.const(0.5)
                for k in range(2):
                    d = [E.abs_(ab[k, i] - c[i]) for i in range(n_in)]
                    self.assume += [E.ge(e, t) for t in d] if domain == "linf" else [E.ge(e, tfx._sum(d))]
        else:
            self.x, self.xs = share.x, share.xs
        args = {}
        rep = lambda a: np.stack([a] * 3)
        if mode != "affine":
            if rnd is None:
                u, l = v("u", yshape, -2 * B, 2 * B), v("l", yshape, -2 * B, 2 * B)
            else:
                u, l = tfx.const_arr(quarter(0.5, 3, yshape)), tfx.const_arr(quarter(-3, 0.25, yshape))
            for k in range(3):
                self.assume += [f for a, b, c in zip(u.flat, self.y[k].flat, l.flat) for f in (E.ge(a, b), E.ge(b, c))]
            args.update(u_c=rep(u), l_c=rep(l))
        if mode != "ibp":
            wu, wl = [tfx.const_arr(w) for w in w_pattern(n_in, yshape, *key)]
            if rnd is None:
                bu, bl = v("bu", yshape, -2 * B, 2 * B), v("bl", yshape, -2 * B, 2 * B)
            else:
                bu, bl = tfx.const_arr(quarter(0.5, 2, yshape)), tfx.const_arr(quarter(-2, -0.25, yshape))
            for k in range(3):
                up, lo_ = bu, bl
                for i in range(n_in):
                    up, lo_ = up + wu[i] * self.xs[k, i], lo_ + wl[i] * self.xs[k, i]
                self.assume += [f for a, b, c in zip(up.flat, self.y[k].flat, lo_.flat) for f in (E.ge(a, b), E.ge(b, c))]
            args.update(w_u=rep(wu), b_u=rep(bu), w_l=rep(wl), b_l=rep(bl))
        a = args
        self.args = {"ibp": lambda: [a["u_c"], a["l_c"]], "affine": lambda: [self.x, a["w_u"], a["b_u"], a["w_l"], a["b_l"]],
                     "hybrid": lambda: [self.x, a["u_c"], a["w_u"], a["b_u"], a["l_c"], a["w_l"], a["b_l"]]}[mode]() + [self.h, self.g]


def decomposition(op, ref, yshapes, mode, n_in=1, domain="box", key=(), nout=1, note="", variables=(), conc=None):
    """op(list of bounds...) -> flat list of nout bounds; ref(values...) -> value or list of values"""
    sts = []
    for i, ysh in enumerate(yshapes):
        sts.append(Three(mode, n_in, tuple(ysh), pre=f"i{i}", share=sts[0] if i else None, domain=domain, key=(i,) + tuple(key), conc=conc))
    k = len(sts[0].args)

    def impl(*a):
        return op(*[list(a[i * k:(i + 1) * k]) for i in range(len(sts))])

    def viol(outs, refs, ex):
        if len(outs) != k * len(refs):
            return bad(f"{len(outs)} tensors for {len(refs)} outputs")(outs[0].dtype == object)
        r = []
        for o, y in enumerate(refs):
            h, g = outs[o * k + k - 2], outs[o * k + k - 1]
            for nm, a in (("h", h), ("g", g)):
                if tuple(a.shape) != tuple(y.shape):
                    return bad(f"shape of {nm}: {a.shape} instead of {y.shape}")(outs[0].dtype == object)
            r += [("h+g", h + g - y), ("h+g-", y - h - g), ("h not convex", h[2:] - half(h[:1] + h[1:2])), ("g not concave", half(g[:1] + g[1:2]) - g[2:])]
        return r

    return Case("", impl, [a for s in sts for a in s.args], viol, ref=ref, rargs=[s.y for s in sts], variables=variables,
                assume=[f for s in sts for f in s.assume],
                bounds=f"{mode}, domain {domain} of dim {n_in}, input shapes {list(map(tuple, yshapes))}, two points and their middle, "
                + ("" if conc is None else f"concrete domain and bounds #{conc}, ") + note)


def layer(make, yshapes, mode, n_in=1, domain="box", key=(), shared=True, fast=True, slope="volume-slope", conc=None):
    from decomon.core import get_affine, get_ibp
    from decomon.layers.convert import to_decomon

    lay = built(make(), *yshapes)
    conc_weights(lay, *key)
    dl = to_decomon(lay, input_dim=n_in, slope=slope, dc_decomp=True, perturbation_domain=perturbation(domain), ibp=get_ibp(mode),
                    affine=get_affine(mode), shared=shared, fast=fast)
    if lay.weights:
        dl.reset_layer(lay)
    return decomposition(lambda *ins: dl([t for i in ins for t in i]), lambda *ys: lay(ys[0] if len(ys) == 1 else list(ys)), yshapes, mode,
                         n_in, domain, key, note="concrete weights", conc=conc)


def network(make, n_in, mode, key=(), conc=None):
    """convert_forward(..., dc_decomp=True) on layer-shaped inputs"""
    import keras
    from decomon.core import BoxDomain, get_affine, get_ibp
    from decomon.models.convert import preprocess_keras_model
    from decomon.models.forward_cloning import convert_forward

    from .lib import set_conc

    m = preprocess_keras_model(make())
    set_conc(m, *key)
    x = (2, n_in)
    w, b = (n_in, n_in), (n_in,)
    shapes = {"hybrid": [x, b, w, b, b, w, b], "affine": [x, w, b, w, b], "ibp": [b, b]}[mode] + [b, b]
    ins = [keras.Input(s) for s in shapes]
    r = convert_forward(m, input_tensors=ins, ibp=get_ibp(mode), affine=get_affine(mode), dc_decomp=True, perturbation_domain=BoxDomain(), input_dim=n_in)
    outs = r[1]
    g = keras.Model(ins, outs)
    return decomposition(lambda i: g(i), lambda y: m(y), [(n_in,)], mode, n_in, "box", key, note="network with concrete weights", conc=conc)


def net(name, mode, conc):
    from .nets import NETS

    n_in, make = NETS[name]
    return network(make, n_in, mode, (name, conc), conc)
