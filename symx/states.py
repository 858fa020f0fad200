"""Symbolic layer inputs: an arbitrary point of the domain, the value y the layer input takes there, and arbitrary
bounds that are valid at that point. All assumptions are parametrised by non-negative slacks."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import expr as E
from . import tfx


class State:
    """mode: hybrid | affine | ibp; yshape: shape of the layer input without batch; n_in: dimension of the domain"""

    def __init__(
        self,
        mode,
        n_in,
        yshape,
        domain="box",
        pre="",
        share=None,
        diag=False,
        eps=None,
        ball_eps=Fraction(1, 2),
        B=8,
        W=4,
        slack=8,
        xw=4,
        y=None,
        w_fixed=None,
        dc=False,
        xfix=None,
        identity=False,
        cs=None,
        ws=None,
        conc=None,
        positive=None,
    ):
        # conc: seed of a concrete box and concrete incoming bounds (only the point and the value stay symbolic)
        # cs / ws: fixed slack of the constant / affine bounds (None: arbitrary in [0, slack])
        yshape = tuple(yshape)
        self.mode, self.n_in, self.yshape, self.domain = mode, n_in, yshape, domain
        self.assume = []
        self.nl = []
        p = pre
        # ---- the domain and the point
        if share is not None:
            self.x, self.xs, self.domain = share.x, share.xs, share.domain
        else:
            if conc is None:
                self.xs = tfx.symvar(p + "xs", (n_in,), -B, B) if xfix is None else tfx.const_arr(xfix)
            if conc is not None:
                r0 = np.random.RandomState(conc + 7919)
                lo = np.round(r0.uniform(-2, 1, (n_in,)) * 8) / 8
                hi = lo + np.round(r0.uniform(0.25, 3, (n_in,)) * 8) / 8
                self.xs = np.array([E.var(f"{p}xs_{i}", lo[i], hi[i]) for i in range(n_in)], dtype=object)
                if domain == "box":
                    self.x = tfx.const_arr(np.stack([lo, hi]))[None]
                else:
                    raise ValueError("concrete incoming bounds: box only")
            elif domain == "box":
                self.dm = tfx.symvar(p + "dmin", (n_in,), 0, xw)
                self.dp = tfx.symvar(p + "dmax", (n_in,), 0, xw)
                self.x = np.stack([self.xs - self.dm, self.xs + self.dp])[None]
            else:
                pn = {"linf": np.inf, "l1": 1, "l2": 2}[domain]
                self.eps = ball_eps if eps is None else eps
                ev = E.as_expr(self.eps)
                d = tfx.symvar(p + "d", (n_in,), -xw, xw)
                self.x = (self.xs - d)[None]
                if domain == "linf":
                    for i in range(n_in):
                        self.assume += [E.ge(ev, d[i]), E.ge(ev, -d[i])]
                elif domain == "l1":
                    self.assume.append(E.ge(ev, tfx._sum([E.abs_(v) for v in d])))
                else:
                    self.nl.append(E.ge(E.mul(ev, ev), tfx._sum([E.mul(v, v) for v in d])))
                self.p = pn
                self.d = d
        # ---- the value of the layer input at the point
        self.y = tfx.symvar(p + "y", yshape, -B if positive is None else positive, B) if y is None else y
        if identity:  # the network input itself: diagonal representation of the identity
            self.y, diag = self.xs.reshape(yshape), True
        rnd = None
        if conc is not None:
            rnd = np.random.RandomState(conc)
            dy = lambda lo, hi, sh: np.round(rnd.uniform(lo, hi, sh) * 8) / 8
        self.args = []
        self.u_c = self.l_c = self.w_u = self.w_l = self.b_u = self.b_l = None
        if mode in ("hybrid", "ibp"):
            sv = lambda n, f: tfx.symvar(p + n, yshape, 0, slack) if f is None else tfx.const_arr(np.full(yshape, float(f)))
            self.u_c = self.y + sv("su", cs)
            self.l_c = self.y - sv("sl", cs)
        if mode in ("hybrid", "affine"):
            wsh = (yshape if diag else (n_in,) + yshape)
            if identity:
                self.w_u = self.w_l = tfx.const_arr(np.ones(yshape))
            elif w_fixed is not None:
                self.w_u, self.w_l = tfx.const_arr(w_fixed[0]), tfx.const_arr(w_fixed[1])
            else:
                self.w_u = tfx.symvar(p + "wu", wsh, -W, W)
                self.w_l = tfx.symvar(p + "wl", wsh, -W, W)
            sv = lambda n, f: tfx.symvar(p + n, yshape, 0, slack) if f is None else tfx.const_arr(np.full(yshape, float(f)))
            zu, zl = sv("tu", ws), sv("tl", ws)
            if diag:
                vu, vl = self.w_u * self.xs.reshape(yshape), self.w_l * self.xs.reshape(yshape)
            else:
                vu = vl = 0
                for i in range(n_in):
                    vu = vu + self.w_u[i] * self.xs[i]
                    vl = vl + self.w_l[i] * self.xs[i]
            self.b_u = self.y + zu - vu
            self.b_l = self.y - zl - vl
            if identity:
                self.b_u = self.b_l = tfx.const_arr(np.zeros(yshape))
        if conc is not None:
            self._concrete(rnd, dy, mode, n_in, yshape, w_fixed)
        if positive is not None:
            self._positive(positive)
        self.dc = dc
        if dc:
            self.h = tfx.symvar(p + "h", yshape, -B, B)
            self.g = self.y - self.h
        b = lambda a: np.asarray(a, dtype=object)[None]
        if mode == "hybrid":
            self.args = [self.x] + [b(a) for a in (self.u_c, self.w_u, self.b_u, self.l_c, self.w_l, self.b_l)]
        elif mode == "affine":
            self.args = [self.x] + [b(a) for a in (self.w_u, self.b_u, self.w_l, self.b_l)]
        else:
            self.args = [b(self.u_c), b(self.l_c)]
        if dc:
            self.args += [b(self.h), b(self.g)]

    def _positive(self, positive):
        """every lower bound, constant or affine over the box, is at least `positive`"""
        p = E.const(positive)
        if self.l_c is not None:
            self.assume += [E.ge(v, p) for v in self.l_c.reshape(-1)]
        if self.w_l is not None:
            lo, hi = self.x[0]
            t = self.b_l
            for i in range(self.n_in):
                pos, neg = tfx.v_relu(self.w_l[i]), -tfx.v_relu(-self.w_l[i])
                t = t + pos * lo[i] + neg * hi[i]
            self.assume += [E.ge(v, p) for v in np.asarray(t, dtype=object).reshape(-1)]

    def _concrete(self, rnd, dy, mode, n_in, yshape, w_fixed):
        """concrete incoming bounds around concrete affine functions; y is any value between them"""
        w = dy(-1.5, 1.5, (n_in,) + yshape) if w_fixed is None else w_fixed[0]
        w2 = w + dy(-0.25, 0.25, w.shape)
        b = dy(-1, 1, yshape)
        c = tfx.const_arr
        if mode in ("hybrid", "affine"):
            self.w_u, self.w_l = c(w), c(w2)
            self.b_u, self.b_l = c(b + 1 + dy(0, 0.5, yshape)), c(b - 1 - dy(0, 0.5, yshape))
            vu = vl = 0
            for i in range(n_in):
                vu, vl = vu + self.w_u[i] * self.xs[i], vl + self.w_l[i] * self.xs[i]
            for up, lo, y in zip((vu + self.b_u).reshape(-1), (vl + self.b_l).reshape(-1), self.y.reshape(-1)):
                self.assume += [E.ge(up, y), E.ge(y, lo)]
        if mode in ("hybrid", "ibp"):
            self.u_c, self.l_c = c(b + 2 + dy(0, 1, yshape)), c(b - 2 - dy(0, 1, yshape))
            for up, lo, y in zip(self.u_c.reshape(-1), self.l_c.reshape(-1), self.y.reshape(-1)):
                self.assume += [E.ge(up, y), E.ge(y, lo)]

    def hints(self):
        """Cauchy-Schwarz instances for the fixed incoming weights over an l2 ball, and the coordinate bounds; each is
        proved by the solver from the ball constraint before it is used"""
        if not self.nl or self.n_in < 1:
            return []
        import math

        ev = E.as_expr(self.eps)
        hs, vecs = [], []
        for i in range(self.n_in):
            vecs.append([Fraction(int(k == i)) for k in range(self.n_in)])
        if self.mode != "ibp" and all(e.is_const() for w in (self.w_u, self.w_l) for e in w.reshape(-1)):
            rows = []
            for w in (self.w_u, self.w_l, self.w_u - self.w_l):
                for idx in np.ndindex(*self.yshape):
                    rows.append([w[(k,) + idx].cval() for k in range(self.n_in)])
            for r in rows:
                if any(r) and r not in vecs:
                    vecs.append(r)
        for r in vecs:
            nrm = Fraction(math.sqrt(float(sum(v * v for v in r)))) + Fraction(1, 10**6)
            t = tfx._sum([E.scale(d, v) for d, v in zip(self.d, r)])
            hs += [E.ge(E.scale(ev, nrm), t), E.ge(E.scale(ev, nrm), -t)]
        return hs

    @property
    def yb(self):
        return self.y[None]


def sample(a):
    """the single sample of a batch of one, always an array"""
    return np.asarray(a[0], dtype=a.dtype)


def split_outs(mode, outs, dc=False):
    """outs (batch first) -> dict of named arrays of the single sample"""
    o = [sample(a) for a in outs]
    d = {}
    if mode == "hybrid":
        d["x"], d["u_c"], d["w_u"], d["b_u"], d["l_c"], d["w_l"], d["b_l"] = o[:7]
    elif mode == "affine":
        d["x"], d["w_u"], d["b_u"], d["w_l"], d["b_l"] = o[:5]
    else:
        d["u_c"], d["l_c"] = o[:2]
    if dc:
        d["h"], d["g"] = o[-2:]
    return d


def lin(w, b, xs):
    """value of the affine function at xs; w may be diagonal (same rank as b)"""
    if w.ndim == b.ndim:
        return w * xs.reshape(b.shape) + b
    r = b
    for i in range(w.shape[0]):
        r = r + w[i] * xs[i]
    return np.asarray(r, dtype=b.dtype)


def enclosure(mode, dc=False, yref=None, dom=None):
    """viol function: outgoing bounds enclose the reference output at the point"""

    def viol(outs, refs, ex):
        d = split_outs(mode, outs, dc)
        y = yref(refs, ex) if yref else sample(refs[0])
        xs = ex.get("xs")
        r = []
        bad = [k for k in ("u_c", "l_c", "b_u", "b_l", "h", "g") if k in d and d[k].shape != y.shape]
        if bad:
            one = np.ones(1) if y.dtype != object else tfx.const_arr([1.0])
            return [(f"shape of {bad[0]}: {d[bad[0]].shape} instead of {y.shape}", one)]
        if "u_c" in d:
            r.append(("upper", y - d["u_c"]))
            r.append(("lower", d["l_c"] - y))
        if "w_u" in d:
            r.append(("affine upper", y - lin(d["w_u"], d["b_u"], xs)))
            r.append(("affine lower", lin(d["w_l"], d["b_l"], xs) - y))
            x_in = ex.get("x")
            if x_in is not None:
                dif = d["x"] - x_in[0]
                r.append(("domain passed through", dif))
                r.append(("domain passed through-", -dif))
        if dc:
            r.append(("h+g", d["h"] + d["g"] - y))
            r.append(("h+g-", y - d["h"] - d["g"]))
        return r

    return viol


def domain_obj(st, eps=None):
    from decomon.core import BallDomain, BoxDomain

    if st.domain == "box":
        return BoxDomain()
    return BallDomain(eps=float(st.eps if eps is None else eps), p=st.p)
