"""decomon.wrapper (numpy code) executed symbolically: certified ranges, certificates, refinement."""
from fractions import Fraction

import numpy as np

from symx import core, nps, smt, tfx
from symx import expr as E
from symx.core import Case

from . import lib

from decomon.core import BallDomain, BoxDomain
from decomon.models import clone
from decomon.models.models import DecomonModel
import decomon.wrapper as W

METHOD = {"ibp": "forward-ibp", "affine": "forward-affine", "hybrid": "forward-hybrid"}


def imp(c, f):
    return E.or_(E.not_(c), f)


# ---------------------------------------------------------------- real decomon models run on symbolic arrays
_predict = DecomonModel.predict_on_single_batch_np


def sym_predict(variables=()):
    """predict_on_single_batch_np: the model's dataflow graph is executed symbolically when the input is symbolic"""

    def predict(self, inputs):
        ins = inputs if isinstance(inputs, (list, tuple)) else [inputs]
        if not any(isinstance(a, np.ndarray) and a.dtype == object for a in ins):
            return _predict(self, inputs)
        ins = [nps.unsym(a) for a in ins]
        tr = tfx.trace(lambda *a: self(list(a) if len(a) > 1 else a[0]), [a.shape for a in ins])
        outs = [nps.sym(o) for o in tr.run(*ins, variables=variables)]
        return outs if len(outs) > 1 else outs[0]

    return predict


class Contract:
    """the bounds a converted model returns: any bounds valid on the box (ball) it is given.

    samples: [(x, f)] points and values of the network there; rows: the symbolic bounds returned so far"""

    def __init__(self, mode, n_in, oshape, samples, same, wfix=False, key=(), B=4, WB=4, slack=8):
        self.__dict__.update(locals())
        self.rows, self.assume, self.ev, self.table, self.known = 0, [], None, [], []

    def reset(self):
        self.rows, self.assume, self.table = 0, [], []

    def replay(self, ev):
        """the bounds returned on the path that the concrete values follow"""
        self.reset()
        self.ev = ev
        self.table = next((t for pc, t in self.known if all(ev.bool(c) for c in pc)), self.known[0][1] if self.known else [])

    def row(self, z):
        r = self.rows
        self.rows += 1
        osh, n = self.oshape, self.n_in
        p = f"r{r}"
        owner = [s for s in self.samples if self.same(z, s) is True] if z is not None else []
        res = {}
        sv = lambda nm, sh, lo, hi: tfx.symvar(f"{p}_{nm}", sh, lo, hi)
        if self.mode != "ibp":
            if self.wfix:
                w = lib.w_pattern(n, osh, "wrap", r, *self.key)
                res["w_u"], res["w_l"] = tfx.const_arr(w[0]), tfx.const_arr(w[1])
            else:
                res["w_u"], res["w_l"] = sv("wu", (n,) + osh, -self.WB, self.WB), sv("wl", (n,) + osh, -self.WB, self.WB)
        if owner:
            x, f = owner[0][:2]
            if self.mode != "affine":
                res["u_c"], res["l_c"] = f + sv("su", osh, 0, self.slack), f - sv("sl", osh, 0, self.slack)
            if self.mode != "ibp":
                vu = vl = 0
                for i in range(n):
                    vu, vl = vu + res["w_u"][i] * x[i], vl + res["w_l"][i] * x[i]
                res["b_u"], res["b_l"] = f + sv("tu", osh, 0, self.slack) - vu, f - sv("tl", osh, 0, self.slack) - vl
            rest = [s for s in self.samples if s is not owner[0]]
        else:
            B = self.B + self.slack
            if self.mode != "affine":
                res["u_c"], res["l_c"] = sv("uc", osh, -B, B), sv("lc", osh, -B, B)
            if self.mode != "ibp":
                res["b_u"], res["b_l"] = sv("bu", osh, -4 * B, 4 * B), sv("bl", osh, -4 * B, 4 * B)
            rest = self.samples
        if z is not None and not (owner and len(self.samples) == 1):
            for s in rest:
                c = self.same(z, s)
                if c is True:
                    c = E.bconst(True)
                if c is False or (c.is_const() and not c.arg):
                    continue
                x, f = s[:2]
                ok = []
                for o in np.ndindex(*osh):
                    if self.mode != "affine":
                        ok += [E.ge(res["u_c"][o], f[o]), E.ge(f[o], res["l_c"][o])]
                    if self.mode != "ibp":
                        vu, vl = res["b_u"][o], res["b_l"][o]
                        for i in range(n):
                            vu, vl = vu + res["w_u"][(i,) + o] * x[i], vl + res["w_l"][(i,) + o] * x[i]
                        ok += [E.ge(vu, f[o]), E.ge(f[o], vl)]
                self.assume.append(imp(c, E.and_(*ok)))
        return res

    def predict(self, model, z):
        if isinstance(z, (list, tuple)):
            z = z[0]
        if self.ev is not None:
            rows = self.table[self.rows:self.rows + len(z)]
            self.rows += len(z)
        else:
            rows = [self.row(nps.unsym(z[i])) for i in range(len(z))]
            self.table += rows
        st = lambda k: np.stack([r[k] for r in rows])
        names = {"hybrid": ("x", "u_c", "w_u", "b_u", "l_c", "w_l", "b_l"), "affine": ("x", "w_u", "b_u", "w_l", "b_l"),
                 "ibp": ("u_c", "l_c")}[self.mode]
        outs = [z if k == "x" else st(k) for k in names]
        if self.ev is not None:
            return [np.asarray(z, dtype=np.float64) if k == "x" else core._arr_vals(o, self.ev) for k, o in zip(names, outs)]
        return [nps.sym(o) for o in outs]


class NpCase(Case):
    """a case whose implementation is numpy code of decomon; predict replaces the call of the converted model"""

    def __init__(self, *a, contract=None, sym_vars=(), modules=(W,), max_paths=128, random=False, **k):
        super().__init__(*a, **k)
        self.contract, self.sym_vars, self.modules, self.max_paths = contract, sym_vars, modules, max_paths
        self.random = random

    def _call(self, args):
        r = self.impl(*args)
        return list(r) if isinstance(r, (list, tuple)) else [r]

    def encode(self, out):
        ct = self.contract
        old = DecomonModel.predict_on_single_batch_np
        DecomonModel.predict_on_single_batch_np = (
            (lambda m, z: ct.predict(m, z)) if ct is not None else sym_predict(list(self.variables)))
        extra = []

        rand = np.random.randint
        draws = []

        def randint(low, high=None, *r, **k):
            """any of the values the generator may return: one path each"""
            lo, hi = (0, low) if high is None else (low, high)
            if hi <= lo:
                return rand(low, high)  # raises like the real one
            if len(draws) <= self.n_draws:
                draws.append(E.var(f"draw{self.n_draws}", lo, 16))
            d = draws[self.n_draws]
            self.n_draws += 1
            for v in range(lo, hi - 1):
                if E.ge(E.const(Fraction(2 * v + 1, 2)), d):
                    return v
            return hi - 1

        def run():
            self.n_draws = 0
            if ct is not None:
                ct.reset()
                ct.ev = None
            try:
                args = [nps.sym(a) if isinstance(a, np.ndarray) and a.dtype == object else a for a in self.args]
                return self._call(args)
            finally:
                extra.append((list(ct.assume), list(ct.table)) if ct is not None else ([], []))

        if self.random:
            np.random.randint = randint
        try:
            paths = nps.run_paths(run, assume=list(self.assume), modules=self.modules, max_paths=self.max_paths, catch=(Exception,))
        finally:
            DecomonModel.predict_on_single_batch_np = old
            np.random.randint = rand
        if self.random and draws:
            self.draws = draws
            self.extras["draws"] = np.array(draws, dtype=object)
        res = []
        if ct is not None:
            ct.known = [(pc, t) for (pc, _), (_, t) in zip(paths, extra)]
        for (pc, r), (ex, _) in zip(paths, extra):
            if isinstance(r, (tfx.Unsupported, E.ExprTooBig)):
                raise r
            if isinstance(r, nps.TooManyPaths):
                raise tfx.Unsupported("too many paths")
            if isinstance(r, Exception):
                self._raising(out, pc + ex, r)
                continue
            res.append((pc + ex, [nps.unsym(o) for o in r], []))
        if not res and not out.violations:
            raise core.RealCodeRaises(str(paths[0][1]))
        self.n_paths = len(paths)
        return res

    def _raising(self, out, pc, err):
        v, m = smt.check(list(self.assume) + list(self.nl) + pc, 20000)
        if v == smt.UNSAT:
            return
        vinfo = core._case_vars(self, [], list(self.assume) + pc)
        env = core._complete(vinfo, m or {})
        try:
            core.concrete_run(self, env, want_viol=False)
        except Exception as e2:
            out.queries.append(("raises", "sat", 0.0, "raises on this path and on a concrete input"))
            ev = E.Evaluator({k: float(x) for k, x in env.items()})
            ex = {k: core._arr_vals(x, ev) if isinstance(x, np.ndarray) else x for k, x in self.extras.items()}
            a = [core._arr_vals(x, ev) if isinstance(x, np.ndarray) else x for x in self.args]
            out.violations.append(core._record(self, "raises", f"raises {type(e2).__name__}: {str(e2)[:400]}", env, ev, a, [], [], ex))
            return
        raise tfx.Unsupported(f"{type(err).__name__}: {err}") from err

    def run_real(self, fn, arrs, ev):
        ct = self.contract
        old = DecomonModel.predict_on_single_batch_np
        saved = [(v, np.array(v.numpy())) for v, _ in self.variables]
        rand = np.random.randint
        if self.random:
            ds = iter([float(ev.expr(d)) for d in getattr(self, "draws", [])])

            def randint(low, high=None, *r, **k):
                lo, hi = (0, low) if high is None else (low, high)
                if hi <= lo:
                    return rand(low, high)
                d = next(ds)
                return next((v for v in range(lo, hi - 1) if v + 0.5 >= d), hi - 1)

            np.random.randint = randint
        if ct is not None:
            ct.replay(ev)
            DecomonModel.predict_on_single_batch_np = lambda m, z: ct.predict(m, z)
        try:
            for v, a in self.variables:
                v.assign(core._arr_vals(np.asarray(a), ev).astype("float32"))
            r = fn(*[np.asarray(a) for a in arrs])
            return [core.fl(x) for x in (r if isinstance(r, (list, tuple)) else [r])]
        finally:
            DecomonModel.predict_on_single_batch_np = old
            np.random.randint = rand
            for v, a in saved:
                v.assign(a)
            if ct is not None:
                ct.ev = None


# ---------------------------------------------------------------- sets of inputs
def boxes(nb, n, conc=None, B=2, xw=2):
    """nb boxes of dimension n with a point in each: lo, hi (nb, n), points, assumptions"""
    assume = []
    if conc is not None:
        r = lib.rng_of("boxes", nb, n, conc)
        lo = np.round(r.uniform(-B, B, (nb, n)) * 4) / 4
        wd = np.round(r.uniform(0.25, xw, (nb, n)) * 4) / 4
        xs = np.array([[E.var(f"x_{i}_{j}", lo[i, j], lo[i, j] + wd[i, j]) for j in range(n)] for i in range(nb)], dtype=object)
        return tfx.const_arr(lo), tfx.const_arr(lo + wd), xs, assume
    lo = tfx.symvar("lo", (nb, n), -B, B)
    wd = tfx.symvar("wd", (nb, n), 0, xw)
    t = tfx.symvar("t", (nb, n), 0, xw)
    assume += [E.ge(wd[i], t[i]) for i in np.ndindex(nb, n)]
    return lo, lo + wd, lo + t, assume


def in_box(z, s):
    """does the sample lie in the box z (2, n)?"""
    x, _, lo, hi = s
    if all(a is b for a, b in zip(list(z[0]) + list(z[1]), list(lo) + list(hi))):
        return True
    return E.and_(*[E.and_(E.ge(xi, a), E.ge(b, xi)) for xi, a, b in zip(x, z[0], z[1])])


def dummy_model(mode, n, oshape, domain=None, method=None, key=()):
    """a converted model with the given modes and shapes (its bounds are replaced by the contract)"""
    import keras
    from keras import layers as KL

    ls = [keras.Input((n,)), KL.Dense(int(np.prod(oshape)))]
    if len(oshape) > 1:
        ls.append(KL.Reshape(oshape))
    m = keras.Sequential(ls)
    return clone(m, method=method or METHOD[mode], perturbation_domain=domain or BoxDomain())


ONE = lambda a: np.ones(1) if a.dtype != object else tfx.const_arr([1.0])


def range_viol(osh, nb, which):
    def viol(outs, refs, ex):
        f = ex["f"]
        r = []
        names = {"upper": ("u",), "lower": ("l",), "range": ("u", "l")}[which]
        if len(outs) != len(names):
            return [(f"{len(outs)} arrays returned", ONE(outs[0]))]
        for k, o in zip(names, outs):
            if o.shape != f.shape:
                return [(f"shape {o.shape} instead of {f.shape}", ONE(o))]
            r.append(("upper", f - o) if k == "u" else ("lower", o - f))
        return r

    return viol


def range_box(mode, nb, n, oshape, batch_size=-1, sub=1, which="range", conc=None, wfix=False, key=(), xshape=None, **kw):
    lo, hi, xs, assume = boxes(nb, n, conc)
    f = tfx.symvar("f", (nb,) + oshape, -4, 4)
    samples = [(xs[i], f[i], lo[i], hi[i]) for i in range(nb)]
    ct = Contract(mode, n, oshape, samples, in_box, wfix=wfix, key=key)
    dm = dummy_model(mode, n, oshape)
    fn = {"range": W.get_range_box, "upper": W.get_upper_box, "lower": W.get_lower_box}[which]
    if xshape:
        lo, hi = lo.reshape((nb,) + xshape), hi.reshape((nb,) + xshape)

    def impl(a, b):
        return fn(dm, a, b, batch_size=batch_size, n_sub_boxes=sub)

    return NpCase("", impl, [lo, hi], range_viol(oshape, nb, which), extras=dict(f=f, xs=xs), assume=assume, contract=ct,
                  bounds=f"{nb} boxes of dimension {n}, {'concrete' if conc is not None else 'any'}, outputs {oshape}, {mode} bounds, "
                  f"batch_size {batch_size}, {sub} sub-boxes", **kw)


# ---------------------------------------------------------------- whole networks through the wrapper
def values(model, xs):
    """the network at the points xs (nb, n), from its dataflow graph"""
    tr = tfx.trace(lambda a: model(a), [xs.shape])
    r = tr.run(xs)
    return r[0] if len(r) == 1 else r


def net_range(make, n_in, which, box=None, ball=None, method=None, conc=0, nb=1, key=(), batch_size=-1, sub=1, xshape=None, before=None,
              xw=2, neg=False, final=None, **kw):
    """get_(upper|lower|range)_(box|noise) on a Keras network (method None) or on its conversion"""
    m = make()
    lib.set_conc(m, *key)
    p, eps = ball if ball else (None, None)
    if ball:
        x0, xs, assume, nl = balls(nb, n_in, p, eps, conc)
        pd = BallDomain(p=p, eps=before[1] if before else eps) if not before else BallDomain(p=before[0], eps=before[1])
        fn = {"range": W.get_range_noise, "upper": W.get_upper_noise, "lower": W.get_lower_noise}[which]
        args = [x0]
    else:
        lo, hi, xs, assume = boxes(nb, n_in, conc, xw=xw)
        nl, pd = [], BoxDomain()
        fn = {"range": W.get_range_box, "upper": W.get_upper_box, "lower": W.get_lower_box}[which]
        args = [lo, hi]
    if xshape:
        args = [a.reshape((nb,) + xshape) for a in args]
    ckw = dict(final_ibp=final[0], final_affine=final[1]) if final else {}
    model = m if method is None else clone(m, method=method, perturbation_domain=pd, **ckw)
    f = values(m, xs)
    if ball:
        impl = lambda a: fn(model, a, eps=-1.0 if neg else eps, p=p, batch_size=batch_size)
    else:
        impl = lambda a, b: fn(model, a, b, batch_size=batch_size, n_sub_boxes=sub)
    return NpCase("", impl, args, range_viol(f.shape[1:], nb, which), extras=dict(f=f, xs=xs), assume=assume, nl=nl,
                  bounds=f"{nb} {'ball p=%s eps=%s' % (p, eps) if ball else 'box'}, fixed weights, any input, "
                  f"{method or 'Keras model given directly'}, batch_size {batch_size}, {sub} sub-boxes", **kw)


def balls(nb, n, p, eps, conc=None, B=2):
    """nb centers (nb, n), a point in each ball, assumptions, nonlinear ones"""
    if conc is not None:
        r = lib.rng_of("balls", nb, n, conc)
        c = np.round(r.uniform(-B, B, (nb, n)) * 4) / 4
        x0 = tfx.const_arr(c)
        xs = np.array([[E.var(f"x_{i}_{j}", c[i, j] - eps, c[i, j] + eps) for j in range(n)] for i in range(nb)], dtype=object)
        d = xs - x0
    else:
        x0 = tfx.symvar("x0", (nb, n), -B, B)
        d = tfx.symvar("d", (nb, n), -eps, eps)
        xs = x0 + d
    assume, nl = [], []
    for i in range(nb):
        if p == 1:
            assume.append(E.ge(E.const(eps), sum((E.abs_(v) for v in d[i]), E.const(0))))
        elif p == 2:
            nl.append(E.ge(E.const(Fraction(eps) ** 2), sum((v * v for v in d[i]), E.const(0))))
    return x0, xs, assume, nl


def norm_cuts(ds, ws, eps):
    """d.w <= eps |w| for the points d of the L2 ball and constant vectors w (Cauchy-Schwarz, norm rounded up): keeps the queries linear"""
    r = []
    for w in ws:
        w = [Fraction(float(v)) for v in w]
        sq = sum(v * v for v in w)
        q = Fraction(float(np.sqrt(float(sq)))) + Fraction(1, 10**9)
        assert q * q >= sq
        for d in ds:
            v = sum((a * b for a, b in zip(d, w)), E.const(0))
            r += [E.ge(E.const(Fraction(eps) * q), v), E.ge(E.const(Fraction(eps) * q), -v)]
    return r


def center(z, s):
    x, _, c = s
    z = np.asarray(z, dtype=object).reshape(-1)
    if all(a is b for a, b in zip(z, c)):
        return True
    return E.and_(*[E.eq(a, b) for a, b in zip(z, c)])


def range_noise(mode, nb, n, oshape, p, eps=0.5, batch_size=-1, which="range", conc=None, wfix=False, key=(), **kw):
    x0, xs, assume, nl = balls(nb, n, p, eps, conc)
    f = tfx.symvar("f", (nb,) + oshape, -4, 4)
    ct = Contract(mode, n, oshape, [(xs[i], f[i], x0[i]) for i in range(nb)], center, wfix=wfix, key=key)
    dm = dummy_model(mode, n, oshape, BallDomain(p=p, eps=eps))
    fn = {"range": W.get_range_noise, "upper": W.get_upper_noise, "lower": W.get_lower_noise}[which]
    return NpCase("", lambda a: fn(dm, a, eps=eps, p=p, batch_size=batch_size), [x0], range_viol(oshape, nb, which),
                  extras=dict(f=f, xs=xs), assume=assume, nl=nl, contract=ct,
                  bounds=f"{nb} balls p={p} eps={eps} of dimension {n}, outputs {oshape}, {mode} bounds, batch_size {batch_size}", **kw)


# ---------------------------------------------------------------- robustness certificates
def pairs(labels, targets, nb, K):
    """the (target, source) pairs of each sample, from the documented meaning of the labels"""
    def sets(v):
        if isinstance(v, (int, np.integer)):
            return [{int(v)}] * nb
        a = np.array(v).reshape((nb, -1))
        if a.shape[1] == K and set(np.unique(a)) <= {0, 1}:
            return [{int(k) for k in np.where(r)[0]} for r in a]
        return [{int(k) for k in r} for r in a]

    S = sets(labels)
    T = [set(range(K)) - s for s in S] if targets is None else sets(targets)
    return [[(t, s) for t in sorted(T[i]) for s in sorted(S[i])] for i in range(nb)]


def adv_viol(prs, kind):
    """kind 'adv': the score bounds the margins at the point; 'check': some margin at some corner reaches the score"""

    def viol(outs, refs, ex):
        f, v = ex["f"], outs[0]
        nb = len(prs)
        if len(outs) != 1 or v.shape != (nb,):
            return [(f"shape {v.shape} instead of {(nb,)}", ONE(v))]
        r = []
        for i, ps in enumerate(prs):
            if not ps:
                continue
            if kind == "adv":
                fi = f[i].reshape(-1)
                r += [(f"margin {t} over {s} of sample {i}", np.array([fi[t] - fi[s] - v[i]])) for t, s in ps]
            else:
                ms = [np.array([f[i, c].reshape(-1)[t] - f[i, c].reshape(-1)[s]]) for c in range(f.shape[1]) for t, s in ps]
                m = ms[0]
                for a in ms[1:]:
                    m = core.p_max(m, a)
                r.append((f"sample {i}", v[i] - m))
        return r

    return viol


def corners(lo, hi):
    nb, n = lo.shape
    cs = [[hi[:, j] if (c >> j) & 1 else lo[:, j] for j in range(n)] for c in range(2 ** n)]
    return np.stack([np.stack(c, -1) for c in cs], 1)  # (nb, 2^n, n)


FN = {"adv": W.get_adv_box, "check": W.check_adv_box, "noise": W.get_adv_noise}


def adv_box(mode, nb, n, oshape, labels, targets=None, kind="adv", batch_size=-1, sub=1, conc=None, wfix=False, key=(), xshape=None, refine=0,
            **kw):
    """the certificate deduced from any valid bounds"""
    K = int(np.prod(oshape))
    lo, hi, xs, assume = boxes(nb, n, conc)
    if kind == "adv":
        f = tfx.symvar("f", (nb,) + oshape, -4, 4)
        samples = [(xs[i], f[i], lo[i], hi[i]) for i in range(nb)]
    else:
        cs = corners(lo, hi)
        f = tfx.symvar("f", cs.shape[:2] + oshape, -4, 4)
        samples = [(cs[i, c], f[i, c], lo[i], hi[i]) for i in range(nb) for c in range(cs.shape[1])]
    ct = Contract(mode, n, oshape, samples, in_box, wfix=wfix, key=key)
    dm = dummy_model(mode, n, oshape)
    if xshape:
        lo, hi = lo.reshape((nb,) + xshape), hi.reshape((nb,) + xshape)
    k2 = dict(n_sub_boxes=sub) if kind == "adv" and sub > 1 else {}
    prs = pairs(labels, targets, nb, K)
    lab = lambda v: v if isinstance(v, (int, list)) else np.array(v)

    def impl(a, b):
        t = {} if targets is None else dict(target_labels=lab(targets))
        if refine:
            return W.refine_box(FN[kind], dm, a, b, refine, source_labels=lab(labels), batch_size=batch_size, random=False, **t)
        return FN[kind](dm, a, b, lab(labels), batch_size=batch_size, **t, **k2)

    return NpCase("", impl, [lo, hi], adv_viol(prs, kind), extras=dict(f=f), assume=assume, contract=ct,
                  bounds=f"{nb} boxes of dimension {n}, {'concrete' if conc is not None else 'any'}, outputs {oshape}, {mode} bounds, labels "
                  f"{labels!r}, targets {targets!r}, batch_size {batch_size}, {max(sub, refine)} sub-boxes", **kw)


def adv_noise(mode, nb, n, oshape, p, labels, targets=None, eps=0.5, batch_size=-1, conc=None, wfix=False, key=(), **kw):
    K = int(np.prod(oshape))
    x0, xs, assume, nl = balls(nb, n, p, eps, conc)
    f = tfx.symvar("f", (nb,) + oshape, -4, 4)
    ct = Contract(mode, n, oshape, [(xs[i], f[i], x0[i]) for i in range(nb)], center, wfix=wfix, key=key)
    if p == 2 and mode != "ibp" and wfix:
        for i in range(nb):
            wu, wl = [np.reshape(w, (n, -1)) for w in lib.w_pattern(n, oshape, "wrap", i, *key)]
            prs = [(t, s) for t in range(K) for s in range(K)]
            assume += norm_cuts([xs[i] - x0[i]], [wu[:, t] - wl[:, s] for t, s in prs], eps)
    dm = dummy_model(mode, n, oshape, BallDomain(p=p, eps=eps))
    lab = lambda v: v if isinstance(v, (int, list)) else np.array(v)

    def impl(a):
        t = {} if targets is None else dict(target_labels=lab(targets))
        return W.get_adv_noise(dm, a, lab(labels), eps=eps, p=p, batch_size=batch_size, **t)

    return NpCase("", impl, [x0], adv_viol(pairs(labels, targets, nb, K), "adv"), extras=dict(f=f, xs=xs), assume=assume, nl=nl, contract=ct,
                  bounds=f"{nb} balls p={p} eps={eps} of dimension {n}, outputs {oshape}, {mode} bounds, labels {labels!r}, targets {targets!r}, "
                  f"batch_size {batch_size}", **kw)


def net_adv(make, n_in, labels, targets=None, kind="adv", ball=None, method=None, conc=0, nb=1, key=(), batch_size=-1, sub=1, back=False,
            final=None, before=None, neg=False, xw=2, **kw):
    """certificates of a whole network"""
    import keras

    m = make()
    lib.set_conc(m, *key)
    p, eps = ball if ball else (None, None)
    if ball:
        x0, xs, assume, nl = balls(nb, n_in, p, eps, conc)
        pd = BallDomain(p=(before or ball)[0], eps=(before or ball)[1])
        args = [x0]
    else:
        lo, hi, xs, assume = boxes(nb, n_in, conc, xw=xw)
        nl, pd, args = [], BoxDomain(), [lo, hi]
    K = int(np.prod(m.output_shape[1:]))
    ckw = {}
    if back:
        ckw["back_bounds"] = [keras.Input((K, K))]
    if final:
        ckw.update(final_ibp=final[0], final_affine=final[1])
    model = m if method is None else clone(m, method=method, perturbation_domain=pd, **ckw)
    if kind == "check":
        cs = corners(lo, hi)
        f = np.stack([values(m, cs[:, c]) for c in range(cs.shape[1])], 1)
    else:
        f = values(m, xs)
    lab = lambda v: v if isinstance(v, (int, list)) else np.array(v)
    t = {} if targets is None else dict(target_labels=lab(targets))
    if ball:
        impl = lambda a: W.get_adv_noise(model, a, lab(labels), eps=-1.0 if neg else eps, p=p, batch_size=batch_size, **t)
    else:
        k2 = dict(n_sub_boxes=sub) if sub > 1 else {}
        impl = lambda a, b: FN[kind](model, a, b, lab(labels), batch_size=batch_size, **t, **k2)
    return NpCase("", impl, args, adv_viol(pairs(labels, targets, nb, K), kind), extras=dict(f=f), assume=assume, nl=nl,
                  bounds=f"{nb} {'ball p=%s eps=%s' % (p, eps) if ball else 'box'}, fixed weights, any input, {method or 'Keras model given directly'}"
                  f", labels {labels!r}, targets {targets!r}, batch_size {batch_size}, {sub} sub-boxes", **kw)


# ---------------------------------------------------------------- refinement
def refine_cover(nb, n, sub, conc=None, xshape=None, **kw):
    """refine_boxes: the sub-boxes cover the box and lie inside it"""
    lo, hi, xs, assume = boxes(nb, n, conc)
    a0, b0 = (lo.reshape((nb,) + xshape), hi.reshape((nb,) + xshape)) if xshape else (lo, hi)

    def viol(outs, refs, ex):
        smin, smax = outs
        k = smin.shape[1] if smin.ndim > 1 else 0
        sh = xshape or (n,)
        if smin.shape != smax.shape or smin.shape != (nb, k) + sh or not 1 <= k <= max(sub, 1):
            return [(f"shapes {smin.shape}, {smax.shape}", ONE(smin))]
        smin, smax = smin.reshape(nb, k, n), smax.reshape(nb, k, n)
        lo, hi, x = ex["lo"], ex["hi"], ex["x"]
        r = [("below the box", lo[:, None] - smin), ("above the box", smax - hi[:, None]), ("empty", smin - smax)]
        for i in range(nb):
            best = None
            for q in range(k):
                d = None
                for j in range(n):
                    e = core.p_max(smin[i, q, j:j + 1] - x[i, j:j + 1], x[i, j:j + 1] - smax[i, q, j:j + 1])
                    d = e if d is None else core.p_max(d, e)
                best = d if best is None else core.p_min(best, d)
            r.append((f"point of box {i} in no sub-box", best))
        return r

    return NpCase("", lambda a, b: W.refine_boxes(a, b, sub), [a0, b0], viol, extras=dict(lo=lo, hi=hi, x=xs), assume=assume,
                  bounds=f"{nb} {'concrete' if conc is not None else 'any'} boxes of dimension {n}, {sub} sub-boxes asked for", **kw)


RF = {"upper": W.get_upper_box, "lower": W.get_lower_box, "range": W.get_range_box}


def refined(mode, nb, n, oshape, which, n_split, random=False, batch_size=-1, conc=None, wfix=True, key=(), xshape=None, **kw):
    """refine_box with the range functions"""
    lo, hi, xs, assume = boxes(nb, n, conc)
    K = int(np.prod(oshape))
    f = tfx.symvar("f", (nb,) + oshape, -4, 4)
    samples = [(xs[i], f[i], lo[i], hi[i]) for i in range(nb)]
    ct = Contract(mode, n, oshape, samples, in_box, wfix=wfix, key=key)
    dm = dummy_model(mode, n, oshape)
    a0, b0 = (lo.reshape((nb,) + xshape), hi.reshape((nb,) + xshape)) if xshape else (lo, hi)
    impl = lambda a, b: W.refine_box(RF[which], dm, a, b, n_split, batch_size=batch_size, random=random)
    return NpCase("", impl, [a0, b0], range_viol((K,), nb, which), extras=dict(f=f.reshape(nb, K), xs=xs), assume=assume, contract=ct,
                  random=random, bounds=f"{nb} {'concrete' if conc is not None else 'any'} boxes of dimension {n}, outputs {oshape}, {mode} bounds, "
                  f"{n_split} sub-boxes, {'every random choice' if random else 'largest side first'}", **kw)


def refined_adv(mode, nb, n, oshape, kind, n_split, labels, targets=None, random=False, batch_size=-1, conc=0, wfix=True, key=(), **kw):
    """refine_box with the certificates"""
    K = int(np.prod(oshape))
    lo, hi, xs, assume = boxes(nb, n, conc)
    if kind == "adv":
        f = tfx.symvar("f", (nb,) + oshape, -4, 4)
        samples = [(xs[i], f[i], lo[i], hi[i]) for i in range(nb)]
    else:  # the corners of every sub-box lie on the dyadic grid
        m = 2 ** (n_split - 1) + 1
        grid = np.stack([np.stack(np.meshgrid(*[np.arange(m)] * n, indexing="ij"), -1).reshape(-1, n)] * nb).astype(float) / (m - 1)
        cs = lo[:, None] + tfx.const_arr(grid) * (hi - lo)[:, None]
        f = tfx.symvar("f", cs.shape[:2] + oshape, -4, 4)
        samples = [(cs[i, c], f[i, c], lo[i], hi[i]) for i in range(nb) for c in range(cs.shape[1])]
    ct = Contract(mode, n, oshape, samples, in_box, wfix=wfix, key=key)
    dm = dummy_model(mode, n, oshape)
    lab = lambda v: v if isinstance(v, (int, list)) or v is None else np.array(v)
    impl = lambda a, b: W.refine_box(FN[kind], dm, a, b, n_split, source_labels=lab(labels), target_labels=lab(targets), batch_size=batch_size,
                                     random=random)
    return NpCase("", impl, [lo, hi], adv_viol(pairs(labels, targets, nb, K), kind), extras=dict(f=f), assume=assume, contract=ct, random=random,
                  bounds=f"{nb} boxes of dimension {n}, outputs {oshape}, {mode} bounds, labels {labels!r}, targets {targets!r}, "
                  f"{n_split} sub-boxes, {'every random choice' if random else 'largest side first'}", **kw)


def net_refined(make, n_in, which, n_split, labels=None, targets=None, random=False, method=None, conc=0, nb=1, batch_size=-1, xw=2, key=(), **kw):
    """refine_box of whole networks"""
    m = make()
    lib.set_conc(m, *key)
    lo, hi, xs, assume = boxes(nb, n_in, conc, xw=xw)
    model = m if method is None else clone(m, method=method)
    f = values(m, xs)
    K = int(np.prod(f.shape[1:]))
    lab = lambda v: v if isinstance(v, (int, list)) or v is None else np.array(v)
    fn = {**RF, **FN}[which]
    impl = lambda a, b: W.refine_box(fn, model, a, b, n_split, source_labels=lab(labels), target_labels=lab(targets), batch_size=batch_size,
                                     random=random)
    v = range_viol((K,), nb, which) if which in RF else adv_viol(pairs(labels, targets, nb, K), which)
    return NpCase("", impl, [lo, hi], v, extras=dict(f=f.reshape(nb, K), xs=xs), assume=assume, random=random,
                  bounds=f"fixed weights, any point of {nb} boxes, {method or 'Keras model'}, {which}, {n_split} sub-boxes, random={random}", **kw)
