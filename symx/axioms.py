"""Facts about transcendental functions used as axioms. `default` relates the applications occurring in a query through
monotonicity, tangents and chords; `table` brackets each application by its chords/tangents on a fixed grid. Every fact is a
theorem of real analysis; grid values are widened by 1e-9."""
import math
from fractions import Fraction

from . import expr as E

EPS = Fraction(1, 10**9)


def imp(c, f):
    return E.or_(E.not_(c), f)


def le(a, b):
    return E.ge(b, a)


def _prime(name, p, f):
    """derivative at p as a polynomial of the value f (None when not polynomial)"""
    if name == "exp":
        return f
    if name == "sigmoid":
        return f * (E.ONE - f)
    if name == "tanh":
        return E.ONE - f * f
    return None


S_SHAPE = {"sigmoid": Fraction(1, 2), "tanh": Fraction(0), "softsign": Fraction(0)}


def _key(e):
    return frozenset(e.t.items())


class _Inv:
    """the reciprocals occurring in a query, by argument"""

    def __init__(self, al):
        self.d = {_key(E.ATOMS[a].arg): E._aexpr(E.ATOMS[a]) for a in al if E.ATOMS[a].kind == "inv"}

    def get(self, p):
        """1/p when it occurs in the query"""
        if p.is_const():
            return E.const(1 / p.cval()) if p.cval() else None
        c = p.t[E._lead(p)]
        r = self.d.get(_key(E.scale(p, 1 / c)))
        return None if r is None else E.scale(r, 1 / c)


def _primes(name, p, f, iv):
    """[(condition, derivative at p)]"""
    d = _prime(name, p, f)
    if d is not None:
        return [(E.and_(), d)]
    if name == "softplus":
        return []
    r = []
    if name == "softsign":
        for s, c in ((p, E.ge(p, E.ZERO)), (-p, le(p, E.ZERO))):
            i = iv.get(E.mul(E.ONE + s, E.ONE + s))
            if i is None:
                i = iv.get(E.ONE + s)
                i = None if i is None else E.mul(i, i)
            if i is not None:
                r.append((c, i))
    return r


def divided(name, apps, iv):
    """facts about the slope c=(g-f)/(q-p) of the chord between two applications, stated with the reciprocal in the query"""
    out = []
    convex = name in ("exp", "softplus")
    for i, (p, f) in enumerate(apps):
        for j, (q, g) in enumerate(apps):
            if i == j:
                continue
            r = iv.get(q - p)
            if r is None:
                continue
            c = (g - f) * r
            out.append(E.ge(c, E.ZERO))
            out.append(le(c, E.const(L1[name])) if name in L1 else E.and_())
            lt = E.gt(q, p)
            conc = E.ge(p, E.ZERO) if name in S_SHAPE else E.and_() if name == "log" else None
            conv = le(q, E.ZERO) if name in S_SHAPE else E.and_() if convex else None
            for cond, d in _primes(name, q, g, iv):
                if conv is not None:
                    out.append(imp(E.and_(cond, conv, lt), E.ge(d, c)))
                if conc is not None:
                    out.append(imp(E.and_(cond, conc, lt), le(d, c)))
            for cond, d in _primes(name, p, f, iv):
                if conv is not None:
                    out.append(imp(E.and_(cond, conv, lt), le(d, c)))
                if conc is not None:
                    out.append(imp(E.and_(cond, conc, lt), E.ge(d, c)))
            for k, (y, h) in enumerate(apps):
                if k in (i, j):
                    continue
                mid = E.and_(le(p, y), le(y, q), lt)
                up = E.and_(le(h, f + c * (y - p)), le(h, g + c * (y - q)))
                dn = E.and_(E.ge(h, f + c * (y - p)), E.ge(h, g + c * (y - q)))
                if conv is not None:
                    out.append(imp(E.and_(mid, conv), up))
                if conc is not None:
                    out.append(imp(E.and_(mid, conc), dn))
                if name in S_SHAPE:
                    # s-shaped: a chord is above the function when the derivative at its right end is above its slope
                    for cond, d in _primes(name, q, g, iv):
                        out.append(imp(E.and_(mid, cond, E.ge(d, c)), up))
                    for cond, d in _primes(name, p, f, iv):
                        out.append(imp(E.and_(mid, cond, E.ge(d, c)), dn))
    return out


L1 = {"sigmoid": Fraction(1, 4), "tanh": 1, "softsign": 1, "softplus": 1}


def _apps(al):
    by = {}
    for a in al:
        at = E.ATOMS[a]
        if at.kind.startswith("fn:"):
            by.setdefault(at.kind[3:], []).append((at.arg, E._aexpr(at)))
    return by


def default(al, chords=True):
    out = []
    iv = _Inv(al)
    for name, apps in _apps(al).items():
        zero = E.ZERO
        out += divided(name, apps, iv)
        if name == "exp":
            out += [E.gt(f, zero) for _, f in apps]
            apps = apps + [(zero, E.ONE)]
        elif name in S_SHAPE:
            c = E.const(S_SHAPE[name])
            apps = apps + [(zero, c)]
        elif name == "softplus":
            for p, f in apps:
                out += [E.ge(f, E.relu(p)), le(f, E.relu(p) + E.const(Fraction(6931472, 10**7)))]
            apps = apps + [(zero, E.const(Fraction(math.log(2))))]
        elif name == "log":
            apps = apps + [(E.ONE, zero)]
        if name == "exp":
            for p, f in apps:
                lo, hi = p.interval()
                if hi < 50:
                    h = Fraction(math.exp(hi)) * (1 + EPS)
                    out.append(le(f, E.const(h)))
                if lo > -50:
                    out.append(E.ge(f, E.const(Fraction(math.exp(lo)) * (1 - EPS))))
        n = len(apps)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                (p, f), (q, g) = apps[i], apps[j]
                if i < j:  # monotone (strictly increasing functions)
                    out += [imp(E.ge(p, q), E.ge(f, g)), imp(E.ge(q, p), E.ge(g, f))]
                if name == "exp":
                    out.append(E.ge(g, f + f * (q - p)))
                elif name == "log":
                    out.append(imp(E.and_(E.gt(p, zero), E.gt(q, zero)), le(p * (g - f), q - p)))
                elif name == "softplus":
                    out.append(le(g - f, E.relu(q - p)))
                elif name in S_SHAPE:
                    for cond, d in _primes(name, p, f, iv):
                        out.append(imp(E.and_(cond, E.ge(p, zero), E.ge(q, zero)), le(g, f + d * (q - p))))
                        out.append(imp(E.and_(cond, le(p, zero), le(q, zero)), E.ge(g, f + d * (q - p))))
        if chords and n <= 6:
            for i in range(n):
                for j in range(n):
                    for k in range(n):
                        if len({i, j, k}) < 3:
                            continue
                        (p, f), (q, g), (r, h) = apps[i], apps[j], apps[k]
                        between = E.and_(le(p, q), le(q, r))
                        above = E.ge((r - q) * f + (q - p) * h, (r - p) * g)  # q under the chord p-r: convex
                        below = le((r - q) * f + (q - p) * h, (r - p) * g)
                        if name in ("exp", "softplus"):
                            out.append(imp(between, above))
                        elif name == "log":
                            out.append(imp(E.and_(between, E.gt(p, zero)), below))
                        elif name in S_SHAPE:
                            out.append(imp(E.and_(between, le(r, zero)), above))
                            out.append(imp(E.and_(between, E.ge(p, zero)), below))
    return [f for f in out if not (f.is_const() and f.arg)]


def _fr(v):
    return Fraction(v)


def table(step=1 / 16, lo=-8.0, hi=8.0):
    """piecewise brackets of the applications on [lo, hi]; outside, the monotone limits"""

    def ax(al):
        out = []
        for name, apps in _apps(al).items():
            fe = E.FN_EVAL[name]
            a0 = max(lo, step) if name == "log" else lo
            n = int(round((hi - a0) / step))
            pts = [a0 + i * step for i in range(n + 1)]
            if name == "exp":  # the gap between chord and tangent grows with exp
                pts = [a0]
                while pts[-1] < hi:
                    pts.append(min(hi, pts[-1] + min(step, round(math.sqrt(8e-4 * math.exp(-pts[-1] - step)) * 4096) / 4096)))
            if name in S_SHAPE or name == "softplus":
                pts = sorted(set(pts) | {0.0} if a0 < 0 < hi else set(pts))
            dv = {"exp": math.exp, "log": lambda x: 1 / x, "sigmoid": lambda x: fe(x) * (1 - fe(x)),
                  "tanh": lambda x: 1 - fe(x) ** 2, "softsign": lambda x: 1 / (1 + abs(x)) ** 2, "softplus": lambda x: E.FN_EVAL["sigmoid"](x)}[name]
            for p, f in apps:
                for a, b in zip(pts, pts[1:]):
                    fa, fb = fe(a), fe(b)
                    inside = E.and_(E.ge(p, E.const(_fr(a))), le(p, E.const(_fr(b))))
                    if inside.is_const() and not inside.arg:
                        continue
                    s = _fr((fb - fa)) / _fr(b - a)
                    chord = E.const(_fr(fa)) + (p - E.const(_fr(a))) * E.const(s)
                    t1 = E.const(_fr(fa)) + (p - E.const(_fr(a))) * E.const(_fr(dv(a)))
                    t2 = E.const(_fr(fb)) + (p - E.const(_fr(b))) * E.const(_fr(dv(b)))
                    convex = name in ("exp", "softplus") or (name in S_SHAPE and b <= 0)
                    w = E.const(EPS)
                    if convex:
                        fs = [le(f, chord + w), E.ge(f, t1 - w), E.ge(f, t2 - w)]
                    else:
                        fs = [E.ge(f, chord - w), le(f, t1 + w), le(f, t2 + w)]
                    out.append(imp(inside, E.and_(*fs)))
                out.append(imp(E.ge(p, E.const(_fr(pts[-1]))), E.ge(f, E.const(_fr(fe(pts[-1])) - EPS))))
                out.append(imp(le(p, E.const(_fr(pts[0]))), le(f, E.const(_fr(fe(pts[0])) + EPS))))
        return out

    return ax


def with_products(ax, prefixes):
    """adds: product of a non-negative chord slope (or of a non-negative weight) with a non-negative slack is non-negative"""

    def f(al):
        out = list(ax(al))
        iv = _Inv(al)
        sl = [E._aexpr(E.ATOMS[a]) for a in al if E.ATOMS[a].kind == "var" and E.ATOMS[a].lo >= 0
              and E.ATOMS[a].name.startswith(prefixes)]
        for name, apps in _apps(al).items():
            for p, g1 in apps:
                for q, g2 in apps:
                    if p is q:
                        continue
                    r = iv.get(q - p)
                    if r is not None:
                        c = (g2 - g1) * r
                        out += [E.ge(c * s, E.ZERO) for s in sl]
                for _, d in _primes(name, p, g1, iv):
                    out += [E.ge(d * s, E.ZERO) for s in sl]
        for i in range(len(sl)):
            for j in range(i):
                out.append(E.ge(sl[i] * sl[j], E.ZERO))
        return out

    return f


def monotone(al):
    """only that the functions are increasing: enough when both sides apply the same function"""
    out = []
    for name, apps in _apps(al).items():
        for i in range(len(apps)):
            for j in range(i):
                (p, f), (q, g) = apps[i], apps[j]
                out += [imp(E.ge(p, q), E.ge(f, g)), imp(E.ge(q, p), E.ge(g, f))]
    return [f for f in out if not (f.is_const() and f.arg)]
