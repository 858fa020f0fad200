"""Symbolic values: hash-consed polynomials with exact rational coefficients over atoms.

An atom is a variable or the result of a non-polynomial operation:
  relu(p), ind(cond) in {0,1}, inv(p) = 1/p, sqrt(p), fn:<name>(p) (uninterpreted real function).
Everything a TensorFlow graph of decomon computes over the reals is one of these; max/min/abs/clip/sign/where
are rewritten to relu/ind polynomials, which gives canonical forms (relu(-p) = relu(p) - p, ind^2 = ind, ...).
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

_ND = np.ndarray

INF = float("inf")
DECIDE = None  # path controller, see nps.run_paths


class ExprTooBig(Exception):
    pass


MAX_TERMS = 60000


class Atom:
    __slots__ = ("id", "kind", "arg", "name", "lo", "hi", "depth", "__weakref__")

    def __init__(self, id, kind, arg, name, lo, hi, depth):
        self.id, self.kind, self.arg, self.name, self.lo, self.hi, self.depth = id, kind, arg, name, lo, hi, depth

    def __repr__(self):
        return self.name if self.kind == "var" else f"{self.kind}#{self.id}"


ATOMS: list[Atom] = []
_atom_key: dict = {}
_expr_tab: dict = {}
_bool_tab: dict = {}
# boolean atom id -> list, used for P*N = 0 simplification
_excl: dict = {}  # atom id -> atom id (mutually exclusive indicator)


def reset():
    ATOMS.clear()
    _atom_key.clear()
    _expr_tab.clear()
    _bool_tab.clear()
    _excl.clear()
    global ZERO, ONE
    ZERO = const(0)
    ONE = const(1)


# ---------------------------------------------------------------- expressions
class Expr:
    """polynomial: dict monomial -> Fraction; monomial = tuple of (atom_id, exp) sorted by atom id"""

    __slots__ = ("t", "key", "_iv", "_depth", "__weakref__")

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), Fraction(0))

    # arithmetic
    def __add__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return add(self, as_expr(o))

    __radd__ = __add__

    def __neg__(self):
        return scale(self, Fraction(-1))

    def __sub__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return add(self, scale(as_expr(o), Fraction(-1)))

    def __rsub__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return add(as_expr(o), scale(self, Fraction(-1)))

    def __mul__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return mul(self, as_expr(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return mul(self, inv(as_expr(o)))

    def __rtruediv__(self, o):
        if isinstance(o, _ND):
            return NotImplemented
        return mul(as_expr(o), inv(self))

    def __pow__(self, n):
        return powi(self, n)

    # comparisons give Bool
    def __gt__(self, o):
        return gt(self, as_expr(o))

    def __ge__(self, o):
        return ge(self, as_expr(o))

    def __lt__(self, o):
        return gt(as_expr(o), self)

    def __le__(self, o):
        return ge(as_expr(o), self)

    def __eq__(self, o):  # structural identity
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:12]:
            s = "*".join(repr(ATOMS[a]) + (f"^{e}" if e > 1 else "") for a, e in m)
            out.append(f"{c}" + ("*" + s if s else ""))
        if len(self.t) > 12:
            out.append("...")
        return " + ".join(out)

    @property
    def depth(self):
        d = self._depth
        if d is None:
            d = 0
            for m in self.t:
                for a, _ in m:
                    d = max(d, ATOMS[a].depth)
            self._depth = d
        return d

    def interval(self):
        iv = self._iv
        if iv is None:
            lo = hi = 0.0
            for m, c in self.t.items():
                a, b = 1.0, 1.0
                for aid, e in m:
                    at = ATOMS[aid]
                    al, ah = at.lo, at.hi
                    if e % 2 == 0:
                        if al >= 0:
                            pl, ph = _pw(al, e), _pw(ah, e)
                        elif ah <= 0:
                            pl, ph = _pw(ah, e), _pw(al, e)
                        else:
                            pl, ph = 0.0, max(_pw(al, e), _pw(ah, e))
                    else:
                        pl, ph = _pw(al, e), _pw(ah, e)
                    c4 = [_m(a, pl), _m(a, ph), _m(b, pl), _m(b, ph)]
                    a, b = min(c4), max(c4)
                cf = float(c)
                if cf >= 0:
                    lo += _m(cf, a)
                    hi += _m(cf, b)
                else:
                    lo += _m(cf, b)
                    hi += _m(cf, a)
            if len(self.t) > 1 or any(m for m in self.t):
                # guard against rounding of the float interval arithmetic
                pad = 1e-12 * (1 + (abs(lo) if lo > -INF else 0) + (abs(hi) if hi < INF else 0))
                if len(self.t) > 1:
                    lo -= pad
                    hi += pad
            iv = self._iv = (lo, hi)
        return iv

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


def _pw(x, e):
    if x in (INF, -INF):
        return INF if (x > 0 or e % 2 == 0) else -INF
    return x**e


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def _mk(t: dict) -> Expr:
    key = frozenset(t.items())
    e = _expr_tab.get(key)
    if e is None:
        if len(t) > MAX_TERMS:
            raise ExprTooBig(len(t))
        e = Expr.__new__(Expr)
        e.t = t
        e.key = key
        e._iv = None
        e._depth = None
        _expr_tab[key] = e
    return e


def const(c) -> Expr:
    c = Fraction(c)
    return _mk({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def as_expr(x) -> Expr:
    if isinstance(x, Expr):
        return x
    if isinstance(x, Bool):
        return ind(x)
    if isinstance(x, (bool,)):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    xf = float(x)
    if math.isinf(xf):  # only compared with: stands above (below) every value within the bounds
        return const(10**30 if xf > 0 else -(10**30))
    if math.isnan(xf):
        raise ValueError(f"non finite constant {xf}")
    return const(Fraction(xf))


def _atom(kind, arg, name, lo, hi, depth) -> Atom:
    key = (kind, arg, name)
    a = _atom_key.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, arg, name, lo, hi, depth)
        ATOMS.append(a)
        _atom_key[key] = a
    return a


def _aexpr(a: Atom) -> Expr:
    return _mk({((a.id, 1),): Fraction(1)})


def var(name: str, lo=-INF, hi=INF) -> Expr:
    a = _atom("var", None, name, float(lo), float(hi), 0)
    assert a.lo == float(lo) and a.hi == float(hi), f"variable {name} redeclared"
    return _aexpr(a)


def add(a: Expr, b: Expr) -> Expr:
    if len(a.t) < len(b.t):
        a, b = b, a
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return _mk(t)


def scale(a: Expr, c: Fraction) -> Expr:
    if c == 1:
        return a
    if not c:
        return ZERO
    return _mk({m: v * c for m, v in a.t.items()})


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        at = ATOMS[a]
        if at.kind == "ind":
            d[a] = 1
        else:
            d[a] = d.get(a, 0) + e
    for a in d:
        x = _excl.get(a)
        if x is not None and x in d:
            return None
    return tuple(sorted(d.items()))


def mul(a: Expr, b: Expr) -> Expr:
    if a.is_const():
        return scale(b, a.cval())
    if b.is_const():
        return scale(a, b.cval())
    t: dict = {}
    if len(a.t) * len(b.t) > 40 * MAX_TERMS:
        raise ExprTooBig(len(a.t) * len(b.t))
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            if m is None:
                continue
            v = t.get(m)
            c = c1 * c2
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
    return _mk(t)


def powi(a: Expr, n) -> Expr:
    if isinstance(n, Expr):
        assert n.is_const()
        n = n.cval()
    n = Fraction(n)
    if n.denominator == 2:
        return powi(sqrt(a), n.numerator)
    assert n.denominator == 1, f"power {n}"
    n = int(n)
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def _lead(p: Expr):
    """leading (canonical) non constant monomial"""
    return min(m for m in p.t if m)


def _norm_pos(p: Expr):
    """p = c * q with c > 0 and q has leading coefficient +-1"""
    m = _lead(p)
    c = abs(p.t[m])
    return c, scale(p, 1 / c)


def _only_inds(p: Expr, cap=3):
    """list of ind atoms when p is a polynomial in at most cap ind atoms only (constant leaves)"""
    s = p.atoms()
    if not s or len(s) > cap:
        return None
    for a in s:
        if ATOMS[a].kind != "ind":
            return None
    return sorted(s)


def _eval_inds(p: Expr, env: dict) -> Fraction:
    v = Fraction(0)
    for m, c in p.t.items():
        if all(env[a] for a, _ in m):
            v += c
    return v


def lift_inds(p: Expr, f) -> Expr | None:
    """f(p) for a polynomial p over indicators only, by multilinear interpolation (exact)."""
    al = _only_inds(p)
    if al is None:
        return None
    res = ZERO
    n = len(al)
    # Moebius interpolation over {0,1}^n
    vals = {}
    for bits in range(1 << n):
        env = {a: (bits >> i) & 1 for i, a in enumerate(al)}
        vals[bits] = f(_eval_inds(p, env))
    for bits in range(1 << n):
        c = Fraction(0)
        sub = bits
        while True:
            sign = -1 if bin(bits ^ sub).count("1") % 2 else 1
            c += sign * vals[sub]
            if sub == 0:
                break
            sub = (sub - 1) & bits
        if c:
            mono = ONE
            for i, a in enumerate(al):
                if (bits >> i) & 1:
                    mono = mul(mono, _aexpr(ATOMS[a]))
            res = add(res, scale(mono, c))
    return res


def relu(p: Expr) -> Expr:
    if p.is_const():
        return const(max(p.cval(), Fraction(0)))
    lo, hi = p.interval()
    if lo >= 0:
        return p
    if hi <= 0:
        return ZERO
    r = lift_inds(p, lambda v: max(v, Fraction(0)))
    if r is not None:
        return r
    c, q = _norm_pos(p)
    m = _lead(q)
    if q.t[m] < 0:
        # relu(-q') = relu(q') - q'
        qp = scale(q, Fraction(-1))
        return scale(add(_relu_atom(qp), q), c)
    return scale(_relu_atom(q), c)


def _relu_atom(q: Expr) -> Expr:
    lo, hi = q.interval()
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "relu":
            return q
    return _aexpr(_atom("relu", q, None, max(lo, 0.0), max(hi, 0.0), q.depth + 1))


def max_(a: Expr, b: Expr) -> Expr:
    if a is b:
        return a
    return add(b, relu(a - b))


def min_(a: Expr, b: Expr) -> Expr:
    if a is b:
        return a
    return a - relu(a - b)


def abs_(a: Expr) -> Expr:
    return scale(relu(a), Fraction(2)) - a


def sign(p: Expr) -> Expr:
    P = gt(p, ZERO)
    N = gt(-p, ZERO)
    ip, in_ = ind(P), ind(N)
    if len(ip.t) == 1 and len(in_.t) == 1 and not ip.is_const() and not in_.is_const():
        (a,), (b,) = ip.atoms(), in_.atoms()
        if a != b:
            _excl[a] = b
            _excl[b] = a
    return ip - in_


def inv(p: Expr) -> Expr:
    if p.is_const():
        if not p.cval():
            raise ZeroDivisionError("division by constant zero")
        return const(1 / p.cval())
    r = _only_inds(p)
    if r is not None:
        try:
            return lift_inds(p, lambda v: 1 / v)
        except ZeroDivisionError:
            pass
    m = _lead(p)
    c = p.t[m]
    q = scale(p, 1 / c)
    # inv(inv(x)) not simplified (x != 0 needed)
    lo, hi = q.interval()
    if lo > 0:
        l, h = (0.0 if hi == INF else (1 / hi) * (1 - 1e-12)), (1 / lo) * (1 + 1e-12)
    elif hi < 0:
        l, h = (1 / hi) * (1 + 1e-12), (0.0 if lo == -INF else (1 / lo) * (1 - 1e-12))
    else:
        l, h = -INF, INF
    return scale(_aexpr(_atom("inv", q, None, l, h, q.depth + 1)), 1 / c)


def sqrt(p: Expr) -> Expr:
    if p.is_const():
        v = p.cval()
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    lo, hi = p.interval()
    return _aexpr(
        _atom("sqrt", p, None, max(0.0, math.sqrt(max(lo, 0)) * (1 - 1e-12) - 1e-300), INF if hi == INF else math.sqrt(max(hi, 0)) * (1 + 1e-12) + 1e-12, p.depth + 1)
    )


# name -> (lo, hi) range of the function
FN_RANGE = {
    "exp": (0.0, INF),
    "log": (-INF, INF),
    "sigmoid": (0.0, 1.0),
    "tanh": (-1.0, 1.0),
    "softsign": (-1.0, 1.0),
    "softplus": (0.0, INF),
}


def fn(name: str, p: Expr) -> Expr:
    if p.is_const() and not (name == "log" and p.cval() <= 0) and abs(p.cval()) < 500:
        return const(Fraction(FN_EVAL[name](float(p.cval()))))
    lo, hi = FN_RANGE.get(name, (-INF, INF))
    return _aexpr(_atom("fn:" + name, p, None, lo, hi, p.depth + 1))


# ---------------------------------------------------------------- booleans
class Bool:
    """kind: 'const' val | 'gt' p (p > 0) | 'eq' p (p == 0) | 'and' fs | 'not' f"""

    __slots__ = ("kind", "arg", "_depth")

    def __and__(self, o):
        return and_(self, as_bool(o))

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, as_bool(o))

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def is_const(self):
        return self.kind == "const"

    def __bool__(self):
        if self.kind == "const":
            return self.arg
        if DECIDE is not None:  # symbolic execution of Python code: the path forks
            return DECIDE(self)
        raise TypeError("truth value of a symbolic condition")

    def __repr__(self):
        if self.kind == "const":
            return str(self.arg)
        if self.kind == "gt":
            return f"({self.arg!r} > 0)"
        if self.kind == "eq":
            return f"({self.arg!r} == 0)"
        if self.kind == "not":
            return f"!{self.arg!r}"
        return "(" + " & ".join(map(repr, self.arg)) + ")"

    @property
    def depth(self):
        d = self._depth
        if d is None:
            if self.kind == "const":
                d = 0
            elif self.kind in ("gt", "eq"):
                d = self.arg.depth
            elif self.kind == "not":
                d = self.arg.depth
            else:
                d = max(f.depth for f in self.arg)
            self._depth = d
        return d


def _mkb(kind, arg):
    k = (kind, arg)
    b = _bool_tab.get(k)
    if b is None:
        b = Bool.__new__(Bool)
        b.kind, b.arg, b._depth = kind, arg, None
        _bool_tab[k] = b
    return b


def bconst(v) -> Bool:
    return _mkb("const", bool(v))


def as_bool(x) -> Bool:
    if isinstance(x, Bool):
        return x
    if isinstance(x, Expr):
        return not_(eq(x, ZERO))
    return bconst(x)


def gt(a: Expr, b: Expr) -> Bool:
    p = a - b
    if p.is_const():
        return bconst(p.cval() > 0)
    lo, hi = p.interval()
    if lo > 0:
        return bconst(True)
    if hi <= 0:
        return bconst(False)
    al = _only_inds(p)
    if al is not None and len(al) == 1:
        v0, v1 = _eval_inds(p, {al[0]: 0}) > 0, _eval_inds(p, {al[0]: 1}) > 0
        c = ATOMS[al[0]].arg
        if v0 == v1:
            return bconst(v0)
        return c if v1 else not_(c)
    _, q = _norm_pos(p)
    return _mkb("gt", q)


def ge(a: Expr, b: Expr) -> Bool:
    return not_(gt(b, a))


def eq(a: Expr, b: Expr) -> Bool:
    p = a - b
    if p.is_const():
        return bconst(p.cval() == 0)
    lo, hi = p.interval()
    if lo > 0 or hi < 0:
        return bconst(False)
    m = _lead(p)
    return _mkb("eq", scale(p, 1 / p.t[m]))


def not_(f: Bool) -> Bool:
    if f.kind == "const":
        return bconst(not f.arg)
    if f.kind == "not":
        return f.arg
    return _mkb("not", f)


def and_(*fs) -> Bool:
    s = []
    for f in fs:
        f = as_bool(f)
        if f.kind == "const":
            if not f.arg:
                return bconst(False)
            continue
        if f.kind == "and":
            s.extend(f.arg)
        else:
            s.append(f)
    u = []
    for f in s:
        if f not in u:
            u.append(f)
    if not u:
        return bconst(True)
    for f in u:
        if not_(f) in u:
            return bconst(False)
    if len(u) == 1:
        return u[0]
    return _mkb("and", tuple(u))


def or_(*fs) -> Bool:
    return not_(and_(*[not_(as_bool(f)) for f in fs]))


def ind(f: Bool) -> Expr:
    if f.kind == "const":
        return ONE if f.arg else ZERO
    if f.kind == "not":
        return ONE - ind(f.arg)
    return _aexpr(_atom("ind", f, None, 0.0, 1.0, f.depth + 1))


def ite(c: Bool, a: Expr, b: Expr) -> Expr:
    if c.kind == "const":
        return a if c.arg else b
    if a is b:
        return a
    return b + ind(c) * (a - b)


# ---------------------------------------------------------------- evaluation (floats / Fractions)
FN_EVAL = {
    "exp": math.exp,
    "log": lambda x: math.log(x) if x > 0 else math.nan,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
    "tanh": math.tanh,
    "softsign": lambda x: x / (1 + abs(x)),
    "softplus": lambda x: math.log1p(math.exp(-abs(x))) + max(x, 0.0),
}


class Evaluator:
    """numeric evaluation under an assignment var name -> number (float or Fraction)"""

    def __init__(self, env):
        self.env = env
        self.ac = {}
        self.ec = {}

    def atom(self, aid):
        v = self.ac.get(aid)
        if v is None:
            a = ATOMS[aid]
            k = a.kind
            if k == "var":
                v = self.env.get(a.name)
                if v is None:  # appears on no path under consideration
                    v = min(max(0.0, a.lo), a.hi)
            elif k == "relu":
                v = max(self.expr(a.arg), 0)
            elif k == "ind":
                v = 1 if self.bool(a.arg) else 0
            elif k == "inv":
                d = self.expr(a.arg)
                v = (1 / d) if d else INF
            elif k == "sqrt":
                v = math.sqrt(max(self.expr(a.arg), 0))
            elif k.startswith("fn:"):
                v = FN_EVAL[k[3:]](self.expr(a.arg))
            else:
                raise NotImplementedError(k)
            self.ac[aid] = v
        return v

    def expr(self, e: Expr):
        v = self.ec.get(id(e))
        if v is None:
            v = 0
            for m, c in e.t.items():
                x = c if not isinstance(c, float) else c
                p = 1
                for a, ex in m:
                    p = p * self.atom(a) ** ex
                    if p == 0:
                        break
                if p != 0:
                    v = v + (float(c) * p if isinstance(p, float) else c * p)
            self.ec[id(e)] = v
        return v

    def bool(self, f: Bool):
        if f.kind == "const":
            return f.arg
        if f.kind == "gt":
            return self.expr(f.arg) > 0
        if f.kind == "eq":
            return self.expr(f.arg) == 0
        if f.kind == "not":
            return not self.bool(f.arg)
        return all(self.bool(g) for g in f.arg)


# ---------------------------------------------------------------- substitution
class Subst:
    """replace atoms by expressions (used by the case splitter): env atom id -> Expr"""

    def __init__(self, env):
        self.env = env
        self.ac = {}
        self.ec = {}

    def atom(self, aid):
        v = self.ac.get(aid)
        if v is None:
            if aid in self.env:
                v = self.env[aid]
            else:
                a = ATOMS[aid]
                k = a.kind
                if k == "var":
                    v = _aexpr(a)
                elif k == "relu":
                    q = self.expr(a.arg)
                    v = _aexpr(a) if q is a.arg else relu(q)
                elif k == "ind":
                    q = self.bool(a.arg)
                    v = _aexpr(a) if q is a.arg else ind(q)
                elif k == "inv":
                    q = self.expr(a.arg)
                    v = _aexpr(a) if q is a.arg else inv(q)
                elif k == "sqrt":
                    q = self.expr(a.arg)
                    v = _aexpr(a) if q is a.arg else sqrt(q)
                else:
                    q = self.expr(a.arg)
                    v = _aexpr(a) if q is a.arg else fn(k[3:], q)
            self.ac[aid] = v
        return v

    def expr(self, e: Expr) -> Expr:
        r = self.ec.get(id(e))
        if r is None:
            changed = False
            for a in e.atoms():
                v = self.atom(a)
                if v is not _aexpr(ATOMS[a]):
                    changed = True
            if not changed:
                r = e
            else:
                r = ZERO
                for m, c in e.t.items():
                    p = const(c)
                    for a, ex in m:
                        v = self.atom(a)
                        for _ in range(ex):
                            p = mul(p, v)
                        if not p.t:
                            break
                    r = add(r, p)
            self.ec[id(e)] = r
        return r

    def bool(self, f: Bool) -> Bool:
        if f.kind == "const":
            return f
        if f.kind == "gt":
            return gt(self.expr(f.arg), ZERO)
        if f.kind == "eq":
            return eq(self.expr(f.arg), ZERO)
        if f.kind == "not":
            return not_(self.bool(f.arg))
        return and_(*[self.bool(g) for g in f.arg])


def collect_atoms(exprs=(), bools=()):
    """all atoms reachable, sorted by id (topological)"""
    seen = set()
    st_e, st_b = list(exprs), list(bools)
    se, sb = set(), set()
    while st_e or st_b:
        if st_e:
            e = st_e.pop()
            if id(e) in se:
                continue
            se.add(id(e))
            for a in e.atoms():
                if a not in seen:
                    seen.add(a)
                    at = ATOMS[a]
                    if at.kind == "var":
                        continue
                    if at.kind == "ind":
                        st_b.append(at.arg)
                    else:
                        st_e.append(at.arg)
        else:
            f = st_b.pop()
            if id(f) in sb:
                continue
            sb.add(id(f))
            if f.kind in ("gt", "eq"):
                st_e.append(f.arg)
            elif f.kind == "not":
                st_b.append(f.arg)
            elif f.kind == "and":
                st_b.extend(f.arg)
    return sorted(seen)
