"""Symbolic execution of decomon's numpy code.

The real functions are called on SymArr arrays (object arrays of symbolic values). Arithmetic, maxima and minima stay
symbolic; whatever Python turns into a concrete decision (an `if`, an argmax used as an index, an int()) forks the path:
run_paths() re-executes the function once per feasible sequence of decisions, the solver pruning infeasible ones."""
from __future__ import annotations

import numpy as np

from . import expr as E
from . import smt, tfx
from .tfx import Unsupported

_v1 = lambda f: np.frompyfunc(f, 1, 1)
_v2 = lambda f: np.frompyfunc(f, 2, 1)


def _num(f):
    return lambda *a: f(*[E.as_expr(x) for x in a])


def _pow(a, b):
    b = E.as_expr(b)
    if not b.is_const():
        raise Unsupported("symbolic exponent")
    c = b.cval()
    if c == 2 or (c.denominator == 1 and c >= 0):
        return E.powi(E.as_expr(a), int(c))
    if c * 2 == 1:
        return E.sqrt(E.as_expr(a))
    raise Unsupported(f"exponent {c}")


U1 = {
    "negative": _num(lambda a: -a), "absolute": _num(E.abs_), "fabs": _num(E.abs_), "square": _num(lambda a: a * a),
    "sqrt": _num(E.sqrt), "sign": _num(E.sign), "positive": _num(lambda a: a), "reciprocal": _num(E.inv),
    "exp": _num(lambda a: E.fn("exp", a)), "log": _num(lambda a: E.fn("log", a)), "tanh": _num(lambda a: E.fn("tanh", a)),
    "conjugate": _num(lambda a: a), "logical_not": lambda a: E.not_(E.as_bool(a)), "invert": lambda a: E.not_(E.as_bool(a)),
    "isnan": lambda a: E.bconst(False), "isinf": lambda a: E.bconst(False), "isfinite": lambda a: E.bconst(True),
}
U2 = {
    "add": _num(lambda a, b: a + b), "subtract": _num(lambda a, b: a - b), "multiply": _num(lambda a, b: a * b),
    "divide": _num(lambda a, b: a / b), "true_divide": _num(lambda a, b: a / b), "maximum": _num(E.max_), "minimum": _num(E.min_),
    "fmax": _num(E.max_), "fmin": _num(E.min_), "power": _pow, "float_power": _pow,
    "greater": _num(E.gt), "greater_equal": _num(E.ge), "less": _num(lambda a, b: E.gt(b, a)),
    "less_equal": _num(lambda a, b: E.ge(b, a)), "equal": _num(E.eq), "not_equal": _num(lambda a, b: E.not_(E.eq(a, b))),
    "logical_and": lambda a, b: E.and_(E.as_bool(a), E.as_bool(b)), "logical_or": lambda a, b: E.or_(E.as_bool(a), E.as_bool(b)),
    "bitwise_and": lambda a, b: E.and_(E.as_bool(a), E.as_bool(b)), "bitwise_or": lambda a, b: E.or_(E.as_bool(a), E.as_bool(b)),
    "heaviside": None,
}
REDUCE = {"add": lambda v: tfx._sum([E.as_expr(x) for x in v]) if v else E.ZERO}


def _obj(a):
    """object array with only symbolic elements (numbers become constants, booleans stay)"""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    a = a.view(np.ndarray)
    if a.dtype != object:
        return tfx.obj(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = x if isinstance(x, (E.Expr, E.Bool)) else E.as_expr(x)
    return out


def wrap(a):
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype == object:
        return a.view(SymArr)
    return a


def sym(a):
    """array handed to the code under test"""
    return _obj(np.asarray(a)).view(SymArr)


def unsym(a):
    return _obj(np.asarray(a))


def _matmul(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    r = tfx.matmul(a[None] if a1 else a, b[:, None] if b1 else b)
    r = r[..., 0, :] if a1 else r
    return r[..., 0] if b1 else r


class SymArr(np.ndarray):
    __array_priority__ = 100

    def __array_finalize__(self, o):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, dtype=None, casting=None, order=None, subok=None,
                        axis=0, keepdims=False, initial=None, **kw):
        if where is not True or kw:
            raise Unsupported(f"numpy {ufunc.__name__} with {kw or 'where'}")
        name = ufunc.__name__
        ins = [_obj(a) for a in inputs]
        if method == "__call__":
            if name == "matmul":
                r = _matmul(*ins)
            elif name == "clip":
                r = U_clip(*ins)
            else:
                f = (U1 if len(ins) == 1 else U2).get(name)
                if f is None:
                    raise Unsupported(f"numpy {name}")
                r = (_v1 if len(ins) == 1 else _v2)(f)(*ins)
        elif method == "reduce":
            a = ins[0]
            f = REDUCE.get(name) or (tfx.fold(U2[name]) if name in U2 else None)
            if f is None:
                raise Unsupported(f"numpy {name}.reduce")
            ax = tuple(range(a.ndim)) if axis is None else axis
            if any(s == 0 for s in np.atleast_1d(a.shape)) and name != "add":
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = tfx.reduce_axes(a, ax, keepdims, f)
            if initial is not None and not isinstance(initial, type(np._NoValue)):
                r = _v2(U2[name])(r, E.as_expr(initial))
        elif method == "outer":
            a, b = ins
            r = _v2(U2[name])(a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == "accumulate":
            a = np.moveaxis(ins[0], axis, 0).copy()
            for i in range(1, len(a)):
                a[i] = _v2(U2[name])(a[i - 1], a[i])
            r = np.moveaxis(a, 0, axis)
        else:
            raise Unsupported(f"numpy {name}.{method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o.dtype != object:
                raise Unsupported("symbolic values written in a float array")
            o.view(np.ndarray)[...] = r
            return o
        if isinstance(r, np.ndarray) and r.ndim == 0:
            r = r[()]
        return r.view(SymArr) if isinstance(r, np.ndarray) else r

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None:
            return wrap(h(*args, **kwargs))
        if func.__name__ in SHAPE_ONLY:
            r = super().__array_function__(func, types, args, kwargs)
            if isinstance(r, (list, tuple)):
                return type(r)(wrap(x) for x in r)
            return wrap(r)
        return super().__array_function__(func, types, args, kwargs)

    def argmax(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, True)

    def argmin(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, False)

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind in "fO":
            return self.copy()
        raise Unsupported(f"symbolic array converted to {dtype}")

    def clip(self, lo=None, hi=None, out=None):
        return U_clip(_obj(self), lo, hi).view(SymArr)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else int(np.prod([self.shape[a] for a in np.atleast_1d(axis)]))
        return np.add.reduce(self, axis=axis, keepdims=keepdims) * (E.ONE / E.const(n))

    def nonzero(self):
        b = _decide(_obj(self))
        return b.nonzero()

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(q, np.ndarray) and q.dtype == object for q in ks):
            k = tuple(_decide(q) if isinstance(q, np.ndarray) and q.dtype == object else q for q in ks)
        return super().__getitem__(k)


def U_clip(a, lo, hi):
    r = _obj(a)
    if lo is not None:
        r = _v2(U2["maximum"])(r, _obj(np.asarray(lo)))
    if hi is not None:
        r = _v2(U2["minimum"])(r, _obj(np.asarray(hi)))
    return tfx._ret(r)


def _decide(a):
    """concrete booleans of an array of symbolic ones (forks)"""
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(E.as_bool(a[i]))
    return out


def _arg(a, axis, largest):
    a = _obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=int)
    for i in np.ndindex(*a.shape[:-1]):
        best = 0
        for j in range(1, a.shape[-1]):
            p, q = (a[i + (j,)], a[i + (best,)]) if largest else (a[i + (best,)], a[i + (j,)])
            if bool(E.gt(p, q)):
                best = j
        out[i] = best
    return out if out.ndim else int(out[()])


def _norm(x, ord=None, axis=None, keepdims=False):
    x = sym(x)
    if axis is None:
        if x.ndim > 1 or ord not in (None, 2, 1, np.inf):
            raise Unsupported("matrix norm")
        axis = 0
    if ord is None or ord == 2:
        return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))
    if ord == 1:
        return np.sum(np.abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np.max(np.abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported(f"norm of order {ord}")


def _where(c, *ab):
    c = _obj(c)
    if not ab:
        return _decide(c).nonzero()
    return tfx._ret(np.frompyfunc(tfx._ite, 3, 1)(c, _obj(np.asarray(ab[0])), _obj(np.asarray(ab[1]))))


def _einsum(spec, *ops):
    spec = spec.replace(" ", "")
    lhs, rhs = spec.split("->")
    terms = lhs.split(",")
    ops = [_obj(o) for o in ops]
    dims = {}
    for t, o in zip(terms, ops):
        if "." in t:
            raise Unsupported("einsum with ellipsis")
        for ch, n in zip(t, o.shape):
            dims[ch] = n
    summed = [c for c in dims if c not in rhs]
    out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        acc = []
        for s in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, s))
            v = E.ONE
            for t, o in zip(terms, ops):
                v = v * o[tuple(env[c] for c in t)]
            acc.append(v)
        out[idx] = tfx._sum(acc)
    return out


def _sort(a, axis=-1, *r, **k):
    a = np.moveaxis(_obj(a).copy(), axis, -1)
    for i in np.ndindex(*a.shape[:-1]):
        v = list(a[i])
        for p in range(len(v)):
            for q in range(len(v) - 1 - p):
                v[q], v[q + 1] = E.min_(v[q], v[q + 1]), E.max_(v[q], v[q + 1])
        a[i] = v
    return np.moveaxis(a, -1, axis)


def _like(c):
    def f(a, *r, **k):
        out = np.empty(np.shape(a), dtype=object)
        out[...] = E.const(c)
        return out

    return f


FUNCS = {
    "norm": _norm, "where": _where, "einsum": _einsum, "sort": _sort, "argmax": lambda a, axis=None, **k: _arg(a, axis, True),
    "argmin": lambda a, axis=None, **k: _arg(a, axis, False), "clip": lambda a, lo=None, hi=None, **k: U_clip(a, lo, hi),
    "mean": lambda a, axis=None, **k: sym(a).mean(axis=axis, keepdims=k.get("keepdims", False)), "dot": lambda a, b: _matmul(_obj(a), _obj(b)),
    "tensordot": None, "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(0),
    "any": lambda a, axis=None, **k: np.logical_or.reduce(sym(a), axis=axis), "all": lambda a, axis=None, **k: np.logical_and.reduce(sym(a), axis=axis),
    "nan_to_num": lambda a, *r, **k: a, "copy": lambda a, *r, **k: _obj(a).copy(),
}
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}
SHAPE_ONLY = {"reshape", "ravel", "transpose", "concatenate", "stack", "vstack", "hstack", "split", "array_split", "repeat", "tile", "squeeze",
              "expand_dims", "moveaxis", "swapaxes", "broadcast_to", "take", "take_along_axis", "diagonal", "flip", "pad", "append"}


class NP:
    """the numpy module as seen by the code under test: new float arrays may receive symbolic values"""

    def __init__(self, base=None):
        self._base = base or np

    def __getattr__(self, k):
        return getattr(self._base, k)

    @staticmethod
    def _float(dtype):
        return dtype is None or np.dtype(dtype).kind in "fO"

    def _new(self, val, shape, dtype):
        out = np.empty(shape, dtype=object)
        out[...] = E.const(val)
        return out.view(SymArr)

    def zeros(self, shape, dtype=None, **k):
        return self._new(0, shape, dtype) if self._float(dtype) else np.zeros(shape, dtype, **k)

    def ones(self, shape, dtype=None, **k):
        return self._new(1, shape, dtype) if self._float(dtype) else np.ones(shape, dtype, **k)

    def empty(self, shape, dtype=None, **k):
        return self._new(0, shape, dtype) if self._float(dtype) else np.empty(shape, dtype, **k)

    def full(self, shape, v, dtype=None, **k):
        if isinstance(v, E.Expr) or self._float(dtype) and isinstance(v, float):
            out = np.empty(shape, dtype=object)
            out[...] = E.as_expr(v)
            return out.view(SymArr)
        return np.full(shape, v, dtype, **k)

    def array(self, a, *r, **k):
        return wrap(np.array(a, *r, **k)) if not _has_sym(a) else wrap(np.array(a))

    def asarray(self, a, *r, **k):
        return a if isinstance(a, SymArr) else self.array(a, *r, **k)

    # reductions of Python lists of symbolic values
    def max(self, a, *r, **k):
        return np.max(self.asarray(a) if _has_sym(a) else a, *r, **k)

    amax = max

    def min(self, a, *r, **k):
        return np.min(self.asarray(a) if _has_sym(a) else a, *r, **k)

    amin = min


def _has_sym(a):
    if isinstance(a, (E.Expr, SymArr)):
        return True
    if isinstance(a, (list, tuple)):
        return any(_has_sym(x) for x in a)
    return False


class patched:
    """replaces the name `np` of the given modules while the symbolic execution runs"""

    def __init__(self, *modules):
        self.modules = modules

    def __enter__(self):
        self.old = [(m, m.np) for m in self.modules if hasattr(m, "np")]
        for m, o in self.old:
            m.np = NP(o)

    def __exit__(self, *a):
        for m, o in self.old:
            m.np = o


# ---------------------------------------------------------------- paths
class TooManyPaths(Exception):
    pass


class _Ctl:
    def __init__(self, assume, prefix, prune_ms):
        self.assume, self.prefix, self.pc, self.trail, self.alts = list(assume), prefix, [], [], []
        self.prune_ms = prune_ms

    def _feasible(self, b):
        v, _ = smt.check(self.assume + self.pc + [b], self.prune_ms, want_model=False)
        return v != smt.UNSAT

    def __call__(self, b):
        if b in self.pc:
            return True
        if E.not_(b) in self.pc:
            return False
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if not self._feasible(b):
                d = False
                self.trail.append(d)
                self.pc.append(E.not_(b))
                return d
            d = True
            if self._feasible(E.not_(b)):
                self.alts.append(self.trail + [False])
        self.trail.append(d)
        self.pc.append(b if d else E.not_(b))
        return d


def run_paths(fn, assume=(), modules=(), max_paths=256, prune_ms=1000, before=None, catch=()):
    """[(path condition, result or exception)] of fn() over every feasible sequence of decisions"""
    todo, res = [[]], []
    while todo:
        ctl = _Ctl(assume, todo.pop(), prune_ms)
        if before:
            before()
        E.DECIDE = ctl
        try:
            with patched(*modules):
                try:
                    r = fn()
                except catch as e:
                    r = e
        finally:
            E.DECIDE = None
        res.append((list(ctl.pc), r))
        todo += ctl.alts
        if len(res) + len(todo) > max_paths:
            raise TooManyPaths(len(res) + len(todo))
    return res
