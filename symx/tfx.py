"""Symbolic execution of the TensorFlow graph that decomon's real code builds.

`trace(fn, shapes)` runs the real Python code of decomon under tf.function (graph mode: any Python control flow that
would depend on a tensor value raises) and returns the dataflow graph; `Traced.run(*args)` executes that graph over
numpy object arrays of exact symbolic values. Nodes whose inputs are all concrete are executed by TensorFlow itself.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction

import numpy as np
import tensorflow as tf

from . import expr as E


class Unsupported(Exception):
    pass


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def obj(a):
    """concrete/symbolic array -> object array of Expr (numbers) """
    if is_sym(a):
        return a
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    flat, src = out.reshape(-1), a.reshape(-1)
    for i in range(flat.size):
        flat[i] = E.as_expr(src[i].item())
    return out.reshape(a.shape)


def symvar(name, shape, lo=-E.INF, hi=E.INF):
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = E.var(name + ("_" + "_".join(map(str, idx)) if idx else ""), lo, hi)
    return out


SOFTMAX2 = False  # a case may ask for the two-class softmax to be expressed through the sigmoid


def const_arr(v):
    return obj(np.asarray(v, dtype=float))


_u = lambda f: np.frompyfunc(f, 1, 1)
_b = lambda f: np.frompyfunc(f, 2, 1)
_t = lambda f: np.frompyfunc(f, 3, 1)


def _ret(a):
    if not isinstance(a, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    return a


v_relu = lambda a: _ret(_u(E.relu)(a))
v_sign = lambda a: _ret(_u(E.sign)(a))
v_abs = lambda a: _ret(_u(E.abs_)(a))


def _ite(c, a, b):
    return E.ite(E.as_bool(c), E.as_expr(a), E.as_expr(b))


def _sum(vals):
    t = {}
    for e in vals:
        for m, c in e.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
    return E._mk(t)


def reduce_axes(a, axes, keep, f):
    axes = [int(x) % a.ndim if a.ndim else 0 for x in np.atleast_1d(axes)]
    keepax = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keepax + axes)
    kshape = tuple(a.shape[i] for i in keepax)
    b = b.reshape(kshape + (-1,))
    out = np.empty(kshape, dtype=object)
    for idx in np.ndindex(*kshape):
        out[idx] = f(list(b[idx]))
    if keep:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return out


def fold(f):
    def g(vals):
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r

    return g


def matmul(a, b):
    a, b = obj(a), obj(b)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, sh + a.shape[-2:])
    b = np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(*sh):
        A, B = a[idx], b[idx]
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[idx + (i, j)] = _sum([E.mul(A[i, k], B[k, j]) for k in range(A.shape[1])])
    return out


def _det(m):
    if m.shape[0] == 1:
        return m[0, 0]
    r = E.ZERO
    for j in range(m.shape[0]):
        if m[0, j].is_const() and not m[0, j].cval():
            continue
        r = E.add(r, E.mul(E.as_expr((-1) ** j), E.mul(m[0, j], _det(np.delete(m[1:], j, axis=1)))))
    return r


def sym_argmax(vals, largest=True):
    """symbolic index of first max: returned as Expr through indicators"""
    n = len(vals)
    res = E.ZERO
    rest = E.ONE
    for i in range(n):
        cs = []
        for j in range(n):
            if j == i:
                continue
            a, b = (vals[i], vals[j]) if largest else (vals[j], vals[i])
            cs.append(E.gt(a, b) if j < i else E.ge(a, b))
        sel = E.ind(E.and_(*cs))
        res = E.add(res, E.scale(sel, Fraction(i)))
    return res


class Traced:
    def __init__(self, cf, n_args):
        self.cf = cf
        self.graph = cf.graph
        self.n_args = n_args
        self.ops = self.graph.get_operations()
        self.var_syms = {}  # id(variable handle) -> array

    def digest(self):
        gd = self.graph.as_graph_def()
        return hashlib.sha256(gd.SerializeToString(deterministic=True)).hexdigest()[:16], len(self.ops)

    def run(self, *args, variables=None):
        """args: one array per traced input, object (symbolic) or numeric. variables: {tf.Variable ref: array}"""
        assert len(args) == self.n_args
        env = {}
        cap = {}
        for ext, ph in self.graph.captures:
            cap[ph.name] = ext
        self.cap = cap
        handles = {}
        for v in self.cf.variables:
            handles[id(v.handle)] = v
        self.handles = handles
        self.variables = {}
        if variables:
            for v, a in variables:
                if not isinstance(v, tf.Variable):
                    v = v.value
                self.variables[id(v.handle)] = a
        ins = self.graph.inputs[: self.n_args]
        for t, a in zip(ins, args):
            assert tuple(t.shape) == a.shape, f"{t.shape} vs {a.shape}"
            env[t.name] = a
        it = Interp(self)
        for t in self.graph.inputs[self.n_args :]:
            ext = cap[t.name]
            env[t.name] = ext if ext.dtype == tf.resource else ext.numpy()
        it.exec(self.graph, env, [])
        outs = []
        struct = self.cf.structured_outputs
        flat = tf.nest.flatten(self.graph.structured_outputs)
        for t in flat:
            outs.append(env[t.name] if t is not None else None)
        return outs


def _static_len(self):
    n = self.shape[0]
    if n is None:
        raise TypeError("len() of a tensor of unknown batch size")
    return int(n)


class _graph_len:
    """keras_utils calls len() on tensors; during tracing it gives the static batch size, as in eager mode"""

    def __enter__(self):
        from tensorflow.python.framework import tensor as tt

        self.cls = tt.Tensor
        self.old = tt.Tensor.__len__
        tt.Tensor.__len__ = _static_len
        from keras.src.backend.tensorflow import linalg  # its solve() asks for the rank of a tensor, which graphs only know statically

        self.linalg, self.solve = linalg, linalg.solve

        def solve(a, b):
            if b.shape.rank == a.shape.rank - 1:
                return tf.squeeze(tf.linalg.solve(a, tf.expand_dims(b, axis=-1)), axis=-1)
            return tf.linalg.solve(a, b)

        linalg.solve = solve

    def __exit__(self, *a):
        self.cls.__len__ = self.old
        self.linalg.solve = self.solve


def trace(fn, shapes, dtype=tf.float32):
    specs = [tf.TensorSpec(s, dtype) for s in shapes]

    @tf.function(autograph=False)
    def g(*xs):
        return fn(*xs)

    with _graph_len():
        cf = g.get_concrete_function(*specs)
    return Traced(cf, len(shapes))


class Interp:
    def __init__(self, tr):
        self.tr = tr
        self.lists = []

    def exec(self, graph, env, fetch):
        for op in graph.get_operations():
            if op.type in ("Placeholder", "NoOp"):
                continue
            ins = [env[t.name] for t in op.inputs]
            outs = self.op(op, ins)
            for t, o in zip(op.outputs, outs):
                if isinstance(o, np.ndarray) and o.dtype == object and t.shape.rank is not None:
                    exp = t.shape.as_list()
                    if len(exp) != o.ndim or any(e is not None and e != s for e, s in zip(exp, o.shape)):
                        raise Unsupported(f"shape mismatch in interpreter: {op.type} {exp} vs {o.shape}")
                env[t.name] = o
        return [env[t.name] for t in fetch]

    def call_func(self, op, fname, ins):
        g = op.graph
        f = None
        while g is not None and f is None:
            try:
                f = g._get_function(fname)
            except Exception:
                f = None
            if f is None:
                g = getattr(g, "outer_graph", None)
        if f is None:
            raise Unsupported(f"function {fname}")
        fg = getattr(f, "graph", None)
        if fg is None:
            from tensorflow.python.framework import function_def_to_graph as fd

            fg = fd.function_def_to_graph(f.cached_definition)
        env = {}
        for t, a in zip(fg.inputs, ins):
            env[t.name] = a
        return self.exec(fg, env, fg.outputs)

    def op(self, op, ins):
        ty = op.type
        if ty == "Const":
            return [tf.make_ndarray(op.get_attr("value"))]
        if ty == "ReadVariableOp":
            h = ins[0]
            if id(h) in self.tr.variables:
                return [self.tr.variables[id(h)]]
            v = self.tr.handles.get(id(h))
            if v is None:
                raise Unsupported("unknown variable")
            return [v.numpy()]
        if ty in ("Identity", "StopGradient", "PreventGradient", "Snapshot", "EnsureShape"):
            return [ins[0]]
        if ty == "IdentityN":
            return list(ins)
        if ty in ("PartitionedCall", "StatefulPartitionedCall"):
            return self.call_func(op, op.get_attr("f").name, ins)
        if ty in ("While", "StatelessWhile"):
            st = list(ins)
            n = 0
            while True:
                c = self.call_func(op, op.get_attr("cond").name, st)[0]
                if is_sym(c):
                    raise Unsupported("symbolic loop condition")
                if not bool(c):
                    return st
                st = self.call_func(op, op.get_attr("body").name, st)
                n += 1
                if n > 2000:
                    raise Unsupported("loop bound")
        if ty in ("If", "StatelessIf"):
            c = ins[0]
            if is_sym(c):
                c0 = c.reshape(-1)[0]
                c0 = E.as_bool(c0)
                if not c0.is_const():
                    raise Unsupported("symbolic If")
                c = c0.arg
            return self.call_func(op, op.get_attr("then_branch" if bool(c) else "else_branch").name, ins[1:])
        if ty == "Assert":
            return []
        h = getattr(self, "do_" + ty, None)
        if any(is_sym(a) for a in ins) or (ty.startswith("TensorList")):
            # shape-only ops do not need values
            if ty == "Shape":
                return [np.array(ins[0].shape, dtype=np.int32)]
            if ty == "Size":
                return [np.array(ins[0].size, dtype=np.int32)]
            if ty == "Rank":
                return [np.array(ins[0].ndim, dtype=np.int32)]
            if h is None:
                raise Unsupported(f"op {ty} ({op.name})")
            r = h(op, *ins)
            return r if isinstance(r, list) else [r]
        return self.concrete(op, ins)

    def concrete(self, op, ins):
        """every input is concrete: TensorFlow's own kernel computes the node"""
        from tensorflow.python.eager import context, execute

        od = op.op_def
        ts, k = [], 0
        for arg in od.input_arg:
            if arg.type_list_attr:
                dts = list(op.get_attr(arg.type_list_attr))
            else:
                dt = op.get_attr(arg.type_attr) if arg.type_attr else arg.type
                dts = [dt] * (op.get_attr(arg.number_attr) if arg.number_attr else 1)
            for dt in dts:
                dt = tf.as_dtype(dt)
                x = ins[k]
                k += 1
                with tf.init_scope():
                    ts.append(x if dt in (tf.resource, tf.variant) else tf.constant(x, dtype=dt))
        attrs = []
        for at in od.attr:
            if at.name.startswith("_"):
                continue
            try:
                v = op.get_attr(at.name)
            except ValueError:
                continue
            if at.type == "func" or at.type == "list(func)":
                raise Unsupported(f"concrete op {op.type}")
            if isinstance(v, tf.DType):
                v = v.as_datatype_enum
            elif isinstance(v, list) and v and isinstance(v[0], tf.DType):
                v = [x.as_datatype_enum for x in v]
            attrs += [at.name, v]
        with tf.init_scope():
            r = execute.execute(
                op.type, num_outputs=len(op.outputs), inputs=ts, attrs=tuple(attrs), ctx=context.context()
            )
        return [x.numpy() for x in r]

    # ---- elementwise
    def do_Add(self, op, a, b):
        return _ret(_b(E.add)(obj(a), obj(b)))

    do_AddV2 = do_Add

    def do_BiasAdd(self, op, a, b):
        df = op.get_attr("data_format")
        df = df.decode() if isinstance(df, bytes) else df
        if df == "NCHW" and a.ndim > 2:
            b = np.asarray(b).reshape((1, -1) + (1,) * (a.ndim - 2))
        return _ret(_b(E.add)(obj(a), obj(b)))

    def do_Sub(self, op, a, b):
        return _ret(_b(lambda x, y: x - y)(obj(a), obj(b)))

    def do_Mul(self, op, a, b):
        return _ret(_b(E.mul)(obj(a), obj(b)))

    def do_AddN(self, op, *xs):
        r = obj(xs[0])
        for x in xs[1:]:
            r = _ret(_b(E.add)(r, obj(x)))
        return r

    def do_RealDiv(self, op, a, b):
        return _ret(_b(lambda x, y: E.mul(x, E.inv(y)))(obj(a), obj(b)))

    do_Div = do_RealDiv

    def do_DivNoNan(self, op, a, b):
        def f(x, y):
            if y.is_const():
                return E.ZERO if not y.cval() else E.mul(x, E.inv(y))
            return E.ite(E.eq(y, E.ZERO), E.ZERO, E.mul(x, E.inv(y)))

        return _ret(_b(f)(obj(a), obj(b)))

    def do_Reciprocal(self, op, a):
        return _ret(_u(E.inv)(a))

    def do_Maximum(self, op, a, b):
        return _ret(_b(E.max_)(obj(a), obj(b)))

    def do_Minimum(self, op, a, b):
        return _ret(_b(E.min_)(obj(a), obj(b)))

    def do_Relu(self, op, a):
        return v_relu(a)

    def do_Relu6(self, op, a):
        return v_relu(a) - v_relu(a - E.const(6))

    def do_LeakyRelu(self, op, a):
        al = Fraction(float(op.get_attr("alpha")))
        return _ret(_u(lambda x: E.relu(x) - E.scale(E.relu(-x), al))(a))

    def do_Neg(self, op, a):
        return _ret(_u(lambda x: -x)(a))

    def do_Abs(self, op, a):
        return v_abs(a)

    def do_Sign(self, op, a):
        return v_sign(a)

    def do_Square(self, op, a):
        return _ret(_u(lambda x: E.mul(x, x))(a))

    def do_SquaredDifference(self, op, a, b):
        return _ret(_b(lambda x, y: E.mul(x - y, x - y))(obj(a), obj(b)))

    def do_Sqrt(self, op, a):
        return _ret(_u(E.sqrt)(a))

    def do_Rsqrt(self, op, a):
        return _ret(_u(lambda x: E.inv(E.sqrt(x)))(a))

    def do_Pow(self, op, a, b):
        return _ret(_b(E.powi)(obj(a), obj(b)))

    def do_Exp(self, op, a):
        return _ret(_u(lambda x: E.fn("exp", x))(a))

    def do_Log(self, op, a):
        return _ret(_u(lambda x: E.fn("log", x))(a))

    def do_Sigmoid(self, op, a):
        return _ret(_u(lambda x: E.fn("sigmoid", x))(a))

    def do_Tanh(self, op, a):
        return _ret(_u(lambda x: E.fn("tanh", x))(a))

    def do_Softplus(self, op, a):
        return _ret(_u(lambda x: E.fn("softplus", x))(a))

    def do_Softsign(self, op, a):
        return _ret(_u(lambda x: E.fn("softsign", x))(a))

    def do_Softmax(self, op, a):
        out = np.empty(a.shape, dtype=object)
        if SOFTMAX2 and a.shape[-1] == 2:  # e^a/(e^a+e^b) = sigmoid(a-b)
            for idx in np.ndindex(*a.shape[:-1]):
                out[idx + (0,)] = E.fn("sigmoid", a[idx + (0,)] - a[idx + (1,)])
                out[idx + (1,)] = E.ONE - out[idx + (0,)]
            return out
        for idx in np.ndindex(*a.shape[:-1]):
            es = [E.fn("exp", x) for x in a[idx]]
            s = E.inv(_sum(es))
            for i, e in enumerate(es):
                out[idx + (i,)] = E.mul(e, s)
        return out

    def do_ClipByValue(self, op, a, lo, hi):
        f = lambda x, l, h: E.min_(E.max_(x, l), h)
        return _ret(_t(f)(obj(a), obj(lo), obj(hi)))

    def do_Cast(self, op, a):
        dst = tf.as_dtype(op.get_attr("DstT"))
        src = tf.as_dtype(op.get_attr("SrcT"))
        if dst.is_floating:
            return _ret(_u(E.as_expr)(a))
        if dst == tf.bool:
            return _ret(_u(E.as_bool)(a))
        if dst.is_integer and (src.is_bool or src.is_integer):
            return _ret(_u(E.as_expr)(a))
        raise Unsupported(f"cast {src} -> {dst}")

    def do_Greater(self, op, a, b):
        return _ret(_b(E.gt)(obj(a), obj(b)))

    def do_GreaterEqual(self, op, a, b):
        return _ret(_b(E.ge)(obj(a), obj(b)))

    def do_Less(self, op, a, b):
        return _ret(_b(lambda x, y: E.gt(y, x))(obj(a), obj(b)))

    def do_LessEqual(self, op, a, b):
        return _ret(_b(lambda x, y: E.ge(y, x))(obj(a), obj(b)))

    def do_Equal(self, op, a, b):
        return _ret(_b(E.eq)(obj(a), obj(b)))

    def do_NotEqual(self, op, a, b):
        return _ret(_b(lambda x, y: E.not_(E.eq(x, y)))(obj(a), obj(b)))

    def do_LogicalAnd(self, op, a, b):
        return _ret(_b(lambda x, y: E.and_(E.as_bool(x), E.as_bool(y)))(a, b))

    def do_LogicalOr(self, op, a, b):
        return _ret(_b(lambda x, y: E.or_(E.as_bool(x), E.as_bool(y)))(a, b))

    def do_LogicalNot(self, op, a):
        return _ret(_u(lambda x: E.not_(E.as_bool(x)))(a))

    def do_SelectV2(self, op, c, a, b):
        c, a, b = np.asarray(c), obj(a), obj(b)
        if c.dtype != object:
            c = c.astype(object)
            c = _ret(_u(lambda v: E.bconst(bool(v)))(c))
        return _ret(_t(_ite)(c, a, b))

    def do_Select(self, op, c, a, b):
        c = np.asarray(c)
        if c.ndim < np.ndim(a):
            c = c.reshape(c.shape + (1,) * (np.ndim(a) - c.ndim))
        return self.do_SelectV2(op, c, a, b)

    # ---- reductions
    def _red(self, op, a, axes, f):
        return reduce_axes(obj(a), axes, bool(op.get_attr("keep_dims")), f)

    def do_Sum(self, op, a, ax):
        return self._red(op, a, ax, _sum)

    def do_Mean(self, op, a, ax):
        return self._red(op, a, ax, lambda v: E.scale(_sum(v), Fraction(1, len(v))))

    def do_Max(self, op, a, ax):
        return self._red(op, a, ax, fold(E.max_))

    def do_Min(self, op, a, ax):
        return self._red(op, a, ax, fold(E.min_))

    def do_Prod(self, op, a, ax):
        return self._red(op, a, ax, fold(E.mul))

    def do_All(self, op, a, ax):
        return self._red(op, _ret(_u(E.as_bool)(a)), ax, lambda v: E.and_(*v))

    def do_Any(self, op, a, ax):
        return self._red(op, _ret(_u(E.as_bool)(a)), ax, lambda v: E.or_(*v))

    def do_Cumsum(self, op, a, ax):
        if op.get_attr("exclusive") or op.get_attr("reverse"):
            raise Unsupported("cumsum attrs")
        ax = int(ax)
        b = np.moveaxis(obj(a), ax, 0)
        out = np.empty(b.shape, dtype=object)
        acc = None
        for i in range(b.shape[0]):
            acc = b[i] if acc is None else _ret(_b(E.add)(acc, b[i]))
            out[i] = acc
        return np.moveaxis(out, 0, ax)

    def do_ArgMax(self, op, a, ax):
        return reduce_axes(a, ax, False, lambda v: sym_argmax(v, True))

    def do_ArgMin(self, op, a, ax):
        return reduce_axes(a, ax, False, lambda v: sym_argmax(v, False))

    # ---- linear algebra
    def do_MatMul(self, op, a, b):
        if op.get_attr("transpose_a"):
            a = a.T
        if op.get_attr("transpose_b"):
            b = b.T
        return matmul(a, b)

    def do_BatchMatMulV2(self, op, a, b):
        if op.get_attr("adj_x"):
            a = np.swapaxes(a, -1, -2)
        if op.get_attr("adj_y"):
            b = np.swapaxes(b, -1, -2)
        return matmul(a, b)

    do_BatchMatMul = do_BatchMatMulV2

    def do_MatrixSolve(self, op, a, b):
        """Cramer's rule; the divisions ask for a determinant different from zero"""
        if op.get_attr("adjoint"):
            raise Unsupported("MatrixSolve adjoint")
        a, b = obj(a), obj(b)
        n = a.shape[-1]
        if n > 5:
            raise Unsupported("MatrixSolve size")
        out = np.empty(b.shape, dtype=object)
        for idx in np.ndindex(*b.shape[:-2]):
            inv = E.inv(_det(a[idx]))
            for k in range(b.shape[-1]):
                for j in range(n):
                    m = a[idx].copy()
                    m[:, j] = b[idx][:, k]
                    out[idx + (j, k)] = E.mul(_det(m), inv)
        return out

    def do_Einsum(self, op, *xs):
        eqn = op.get_attr("equation")
        eqn = eqn.decode() if isinstance(eqn, bytes) else eqn
        lhs, rhs = eqn.split("->")
        subs = lhs.split(",")
        dims = {}
        for s, x in zip(subs, xs):
            for ch, d in zip(s, x.shape):
                dims[ch] = d
        summed = [c for c in dims if c not in rhs]
        out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
        xs = [obj(x) for x in xs]
        for idx in np.ndindex(*out.shape):
            env = dict(zip(rhs, idx))
            terms = []
            for sidx in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, sidx))
                p = E.ONE
                for s, x in zip(subs, xs):
                    p = E.mul(p, x[tuple(env[c] for c in s)])
                terms.append(p)
            out[idx] = _sum(terms)
        return out

    def do_Conv3D(self, op, x, k):
        """kernels of depth one: a 2D convolution per depth slice"""
        x, k = obj(x), obj(k)
        df, pad = (v.decode() if isinstance(v, bytes) else v for v in (op.get_attr("data_format"), op.get_attr("padding")))
        st, dil = list(op.get_attr("strides")), list(op.get_attr("dilations"))
        if df != "NDHWC" or k.shape[0] != 1 or st[1] != 1:
            raise Unsupported("Conv3D with a deep kernel")
        n, d = x.shape[:2]
        r = self._conv2d(x.reshape((n * d,) + x.shape[2:]), k[0], "NHWC", [1] + st[2:], [1] + dil[2:], pad)
        return r.reshape((n, d) + r.shape[1:])

    def do_Conv2D(self, op, x, k):
        x, k = obj(x), obj(k)
        df = op.get_attr("data_format")
        df = df.decode() if isinstance(df, bytes) else df
        strides = list(op.get_attr("strides"))
        dil = list(op.get_attr("dilations"))
        pad = op.get_attr("padding")
        pad = pad.decode() if isinstance(pad, bytes) else pad
        return self._conv2d(x, k, df, strides, dil, pad)

    def _conv2d(self, x, k, df, strides, dil, pad):
        if df == "NCHW":
            x = np.transpose(x, (0, 2, 3, 1))
            strides = [strides[0], strides[2], strides[3], strides[1]]
            dil = [dil[0], dil[2], dil[3], dil[1]]
        elif df != "NHWC":
            raise Unsupported(df)
        sh, sw = strides[1], strides[2]
        dh, dw = dil[1], dil[2]
        kh, kw, ci, co = k.shape
        n, h, w, c = x.shape
        if c % ci:
            raise Unsupported("conv groups")
        groups = c // ci
        eh, ew = (kh - 1) * dh + 1, (kw - 1) * dw + 1
        if pad == "SAME":
            oh, ow = -(-h // sh), -(-w // sw)
            ph, pw = max((oh - 1) * sh + eh - h, 0), max((ow - 1) * sw + ew - w, 0)
            pt, pl = ph // 2, pw // 2
        elif pad == "VALID":
            oh, ow = (h - eh) // sh + 1, (w - ew) // sw + 1
            pt = pl = 0
        else:
            raise Unsupported(pad)
        out = np.empty((n, oh, ow, co), dtype=object)
        cog = co // groups
        for b in range(n):
            for i in range(oh):
                for j in range(ow):
                    for o in range(co):
                        g = o // cog
                        terms = []
                        for a in range(kh):
                            r = i * sh - pt + a * dh
                            if not 0 <= r < h:
                                continue
                            for d in range(kw):
                                s = j * sw - pl + d * dw
                                if not 0 <= s < w:
                                    continue
                                for q in range(ci):
                                    kv = k[a, d, q, o]
                                    if kv is E.ZERO:
                                        continue
                                    terms.append(E.mul(kv, x[b, r, s, g * ci + q]))
                        out[b, i, j, o] = _sum(terms)
        if df == "NCHW":
            out = np.transpose(out, (0, 3, 1, 2))
        return out

    def do_MaxPool(self, op, x):
        df = op.get_attr("data_format")
        df = df.decode() if isinstance(df, bytes) else df
        pad = op.get_attr("padding")
        pad = pad.decode() if isinstance(pad, bytes) else pad
        ks, st = list(op.get_attr("ksize")), list(op.get_attr("strides"))
        if df != "NHWC":
            raise Unsupported("maxpool " + df)
        n, h, w, c = x.shape
        kh, kw, sh, sw = ks[1], ks[2], st[1], st[2]
        if pad == "SAME":
            oh, ow = -(-h // sh), -(-w // sw)
            pt = max((oh - 1) * sh + kh - h, 0) // 2
            pl = max((ow - 1) * sw + kw - w, 0) // 2
        else:
            oh, ow, pt, pl = (h - kh) // sh + 1, (w - kw) // sw + 1, 0, 0
        out = np.empty((n, oh, ow, c), dtype=object)
        for b, i, j, q in np.ndindex(*out.shape):
            vals = [
                x[b, r, s, q]
                for r in range(max(i * sh - pt, 0), min(i * sh - pt + kh, h))
                for s in range(max(j * sw - pl, 0), min(j * sw - pl + kw, w))
            ]
            out[b, i, j, q] = fold(E.max_)(vals)
        return out

    # ---- shape manipulation
    def do_Reshape(self, op, a, s):
        return a.reshape(tuple(int(v) for v in s))

    def do_ExpandDims(self, op, a, ax):
        ax = int(np.asarray(ax).reshape(-1)[0])
        return np.expand_dims(a, ax)

    def do_Squeeze(self, op, a):
        dims = op.get_attr("squeeze_dims")
        return np.squeeze(a, axis=tuple(dims) if dims else None)

    def do_Transpose(self, op, a, p):
        return np.transpose(a, [int(v) for v in p])

    def do_ConcatV2(self, op, *xs):
        ax = int(xs[-1])
        return np.concatenate([obj(x) for x in xs[:-1]], axis=ax)

    def do_Pack(self, op, *xs):
        return np.stack([obj(x) for x in xs], axis=op.get_attr("axis"))

    def do_Unpack(self, op, a):
        ax = op.get_attr("axis")
        return [np.take(a, i, axis=ax) if a.ndim > 1 else _ret(a[i]) for i in range(a.shape[ax])]

    def do_Split(self, op, ax, a):
        return list(np.split(a, op.get_attr("num_split"), axis=int(ax)))

    def do_SplitV(self, op, a, sizes, ax):
        return list(np.split(a, np.cumsum([int(s) for s in sizes])[:-1], axis=int(ax)))

    def do_Tile(self, op, a, m):
        return np.tile(a, [int(v) for v in m])

    def do_BroadcastTo(self, op, a, s):
        return np.broadcast_to(a, [int(v) for v in s]).copy()

    def do_Fill(self, op, d, v):
        out = np.empty([int(x) for x in d], dtype=object)
        out[...] = np.asarray(v).reshape(-1)[0]
        return out

    def do_ZerosLike(self, op, a):
        return np.zeros(a.shape, dtype=np.float32)

    def do_OnesLike(self, op, a):
        return np.ones(a.shape, dtype=np.float32)

    def do_StridedSlice(self, op, a, begin, end, strides):
        bm, em = op.get_attr("begin_mask"), op.get_attr("end_mask")
        el, nm, sm = op.get_attr("ellipsis_mask"), op.get_attr("new_axis_mask"), op.get_attr("shrink_axis_mask")
        idx = []
        for i in range(len(begin)):
            if el >> i & 1:
                idx.append(Ellipsis)
            elif nm >> i & 1:
                idx.append(None)
            elif sm >> i & 1:
                idx.append(int(begin[i]))
            else:
                idx.append(
                    slice(
                        None if bm >> i & 1 else int(begin[i]),
                        None if em >> i & 1 else int(end[i]),
                        int(strides[i]),
                    )
                )
        return _ret(a[tuple(idx)])

    def do_Slice(self, op, a, begin, size):
        idx = tuple(
            slice(int(b), None if int(s) == -1 else int(b) + int(s)) for b, s in zip(begin, size)
        )
        return a[idx]

    def do_GatherV2(self, op, a, ind, ax):
        ax = int(ax)
        if op.get_attr("batch_dims"):
            raise Unsupported("gather batch dims")
        if not is_sym(ind):
            r = np.take(a, np.asarray(ind, dtype=int), axis=ax)
            return _ret(r)
        # symbolic index: selection by indicators
        a = obj(a)
        ind = np.asarray(ind)
        n = a.shape[ax]
        am = np.moveaxis(a, ax, 0)
        out = np.empty(ind.shape + am.shape[1:], dtype=object)
        for ii in np.ndindex(*ind.shape):
            for rest in np.ndindex(*am.shape[1:]):
                acc = E.ZERO
                for k in range(n):
                    acc = acc + E.ind(E.eq(ind[ii], E.const(k))) * am[(k,) + rest]
                out[ii + rest] = acc
        out = np.moveaxis(
            out.reshape(ind.shape + am.shape[1:]),
            list(range(ind.ndim)),
            list(range(ax, ax + ind.ndim)),
        )
        return out

    def do_Pad(self, op, a, p):
        return np.pad(a, [(int(x), int(y)) for x, y in p], constant_values=E.ZERO)

    def do_PadV2(self, op, a, p, v):
        return np.pad(a, [(int(x), int(y)) for x, y in p], constant_values=E.as_expr(np.asarray(v).item()))

    def do_SpaceToBatchND(self, op, a, bs, pads):
        bs = [int(v) for v in bs]
        M = len(bs)
        p = [(0, 0)] + [(int(x), int(y)) for x, y in pads] + [(0, 0)] * (a.ndim - M - 1)
        a = np.pad(a, p, constant_values=E.ZERO)
        sh = [a.shape[0]]
        for i in range(M):
            sh += [a.shape[1 + i] // bs[i], bs[i]]
        rest = list(a.shape[1 + M :])
        b = a.reshape(sh + rest)
        perm = [2 * i + 2 for i in range(M)] + [0] + [2 * i + 1 for i in range(M)]
        perm += list(range(2 * M + 1, b.ndim))
        b = np.transpose(b, perm)
        return b.reshape([-1] + [a.shape[1 + i] // bs[i] for i in range(M)] + rest)

    def do_BatchToSpaceND(self, op, a, bs, crops):
        bs = [int(v) for v in bs]
        M = len(bs)
        n = a.shape[0] // int(np.prod(bs))
        rest = list(a.shape[1 + M :])
        b = a.reshape(bs + [n] + list(a.shape[1:]))
        perm = [M]
        for i in range(M):
            perm += [M + 1 + i, i]
        perm += list(range(2 * M + 1, b.ndim))
        b = np.transpose(b, perm).reshape([n] + [a.shape[1 + i] * bs[i] for i in range(M)] + rest)
        idx = [slice(None)] + [slice(int(x), b.shape[1 + i] - int(y)) for i, (x, y) in enumerate(crops)]
        return b[tuple(idx)]

    def do_ReverseV2(self, op, a, ax):
        for x in np.atleast_1d(ax):
            a = np.flip(a, int(x))
        return a

    def do_MatrixDiagV3(self, op, d, k, nr, nc, pv):
        if int(np.atleast_1d(k)[0]) != 0 or int(nr) != -1 or int(nc) != -1:
            raise Unsupported("MatrixDiagV3 args")
        d = obj(d)
        n = d.shape[-1]
        out = np.empty(d.shape + (n,), dtype=object)
        out[...] = E.ZERO
        for i in range(n):
            out[..., i, i] = d[..., i]
        return out

    def do_MatrixDiag(self, op, d):
        d = obj(d)
        n = d.shape[-1]
        out = np.empty(d.shape + (n,), dtype=object)
        out[...] = E.ZERO
        for i in range(n):
            out[..., i, i] = d[..., i]
        return out

    def do_MatrixSetDiagV3(self, op, a, d, k):
        a = obj(a).copy()
        d = obj(d)
        k = int(np.atleast_1d(k)[0])
        if k != 0:
            raise Unsupported("MatrixSetDiag k")
        for i in range(min(a.shape[-2:])):
            a[..., i, i] = d[..., i]
        return a

    def do_OneHot(self, op, ind, depth, on, off):
        ind = obj(ind)
        n, on, off = int(depth), obj(on).item(), obj(off).item()
        eq = [_ret(_u(lambda v, k=k: _ite(E.eq(v, E.as_expr(k)), on, off))(ind)) for k in range(n)]
        ax = op.get_attr("axis")
        return np.stack(eq, axis=ind.ndim if ax == -1 else ax)

    def do_TopKV2(self, op, a, k):
        """descending sort by a compare-exchange network (values only)"""
        k = int(k)
        a = obj(a)
        out = np.empty(a.shape[:-1] + (k,), dtype=object)
        for idx in np.ndindex(*a.shape[:-1]):
            v = list(a[idx])
            n = len(v)
            for i in range(n):
                for j in range(n - 1 - i):
                    hi, lo = E.max_(v[j], v[j + 1]), E.min_(v[j], v[j + 1])
                    v[j], v[j + 1] = hi, lo
            for i in range(k):
                out[idx + (i,)] = v[i]
        return [out, None]

    def do_Softmax_(self, op, a):
        raise Unsupported("softmax")

    # ---- tensor lists (keras rnn)
    def do_TensorListReserve(self, op, shape, n):
        return [("TL", [None] * int(n))]

    def do_TensorListFromTensor(self, op, a, shape):
        return [("TL", [_ret(a[i]) for i in range(a.shape[0])])]

    def do_TensorListGetItem(self, op, l, i, shape):
        return _ret(l[1][int(i)])

    def do_TensorListSetItem(self, op, l, i, v):
        n = list(l[1])
        while len(n) <= int(i):
            n.append(None)
        n[int(i)] = v
        return [("TL", n)]

    def do_TensorListStack(self, op, l, shape):
        items = l[1]
        if any(is_sym(x) for x in items):
            return np.stack([obj(x) for x in items], axis=0)
        return np.stack([np.asarray(x) for x in items], axis=0)

    def do_TensorListLength(self, op, l):
        return np.array(len(l[1]), dtype=np.int32)
