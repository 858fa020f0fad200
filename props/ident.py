"""Elementary helpers against the operation they name (loaded in worker processes only)."""
import keras
import numpy as np
from keras import layers as KL
from keras import ops as K

from symx import expr as E
from symx import tfx
from symx.core import Case

from . import lib


def _eq(label, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return lib.bad(f"{label}: shape {a.shape} instead of {b.shape}")(a.dtype == object or b.dtype == object)
    return [(label + " +", a - b), (label + " -", b - a)]


def batched(name, shape, **kw):
    """BatchedIdentityLike / BatchedDiagLike: zero off the diagonal, one / the entry on it"""
    from decomon import keras_utils

    op = getattr(keras_utils, name)()
    a = tfx.symvar("a", shape, -4, 4)

    def viol(outs, refs, ex):
        want = np.zeros(shape + shape[-1:], dtype=object if ex["a"].dtype == object else float)
        if want.dtype == object:
            want = tfx.obj(np.zeros(want.shape))
        for idx in np.ndindex(*shape):
            want[idx + idx[-1:]] = ex["a"][idx] if name == "BatchedDiagLike" else (E.as_expr(1) if want.dtype == object else 1.0)
        return _eq(name, outs[0], want)

    return Case("", lambda x: op(x), [a], viol, extras=dict(a=a), bounds=f"{name} of any tensor of shape {shape}", **kw)


def identity_lirpa(shape, **kw):
    from decomon.backward_layers.utils import get_identity_lirpa, get_identity_lirpa_shapes

    a = tfx.symvar("a", shape, -4, 4)
    n = int(np.prod(shape[1:]))

    def viol(outs, refs, ex):
        sym = outs[0].dtype == object
        one = np.broadcast_to(np.eye(n), (shape[0], n, n))
        zero = np.zeros((shape[0], n))
        r = []
        for k, want in enumerate((one, zero, one, zero)):
            r += _eq(f"output {k}", outs[k], tfx.const_arr(want) if sym else want)
        shapes = get_identity_lirpa_shapes([(None,) + shape[1:]])
        if [tuple(s[1:]) for s in shapes] != [o.shape[1:] for o in outs]:
            r += lib.bad(f"get_identity_lirpa_shapes gives {shapes}")(sym)
        return r

    return Case("", lambda x: get_identity_lirpa([x]), [a], viol, extras=dict(a=a), bounds=f"identity on a tensor of shape {shape}", **kw)


def _conv(make, shape, key, conc_kernel):
    layer = make()
    x = keras.Input(shape)
    layer(x)
    from decomon.layers.convert import to_decomon  # noqa: F401  (conversion must not change the layer)

    return layer


def toeplitz(make, shape, flatten=True, key=(), symbolic="kernel", **kw):
    """conv(y) = W y + bias, for every kernel (concrete input) or for every input (concrete kernel)"""
    from decomon.backward_layers.utils_conv import get_toeplitz

    layer = _conv(make, shape, key, None)
    if symbolic == "kernel":
        variables = [(layer.kernel, tfx.symvar("k", tuple(layer.kernel.shape), -2, 2))]
        y = tfx.const_arr(lib.dyadic((1,) + shape, "toeplitz", *key))
    else:
        layer.kernel.assign(lib.dyadic(tuple(layer.kernel.shape), "toeplitz k", *key))
        variables, y = [], tfx.symvar("y", (1,) + shape, -2, 2)
    if layer.use_bias:
        layer.bias.assign(np.zeros(layer.bias.shape, "float32"))
    n_in = int(np.prod(shape))
    cl = layer.data_format == "channels_last"
    out = tuple(layer.output.shape[1:])

    def viol(outs, refs, ex):
        w, z = outs[0], refs[0][0]
        yy = ex["y"][0]
        if not cl:  # the rows and columns follow the layout of the layer only once flattened
            pass
        if flatten:
            want = (n_in, int(np.prod(out)))
        elif cl:
            want = shape + out
        else:
            want = None
        if want is not None and tuple(w.shape) != want:
            return lib.bad(f"shape {w.shape} instead of {want}")(w.dtype == object)
        w = w.reshape((n_in, -1))
        got = (w * yy.reshape(-1)[:, None]).sum(0)
        return _eq("convolution", got, z.reshape(-1))

    return Case("", lambda: get_toeplitz(layer, flatten), [], viol, ref=lambda v: layer(v), rargs=[y], extras=dict(y=y), variables=variables,
                bounds=f"affine form of a convolution, input {shape}, {'every kernel' if symbolic == 'kernel' else 'every input'}", **kw)


def prime(name, axioms=None, **kw):
    """derivatives: compared with their expression through the function itself"""
    from decomon import utils as U

    a = tfx.symvar("a", (3,), -6, 6)
    f = getattr(U, name)

    def ref(x):
        if name == "sigmoid_prime":
            s = K.sigmoid(x)
            return s - s * s
        if name == "tanh_prime":
            s = K.tanh(x)
            return (1 - s) * (1 + s)
        if name == "softsign_prime":
            s = 1 / (1 + K.abs(x))
            return s * s
        return K.where(x > 0, 1.0, 0.0)

    return Case("", lambda x: f(x), [a], lambda o, r, ex: _eq(name, o[0], r[0]), ref=ref, rargs=[a], axioms=axioms,
                bounds=f"{name} on [-6,6]", **kw)


def hull_max(which, shape, axis, mode="ibp", conc=None, ties=(), collapsed=(), **kw):
    """get_{upper,lower}_linear_hull_max: an affine function of the inputs above (below) their maximum"""
    from decomon.layers import utils_pooling

    f = getattr(utils_pooling, f"get_{which}_linear_hull_max")
    full = (1,) + shape
    if conc is None:
        l = tfx.symvar("l", full, -2, 2)
        r = tfx.symvar("r", full, 0.125, 2)
        for i in collapsed:
            r.reshape(-1)[i] = E.ZERO
        u = l + r
    else:
        lo = lib.dyadic(full, "hull", conc, lo=-2, hi=1)
        hi = lo + np.abs(lib.dyadic(full, "hull gap", conc, lo=0.25, hi=2))
        for i in collapsed:
            hi.reshape(-1)[i] = lo.reshape(-1)[i]
        for i, j in ties:
            hi.reshape(-1)[i] = hi.reshape(-1)[j] = max(hi.reshape(-1)[i], hi.reshape(-1)[j])
        l, u = tfx.const_arr(lo), tfx.const_arr(hi)
    t = tfx.symvar("t", full, 0, 1)
    y = l + t * (u - l)
    n_dim = shape[axis - 1 if axis > 0 else axis]

    def viol(outs, refs, ex):
        w, b = outs
        z = refs[0]
        if w.shape != full or b.shape != z.shape:
            return lib.bad(f"shapes {w.shape}, {b.shape}")(w.dtype == object)
        v = (w * ex["y"]).sum(axis) + b
        return [(which, z - v if which == "upper" else v - z)]

    return Case("", lambda a, c: f([a, c], mode=mode, axis=axis), [u, l], viol, ref=lambda v: K.max(v, axis=axis), rargs=[y],
                extras=dict(y=y), bounds=f"maximum along axis {axis} of {shape}, "
                + ("every valid interval" if conc is None else "a fixed interval, every point of it"), **kw)


def back_scalar(kind, factor=None, **kw):
    """backward_minus / backward_scale: the bounds composed with -y / factor*y"""
    from decomon.backward_layers import utils as U

    n, m = 2, 2
    wu, wl = tfx.symvar("wu", (1, n, m), -2, 2), tfx.symvar("wl", (1, n, m), -2, 2)
    bu, bl = tfx.symvar("bu", (1, m), -2, 2), tfx.symvar("bl", (1, m), -2, 2)
    y = tfx.symvar("y", (1, n), -2, 2)
    c = -1 if kind == "minus" else factor

    def viol(outs, refs, ex):
        def lin(w, b, v):
            return (w[0] * v[0][:, None]).sum(0) + b[0]

        z = ex["y"] * c
        return _eq("upper", lin(outs[0], outs[1], ex["y"]), lin(ex["wu"], ex["bu"], z)) + _eq(
            "lower", lin(outs[2], outs[3], ex["y"]), lin(ex["wl"], ex["bl"], z))

    f = (lambda *a: U.backward_minus(*a)) if kind == "minus" else (lambda *a: U.backward_scale(factor, *a))
    return Case("", f, [wu, bu, wl, bl], viol, extras=dict(y=y, wu=wu, wl=wl, bu=bu, bl=bl),
                bounds=f"{kind} {factor if factor is not None else ''}: all incoming affine functions of {n} values", **kw)
