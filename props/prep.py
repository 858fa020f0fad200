"""Networks before and after preprocessing / conversion (C17), and bounds with shared weights (C25)."""
import keras
import numpy as np
from keras import layers as KL

from symx import tfx
from symx.core import Case

from . import lib
from .nets import NETS, _fun, _seq

ONE = lambda a: np.ones(1) if a.dtype != object else tfx.const_arr([1.0])


def same_outputs(outs, refs, ex):
    if len(outs) != len(refs):
        return [(f"{len(outs)} outputs instead of {len(refs)}", ONE(outs[0]))]
    r = []
    for i, (a, b) in enumerate(zip(outs, refs)):
        if a.shape != b.shape:
            return [(f"shape of output {i}: {a.shape} instead of {b.shape}", ONE(a))]
        r += [(f"output {i} +", a - b), (f"output {i} -", b - a)]
    return r


def sym_all(model, tag="w", lo=-2, hi=2):
    """every weight of the model symbolic (variances concrete: their square root is not polynomial)"""
    vs = []
    for i, v in enumerate(model.weights):
        if "variance" in v.path:
            v.assign(lib.dyadic(tuple(v.shape), tag, i, lo=0.5, hi=2).astype("float32"))
        else:
            vs.append((v, tfx.symvar(f"{tag}{i}", tuple(v.shape), lo, hi)))
    return vs


def prep_case(make, n_in, how, **kw):
    from decomon.models.convert import preprocess_keras_model, split_activations_in_keras_model

    m = make()
    vs = sym_all(m)
    f = dict(preprocess=preprocess_keras_model, split=split_activations_in_keras_model)[how]
    p = f(m)
    x = tfx.symvar("x", (1, n_in), -4, 4)
    return Case("", lambda a: p(a), [x], same_outputs, ref=lambda a: m(a), rargs=[x], variables=vs,
                bounds="every input in [-4,4], every weight in [-2,2] (shared with the original)", **kw)


def clone_unchanged(make, n_in, method, **kw):
    """the original network after clone() computes what an untouched copy computes with the same weights"""
    from decomon.models import clone

    m, m0 = make(), make()
    vs = sym_all(m)
    for i, v in enumerate(m.weights):
        if "variance" in v.path:
            m0.weights[i].assign(v.numpy())
    by = {id(v): a for v, a in vs}
    vs0 = [(m0.weights[i], by[id(v)]) for i, v in enumerate(m.weights) if id(v) in by]
    try:
        clone(m, method=method)
        note = ""
    except Exception as e:
        note = f"; the conversion is refused ({type(e).__name__})"
    x = tfx.symvar("x", (1, n_in), -4, 4)
    return Case("", lambda a: m(a), [x], same_outputs, ref=lambda a: m0(a), rargs=[x], variables=vs + vs0,
                bounds="every input in [-4,4], every weight in [-2,2]; network after conversion against the same network never converted"
                + note, **kw)


# ---------------------------------------------------------------- bounds follow the weights
def _values(weights, *key):
    """distinct values for every scalar of every weight"""
    import hashlib

    r = np.random.RandomState(int(hashlib.sha256(repr(key).encode()).hexdigest()[:8], 16))
    out, n = [], sum(int(np.prod(v.shape)) for v in weights)
    pool = list((r.permutation(2 * n) - n + 0.5) * 2.0 / n)
    for v in weights:
        k = int(np.prod(v.shape))
        a = np.round(np.array([pool.pop() for _ in range(k)]).reshape(tuple(v.shape)) * 1024) / 1024
        out.append(np.abs(a) + 0.5 if "variance" in v.path else a)
    return out


def _assign(weights, vals):
    for v, a in zip(weights, vals):
        v.assign(a.astype("float32"))


def _follow(weights, weights0, impl, mkref, args, shared, sym, key, bounds):
    """impl: converted from a network of weights `weights` holding old values. mkref(): conversion of a copy of weights
    `weights0`. shared: once the weights take new values, both agree; otherwise impl stays as it was"""
    old, new = _values(weights, "old", *key), _values(weights, "new", *key)
    _assign(weights0, new if shared else old)
    ref = mkref()
    vals = [tfx.symvar(f"wt{i}", tuple(v.shape), -2, 2) if i in sym and "variance" not in v.path else tfx.const_arr(a)
            for i, (v, a) in enumerate(zip(weights, new))]
    variables = list(zip(weights, vals))
    if shared:
        variables += list(zip(weights0, vals))
        for v in tfx.trace(ref, [a.shape for a in args]).cf.variables:
            i = [i for i, a in enumerate(new) if tuple(a.shape) == tuple(v.shape) and np.allclose(a, v.numpy(), atol=1e-6)]
            if i and not any(w.value.handle is v.handle for w in weights0):
                variables.append((v, vals[i[0]]))
    changed = any(not np.allclose(v.numpy(), a, atol=1e-6) for v, a in zip(weights, old))

    def viol(outs, refs, ex):
        r = same_outputs(outs, refs, ex)
        return r + ([("weights of the original changed by the conversion", ONE(outs[0]))] if changed else [])

    return Case("", impl, args, viol, ref=ref, rargs=args, variables=variables, bounds=bounds, defined=False)


def follow(make, n_in, method, shared, k, key=()):
    from decomon.models import clone

    m, m0 = make(), make()
    _assign(m.weights, _values(m.weights, "old", *key))
    cm = clone(m, method=method, shared=shared)

    def mkref():
        return clone(m0, method=method)

    n = len(m.weights)
    x, xs, assume, nl, note = lib.domain_point("box", n_in, 1, 2, 1 + k if shared else None, 0.5)
    c = _follow(m.weights, m0.weights, lambda a: cm(a), lambda: (lambda r: lambda a: r(a))(mkref()), [x], shared,
                () if not n else ((k * (n // 2)) % n,) if shared else range(n), key,
                f"{method}, {note}, weights {'shared' if shared else 'copied at the conversion'}; updated after the conversion")
    c.assume, c.nl = assume, nl
    return c


LAYERS = {
    "Dense": ((2,), lambda: KL.Dense(2)), "Dense no bias": ((2,), lambda: KL.Dense(2, use_bias=False)),
    "Conv2D": ((2, 2, 1), lambda: KL.Conv2D(2, 2)), "Conv2D no bias": ((2, 2, 1), lambda: KL.Conv2D(2, 2, use_bias=False)),
    "BatchNormalization": ((2,), lambda: KL.BatchNormalization()),
    "BatchNormalization no scale": ((2,), lambda: KL.BatchNormalization(scale=False)),
    "BatchNormalization no center": ((2,), lambda: KL.BatchNormalization(center=False)),
}


def follow_layer(kind, mode, shared, dirn, key=()):
    from decomon.backward_layers.convert import to_backward
    from decomon.core import get_affine, get_ibp
    from decomon.layers.convert import to_decomon

    yshape, mk = LAYERS[kind]
    layer, layer0 = lib.built(mk(), yshape), lib.built(mk(), yshape)
    _assign(layer.weights, _values(layer.weights, "old", *key))
    st = lib.State(mode, 1, yshape)

    def conv(la, sh):
        t = la
        if dirn != "backward":
            t = to_decomon(la, input_dim=1, ibp=get_ibp(mode), affine=get_affine(mode), shared=sh)
        if dirn != "forward":
            t = to_backward(t, mode=mode)
        return lambda *a: t(list(a))

    return _follow(layer.weights, layer0.weights, conv(layer, shared), lambda: conv(layer0, True), st.args, shared,
                   range(len(layer.weights)), key, f"{kind}, {mode}, {dirn}, weights {'shared' if shared else 'copied'}")


def softmax_case(heads, how, method, n_in=2, conc=1, **kw):
    """clone() of a network whose last layer is a softmax encloses the network without the softmax"""
    from decomon.models import clone

    def body(x, soft):
        h = KL.Dense(2, activation="relu")(x)
        o = []
        for k in range(heads):
            act = soft if k == heads - 1 else None
            if act == "dense":
                o.append(KL.Dense(2, activation="softmax")(h))
            else:
                d = KL.Dense(2)(h)
                last = {"activation": KL.Activation("softmax"), "layer": KL.Softmax(), "linear": KL.Activation("linear")}
                o.append(d if act is None else last[act](d))
        return o if heads > 1 else o[0]

    m, m0 = _fun(n_in, lambda x: body(x, how)), _fun(n_in, lambda x: body(x, None if how == "dense" else "linear"))
    key = (heads, how)
    lib.set_conc(m, *key)
    m0.set_weights(m.get_weights())
    cm = clone(m, method=method)
    mode = lib.model_mode(cm)
    x, xs, assume, nl, note = lib.domain_point("box", n_in, conc=conc)
    return Case("", lambda a: cm(a), [x], lib.multi_enclosure(mode, method.startswith("crown")), ref=lambda a: m0(a), rargs=[xs[None]],
                extras=dict(xs=xs, x=x) if mode != "ibp" else {}, assume=assume, nl=nl, bounds=f"{method}, {note}, softmax given as {how}", **kw)


# ---- networks with activations inside layers
def _n(name, n_in, f):
    def make():
        return f()

    make.__name__ = name
    EXTRA[name] = (n_in, make)


EXTRA = {}
for act in ("relu", "leaky_relu", "tanh", "sigmoid", "softplus", "softsign", "exponential", "relu6"):
    _n(f"dense {act}", 2, lambda act=act: _seq(2, KL.Dense(2, activation=act), KL.Dense(1)))
    if act in ("relu", "tanh"):
        _n(f"conv {act}", 4, lambda act=act: _seq(4, KL.Reshape((2, 2, 1)), KL.Conv2D(2, 2, activation=act), KL.Flatten()))
for bias in (True, False):
    b = "" if bias else " no bias"
    _n("layer ReLU" + b, 2, lambda bias=bias: _seq(2, KL.Dense(2, activation=KL.ReLU(), use_bias=bias), KL.Dense(1)))
    _n("layer LeakyReLU" + b, 2, lambda bias=bias: _seq(2, KL.Dense(2, activation=KL.LeakyReLU(negative_slope=0.25), use_bias=bias), KL.Dense(1)))
    _n("layer PReLU" + b, 2, lambda bias=bias: _seq(2, KL.Dense(2, activation=KL.PReLU(), use_bias=bias), KL.Dense(1)))
    _n("layer Activation" + b, 2, lambda bias=bias: _seq(2, KL.Dense(2, activation=KL.Activation("relu"), use_bias=bias), KL.Dense(1)))
    _n("first and last" + b, 2, lambda bias=bias: _seq(2, KL.Activation("relu"), KL.Dense(3, use_bias=bias, activation="relu"),
                                                       KL.Dense(2, activation="relu", use_bias=bias)))
    _n("conv same" + b, 4, lambda bias=bias: _seq(4, KL.Reshape((2, 2, 1)), KL.Conv2D(
        2, 2, padding="same", strides=(2, 1), activation="relu", use_bias=bias), KL.Flatten(), KL.Dense(1, activation="relu")))
    _n("dense matrix" + b, 4, lambda bias=bias: _seq(4, KL.Reshape((2, 2)), KL.Dense(3, activation="relu", use_bias=bias), KL.Flatten()))


def _two_uses():
    d = KL.Dense(2, activation="relu")
    i = keras.Input((2,))
    a = d(i)
    b = d(KL.Dense(2)(a))
    return keras.Model(i, [b, a, KL.Dense(1, activation="relu")(b)])


def _same_act():
    r = KL.ReLU()
    i = keras.Input((2,))
    return keras.Model(i, KL.Dense(1)(KL.Dense(2, activation=r)(KL.Dense(2, activation=r)(i))))


def _order():
    i = keras.Input((2,))
    a = KL.Dense(1, activation="relu")(i)
    b = KL.Dense(2, activation="relu")(KL.Dense(2, activation="relu")(i))
    c = KL.Subtract()([b, i])
    return keras.Model(i, [c, a, b])


def _nested_deep():
    i = keras.Input((2,))
    j = keras.Input((2,))
    inner = keras.Model(j, KL.Dense(2, activation="relu")(j))
    k = keras.Input((2,))
    mid = keras.Model(k, KL.Add()([inner(k), KL.Dense(2, activation="relu")(k)]))
    return keras.Model(i, KL.Dense(1, activation="relu")(mid(KL.Dense(2)(i))))


def _nested_two_outputs():
    j = keras.Input((2,))
    h = KL.Dense(2, activation="relu")(j)
    inner = keras.Model(j, [KL.Dense(2, activation="relu")(h), h])
    i = keras.Input((2,))
    a, b = inner(i)
    return keras.Model(i, [KL.Subtract()([a, b]), b])


def _nested_two_inputs(merge):
    a, b = keras.Input((2,)), keras.Input((2,))
    inner = keras.Model([a, b], merge()([KL.Dense(2, activation="relu")(a), b]))
    i = keras.Input((2,))
    return keras.Model(i, KL.Dense(1)(inner([KL.Dense(2)(i), i])))


def _nested_in_and_out():
    a, b = keras.Input((2,)), keras.Input((2,))
    inner = keras.Model([a, b], [KL.Subtract()([a, b]), KL.Dense(2, activation="relu")(b)])
    i = keras.Input((2,))
    h = KL.Dense(2)(i)
    p, q = inner([i, h])
    r, s = inner([q, p])
    return keras.Model(i, [s, KL.Subtract()([r, q])])


def _model_of_model():
    sub = _seq(2, KL.Dense(2, activation="relu"), KL.Dense(2))
    return _seq(2, sub, KL.Activation("relu"), sub)


_n("nested two inputs add", 2, lambda: _nested_two_inputs(KL.Add))
_n("nested two inputs subtract", 2, lambda: _nested_two_inputs(KL.Subtract))
_n("nested in and out", 2, _nested_in_and_out)
_n("nested twice sequential", 2, _model_of_model)
_n("layer used twice", 2, _two_uses)
_n("activation layer used twice", 2, _same_act)
_n("output order", 2, _order)
_n("nested deep", 2, _nested_deep)
_n("nested two outputs", 2, _nested_two_outputs)


def _frozen():
    return _seq(2, KL.Dense(2, activation="relu", trainable=False), KL.Dense(2, activation="relu"))


def _frozen_later():
    m = _seq(4, KL.Reshape((2, 2, 1)), KL.Conv2D(2, 2, activation="relu"), KL.Flatten(), KL.Dense(2, activation="relu"))
    m.trainable = False
    return m


def _frozen_bn():
    return _seq(2, KL.Dense(2), KL.BatchNormalization(trainable=False), KL.Activation("relu"), KL.Dense(1, trainable=False))


def _lora(how, activation="relu"):
    d = KL.Dense(2, activation=activation, **({"lora_rank": 1} if how == "rank" else {}))
    m = _seq(2, d, KL.Dense(1))
    if how == "enable":
        d.enable_lora(1)
    return m


_n("frozen layer", 2, _frozen)
_n("frozen model", 4, _frozen_later)
_n("frozen batchnorm", 2, _frozen_bn)
_n("lora rank", 2, lambda: _lora("rank"))
_n("lora enabled", 2, lambda: _lora("enable"))
_n("lora linear", 2, lambda: _lora("enable", None))
ALL = {**NETS, **EXTRA}
