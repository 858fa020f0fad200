from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "inference mode (dropout, batch normalisation)",
    "channels_first convolutions: the reference is the same kernel applied to the input moved to channels_last",
])
SP = {"moving_variance": (0.125, 4), "gamma": (-2, 2)}
CONV = [
    # (input shape, filters, kernel, kwargs)
    ((3, 3, 1), 1, (2, 2), {}),
    ((3, 3, 1), 1, (2, 2), dict(padding="same")),
    ((3, 4, 1), 2, (2, 2), dict(strides=(2, 2), padding="same")),
    ((4, 3, 1), 1, (2, 2), dict(strides=(2, 1))),
    ((3, 4, 2), 2, (2, 2), {}),
    ((2, 3, 2), 3, (1, 1), {}),
    ((3, 3, 1), 1, (2, 2), dict(dilation_rate=(2, 2))),
    ((4, 3, 1), 2, (2, 2), dict(dilation_rate=(2, 1))),
    ((4, 3, 1), 1, (2, 2), dict(dilation_rate=(2, 1), padding="same")),
    ((3, 3, 1), 2, (2, 2), dict(use_bias=False)),
    ((4, 4, 1), 1, (3, 3), dict(padding="same")),
    ((4, 4, 2), 1, (3, 3), dict()),
]
CONV_X = [  # configurations that may be refused
    ((3, 2, 2), 2, (2, 1), {}),
    ((2, 3, 2), 2, (1, 2), dict(padding="same")),
    ((4, 3, 1), 1, (3, 1), dict(padding="same")),
    ((2, 2, 2), 2, (2, 1), dict(groups=2)),
    ((3, 3, 2), 2, (2, 2), dict(groups=2)),
    ((2, 2, 4), 2, (1, 1), dict(groups=2)),
]
CONV_CF = [
    ((1, 3, 3), 1, (2, 2), {}),
    ((1, 3, 4), 2, (2, 2), {}),
    ((2, 3, 2), 1, (2, 2), {}),
    ((2, 3, 4), 2, (2, 2), dict(strides=(1, 2))),
    ((2, 3, 3), 2, (2, 2), dict(padding="same")),
    ((2, 3, 3), 1, (2, 2), dict(dilation_rate=(2, 2))),
    ((1, 3, 3), 1, (2, 2), dict(use_bias=False)),
]


def conv_cf(mode, ish, f, k, kw, key):
    """the reference runs the same kernel in channels_last"""
    import keras

    K = L
    c = K.bwd(lambda: K.KL.Conv2D(f, k, data_format="channels_first", **kw), ish, mode, key=key, decomon=False, validate=True)
    layer = c.layer
    st = {"strides": layer.strides, "padding": layer.padding, "dilation_rate": layer.dilation_rate}

    def ref(y):
        z = keras.ops.conv(keras.ops.transpose(y, (0, 2, 3, 1)), layer.kernel, strides=st["strides"], padding=st["padding"],
                           dilation_rate=st["dilation_rate"], data_format="channels_last")
        if layer.use_bias:
            z = z + layer.bias
        return keras.ops.transpose(z, (0, 3, 1, 2))

    c.ref = ref
    return c


def cases():
    def mk(name, ysh, layer, mode, decomon=False, weights="sym", **kw):
        tag = f"{name} {mode} {ysh}" + (" decomon layer" if decomon else "")
        return tag, dict(budget=90), lambda: L.bwd(layer, ysh, mode, decomon=decomon, weights=weights, key=(tag,), special=SP, **kw)

    from props.C06 import layers as simple

    for mode in ("ibp", "affine", "hybrid"):
        for dec in (False, True):
            yield mk("dense", (2,), lambda: L.KL.Dense(2), mode, dec)
            yield mk("dense nobias", (3,), lambda: L.KL.Dense(1, use_bias=False), mode, dec)
            yield mk("dense", (2, 2), lambda: L.KL.Dense(3), mode, dec)
            yield mk("dense", (2, 1, 2), lambda: L.KL.Dense(2), mode, dec)
            for name, ysh, layer in simple():
                if not name.startswith("linear"):
                    yield mk(name, ysh, layer, mode, dec, weights="conc")
            yield mk("bn symbolic", (1,), lambda: L.KL.BatchNormalization(), mode, dec)
            yield mk("linear", (2, 2), lambda: L.KL.Activation("linear"), mode, dec)
            for c in CONV:
                yield mk(f"conv f{c[1]} k{c[2]} {sorted(c[3].items())}", c[0], lambda c=c: L.KL.Conv2D(c[1], c[2], **c[3]), mode, dec)
            for c in CONV_X:
                t = mk(f"conv f{c[1]} k{c[2]} {sorted(c[3].items())}", c[0], lambda c=c: L.KL.Conv2D(c[1], c[2], **c[3]), mode, dec)
                yield t[0], t[1], lambda t=t: L.or_refused(t[2], t[0])
        for c in CONV_CF:
            tag = f"conv channels_first f{c[1]} k{c[2]} {sorted(c[3].items())} {mode} {c[0]}"
            yield tag, dict(budget=90), lambda c=c, mode=mode, tag=tag: conv_cf(mode, *c, key=(tag,))
