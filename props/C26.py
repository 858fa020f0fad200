from props.lazy import Lazy

T = Lazy("props.tight")
P = Lazy("props.prep")
L = Lazy("props.lib")
K = Lazy("keras.layers")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "networks with concrete weights; every point, every box up to the stated size, every valid interval",
    "exp, sigmoid, tanh, softplus enter as the same uninterpreted values on both sides",
])
METHODS = ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
NETS = ("relu", "relu layers", "first relu", "last relu", "linear", "conv", "batchnorm", "reshape permute", "dense on matrix", "maxpool",
        "conv output", "permute 3", "add_skip", "minmax", "nested", "two_heads", "multiply", "dot")
LINEAR = ("linear", "linear conv", "linear add", "linear batchnorm", "linear permute", "linear two heads", "linear average")


def cases():
    for name in NETS:
        for method in METHODS:
            for slope in SLOPES if name in ("relu", "first relu") else SLOPES[:1]:
                tag = f"point {name} {method} {slope}"
                hard = name == "batchnorm" and method == "crown-forward-hybrid"
                yield tag, dict(budget=400, tier="thorough") if hard else dict(budget=60), (lambda name=name, method=method, slope=slope, tag=tag: L.or_refused(
                    lambda: T.at_point(*P.ALL[name][::-1], method, slope, key=(tag,)), tag))
    for name in LINEAR:
        for method in METHODS:
            for dom in ("box", "linf"):
                if method == "forward-ibp":
                    continue
                tag = f"affine network {name} {method} {dom}"
                yield tag, dict(budget=60), (lambda name=name, method=method, dom=dom, tag=tag: L.or_refused(
                    lambda: T.affine_network(*T.LINEAR[name][::-1], method, key=(tag,), domain=dom), tag))
    for name in ("relu", "relu layers", "conv", "last relu", "maxpool", "add_skip", "subtract_relu", "minmax", "average_concat", "dense on matrix"):
        for k in range(2):
            tag = f"hybrid within ibp {name} {k}"
            yield tag, dict(budget=120), (lambda name=name, k=k, tag=tag: T.not_looser(
                *P.ALL[name][::-1], "forward-hybrid", "forward-ibp", key=(tag,), conc=k))
    lin = {
        "Dense": ((3,), lambda: K.Dense(2)), "Dense matrix": ((2, 2), lambda: K.Dense(2)), "Conv2D": ((3, 3, 1), lambda: K.Conv2D(2, 2)),
        "Conv2D same": ((2, 3, 2), lambda: K.Conv2D(1, 2, padding="same", strides=(1, 2))),
        "BatchNormalization": ((2, 2), lambda: K.BatchNormalization()), "Flatten": ((2, 2), lambda: K.Flatten()),
        "AveragePooling2D": ((2, 2, 1), lambda: K.AveragePooling2D((2, 2))), "Permute": ((2, 3), lambda: K.Permute((2, 1))),
        "Conv2D channels_first": ((1, 3, 3), lambda: K.Conv2D(2, 2, data_format="channels_first")),
    }
    for name, (sh, mk) in lin.items():
        for k in range(2):
            tag = f"interval {name} {k}"
            yield tag, dict(budget=60), (lambda sh=sh, mk=mk, tag=tag: L.or_refused(lambda: T.linear_interval(mk, sh, key=(tag,)), tag))
    for act in ("relu", "sigmoid", "tanh", "softsign", "softplus", "exponential", "linear"):
        for sh in ((2,), (2, 2)):
            tag = f"interval {act} {sh}"
            yield tag, dict(budget=60), (lambda act=act, sh=sh: T.monotone_interval(lambda: K.Activation(act), sh))
    for mode in ("affine", "hybrid"):
        for slope in SLOPES:
            for sign in (1, -1, 0):
                for n in (1, 2):
                    tag = f"relu {mode} {slope} {('unstable', 'active', 'inactive')[sign]} n_in {n}"
                    yield tag, dict(budget=90), (lambda mode=mode, slope=slope, sign=sign, n=n: T.relu_ends(mode, slope, sign, n))
