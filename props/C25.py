from props.lazy import Lazy

P = Lazy("props.prep")
N = Lazy("props.nets")
L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "the reference is a conversion made after the update of the weights (whose soundness is C15's)",
    "one weight tensor of the network symbolic per case, the others take new concrete values (variances always concrete)",
    "networks: piecewise linear; shared weights: two concrete boxes; copied weights: every box in [-2,2]",
])
METHODS = ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")
NAMES = ("relu", "relu layers", "first relu", "last relu", "linear", "conv", "conv valid strides", "batchnorm", "batchnorm on matrix",
         "batchnorm axis 1", "reshape permute", "dropout", "dense on matrix", "conv output", "maxpool")
HARD = ("layer used twice", "nested twice sequential")
EXTRA = ("dense relu", "conv relu", "layer ReLU", "layer Activation", "conv same", "dense matrix", "layer used twice",
         "activation layer used twice", "nested_seq", "two_heads_depths", "output order", "nested deep", "nested twice sequential",
         "frozen layer", "frozen model", "frozen batchnorm")


def cases():
    for name in NAMES + EXTRA:
        for method in METHODS:
            if name in HARD and method in ("forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"):
                continue  # the bounds are expressions of too many terms
            if name in EXTRA and method in ("forward-affine", "crown-forward-ibp", "crown-forward-affine"):
                continue
            for shared in (True, False):
                for k in range(2 if shared else 1):
                    tag = f"{name} {method} {'shared' if shared else 'own'} weight {k}"
                    yield tag, dict(budget=60), (lambda name=name, method=method, shared=shared, k=k, tag=tag: L.or_refused(
                        lambda: P.follow(*P.ALL[name][::-1], method, shared, k, key=(tag,)), tag))
    for kind in ("Dense", "Conv2D", "BatchNormalization", "BatchNormalization no scale", "BatchNormalization no center", "Dense no bias", "Conv2D no bias"):
        for mode in ("ibp", "affine", "hybrid"):
            for shared in (True, False):
                for dirn in ("forward", "backward", "backward of decomon"):
                    if not shared and dirn == "backward":
                        continue
                    tag = f"layer {kind} {mode} {'shared' if shared else 'own'} {dirn}"
                    yield tag, dict(budget=60), (lambda kind=kind, mode=mode, shared=shared, dirn=dirn, tag=tag: P.follow_layer(
                        kind, mode, shared, dirn, key=(tag,)))
