from props.lazy import Lazy

L = Lazy("props.lib")
P = Lazy("props.prep")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid",
           "forward-ibp", "forward-affine", "forward-hybrid")
from props.C15 import STRUCT

ACTS = ("relu", "leaky_relu", "tanh", "sigmoid", "softplus", "softsign", "exponential", "relu6")
EXTRA = tuple(f"dense {a}" for a in ACTS) + ("conv relu", "conv tanh", "layer used twice", "activation layer used twice",
                                            "output order", "nested deep", "nested two outputs", "nested two inputs add",
  "nested two inputs subtract", "nested in and out", "nested twice sequential") + tuple(
    n + b for n in ("layer ReLU", "layer LeakyReLU", "layer PReLU", "layer Activation", "first and last", "conv same", "dense matrix")
    for b in ("", " no bias")) + ("frozen layer", "frozen model", "frozen batchnorm", "lora rank", "lora enabled", "lora linear")


def cases():
    for name in STRUCT + EXTRA:
        def make(name=name):
            n, mk = P.ALL[name]
            return mk, n

        for how in ("preprocess", "split"):
            yield f"{how} {name}", dict(budget=60), lambda how=how, make=make: P.prep_case(*make(), how)
        for method in ("crown", "forward-hybrid"):
            yield f"unchanged {name} {method}", dict(budget=60), lambda method=method, make=make: P.clone_unchanged(*make(), method)
    for how in ("dense", "activation", "layer"):
        for heads in (1, 2):
            for method in METHODS:
                yield f"softmax {how} heads {heads} {method}", dict(budget=60), lambda how=how, heads=heads, method=method: P.softmax_case(
                    heads, how, method)
            def soft(how=how, heads=heads):
                from keras import layers as KL

                def f(x):
                    h = KL.Dense(2, activation="relu")(x)
                    o = [KL.Dense(2)(h) for _ in range(heads)]
                    o[-1] = (KL.Dense(2, activation="softmax")(h) if how == "dense" else KL.Activation("softmax")(o[-1])
                             if how == "activation" else KL.Softmax()(o[-1]))
                    return o if heads > 1 else o[0]

                return (lambda: P._fun(2, f)), 2

            for method in METHODS:
                yield f"unchanged softmax {how} heads {heads} {method}", dict(budget=60), lambda method=method, soft=soft: P.clone_unchanged(
                    *soft(), method)
