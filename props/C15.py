from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
P = Lazy("props.prep")
A = Lazy("symx.axioms")
SMOOTH = ("tanh", "sigmoid", "softplus", "softsign", "exponential")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid",
           "forward-ibp", "forward-affine", "forward-hybrid")
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
STRUCT = ("relu layers", "first relu", "last relu", "linear", "conv", "conv valid strides", "batchnorm", "reshape permute", "flatten channels_first",
          "flatten channels_first 2", "batchnorm on matrix", "batchnorm axis 1", "permute first", "permute 3", "matrix output", "conv output",
          "dropout", "maxpool", "dense on matrix", "add_skip", "skip_depths", "subtract_relu", "minmax", "average_concat",
          "multiply", "dot", "shared_layer", "shared_twice", "shared_activation", "nested", "nested_seq", "nested_first",
          "nested_twice", "two_heads", "two_heads_depths", "intermediate_output", "intermediate_first", "shared_outputs")

# backward propagation refuses merges, max pooling and layers shared by several nodes
REFUSED = ("add_skip", "skip_depths", "subtract_relu", "minmax", "average_concat", "multiply", "dot", "maxpool",
           "shared_layer", "shared_twice", "shared_activation", "shared_outputs", "nested_twice")


def cases():
    def mk(tag, build, tier="quick", budget=100):
        return tag, dict(tier=tier, budget=budget), build

    def mlp(units, method, tier="quick", budget=100, lab="", act="relu", **kw):
        n = units[0]
        tag = f"mlp{'-'.join(map(str, units))} {method} {lab}".strip()
        return mk(tag, lambda: L.e2e(N.mlp(n, *units[1:], act=act), n, method, key=(units,), **kw), tier, budget)

    for method in METHODS:
        yield mlp((1, 2, 1), method)
        yield mlp((2, 2, 1), method)
        yield mlp((1, 2, 2, 1), method, tier="thorough", budget=400)
        yield mlp((2, 2, 2, 1), method, tier="thorough", budget=600)
        yield mlp((1, 1, 1), method, lab="symbolic bias", sym=(1,))
        for k in range(2):
            yield mlp((2, 3, 3, 2), method, lab=f"box{k}", conc=k)
            yield mlp((3, 4, 4, 4, 2), method, lab=f"box{k}", conc=k)
            yield mlp((2, 2, 2, 1), method, lab=f"box{k} symbolic bias", conc=k, sym=(1,), symrange=0.25,
                      tier="quick" if not k else "thorough")
        for s in SLOPES[1:]:
            yield mlp((1, 2, 1), method, lab=s, slope=s)
            yield mlp((2, 3, 2, 1), method, lab=f"{s} box", slope=s, conc=3)
        for name in STRUCT:
            def b(name=name, method=method):
                n, make = N.NETS[name]
                if not (method.startswith("crown") and name in REFUSED):
                    return L.e2e(make, n, method, key=(name,), conc=5)
                return L.or_refused(lambda: L.e2e(make, n, method, key=(name,), conc=5), f"{name}, {method}")
            yield mk(f"net {name} {method}", b)
    from props.C17 import EXTRA

    for name in EXTRA:
        for method in METHODS:
            def b(name=name, method=method):
                n, make = P.ALL[name]
                kw = dict(key=(name,), conc=5)
                if name.split()[-1] in SMOOTH:
                    kw["axioms"] = A.table(1 / 16, -8, 8)
                if method.startswith("crown") and any(w in name for w in ("twice", "nested", "order", "exponential")) or any(w in name for w in ("ReLU", "leaky_relu", "relu6", "activation layer", "lora")):
                    return L.or_refused(lambda: L.e2e(make, n, method, **kw), f"{name}, {method}")
                return L.e2e(make, n, method, **kw)
            yield mk(f"net {name} {method}", b)
    for act in SMOOTH:
        for method in METHODS:
            for units, tier in (((1, 1, 1, 1), "quick"), ((2, 1, 1, 2), "quick"), ((2, 2, 2, 1), "thorough")):
                def b(act=act, method=method, units=units):
                    f = lambda: L.e2e(N.mlp(units[0], *units[1:], act=act), units[0], method, key=(act, units), conc=1, axioms=A.table(1 / 16, -8, 8))
                    return L.or_refused(f, f"{act}, {method}") if act == "exponential" and method.startswith("crown") else f()
                tier = "thorough" if act == "exponential" and units[0] > 1 else tier
                yield mk(f"mlp{'-'.join(map(str, units))} {act} {method}", b, tier, 60 if tier == "quick" else 400)
