from props.lazy import Lazy

L = Lazy("props.dc")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "convexity is decided at the middle of any two points of the domain, for any decomposition convex (concave) between them; with "
    "continuity this is convexity",
    "layers and functions refusing dc_decomp=True (NotImplementedError) claim nothing",
])


# refuse dc_decomp=True; any other layer or function must support it
REFUSED = ("relu layer", "relu slopes", "batchnorm", "maxpool", "softsign", "softplus", "softmax", "leaky", "sigmoid", "tanh", "Add 2", "Add 3",
           "Subtract 2", "Average 3", "Maximum 2", "Minimum 2", "Multiply 2", "Concatenate 2", "Concatenate 3", "Dot 2", "sum -1", "sum 1",
           "expand_dims", "frac_pos", "exp", "log", "pow", "multiply", "crossentropy")
PIECEWISE = ("relu", "relu2", "relu_", "maximum", "minimum", "abs", "max_ -1", "max_ 1", "min_ -1", "min_ 1", "maxpool")


def cases():
    def mk(tag, make, tier="quick", budget=60, name=None):
        may_refuse = name in REFUSED
        return tag, dict(tier=tier, budget=budget), lambda: L.or_refused(make, tag) if may_refuse else make()

    def concs(name, mode, dom):
        """concrete bounds where the symbolic ones are out of the solver's reach"""
        if name in PIECEWISE and mode != "ibp" and (mode == "hybrid" or dom != "box"):
            return [(0, "quick"), (1, "quick"), (2, "quick"), (3, "thorough"), (4, "thorough"), (None, "thorough")]
        return [(None, "quick")]

    def lay(name, make, shapes, mode, n_in=1, domain="box", k=0, tier="quick", **kw):
        tag = f"{name} {mode} {domain}{n_in} {shapes} {k}" + "".join(f" {a}={v}" for a, v in kw.items())
        for c, t in concs(name, mode, domain):
            yield mk(tag + ("" if c is None else f" bounds{c}"), lambda c=c: L.layer(make, shapes, mode, n_in, domain, (name, k), conc=c, **kw),
                     t, name=name if name != "maxpool" or kw.get("fast", True) else None)

    def fun(name, op, ref, shapes, mode, n_in=1, domain="box", **kw):
        tag = f"{name} {mode} {domain}{n_in} {shapes}"

        def make(c):
            pd = L.perturbation(domain)
            return L.decomposition(lambda *i: op(*i, mode=mode, dc_decomp=True, perturbation_domain=pd), ref, shapes, mode, n_in, domain, (name,),
                                   conc=c, **kw)

        for c, t in concs(name, mode, domain):
            yield mk(tag + ("" if c is None else f" bounds{c}"), lambda c=c: make(c), t, name=name)

    K = lambda: L.KL
    for mode in ("ibp", "affine", "hybrid"):
        doms = [("box", 1), ("box", 2)] + ([("linf", 1), ("l1", 2)] if mode != "ibp" else [])
        for dom, n in doms if mode != "ibp" else [("box", 1)]:
            for k in range(3):
                yield from lay("dense", lambda: K().Dense(2), [(2,)], mode, n, dom, k)
            yield from lay("relu", lambda: K().Activation("relu"), [(2,)], mode, n, dom)
            yield from lay("relu layer", lambda: K().ReLU(), [(2,)], mode, n, dom)
        yield from lay("dense", lambda: K().Dense(3, use_bias=False), [(2,)], mode, k="no bias")
        yield from lay("dense", lambda: K().Dense(2), [(2, 2)], mode, k="matrix")
        yield from lay("dense", lambda: K().Dense(2), [(2,)], mode, shared=False)
        for pad in ("valid", "same"):
            for k in range(2):
                yield from lay(f"conv {pad}", lambda p=pad: K().Conv2D(2, (1, 2), padding=p), [(2, 2, 2)], mode, k=k)
        yield from lay("conv first", lambda: K().Conv2D(2, (1, 2), data_format="channels_first"), [(2, 2, 2)], mode)
        yield from lay("conv strides", lambda: K().Conv2D(1, (2, 1), strides=(1, 2)), [(2, 2, 1)], mode)
        yield from lay("conv nobias", lambda: K().Conv2D(1, (2, 2), dilation_rate=2, use_bias=False), [(3, 3, 1)], mode)
        for nm, make, sh in (
            ("linear", lambda: K().Activation("linear"), (2,)), ("linear2", lambda: K().Activation("linear"), (2, 2)),
            ("flatten", lambda: K().Flatten(), (2, 2)), ("flatten first", lambda: K().Flatten(data_format="channels_first"), (2, 1, 2)),
            ("reshape", lambda: K().Reshape((2, 2)), (4,)), ("reshape2", lambda: K().Reshape((4,)), (2, 2)),
            ("permute", lambda: K().Permute((2, 1)), (2, 3)), ("permute3", lambda: K().Permute((3, 1, 2)), (1, 2, 3)),
            ("dropout", lambda: K().Dropout(0.5), (2,)), ("batchnorm", lambda: K().BatchNormalization(), (2,)),
            ("relu2", lambda: K().Activation("relu"), (2, 2)), ("relu slopes", lambda: K().ReLU(negative_slope=0.5), (2,)),
            ("maxpool", lambda: K().MaxPooling2D(), (2, 2, 1)), ("softsign", lambda: K().Activation("softsign"), (2,)),
            ("softplus", lambda: K().Activation("softplus"), (2,)), ("softmax", lambda: K().Activation("softmax"), (2,)),
            ("leaky", lambda: K().LeakyReLU(), (2,)), ("sigmoid", lambda: K().Activation("sigmoid"), (2,)), ("tanh", lambda: K().Activation("tanh"), (2,)),
        ):
            yield from lay(nm, make, [sh], mode)
            if nm in ("batchnorm", "maxpool"):
                yield from lay(nm, make, [sh], mode, fast=False)
        for nm, n in (("Add", 2), ("Add", 3), ("Subtract", 2), ("Average", 3), ("Maximum", 2), ("Minimum", 2), ("Multiply", 2), ("Concatenate", 2),
                      ("Concatenate", 3), ("Dot", 2)):
            yield from lay(f"{nm} {n}", lambda nm=nm: getattr(K(), nm)(**(dict(axes=1) if nm == "Dot" else {})), [(2,)] * n, mode)
        yield from functions(fun, mode)
        for net in NETS:
            for c in range(2):
                yield mk(f"net {net} {mode} bounds{c}", lambda net=net, mode=mode, c=c: L.net(net, mode, c), budget=90)
            yield mk(f"net {net} {mode}", lambda net=net, mode=mode: L.net(net, mode, None), "thorough", budget=600)


NETS = ("relu", "linear", "relu layers", "first relu", "last relu", "conv", "reshape permute", "dropout")


def functions(fun, mode):
    import importlib

    def f(mod, name, **kw):
        return lambda *a, **k: getattr(importlib.import_module(mod), name)(*a, **{**kw, **k})

    U, V = "decomon.utils", "decomon.layers.utils"

    def R(name, **kw):
        def r(*y):
            import keras.ops as K

            return getattr(K, name)(*y, **kw)

        return r

    for dom, n in (("box", 1), ("box", 2), ("l1", 2)) if mode != "ibp" else (("box", 1),):
        for sh in ((2,), (2, 2)):
            yield from fun("add", f(U, "add"), lambda a, b: a + b, [sh, sh], mode, n, dom)
            yield from fun("subtract", f(U, "subtract"), lambda a, b: a - b, [sh, sh], mode, n, dom)
            yield from fun("minus", f(U, "minus"), lambda a: -a, [sh], mode, n, dom)
            yield from fun("relu_", f(U, "relu_"), R("relu"), [sh], mode, n, dom)
        for sh in ((1,), (2,)):
            yield from fun("maximum", f(U, "maximum"), R("maximum"), [sh, sh], mode, n, dom)
            yield from fun("minimum", f(U, "minimum"), R("minimum"), [sh, sh], mode, n, dom)
    for nm, ref in (("max_", "max"), ("min_", "min"), ("sum", "sum")):
        for sh, ax in (((2,), -1), ((3,), -1), ((2, 2), -1), ((2, 2), 1)):
            yield from fun(f"{nm} {ax}", f(V, nm, axis=ax), R(ref, axis=ax), [sh], mode)
    yield from fun("abs", f(V, "abs"), R("abs"), [(2,)], mode)
    yield from fun("expand_dims", f(V, "expand_dims", axis=-1), R("expand_dims", axis=-1), [(2,)], mode)
    yield from fun("frac_pos", f(V, "frac_pos"), lambda y: 1 / y, [(1,)], mode)
    yield from fun("exp", f(V, "exp"), R("exp"), [(1,)], mode)
    yield from fun("log", f(V, "log"), R("log"), [(1,)], mode)
    yield from fun("pow", f(V, "pow"), lambda y: y * y, [(1,)], mode)
    yield from fun("multiply", f(V, "multiply"), R("multiply"), [(1,), (1,)], mode)
    yield from fun("crossentropy", f("decomon.metrics.utils", "categorical_cross_entropy"),
              lambda y: -y + R("logsumexp", axis=-1, keepdims=True)(y), [(2,)], mode)
