from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3",
                         "exp and log enter through their convexity/concavity and monotonicity (see symx/axioms.py)"])


def ops():
    import keras.ops as K
    import decomon.layers.utils as U
    import decomon.utils as D
    from decomon.layers.activations import relu

    ax = lambda f, a: (lambda *x, **k: f(*x, axis=a, **k))
    d = {
        "sum": (U.sum, lambda y: K.sum(y, -1)),
        "sum1": (ax(U.sum, 1), lambda y: K.sum(y, 1)),
        "max": (U.max_, lambda y: K.max(y, -1)),
        "max1": (ax(U.max_, 1), lambda y: K.max(y, 1)),
        "min": (U.min_, lambda y: K.min(y, -1)),
        "min1": (ax(U.min_, 1), lambda y: K.min(y, 1)),
        "sum-2": (ax(U.sum, -2), lambda y: K.sum(y, -2)),
        "max-2": (ax(U.max_, -2), lambda y: K.max(y, -2)),
        "min-2": (ax(U.min_, -2), lambda y: K.min(y, -2)),
        "sort-2": (ax(U.sort, -2), lambda y: K.sort(y, -2)),
        "expand-2": (ax(U.expand_dims, -2), lambda y: K.expand_dims(y, -2)),
        "broadcast-2": (lambda x, **k: U.broadcast(x, 1, -2, **k), lambda y: K.expand_dims(y, -2)),
        "abs": (U.abs, lambda y: K.abs(y)),
        "pow": (U.pow, lambda y: y * y),
        "minus": (D.minus, lambda y: -y),
        "relu_": (D.relu_, lambda y: K.relu(y)),
        "multiply": (U.multiply, lambda y, z: y * z),
        "maximum": (D.maximum, lambda y, z: K.maximum(y, z)),
        "minimum": (D.minimum, lambda y, z: K.minimum(y, z)),
        "subtract": (D.subtract, lambda y, z: y - z),
        "add": (D.add, lambda y, z: y + z),
        "sort": (U.sort, lambda y: K.sort(y, -1)),
        "sort1": (ax(U.sort, 1), lambda y: K.sort(y, 1)),
        "expand": (U.expand_dims, lambda y: K.expand_dims(y, -1)),
        "expand1": (ax(U.expand_dims, 1), lambda y: K.expand_dims(y, 1)),
        "permute1": (ax(U.permute_dimensions, 1), lambda y: y),
        "permute-1": (ax(U.permute_dimensions, -1), lambda y: K.transpose(y, (0, 2, 1))),
        "permute2": (ax(U.permute_dimensions, 2), lambda y: K.transpose(y, (0, 2, 1))),
        "permute3": (ax(U.permute_dimensions, 3), lambda y: K.transpose(y, (0, 3, 1, 2))),
        "permute2of3": (ax(U.permute_dimensions, 2), lambda y: K.transpose(y, (0, 2, 1, 3))),
        "permute1to2": (lambda x, **k: U.permute_dimensions(x, axis=1, axis_perm=2, **k), lambda y: K.transpose(y, (0, 2, 1))),
        "broadcast": (lambda x, **k: U.broadcast(x, 1, -1, **k), lambda y: K.expand_dims(y, -1)),
        "broadcast2": (lambda x, **k: U.broadcast(x, 2, 2, **k), lambda y: K.expand_dims(K.expand_dims(y, 2), 2)),
        "frac_pos": (U.frac_pos, lambda y: 1.0 / y),
        "exp": (U.exp, lambda y: K.exp(y)),
        "log": (U.log, lambda y: K.log(y)),
        "softplus_": (U.softplus_, lambda y: K.softplus(y)),
    }

    def split(axis):
        def f(x, **k):
            r = U.split(x, axis=axis, **k)
            n = len(r[0])
            # glue the pieces back: same element order as the input
            return [r[0][i] if (n > 2 and i == 0) else K.concatenate(
                [p[i] for p in r], axis if axis < 0 or K.ndim(r[0][i]) == K.ndim(r[0][-1]) else axis + 1)
                for i in range(n)]
        return f

    d["split"] = (split(-1), lambda y: y)
    d["split-2"] = (split(-2), lambda y: y)
    d["split1"] = (split(1), lambda y: y)
    return d


SHAPES = dict(sum=[(2, 2)], sum1=[(2, 2)], max=[(1, 2)], max1=[(2, 1)], min=[(1, 2)], min1=[(2, 1)], abs=[(2,)], pow=[(1,)],
              minus=[(2, 1)], relu_=[(2,)], multiply=[(2,), (2,)], maximum=[(1,), (1,)], minimum=[(1,), (1,)],
              subtract=[(2,), (2,)], add=[(2,), (2,)], sort=[(2,)], sort1=[(2, 1)], expand=[(2,)], expand1=[(2, 2)],
              permute1=[(2, 3)], permute2=[(2, 3)], **{"permute-1": [(2, 3)]}, permute3=[(2, 1, 3)], permute2of3=[(2, 3, 2)], permute1to2=[(2, 3)],
              broadcast=[(2,)], broadcast2=[(2, 2)], frac_pos=[(2,)], exp=[(1,)], log=[(1,)], softplus_=[(1,)],
              split=[(2, 2)], split1=[(2, 2)],
              **{"sum-2": [(2, 2)], "max-2": [(2, 1)], "min-2": [(2, 1)], "sort-2": [(2, 1)], "expand-2": [(2, 2)],
                 "broadcast-2": [(2, 2)], "split-2": [(2, 2)]})
HEAVY = ("max", "max1", "min", "min1", "abs", "sort", "sort1", "max-2", "min-2", "sort-2", "maximum", "minimum", "multiply", "pow", "relu_")


def cases():
    def mk(name, shapes, mode, n_in, domain="box", lab="", tier="quick", budget=60, **kw):
        tag = f"{name} {mode} {domain}{n_in} {shapes} {lab}".strip()

        def b():
            op, ref = ops()[name]
            if name in ("exp", "log", "softplus_"):
                from symx import axioms

                kw["axioms"] = axioms.default
            if name in ("frac_pos", "log"):
                kw["positive"] = 0.25
            return L.util(op, ref, shapes, mode, n_in=n_in, domain=domain, key=(tag,), **kw)

        return tag, dict(tier=tier, budget=budget), b

    for mode in ("ibp", "affine", "hybrid"):
        for name, shapes in SHAPES.items():
            if name in ("exp", "log", "softplus_", "frac_pos"):
                yield mk(name, shapes, mode, 1, lab="exact affine", ws=0.0)
                if mode != "ibp":
                    yield mk(name, shapes, mode, 1, cs=4.0 if mode == "hybrid" else None, tier="thorough", budget=300)
                continue
            hard = mode == "hybrid" and name in HEAVY
            if hard:
                for k in range(3):
                    yield mk(name, shapes, mode, 2, lab=f"concrete{k}", conc=k)
                yield mk(name, shapes, mode, 1, lab="slackB", ws=4.0, budget=150)
                yield mk(name, shapes, mode, 1, tier="thorough", budget=600)
            else:
                yield mk(name, shapes, mode, 1 if name in HEAVY else 2)
                if mode != "ibp" and name in ("max", "min1", "sort", "abs"):
                    sh = {"max": [(3,)], "min1": [(3, 1)], "sort": [(3,)], "abs": [(2, 2)]}[name]
                    for k in range(3):
                        yield mk(name, sh, mode, 2, lab=f"concrete{k}", conc=k)
