from props.C05 import S, UNSUPPORTED
from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "exp, sigmoid, tanh, softplus enter through monotonicity, convexity and derivative facts (symx/axioms.py)",
    "contract cases: the tangent branch (get_t_upper/get_t_lower, an argmin over 100 grid points) is replaced by any line above "
    "(below) the function at the point; that branch itself is decided in the concrete-interval cases",
])
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def cases():
    def mk(name, mode, shape, lab="", layer=None, ax=None, budget=90, sign=None, tier="quick", refusable=False, **kw):
        tag = f"{name} {mode} {shape} {lab}".strip()

        def b():
            import numpy as np
            from symx import axioms

            axs = axioms.with_products(axioms.default, ("tu", "tl", "tw")) if ax == "default" else axioms.table(1 / 16, -8, 8) if ax else None
            if sign is not None:
                kw["w_fixed"] = (sign * np.full((1, 1), 1.5), sign * np.full((1, 1), 0.75))

            def make():
                c = L.bwd(layer or (lambda: L.KL.Activation(name)), shape, mode, exact=False, key=(tag,), axioms=axs, **kw)
                return c if sign is None else L.tangent_contract(c, name, mode, sign)

            return L.or_refused(make, tag) if refusable else make()

        return tag, dict(tier=tier, budget=budget), b

    for mode in ("ibp", "affine", "hybrid"):
        for slope in SLOPES:
            for sh in ((1,), (2,), (2, 2)):
                for dec in (False, True):
                    yield mk("relu", mode, sh, slope + (" decomon layer" if dec else ""), slope=slope, decomon=dec)
            yield mk("relu", mode, (2,), slope + " n_in 2", slope=slope, n_in=2)
            yield mk("relu", mode, (1,), slope + " activation layer", layer=lambda: L.KL.ReLU(), slope=slope, refusable=True)
        for dom in ("linf", "l1", "l2"):
            if mode != "ibp":
                yield mk("relu", mode, (2,), dom, domain=dom, n_in=2)
        for alpha, mx, th in ((0.25, None, 0), (0, 1.0, 0), (0, None, 0.5), (0.5, 2.0, 0.25)):
            yield mk("relu", mode, (1,), f"slope {alpha} max {mx} threshold {th}", refusable=True,
                     layer=lambda a=alpha, m=mx, t=th: L.KL.ReLU(negative_slope=a, max_value=m, threshold=t))
        for name in S:
            if mode == "ibp":
                yield mk(name, mode, (1,), "contract", ax="default", sign=1, budget=200)
            else:
                for sg in (1, -1):
                    yield mk(name, mode, (1,), f"contract {sg}", ax="default", sign=sg, budget=200)
                for dom in ("linf", "l1"):
                    yield mk(name, mode, (1,), f"contract {dom}", ax="default", sign=1, budget=200, domain=dom)
            for k in range(4):
                yield mk(name, mode, (1,), f"conc{k}", ax="table", conc=k, w_fixed=False)
            yield mk(name, mode, (2,), "conc", ax="table", conc=9, w_fixed=False)
            yield mk(name, mode, (2, 1), "conc", ax="table", conc=5, w_fixed=False)
            yield mk(name, mode, (1, 2, 1), "conc", ax="table", conc=6, w_fixed=False)
            yield mk(name, mode, (1,), "conc decomon layer", ax="table", conc=7, w_fixed=False, decomon=True)
        for slope in ("volume-slope", "same-slope", "zero-lb", "one-lb"):
            yield mk("softplus", mode, (1,), slope, ax="default", slope=slope)
            for k in range(3):
                yield mk("softplus", mode, (1,), f"{slope} conc{k}", ax="table", slope=slope, conc=k, w_fixed=False)
            yield mk("softplus", mode, (2, 1), f"{slope} conc", ax="table", slope=slope, conc=3, w_fixed=False)
        for sh in ((2,), (2, 2)):
            for dec in (False, True):
                yield mk("linear", mode, sh, "decomon layer" if dec else "", decomon=dec)
        for a in UNSUPPORTED + ("softmax", "exponential"):
            yield mk(a, mode, (1,), "unsupported", refusable=True)
        for a in ("MaxPooling2D", "AveragePooling2D"):
            yield mk(a, mode, (2, 2, 1), "unsupported", refusable=True, layer=lambda a=a: getattr(L.KL, a)((2, 2)))
