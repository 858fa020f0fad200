from props.C05 import S
from props.lazy import Lazy

L = Lazy("props.lib")
F = Lazy("props.ft")
N = Lazy("props.nets")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "exp, sigmoid, tanh, softplus enter through monotonicity, convexity and derivative facts (symx/axioms.py)",
    "contract cases: the tangent branch (get_t_upper/get_t_lower, an argmin over 100 grid points) is replaced by any line above "
    "(below) the function at the point",
])
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
METHODS = ("forward-affine", "forward-hybrid", "crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid")


def axioms_of(ax):
    from symx import axioms

    if ax == "default":
        return axioms.with_products(axioms.default, ("tu", "tl", "tw", "ft"))
    return axioms.table(1 / 16, -8, 8) if ax else None


def cases():
    def layer(back, name, mode, shape, lab="", ax=None, sign=None, tier="quick", budget=120, layer=None, **kw):
        tag = f"{'backward' if back else 'forward'} {name} {mode} {shape} {lab}".strip()

        def b():
            import numpy as np

            make = layer or (lambda: L.KL.Activation(name))
            if sign is not None:
                kw["w_fixed"] = (sign * np.full((1, 1), 1.5), sign * np.full((1, 1), 0.75))
            kw.setdefault("w_fixed", True)
            if back:
                c = L.bwd(make, shape, mode, exact=False, key=(tag,), axioms=axioms_of(ax), finetune=True, **kw)
            else:
                c = L.fwd(make, [shape], mode, key=(tag,), axioms=axioms_of(ax), finetune=True, **kw)
            return c if sign is None else L.tangent_contract(c, name, mode, sign)

        return tag, dict(tier=tier, budget=budget), b

    for back in (False, True):
        for mode in ("ibp", "affine", "hybrid"):
            for slope in SLOPES:
                for sh, n in (((1,), 1), ((2,), 1), ((2,), 2), ((2, 2), 1)):
                    yield layer(back, "relu", mode, sh, f"{slope} n_in {n}", slope=slope, n_in=n)
            if mode != "ibp":
                for dom in ("linf", "l1", "l2"):
                    yield layer(back, "relu", mode, (2,), dom, domain=dom, n_in=2)
            for slope in ("volume-slope", "same-slope", "zero-lb", "one-lb"):
                yield layer(back, "softplus", mode, (1,), f"{slope} exact", ax="default", slope=slope, ws=0.0)
                for k in range(3):
                    yield layer(back, "softplus", mode, (1,), f"{slope} conc{k}", ax="table", slope=slope, conc=k, w_fixed=False)
            for name in S:
                for k in range(2):
                    yield layer(back, name, mode, (1,), f"conc{k}", ax="table", conc=k, w_fixed=False)
                if back or mode != "ibp":
                    yield layer(back, name, mode, (1,), "contract", ax="default", sign=1, budget=200)
            if not back:
                for k in range(2):
                    yield layer(back, "exponential", mode, (1,), f"conc{k}", ax="table", conc=k, w_fixed=False)

    for name in ("ClipAlpha", "NonNeg", "NonPos"):
        for sh in ((1,), (3,), (2, 2)):
            yield f"constraint {name} {sh}", dict(budget=60), lambda name=name, sh=sh: F.constraint(name, sh)
    for sh in ((2, 1), (3, 1), (2, 2)):
        yield f"constraint ClipAlphaGrid {sh}", dict(budget=120), lambda sh=sh: F.constraint("ClipAlphaGrid", sh)

    for mode in ("affine", "hybrid"):
        for name, shapes in (("max_", [(2,)]), ("max_", [(3,)]), ("max_ 1", [(2, 1)]), ("min_", [(2,)]), ("maximum", [(1,), (1,)]), ("minimum", [(1,), (1,)])):
            for k in range(3):
                tag = f"{name} {mode} {shapes} conc{k}"
                yield tag, dict(budget=90), lambda name=name, mode=mode, shapes=shapes, k=k, tag=tag: F.maxfun(name, shapes, mode, 1, (tag,), conc=k)
            if mode == "affine":
                tag = f"{name} {mode} {shapes}"
                yield tag, dict(budget=200, tier="thorough"), lambda name=name, mode=mode, shapes=shapes, tag=tag: F.maxfun(name, shapes, mode, 1, (tag,))

    for m in METHODS:
        for n in ("relu", "relu3", "conv", "first relu"):
            yield f"projections {n} {m}", dict(budget=60), lambda n=n, m=m: F.projections(N.NETS[n][1], N.NETS[n][0], m)
        for n in ("relu", "relu3", "conv"):
            for reset in (False, True):
                for slope in SLOPES if n == "relu" else SLOPES[:1]:
                    tag = f"initial {n} {m} {slope}" + (" reset" if reset else "")
                    yield tag, dict(budget=90), lambda n=n, m=m, slope=slope, reset=reset, tag=tag: F.same_as_unoptimised(
                        N.NETS[n][1], N.NETS[n][0], m, (tag,), slope, reset)
        for n in ("relu", "relu3", "last relu", "conv"):
            for slope in SLOPES if n == "relu" else SLOPES[:1]:
                for p in (1, 2):
                    for k in range(2):
                        tag = f"network {n} {m} {slope} parameter {p} box {k}"
                        yield tag, dict(budget=120), lambda n=n, m=m, slope=slope, p=p, k=k, tag=tag: L.e2e(
                            N.NETS[n][1], N.NETS[n][0], m, slope=slope, key=(tag,), conc=k, slopes=p, clone_kw=dict(finetune=True))
            tag = f"network {n} {m} all parameters"
            yield tag, dict(budget=600, tier="thorough"), lambda n=n, m=m, tag=tag: L.e2e(
                N.NETS[n][1], N.NETS[n][0], m, key=(tag,), conc=0, slopes="all", clone_kw=dict(finetune=True))
