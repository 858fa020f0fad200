from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def cases():
    def mk(mode, n_in, shape, slope, domain="box", fixed=False, layer=None, tier="quick", budget=120, **extra):
        tag = f"{mode} {domain}{n_in} {shape} {slope}" + (" fixw" if fixed else "") + "".join(
            f" {a}" for a, v in extra.items() if v)

        def b():
            return L.fwd(lambda: L.KL.Activation("relu"), [shape], mode, n_in=n_in, domain=domain, w_fixed=fixed,
                         slope=slope, key=(tag,), **extra)

        return tag, dict(budget=budget, tier=tier), b

    for mode in ("ibp", "affine", "hybrid"):
        for slope in SLOPES:
            yield mk(mode, 1, (1,), slope)
            if mode != "ibp":
                yield mk(mode, 2, (2,), slope, fixed=True)
        for d in ("linf", "l1", "l2"):
            yield mk(mode, 2, (2,), SLOPES[0], domain=d, fixed=True)
        yield mk(mode, 3, (2, 2), SLOPES[0], fixed=True)
        yield mk(mode, 1, (1,), SLOPES[0], finetune=True)
        yield mk(mode, 2, (2,), SLOPES[0], finetune=True, fixed=True)
        if mode != "ibp":
            yield mk(mode, 2, (1,), SLOPES[0], tier="thorough", budget=300)
