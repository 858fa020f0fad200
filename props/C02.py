from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])


def cases():
    def mk(mode, n_in, din, units, bias=True, domain="box", fixed=False, shared=True, weights="sym", yshape=None, **kw):
        ys = yshape or (din,)
        tag = f"{mode} {domain}{n_in} {ys}->{units}" + ("" if bias else " nobias") + (" fixw" if fixed else "") + (
            "" if shared else " unshared") + (" identity input" if kw.get("identity") else "")

        def b():
            return L.fwd(lambda: L.KL.Dense(units, use_bias=bias), [ys], mode, n_in=n_in, domain=domain, w_fixed=fixed,
                         shared=shared, weights=weights, key=(tag,), **kw)

        return tag, b

    for mode in ("ibp", "affine", "hybrid"):
        yield mk(mode, 1, 2, 1)[0], dict(budget=90), mk(mode, 1, 2, 1)[1]
        for args in (
            dict(n_in=1, din=1, units=2, bias=False),
            dict(n_in=2, din=2, units=2, fixed=True),
            dict(n_in=3, din=3, units=2, fixed=True, weights="conc"),
            dict(n_in=2, din=2, units=2, domain="linf", fixed=True, weights="conc"),
            dict(n_in=2, din=2, units=1, domain="l1", fixed=True, weights="conc"),
            dict(n_in=2, din=2, units=1, domain="l2", fixed=True, weights="conc"),
            dict(n_in=2, din=2, units=2, fixed=True, weights="conc", shared=False),
            dict(n_in=2, din=2, units=2, fixed=True, weights="conc", yshape=(2, 2)),
        ):
            n, b = mk(mode, **args)
            yield n, dict(budget=90), b
    for mode in ("affine", "hybrid"):
        n, b = mk(mode, 2, 2, 2, identity=True)
        yield n, dict(budget=90), b
        n, b = mk(mode, 2, 2, 1, fixed=False)
        yield n, dict(budget=300, tier="thorough"), b
