from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])


def cases():
    def mk(mode, ysh, pool, strides=None, padding="valid", n_in=1, domain="box", fast=True, fixed=True, budget=120,
           tier="quick", **kw):
        tag = f"{mode} {domain}{n_in} {ysh} pool{pool} strides{strides} {padding}" + ("" if fast else " exact") + (
            "" if fixed else " symw") + "".join(
            f" {k}{v}" for k, v in kw.items())

        def b():
            return L.fwd(lambda: L.KL.MaxPooling2D(pool, strides=strides, padding=padding), [ysh], mode, n_in=n_in,
                         domain=domain, fast=fast, w_fixed=fixed, key=(tag,), **kw)

        return tag, dict(budget=budget, tier=tier), b

    for mode in ("ibp", "affine", "hybrid"):
        yield mk(mode, (2, 2, 1), (2, 2))
        yield mk(mode, (2, 1, 1), (2, 1))
        yield mk(mode, (1, 3, 1), (1, 3))
        yield mk(mode, (1, 3, 1), (1, 2), (1, 1))
        yield mk(mode, (2, 1, 2), (2, 1), n_in=2)
        yield mk(mode, (3, 2, 1), (3, 1))
        yield mk(mode, (4, 2, 1), (2, 2))
        yield mk(mode, (3, 1, 1), (2, 1), (1, 1), "same")
        yield mk(mode, (2, 1, 1), (2, 1), fast=False)
        if mode != "hybrid":
            yield mk(mode, (1, 2, 1), (1, 2), fast=False)
        for k in range(4):
            yield mk(mode, (1, 2, 1), (1, 2), fast=False, conc=10 + k)
        for k in range(3):
            yield mk(mode, (2, 2, 1), (2, 2), fast=False, n_in=2, conc=k)
            yield mk(mode, (2, 3, 1), (2, 3), fast=False, n_in=2, conc=k)
            yield mk(mode, (3, 2, 1), (3, 2), fast=False, n_in=2, conc=k)
        yield mk(mode, (3, 1, 2), (2, 1), (1, 1), fast=False, n_in=2, conc=5)
        yield mk(mode, (3, 1, 1), (2, 1), (1, 1), "same", fast=False, conc=6)
        yield mk(mode, (2, 1, 1), (2, 1), domain="linf", n_in=2)
        yield mk(mode, (2, 1, 1), (2, 1), fixed=False)
