from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "exp, sigmoid, tanh, softplus enter through monotonicity, convexity and derivative facts (symx/axioms.py)",
    "contract cases: the tangent branch (get_t_upper/get_t_lower, an argmin over 100 grid points) is replaced by any line above "
    "(below) the function at the point; that branch itself is decided in the concrete-interval cases",
])
S = ("sigmoid", "tanh", "softsign")


def contract(name, mode, n_in, key, sign=1, **kw):
    """fwd case whose tangent branch is any line satisfying its contract"""
    lib = L
    import numpy as np

    wf = (sign * np.full((n_in, 1), 1.5), sign * np.full((n_in, 1), 0.75))
    c = lib.fwd(lambda: lib.KL.Activation(name), [(1,)], mode, n_in=n_in, w_fixed=wf, key=key, **kw)
    return lib.tangent_contract(c, name, mode, sign)


UNSUPPORTED = ("elu", "selu", "gelu", "silu", "hard_sigmoid", "hard_silu", "leaky_relu", "relu6", "mish", "log_softmax")


def cases():
    def mk(name, mode, lab, tier="quick", budget=90, con=False, ax="default", n_in=1, shape=(1,), wf=True, layer=None, **kw):
        tag = f"{name} {mode} {n_in} {shape} {lab}".strip()

        def b():
            from symx import axioms, tfx

            tfx.SOFTMAX2 = kw.get("conc") is not None
            axs = axioms.default if ax == "default" else axioms.table(1 / 16, -8, 8) if ax == "table" else None
            if ax == "default":
                axs = axioms.with_products(axs, ("tu", "tl", "tw"))
            if con:
                return contract(name, mode, n_in, (tag,), axioms=axs, **kw)
            return L.fwd(layer or (lambda: L.KL.Activation(name)), [shape], mode, n_in=n_in, w_fixed=wf, key=(tag,),
                         axioms=axs, **kw)

        return tag, dict(tier=tier, budget=budget), b

    for name in S:
        ax = "default"
        for n in (1, 2):
            yield mk(name, "ibp", "", ax=ax, shape=(n,))
        for mode in ("affine", "hybrid"):
            for sg in (1, -1):
                yield mk(name, mode, f"contract exact {sg}", con=True, ws=0.0, ax=ax, sign=sg)
                yield mk(name, mode, f"contract {sg}", con=True, ax=ax, budget=200, sign=sg)
            for k in range(4):
                yield mk(name, mode, f"conc{k}", conc=k, ax=ax and "table", shape=(1,), n_in=1 + k % 2, wf=False)
    for slope in ("volume-slope", "same-slope", "zero-lb", "one-lb"):
        for mode in ("ibp", "affine", "hybrid"):
            yield mk("softplus", mode, f"{slope} exact", ws=0.0, slope=slope)
            yield mk("softplus", mode, slope, slope=slope)
            for k in range(2):
                yield mk("softplus", mode, f"{slope} conc{k}", conc=k, ax="table", slope=slope, n_in=1 + k % 2, wf=False)
    for mode in ("ibp", "affine", "hybrid"):
        yield mk("exponential", mode, "exact", ws=0.0)
        yield mk("exponential", mode, "")
        for k in range(2):
            yield mk("exponential", mode, f"conc{k}", conc=k, ax="table", n_in=1 + k % 2, wf=False)
        for k in range(3):
            yield mk("softmax", mode, f"conc{k}", conc=k, ax="table", n_in=1, shape=(2,), wf=False)
        for a in UNSUPPORTED:
            def b(a=a, mode=mode):
                return L.or_refused(lambda: L.fwd(lambda: L.KL.Activation(a), [(1,)], mode, key=(a, mode), w_fixed=True),
                                    f"{mode}, activation {a}")
            yield f"unsupported {a} {mode}", dict(budget=30), b
    yield mk("softmax", "ibp", "", shape=(2,))
