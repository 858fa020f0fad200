from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3",
                         "inference mode (dropout and batch normalisation refuse training=True)"])


def layers():
    yield "flatten", (2, 2), lambda: L.KL.Flatten()
    yield "flatten3", (2, 1, 2), lambda: L.KL.Flatten()
    yield "flatten-cf", (2, 1, 2), lambda: L.KL.Flatten(data_format="channels_first")
    yield "reshape", (4,), lambda: L.KL.Reshape((2, 2))
    yield "reshape-1", (2, 3), lambda: L.KL.Reshape((3, -1))
    yield "permute", (2, 3), lambda: L.KL.Permute((2, 1))
    yield "permute3", (2, 1, 3), lambda: L.KL.Permute((3, 1, 2))
    yield "dropout", (3,), lambda: L.KL.Dropout(0.4)
    yield "linear", (3,), lambda: L.KL.Activation("linear")
    yield "bn", (3,), lambda: L.KL.BatchNormalization()
    yield "bn-noscale", (2,), lambda: L.KL.BatchNormalization(scale=False)
    yield "bn-nocenter", (2,), lambda: L.KL.BatchNormalization(center=False)
    yield "bn-eps", (2,), lambda: L.KL.BatchNormalization(epsilon=0.25)
    yield "bn-axis1", (2, 3), lambda: L.KL.BatchNormalization(axis=1)
    yield "bn-axis-last", (2, 3), lambda: L.KL.BatchNormalization()
    yield "bn-image", (2, 1, 2), lambda: L.KL.BatchNormalization()


SP = {"moving_variance": (0.125, 4), "gamma": (-2, 2)}


def cases():
    def mk(name, ysh, layer, mode, n_in, domain="box", **kw):
        tag = f"{name} {mode} {domain}{n_in}" + "".join(f" {k}={v}" for k, v in kw.items() if k != "fixed")

        def b():
            return L.fwd(layer, [ysh], mode, n_in=n_in, domain=domain, w_fixed=kw.get("fixed", False),
                         weights=kw.get("weights", "conc"), key=(tag,), special=SP)

        return tag, dict(budget=60), b

    for mode in ("ibp", "affine", "hybrid"):
        for name, ysh, layer in layers():
            yield mk(name, ysh, layer, mode, 2, fixed=True)
        yield mk("bn", (1,), lambda: L.KL.BatchNormalization(), mode, 1, weights="sym", fixed=True)
        yield mk("flatten", (2, 2), lambda: L.KL.Flatten(), mode, 3, domain="linf", fixed=True)
        yield mk("permute", (2, 2), lambda: L.KL.Permute((2, 1)), mode, 3, domain="l1", fixed=True)
        yield mk("reshape", (2, 2), lambda: L.KL.Reshape((4,)), mode, 1)
