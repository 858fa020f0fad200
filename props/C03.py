import numpy as np

from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(
    assumptions=[
        "real arithmetic (float rounding outside the claim), tolerance 1e-3",
        "channels_first convolutions are outside the encoding of the forward pass: TensorFlow cannot run them on CPU",
    ]
)


def cases():
    cfgs = [
        # (input shape, filters, kernel, kwargs)
        ((2, 2, 1), 1, (2, 2), {}),
        ((3, 3, 1), 1, (2, 2), dict(strides=(1, 1), padding="same")),
        ((3, 3, 1), 2, (2, 2), dict(strides=(2, 2), padding="same")),
        ((3, 2, 2), 2, (2, 1), dict(padding="valid")),
        ((4, 3, 1), 1, (2, 2), dict(strides=(2, 1))),
        ((3, 3, 1), 1, (2, 2), dict(dilation_rate=(2, 2), padding="valid")),
        ((3, 3, 1), 1, (2, 2), dict(use_bias=False)),
        ((2, 3, 2), 2, (1, 2), dict(padding="same")),
        ((2, 2, 2), 2, (2, 1), dict(groups=2)),
        ((2, 4, 1), 1, (1, 2), dict(dilation_rate=(1, 2))),
        ((4, 2, 1), 1, (2, 1), dict(dilation_rate=(2, 1), padding="same")),
        ((2, 3, 1), 1, (1, 2), dict(strides=(1, 2), padding="same")),
    ]

    def mk(mode, n_in, ish, f, k, kw, domain="box", weights="conc", fixed=True, **extra):
        tag = f"{mode} {domain}{n_in} {ish} f{f} k{k} {sorted(kw.items())} {weights}" + "".join(
            f" {a}" for a, v in extra.items() if v)

        def b():
            return L.fwd(lambda: L.KL.Conv2D(f, k, **kw), [ish], mode, n_in=n_in, domain=domain, w_fixed=fixed,
                         weights=weights, key=(tag,), **extra)

        return tag, dict(budget=90), b

    for mode in ("ibp", "affine", "hybrid"):
        for c in cfgs:
            yield mk(mode, 1, *c)
        yield mk(mode, 1, (2, 2, 1), 1, (2, 1), {}, weights="sym")
        yield mk(mode, 2, (2, 2, 1), 1, (2, 2), {})
        if mode == "affine":  # the network input itself, represented by a diagonal
            for ish, f, k, kw in [
                ((2, 2, 1), 1, (2, 2), {}),
                ((2, 3, 1), 2, (2, 2), dict(padding="same")),
                ((1, 3, 2), 1, (1, 2), dict(strides=(1, 2), padding="same")),
                ((3, 3, 1), 1, (2, 2), dict(dilation_rate=(2, 2))),
                ((2, 4, 1), 1, (2, 2), dict(dilation_rate=(1, 2), use_bias=False)),
                ((3, 1, 1), 1, (2, 1), dict(dilation_rate=(2, 1), padding="same")),
            ]:
                yield mk(mode, int(np.prod(ish)), ish, f, k, kw, fixed=False, identity=True)
        for d in ("linf", "l1", "l2"):
            yield mk(mode, 2, (2, 1, 1), 1, (2, 1), {}, domain=d)
