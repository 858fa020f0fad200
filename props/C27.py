from props.lazy import Lazy

I = Lazy("props.ident")
L = Lazy("props.lib")
K = Lazy("keras.layers")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "convolutions: kernel symbolic with a fixed input, and input symbolic with a fixed kernel (bilinear in both)",
])


def cases():
    for name in ("BatchedIdentityLike", "BatchedDiagLike"):
        for sh in ((1, 2), (2, 2), (3, 1), (2, 3), (1, 3, 2), (2, 3, 2)):
            if name == "BatchedDiagLike" and len(sh) > 2:
                continue
            yield f"{name} {sh}", dict(budget=30), lambda name=name, sh=sh: I.batched(name, sh)
    for sh in ((1, 3), (2, 2), (2, 2, 2), (1, 2, 1, 2)):
        yield f"identity {sh}", dict(budget=30), lambda sh=sh: I.identity_lirpa(sh)
    convs = {
        "2x2": ((3, 3, 1), lambda: K.Conv2D(2, 2)), "same": ((3, 2, 1), lambda: K.Conv2D(1, 2, padding="same")),
        "strides": ((4, 3, 1), lambda: K.Conv2D(2, 2, strides=2)), "channels": ((3, 3, 2), lambda: K.Conv2D(2, 2, use_bias=False)),
        "dilated": ((4, 4, 1), lambda: K.Conv2D(1, 2, dilation_rate=2)), "1x1": ((2, 3, 2), lambda: K.Conv2D(3, 1)),
        "3x3": ((3, 4, 1), lambda: K.Conv2D(2, 3, padding="same")), "2x3": ((3, 4, 1), lambda: K.Conv2D(1, (2, 3))),
        "strides same": ((3, 4, 1), lambda: K.Conv2D(2, 2, strides=2, padding="same")),
        "first": ((1, 3, 3), lambda: K.Conv2D(2, 2, data_format="channels_first")),
        "first channels": ((2, 3, 2), lambda: K.Conv2D(2, 2, data_format="channels_first")),
        "first same": ((1, 2, 3), lambda: K.Conv2D(2, 2, padding="same", data_format="channels_first")),
        "first strides": ((1, 4, 3), lambda: K.Conv2D(1, 2, strides=2, data_format="channels_first")),
        "strides 2 1": ((4, 3, 1), lambda: K.Conv2D(1, 2, strides=(2, 1))), "strides 1 2 same": ((3, 4, 1), lambda: K.Conv2D(1, 2, strides=(1, 2), padding="same")),
        "first strides 2 1": ((1, 4, 3), lambda: K.Conv2D(1, 2, strides=(2, 1), data_format="channels_first")),
        "first strides 1 2 same": ((1, 3, 4), lambda: K.Conv2D(1, 2, strides=(1, 2), padding="same", data_format="channels_first")),
        "strides 1 3 kernel 2 1": ((2, 4, 1), lambda: K.Conv2D(2, (2, 1), strides=(1, 3))),
        "dilated 1 2": ((3, 4, 1), lambda: K.Conv2D(1, 2, dilation_rate=(1, 2))), "first dilated 2 1": ((1, 4, 3), lambda: K.Conv2D(1, 2, dilation_rate=(2, 1), data_format="channels_first")),
    }
    for name, (sh, mk) in convs.items():
        for symb in ("kernel", "input"):
            for flat in (True, False):
                if not flat and name.startswith("first"):
                    continue
                tag = f"toeplitz {name} {symb}{'' if flat else ' not flattened'}"
                def f(mk=mk, sh=sh, flat=flat, symb=symb, name=name):
                    return I.toeplitz(mk, sh, flat, (name,), symb)

                if name in ("2x3", "strides 1 3 kernel 2 1"):  # kernels which are not square are refused
                    yield tag, dict(budget=60), lambda f=f, tag=tag: L.or_refused(f, tag)
                else:
                    yield tag, dict(budget=60), f
    for name in ("relu_prime", "sigmoid_prime", "tanh_prime", "softsign_prime"):
        yield name, dict(budget=60), lambda name=name: I.prime(name)
    for which in ("upper", "lower"):
        for n in (2, 3):
            for col in ((), (0,), (n - 1,)):
                yield (f"max {which} {n} collapsed {col}", dict(budget=120, tier="quick" if n == 2 else "thorough"),
                       lambda which=which, n=n, col=col: I.hull_max(which, (n,), -1, collapsed=col))
        for k in range(3):
            for col in ((), (0,), (1,), (2,)):
                yield f"max {which} 3 fixed {k} collapsed {col}", dict(budget=60), lambda which=which, k=k, col=col: I.hull_max(which, (3,), -1, conc=k, collapsed=col)
            yield f"max {which} 3 fixed {k} ties", dict(budget=60), lambda which=which, k=k: I.hull_max(which, (3,), -1, conc=k, ties=((0, 1),))
            for sh, ax in (((2, 3), -1), ((2, 3), 1), ((2, 3), 2), ((2, 2, 3), 1), ((2, 2, 3), 2), ((2, 2, 3), 3), ((2, 2, 3), -1)):
                yield f"max {which} {sh} axis {ax} fixed {k}", dict(budget=60), lambda which=which, sh=sh, ax=ax, k=k: I.hull_max(which, sh, ax, conc=k)
