from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
W = Lazy("props.wrap")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
INF = float("inf")
METHODS = (None, "crown", "crown-forward-hybrid", "crown-forward-affine", "crown-forward-ibp", "forward-affine", "forward-hybrid", "forward-ibp")


def cases():
    def box(mode, nb, n, osh, budget=60, tier="quick", **kw):
        lab = " ".join(f"{k}={v}" for k, v in kw.items())
        return f"box {mode} x{nb} in{n} out{osh} {lab}".strip(), dict(budget=budget, tier=tier), lambda: W.range_box(mode, nb, n, osh, **kw)

    for mode in ("ibp", "affine", "hybrid"):
        for n, osh in ((1, (1,)), (1, (2,)), (2, (1,)), (2, (2,)), (1, (1, 2)), (2, (2, 1))):
            yield box(mode, 1, n, osh)
        for which in ("upper", "lower"):
            yield box(mode, 1, 1, (2,), which=which)
        for bs in (-1, 1, 2):
            yield box(mode, 2, 1, (1,), batch_size=bs)
            yield box(mode, 3, 2, (2,), batch_size=bs, conc=1, wfix=True)
        yield box(mode, 3, 1, (1, 2), batch_size=2, conc=1, wfix=True)
        for sub in (2, 3, 4, 5):
            yield box(mode, 1, 1, (1,), sub=sub, wfix=True)
            yield box(mode, 1, 2, (2,), sub=sub, conc=2, wfix=True)
        yield box(mode, 2, 2, (2,), sub=4, conc=3, wfix=True)
        yield box(mode, 2, 2, (2,), sub=4, conc=3, wfix=True, batch_size=3)
        yield box(mode, 2, 2, (1, 2), sub=2, conc=3, wfix=True, batch_size=2)
        yield box(mode, 1, 4, (2,), sub=2, conc=4, wfix=True, xshape=(2, 2))
        yield box(mode, 1, 4, (1,), sub=4, conc=5, wfix=True, xshape=(2, 2, 1))
        yield box(mode, 1, 4, (1,), conc=5, wfix=True, xshape=(2, 2))
        yield box(mode, 1, 2, (1,), sub=2, budget=200, tier="thorough")
        yield box(mode, 1, 2, (2,), sub=8, conc=6, wfix=True, tier="thorough", budget=300)

    def noise(mode, nb, n, osh, p, budget=60, tier="quick", **kw):
        lab = " ".join(f"{k}={v}" for k, v in kw.items())
        return f"noise {mode} p{p} x{nb} in{n} out{osh} {lab}".strip(), dict(budget=budget, tier=tier), lambda: W.range_noise(mode, nb, n, osh, p, **kw)

    for mode in ("ibp", "affine", "hybrid"):
        for p in (INF, 1, 2):
            yield noise(mode, 1, 1, (2,), p)
            yield noise(mode, 1, 2, (1,), p, wfix=True)
            yield noise(mode, 2, 2, (2,), p, wfix=True, conc=1)
            yield noise(mode, 3, 2, (2,), p, wfix=True, conc=1, batch_size=2)
            yield noise(mode, 1, 2, (1, 2), p, wfix=True, conc=2)
        for which in ("upper", "lower"):
            yield noise(mode, 1, 2, (2,), INF, wfix=True, which=which)
        yield noise(mode, 1, 2, (1,), INF)

    for method in METHODS:
        mlp = lambda **kw: W.net_range(N.mlp(2, 3, 2), 2, "range", method=method, **kw)
        tag = method or "keras"
        yield f"net box {tag}", dict(budget=60), lambda mlp=mlp: mlp(conc=1)
        yield f"net box {tag} sub-boxes", dict(budget=60), lambda mlp=mlp: mlp(conc=2, sub=4)
        yield f"net box {tag} batch", dict(budget=60), lambda mlp=mlp: mlp(conc=3, nb=2, batch_size=1)
        for p in (INF, 1, 2):
            yield f"net noise p{p} {tag}", dict(budget=60), lambda mlp=mlp, p=p: mlp(conc=1, ball=(p, 0.5))
            yield f"net noise p{p} {tag} batch", dict(budget=60), lambda mlp=mlp, p=p: mlp(conc=1, nb=3, batch_size=2, ball=(p, 0.5))
            if method is not None:
                for before in ((p, 0.125), (2 if p != 2 else 1, 0.25), (INF if p != INF else 1, 2.0)):
                    yield f"net noise p{p} {tag} after p{before[0]} eps{before[1]}", dict(budget=60), \
                        lambda mlp=mlp, p=p, before=before: mlp(conc=1, ball=(p, 1.0), before=before)

    # the domain of the model is kept, outputs asked for explicitly
    for method in METHODS:
        if method is None:
            continue
        mlp = lambda **kw: W.net_range(N.mlp(2, 3, 2), 2, kw.pop("which", "range"), method=method, **kw)
        for p in (INF, 1, 2):
            yield f"net noise p{p} {method} eps of the model", dict(budget=60), lambda mlp=mlp, p=p: mlp(conc=1, ball=(p, 0.75), neg=True)
        for final in ((True, False), (False, True), (True, True)):
            tag = f"final {'ibp' * final[0]} {'affine' * final[1]}"
            yield f"net box {method} {tag}", dict(budget=60), lambda mlp=mlp, final=final: mlp(conc=1, final=final)
            yield f"net noise p2 {method} {tag}", dict(budget=60), lambda mlp=mlp, final=final: mlp(conc=1, ball=(2, 0.5), final=final, which="upper")
            yield f"net box {method} {tag} batch", dict(budget=60), lambda mlp=mlp, final=final: mlp(conc=3, nb=3, batch_size=2, final=final, which="lower")
