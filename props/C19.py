from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
W = Lazy("props.wrap")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3",
                         "labels: an index, indices per sample, or 0/1 indicators of all labels per sample (one- or multi-hot)"])
INF = float("inf")
MODES = ("ibp", "affine", "hybrid")
METHODS = (None, "crown", "crown-forward-hybrid", "crown-forward-affine", "crown-forward-ibp", "forward-affine", "forward-hybrid", "forward-ibp")
# labels for 3 outputs, one sample and two samples
LAB1 = [(0, None), (2, None), ([1], None), ([[0, 2]], None), ([[0, 1, 0]], None), ([[1, 0, 1]], None),
        (0, 1), (1, 2), (2, [0]), ([[0]], [[1, 2]]), ([[1, 0, 0]], [[0, 0, 1]]), ([[1, 2]], [[0, 1, 0]]), (1, 1)]
LAB2 = [(1, None), ([2, 0], None), ([[1, 0, 0], [0, 0, 1]], None), ([[0, 1], [1, 2]], None), (0, 2), ([0, 1], [1, 2]),
        ([2, 2], [[1, 0, 0], [0, 1, 0]]), ([[1, 0, 0], [0, 1, 1]], [[0, 0, 1], [1, 0, 0]]), ([[0, 1, 0], [0, 0, 1]], 0)]
LAB3 = [([0, 1, 2], None), (1, [0, 2, 2]), ([[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 1], [1, 1, 0]]), (2, 0)]


def s(v):
    return str(v).replace(" ", "")


def cases():
    for kind in ("adv", "check"):
        for mode in MODES:
            def case(nb, n, osh, lab, tgt, budget=60, tier="quick", mode=mode, kind=kind, **kw):
                o = " ".join(f"{k}={v}" for k, v in kw.items())
                return (f"{kind} {mode} x{nb} in{n} out{s(osh)} s={s(lab)} t={s(tgt)} {o}".strip(), dict(budget=budget, tier=tier),
                        lambda: W.adv_box(mode, nb, n, osh, lab, tgt, kind=kind, **kw))

            for lab, tgt in LAB1:
                yield case(1, 1, (3,), lab, tgt, conc=1, wfix=True)
                yield case(1, 2, (3,), lab, tgt, conc=2, wfix=True)
            for lab, tgt in LAB2:
                yield case(2, 1, (3,), lab, tgt, conc=3, wfix=True)
                for bs in (1, 2):
                    yield case(2, 1, (3,), lab, tgt, conc=3, wfix=True, batch_size=bs)
            for lab, tgt in LAB3:
                for bs in (-1, 1, 2, 3, 4):
                    yield case(3, 2, (3,), lab, tgt, conc=4, wfix=True, batch_size=bs)
            for lab, tgt in ((0, None), (1, 0), ([[0, 1]], None)):
                if mode != "hybrid":
                    yield case(1, 1, (2,), lab, tgt, conc=1)
                yield case(1, 1, (2,), lab, tgt, wfix=True)
            yield case(2, 1, (2,), 1, None, wfix=True)
            yield case(4, 1, (2,), 1, None, conc=5, wfix=True)
            yield case(1, 4, (2,), 1, None, conc=6, wfix=True, xshape=(2, 2))
            if kind == "adv":
                for sub in (2, 3, 4):
                    yield case(1, 2, (3,), 1, None, conc=7, wfix=True, sub=sub)
                    yield case(2, 2, (3,), [0, 2], [[1, 0, 0], [0, 1, 0]], conc=8, wfix=True, sub=sub)
                yield case(2, 2, (3,), [0, 2], [1, 1], conc=8, wfix=True, sub=4, batch_size=3)
                yield case(1, 4, (2,), 1, None, conc=9, wfix=True, sub=4, xshape=(2, 2))
                yield case(1, 2, (3,), 1, None, sub=2, wfix=True, tier="thorough", budget=300)
                yield case(1, 1, (4,), [[0, 3]], None, tier="thorough", budget=300)
    for mode in MODES:
        for p in (INF, 1, 2):
            def noise(nb, n, osh, lab, tgt, mode=mode, p=p, **kw):
                o = " ".join(f"{k}={v}" for k, v in kw.items())
                return (f"noise p{p} {mode} x{nb} in{n} out{s(osh)} s={s(lab)} t={s(tgt)} {o}".strip(), dict(budget=60),
                        lambda: W.adv_noise(mode, nb, n, osh, p, lab, tgt, wfix=True, **kw))

            for lab, tgt in LAB1:
                yield noise(1, 2, (3,), lab, tgt, conc=1)
            for lab, tgt in LAB2[:6]:
                yield noise(2, 2, (3,), lab, tgt, conc=2)
                yield noise(2, 2, (3,), lab, tgt, conc=2, batch_size=1)
            for lab, tgt in LAB3[:2]:
                yield noise(3, 2, (3,), lab, tgt, conc=3, batch_size=2)
            yield noise(1, 1, (2,), 0, None)
    nets = {"2-3-3": (2, lambda: N.mlp(2, 3, 3)()), "3-2-2-3": (3, lambda: N.mlp(3, 2, 2, 3)())}
    for method in METHODS:
        tag = method or "keras"
        for nm, (n, mk) in nets.items():
            def net(lab, tgt=None, budget=60, method=method, nm=nm, n=n, mk=mk, tag=tag, **kw):
                o = " ".join(f"{k}={v}" for k, v in kw.items())
                return (f"net {nm} {tag} s={s(lab)} t={s(tgt)} {o}", dict(budget=budget),
                        lambda: W.net_adv(mk, n, lab, tgt, method=method, **kw))

            yield net(0, conc=1)
            yield net(1, 2, conc=1)
            yield net([[1, 0, 1]], conc=2)
            yield net([0, 2], [[0, 1, 0], [1, 1, 0]], nb=2, conc=3, batch_size=1)
            yield net(2, conc=4, sub=4)
            yield net(0, conc=5, kind="check")
            yield net([1, 2], [0, 0], nb=2, conc=6, kind="check", batch_size=1)
            for p in (INF, 1, 2):
                yield net(0, ball=(p, 0.5), conc=1)
                yield net([1, 0, 2], [2, 2, 0], ball=(p, 0.5), nb=3, batch_size=2, conc=1)
                if method:
                    yield net(1, ball=(p, 0.5), before=(p, 0.125), conc=2)
                    yield net(1, ball=(p, 0.5), neg=True, conc=2)
            if method:
                yield net(0, conc=1, back=True)
                yield net([1, 0], nb=2, conc=2, back=True)
                yield net([[1, 2]], conc=2, back=True)
                yield net([[1, 1, 0]], conc=3, back=True)
                yield net(1, 2, conc=1, back=True)
                yield net([2, 0], [[0, 1, 0], [0, 1, 1]], nb=2, conc=3, batch_size=1, back=True)
                yield net(2, conc=4, sub=4, back=True)
                for final in ((True, True), (True, False), (False, True)):
                    yield net(0, conc=1, final=final)
                    yield net(0, conc=1, back=True, final=final)
