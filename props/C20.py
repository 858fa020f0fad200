from props.lazy import Lazy

N = Lazy("props.nets")
W = Lazy("props.wrap")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3",
                         "random choices of refine_box: every sequence of draws"])
METHODS = (None, "crown", "crown-forward-hybrid", "forward-affine", "forward-ibp")


def cases():
    for nb, n, sub in ((1, 1, 2), (1, 1, 3), (1, 1, 4), (1, 2, 2), (1, 2, 4), (2, 2, 2), (1, 3, 2), (1, 2, 1), (2, 1, 4)):
        yield f"cover x{nb} in{n} sub{sub}", dict(budget=90), lambda nb=nb, n=n, sub=sub: W.refine_cover(nb, n, sub)
    for nb, n, sub in ((2, 2, 8), (3, 3, 8), (2, 4, 16), (1, 2, 20), (2, 2, 5)):
        yield f"cover x{nb} in{n} sub{sub} fixed box", dict(budget=90), lambda nb=nb, n=n, sub=sub: W.refine_cover(nb, n, sub, conc=1)
    for nb, sh, sub in ((1, (2, 2), 4), (2, (1, 3), 8), (2, (2, 2, 1), 4)):
        n = sh[0] * sh[1]
        yield f"cover x{nb} image{sh} sub{sub}", dict(budget=90), lambda nb=nb, n=n, sub=sub, sh=sh: W.refine_cover(nb, n, sub, conc=1, xshape=sh)
    yield "cover x1 image(1, 2) sub2", dict(budget=90), lambda: W.refine_cover(1, 2, 2, xshape=(1, 2))
    yield "cover x1 in2 sub8", dict(budget=300, tier="thorough"), lambda: W.refine_cover(1, 2, 8)
    yield "cover x1 in3 sub4", dict(budget=300, tier="thorough"), lambda: W.refine_cover(1, 3, 4)
    for mode in ("ibp", "affine", "hybrid"):
        for which in ("upper", "lower", "range"):
            for random in (False, True):
                def rf(nb, n, osh, k, mode=mode, which=which, random=random, **kw):
                    o = " ".join(f"{a}={b}" for a, b in kw.items())
                    return (f"{which} {mode} x{nb} in{n} out{osh} split{k} random={random} {o}", dict(budget=60),
                            lambda: W.refined(mode, nb, n, osh, which, k, random=random, **kw))

                yield rf(1, 1, (1,), 2)
                yield rf(1, 2, (2,), 3, conc=1)
                yield rf(2, 2, (2,), 2, conc=2)
                yield rf(2, 2, (2,), 3, conc=3, batch_size=2)
                yield rf(1, 2, (2,), 1, conc=3)
                if not random:
                    yield rf(1, 2, (1, 2), 4, conc=4)
                    yield rf(2, 2, (2,), 5, conc=5)
                    yield rf(1, 4, (2,), 4, conc=6, xshape=(2, 2))
        for kind in ("adv", "check"):
            for random in (False, True):
                def ra(nb, n, osh, k, lab, tgt=None, mode=mode, kind=kind, random=random, **kw):
                    o = " ".join(f"{a}={b}" for a, b in kw.items())
                    return (f"{kind} {mode} x{nb} in{n} out{osh} split{k} s={lab} t={tgt} random={random} {o}", dict(budget=60),
                            lambda: W.refined_adv(mode, nb, n, osh, kind, k, lab, tgt, random=random, **kw))

                yield ra(1, 1, (2,), 2, 0)
                yield ra(1, 1, (3,), 3, 1, 2)
                yield ra(2, 1, (3,), 2, [0, 2], [[0, 1, 0], [1, 0, 0]])
                yield ra(2, 1, (3,), 2, [[1, 0, 1], [0, 1, 0]], batch_size=3)
                if not random:
                    yield ra(1, 2, (2,), 3, [[1, 0]])
                    yield ra(3, 1, (3,), 2, [0, 1, 2], [1, 2, 0], batch_size=2)
    for method in METHODS:
        tag = method or "keras"
        for which in ("upper", "lower", "range"):
            yield f"net {which} {tag}", dict(budget=60), lambda which=which, method=method: W.net_refined(N.mlp(2, 3, 2), 2, which, 4, method=method, conc=1)
            yield f"net {which} {tag} x2 random", dict(budget=60), lambda which=which, method=method: W.net_refined(
                N.mlp(2, 3, 2), 2, which, 2, method=method, conc=2, nb=2, random=True, batch_size=3)
        yield f"net adv {tag}", dict(budget=60), lambda method=method: W.net_refined(N.mlp(2, 3, 3), 2, "adv", 4, 1, method=method, conc=1)
        yield f"net adv {tag} x2", dict(budget=60), lambda method=method: W.net_refined(
            N.mlp(2, 3, 3), 2, "adv", 3, [0, 2], [1, 1], method=method, conc=2, nb=2, batch_size=4)
