from props.lazy import Lazy

L = Lazy("props.metr")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "exp, log and sigmoid enter through monotonicity, convexity and derivative facts (symx/axioms.py)",
    "bounds up to 16 in absolute value: the metrics exclude labels with a penalty of 1e6",
])


def cases():
    def mk(tag, f, tier="quick", budget=60, ax=None):
        def b():
            from symx import axioms

            axs = axioms.table(1 / 16, -8, 8) if ax == "table" else axioms.default if ax == "default" else axioms.monotone if ax else None
            return f(axioms=axs) if ax else f()

        return tag, dict(tier=tier, budget=budget), b

    doms = lambda mode: ("box",) if mode == "ibp" else ("box", "linf", "l1", "l2")
    for mode in ("ibp", "affine", "hybrid"):
        for dom in doms(mode):
            for n_in, n_out, n in ((1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 2, 2), (2, 3, 2)):
                if n > 1 and dom != "box" and n_out > 2:
                    continue
                t = f"{mode} {dom} {n_in}->{n_out} batch {n}"
                tier = "thorough" if n_out == 3 and n == 2 and mode == "hybrid" else "quick"
                a = (mode, dom, n_in, n_out, n)
                yield mk(f"adv loss {t}", lambda a=a: L.adv_loss(*a), tier)
                for w in ("upper", "lower"):
                    yield mk(f"{w} loss {t}", lambda a=a, w=w: L.side_loss(w, *a), tier)
                yield mk(f"asymptotic cross entropy {t}", lambda a=a: L.fusion(*a, asymptotic=True), tier)
                if n == 1 or n_out == 2:
                    for w in ("score", "upper"):
                        yield mk(f"metric {w} {t}", lambda a=a, w=w: L.metric(w, *a), tier)
            for n_out in (2, 3) if dom != "l2" else (2,):
                if (mode, dom) == ("hybrid", "l2"):
                    continue
                yield mk(f"cross entropy {mode} {dom} {n_out}", lambda m=mode, d=dom, k=n_out, **kw: L.fusion(m, d, 1, k, **kw), ax="default",
                         tier="quick" if n_out == 2 else "thorough", budget=200)
            if mode != "ibp":
                for w in ("score", "upper"):
                    yield mk(f"metric {w} {mode} {dom} backward", lambda m=mode, d=dom, w=w: L.metric(w, m, d, 2, 2, backward=True))
                    yield mk(f"metric {w} {mode} {dom} backward 3", lambda m=mode, d=dom, w=w: L.metric(w, m, d, 2, 3, backward=True))
        for clip in (-1.0, 0.0):
            yield mk(f"adv loss {mode} clip {clip}", lambda m=mode, c=clip: L.adv_loss(m, "box", 2, 3, clip=c))
        yield mk(f"adv loss {mode} sigmoid", lambda m=mode, **kw: L.adv_loss(m, "box", 1, 2, sigmoid=True, **kw), ax="mono", budget=200)
        yield mk(f"cross entropy {mode} builder", lambda m=mode, **kw: L.fusion(m, "box", 1, 2, via="build", **kw), ax="default")
        yield mk(f"cross entropy {mode} batch 2", lambda m=mode, **kw: L.fusion(m, "box", 1, 2, n=2, **kw), ax="default")
        for dom in doms(mode):
            yield mk(f"asymptotic cross entropy {mode} {dom} builder", lambda m=mode, d=dom: L.fusion(m, d, 2, 3, asymptotic=True, via="build"))
        for n_in, n_out, n in ((1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 2, 2)):
            yield mk(f"metric check {mode} {n_in}->{n_out} batch {n}", lambda m=mode, a=n_in, b=n_out, n=n: L.attained(m, a, b, n))
            if mode != "ibp" and n == 1:
                yield mk(f"metric check {mode} {n_in}->{n_out} backward", lambda m=mode, a=n_in, b=n_out: L.attained(m, a, b, backward=True))
        if mode != "ibp":
            for n_in, n_out in ((1, 2), (2, 2), (2, 3)):
                for bk in (False, True):
                    for k in range(2):
                        yield mk(f"radius {mode} {n_in}->{n_out} {'backward ' if bk else ''}{k}",
                                 lambda m=mode, a=n_in, b=n_out, bk=bk, k=k: L.radius(m, a, b, bk, conc=k, key=(k,)))
            yield mk(f"radius {mode} builder", lambda m=mode: L.radius(m, 2, 2, via="build"))
    for net in ("relu", "relu3"):
        for method in ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-hybrid"):
            for w in ("score", "upper", "adv_loss", "asymptotic"):
                for k in range(2):
                    yield mk(f"net {net} {method} {w} {k}", lambda n=net, m=method, w=w, k=k: L.net_metric(n, w, m, k, (k,)), budget=90)
