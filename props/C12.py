from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])


def fn(name):
    import decomon.backward_layers.utils as U

    return getattr(U, "backward_" + name)


def cases():
    def mk(name, layer, shapes, mode, lab="", func=False, refusable=False, tier="quick", budget=90, **kw):
        tag = f"{name} {mode} {shapes} {'function ' if func else ''}{lab}".strip()

        def b():
            def make():
                return L.bmerge(layer, shapes, mode, func=fn(name) if func else None, key=(tag,), **kw)

            return L.or_refused(make, tag) if refusable else make()

        return tag, dict(tier=tier, budget=budget), b

    two = {
        "add": lambda: L.KL.Add(), "subtract": lambda: L.KL.Subtract(), "maximum": lambda: L.KL.Maximum(),
        "minimum": lambda: L.KL.Minimum(), "multiply": lambda: L.KL.Multiply(), "average": lambda: L.KL.Average(),
    }
    for mode in ("ibp", "affine", "hybrid"):
        for name, layer in two.items():
            minmax = name in ("maximum", "minimum")
            hard = minmax and mode == "hybrid"
            free = [dict(cs=4.0, lab="slackA"), dict(ws=4.0, lab="slackB")] if hard else [{}]
            for kw in free:
                for sh in ((1,), (2,), (1, 2)):
                    for n_in in (1, 2):
                        if n_in == 2 and sh != (2,):
                            continue
                        k = dict(kw)
                        lab = k.pop("lab", "") + (" n_in 2" if n_in == 2 else "")
                        t = dict(tier="thorough", budget=600) if hard and (n_in == 2 or sh != (1,)) else {}
                        if name != "average":
                            h = minmax and mode != "ibp" and sh != (1,) or hard
                            yield mk(name, layer, [sh, sh], mode, lab, func=True, n_in=n_in, **k, **(dict(tier="thorough", budget=600) if h else t))
                        yield mk(name, layer, [sh, sh], mode, lab + " layer decomon", decomon=True, n_in=n_in, **k, **t)
                        if name in ("add", "average"):
                            yield mk(name, layer, [sh, sh], mode, lab + " layer", n_in=n_in, **k)
            if name in ("add", "subtract"):
                yield mk(name, layer, [(1,), (1,)], mode, "sym outer", func=True, m=1, sym_outer=True)
            for k in range(3):
                if name != "average":
                    yield mk(name, layer, [(2,), (2,)], mode, f"conc{k}", func=True, conc=k, n_in=1 + k % 2)
                yield mk(name, layer, [(2,), (2,)], mode, f"conc{k} layer", decomon=True, conc=k, n_in=1 + k % 2)
            if minmax and mode != "ibp":
                yield mk(name, layer, [(1,), (1,)], mode, "exact incoming", func=True, cs=4.0, ws=0.0, m=1)
            for dom in ("linf", "l1"):
                if mode != "ibp" and not minmax:
                    yield mk(name, layer, [(1,), (1,)], mode, f"{dom} layer", decomon=True, cs=4.0, ws=0.0, n_in=2, domain=dom)
                if mode == "affine" and minmax:
                    yield mk(name, layer, [(1,), (1,)], mode, f"{dom} layer", decomon=True, n_in=2, domain=dom)
            if name != "subtract":
                for n in (3, 4):
                    for dec in (False, True):
                        yield mk(name, layer, [(2,)] * n, mode, f"{n} inputs" + (" decomon" if dec else ""), decomon=dec, conc=7,
                                 refusable=True)
        for n in (3, 4):
            yield mk("average", two["average"], [(1,)] * n, mode, f"{n} inputs free", decomon=True)
        for sh, ax in ((((2,), (2,)), -1), (((1,), (3,)), -1), (((2,), (2,)), 1), (((2,), (1,), (2,)), -1), (((1, 2), (2, 2)), 1),
                       (((2, 1), (2, 2)), -1), (((2, 1), (2, 2)), 2), (((1, 2, 2), (1, 1, 2)), -2)):
            yield mk("concatenate", lambda ax=ax: L.KL.Concatenate(axis=ax), list(sh), mode, f"axis {ax} layer", decomon=True, joint=True)
        yield mk("dot", lambda: L.KL.Dot(axes=1), [(2,), (2,)], mode, "layer", decomon=True, refusable=True, conc=1)
