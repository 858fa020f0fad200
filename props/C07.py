from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])


def cases():
    lay = {
        "add": lambda: L.KL.Add(),
        "average": lambda: L.KL.Average(),
        "subtract": lambda: L.KL.Subtract(),
        "minimum": lambda: L.KL.Minimum(),
        "maximum": lambda: L.KL.Maximum(),
        "concatenate": lambda: L.KL.Concatenate(),
        "concatenate axis1": lambda: L.KL.Concatenate(axis=1),
        "multiply": lambda: L.KL.Multiply(),
        "dot": lambda: L.KL.Dot(axes=1),
        "dot axes-1": lambda: L.KL.Dot(axes=-1),
        "dot axes2": lambda: L.KL.Dot(axes=2),
        "dot axes(1,2)": lambda: L.KL.Dot(axes=(1, 2)),
        "dot axes(2,1)": lambda: L.KL.Dot(axes=(2, 1)),
        "dot axes(3,2)": lambda: L.KL.Dot(axes=(3, 2)),
        "dot normalize": lambda: L.KL.Dot(axes=1, normalize=True),
        "concatenate axis-2": lambda: L.KL.Concatenate(axis=-2),
        "concatenate axis2": lambda: L.KL.Concatenate(axis=2),
    }

    def mk(name, shapes, mode, n_in=1, domain="box", fixed=True, budget=90, tier="quick", lab="", **kw):
        tag = f"{name} {mode} {domain}{n_in} {shapes} {lab}".strip() + ("" if fixed else " symw")

        def b():
            if "normalize" in name:
                return L.or_refused(lambda: L.fwd(lay[name], shapes, mode, n_in=n_in, conc=1, key=(tag,), **kw), name)
            return L.fwd(lay[name], shapes, mode, n_in=n_in, domain=domain, w_fixed=fixed, key=(tag,), **kw)

        return tag, dict(budget=budget, tier=tier), b

    nonlin = ("minimum", "maximum", "multiply")
    for mode in ("ibp", "affine", "hybrid"):
        # the constant and the affine incoming slacks are both free, except for nonlinear merges in hybrid mode, where
        # one of them is free at a time (both free: thorough tier)
        split = [dict(cs=4.0, lab="slackA"), dict(ws=4.0, lab="slackB")]
        for name in ("add", "average", "subtract") + nonlin:
            hard = name in nonlin and mode == "hybrid"
            for kw in split if hard else [{}]:
                kw = dict(kw)
                lab = kw.pop("lab", "")
                yield mk(name, [(2,), (2,)], mode, 2, lab=lab, tier="thorough" if hard else "quick", budget=600 if hard else 60, **kw)
                if hard:
                    yield mk(name, [(1,), (1,)], mode, 1, lab=lab, **kw)
                yield mk(name, [(1, 2), (1, 2)], mode, 1, lab=lab, **kw)
            if hard:
                yield mk(name, [(2,), (2,)], mode, 2, tier="thorough", budget=600)
                for k in range(4):
                    yield mk(name, [(2,), (2,)], mode, 2, lab=f"concrete{k}", conc=k)
            if name not in nonlin or mode != "hybrid":
                yield mk(name, [(1,), (1,)], mode, 1, fixed=False)
        for name in ("add", "average") + nonlin:
            if name in nonlin and mode != "ibp":
                for k in range(4):
                    yield mk(name, [(2,)] * 3, mode, 2, lab=f"concrete{k}", conc=k)
                yield mk(name, [(1,)] * 3, mode, 1, lab="exact incoming", cs=4.0, ws=0.0, tier="thorough", budget=600)
                yield mk(name, [(1,)] * 3, mode, 1, tier="thorough", budget=600)
            else:
                yield mk(name, [(1,)] * 3, mode, 2)
        yield mk("average", [(1,)] * 4, mode, 1)
        yield mk("add", [(2,), (2,)], mode, 2, domain="linf")
        yield mk("subtract", [(1,), (1,)], mode, 2, domain="l1")
        yield mk("maximum", [(1,), (1,)], mode, 2, domain="l1", lab="exact incoming", cs=4.0, ws=0.0)
        yield mk("add", [(1,), (1,)], mode, 2, domain="l2", **(dict(ws=0.0, cs=4.0) if mode == "hybrid" else {}))
        for shapes in ([(2,), (2,)], [(1,), (3,)], [(2,), (1,), (2,)], [(2, 1), (2, 2)]):
            yield mk("concatenate", shapes, mode, 2)
        yield mk("concatenate axis1", [(1, 2), (2, 2)], mode, 2)
        for k in range(3):
            yield mk("dot", [(2,), (2,)], mode, 2, lab=f"concrete{k}", conc=k)
        yield mk("dot", [(2,), (2,)], mode, 1, lab="exact incoming", cs=4.0, ws=0.0,
                 **(dict(tier="thorough", budget=600) if mode == "hybrid" else {}))
        yield mk("dot", [(1,), (1,)], mode, 1, lab="slackB", ws=4.0)
        yield mk("dot normalize", [(2,), (2,)], mode)
        yield mk("dot axes-1", [(2,), (2,)], mode, 2, lab="concrete0", conc=0)
        for nm, shapes in (("dot", [(2, 1), (2, 2)]), ("dot axes2", [(1, 2), (2, 2)]), ("dot axes-1", [(1, 2), (2, 2)]),
                           ("dot axes(1,2)", [(2, 1), (2, 2)]), ("dot axes(2,1)", [(2, 2), (2, 1)]),
                           ("dot axes(2,1)", [(2, 2), (2,)]), ("dot axes(3,2)", [(1, 1, 2), (1, 2)])):
            yield mk(nm, shapes, mode, 1, lab="concrete0", conc=0)
        yield mk("concatenate axis2", [(2, 2, 2), (2, 3, 2)], mode, 2)
        yield mk("concatenate axis2", [(2, 2), (2, 3)], mode, 2)
        yield mk("concatenate axis-2", [(2, 2), (2, 2)], mode, 2)
        yield mk("concatenate axis-2", [(2, 2), (3, 2)], mode, 2)
