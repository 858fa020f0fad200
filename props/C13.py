from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
SIZES = [(1, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 1), (2, 3, 2), (1, 3, 2), (3, 1, 3), (3, 3, 3), (4, 3, 2)]


def fns():
    from decomon.models.crown import MergeWithPrevious, merge_with_previous

    return {"function": lambda s: merge_with_previous, "layer": lambda s: MergeWithPrevious((None, s[0], s[1]), (None, s[1], s[2])),
            "layer without shapes": lambda s: MergeWithPrevious()}


def cases():
    def mk(what, s, lab="", **kw):
        tag = f"{what} {s} {lab}".strip()

        def b():
            return L.compose(fns()[what](s), *s, key=(tag,), **kw)

        return tag, dict(budget=90), b

    for what in ("function", "layer", "layer without shapes"):
        for s in SIZES:
            for k in range(2):
                yield mk(what, s, f"signs {k}")
            yield mk(what, s, "exact", equal=True)
        yield mk(what, (1, 1, 1), "all symbolic", sym=("iu", "il", "ou", "ol"))
        yield mk(what, (1, 2, 1), "outer symbolic", sym=("ou", "ol"))
        yield mk(what, (2, 1, 2), "outer symbolic", sym=("ou", "ol"))
        yield mk(what, (2, 2, 1), "inner symbolic", sym=("iu", "il"))
        yield mk(what, (1, 2, 1), "exact symbolic", sym=("iu", "il", "ou", "ol"), equal=True)
        if what != "layer":
            for s, d in (((2, 2, 1), ("iu", "il")), ((2, 2, 2), ("ou", "ol")), ((2, 2, 2), ("iu", "il", "ou", "ol")), ((2, 2, 2), ("iu",)),
                         ((2, 2, 2), ("ol",))):
                yield mk(what, s, "diagonal " + " ".join(d), diag=d)
    for mode in ("ibp", "affine", "hybrid"):
        for s in SIZES:
            for d in ("box", "l1") if s == (2, 2, 2) else ("box",):
                tag = f"fuse {mode} {s} {d}"
                yield tag, dict(budget=60), lambda mode=mode, s=s, d=d, tag=tag: L.fuse_case(mode, *s, key=(tag,), domain=d)

    def back(net, method, lab="", tier="quick", **kw):
        tag = f"back_bounds {net} {method} {lab}".strip()

        def b():
            n, make = N.NETS[net]
            return L.e2e_back(make, n, method, key=(tag,), **kw)

        return tag, dict(budget=120, tier=tier), b

    for method in ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid"):
        for four in (False, True):
            for m in (1, 2, 3):
                lab = f"{'four' if four else 'matrix'} {m}"
                yield back("linear", method, lab, four=four, m=m)
                yield back("relu", method, lab, four=four, m=m, conc=m)
            yield back("relu", method, f"{'four' if four else 'matrix'} symbolic box", four=four, m=1, tier="thorough")
            yield back("last relu", method, f"{'four' if four else 'matrix'}", four=four, m=2, conc=5)
            for dom in ("linf", "l1", "l2"):
                yield back("relu", method, f"{'four' if four else 'matrix'} {dom}", four=four, m=2, conc=7, domain=dom)
        for fi, fa in ((True, False), (True, True), (False, True)):
            if fa and method in ("crown", "crown-forward-ibp"):
                continue
            yield back("relu", method, f"final ibp {fi} affine {fa}", four=True, m=2, conc=8, clone_kw=dict(final_ibp=fi, final_affine=fa))
    for method in ("forward-ibp", "forward-affine", "forward-hybrid"):
        for four in (False, True):
            for m in (1, 2, 3):
                lab = f"{'four' if four else 'matrix'} {m}"
                yield back("linear", method, lab, four=four, m=m)
                yield back("relu", method, lab, four=four, m=m, conc=m)
            yield back("last relu", method, f"{'four' if four else 'matrix'}", four=four, m=2, conc=5)
            yield back("conv output", method, f"{'four' if four else 'matrix'}", four=four, m=2, conc=5)
            for dom in ("linf", "l1", "l2"):
                yield back("relu", method, f"{'four' if four else 'matrix'} {dom}", four=four, m=2, conc=7, domain=dom)
        for fi, fa in ((True, False), (True, True), (False, True)):
            yield back("relu", method, f"final ibp {fi} affine {fa}", four=True, m=2, conc=8, clone_kw=dict(final_ibp=fi, final_affine=fa))
