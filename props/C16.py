from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3"])
METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid",
           "forward-ibp", "forward-affine", "forward-hybrid")
STRUCT = ("conv", "batchnorm", "add_skip", "minmax", "two_heads", "shared_twice", "first relu", "linear")
REFUSED = ("add_skip", "minmax", "shared_twice")


def cases():
    def mlp(dom, units, method, tier="quick", budget=100, lab="", **kw):
        tag = f"{dom} mlp{'-'.join(map(str, units))} {method} {lab}".strip()
        return tag, dict(tier=tier, budget=budget), lambda: L.e2e(
            N.mlp(units[0], *units[1:]), units[0], method, domain=dom, key=(units,), **kw)

    for dom in ("linf", "l1", "l2"):
        for method in METHODS:
            pure = method == "crown"
            for e in (0.5, 0.0):
                yield mlp(dom, (2, 3, 2), method, lab=f"eps {e}", conc=1, eps=e)
            yield mlp(dom, (2, 2, 1), method, lab="symbolic centre", eps=0.75, tier="thorough" if dom == "l2" else "quick")
            yield mlp(dom, (1, 2, 1), method, lab="symbolic centre", eps=0.75)
            heavy = dom == "l2" and method.endswith(("hybrid", "affine"))
            yield mlp(dom, (3, 3, 3, 1), method, conc=2, eps=1.0, tier="thorough" if heavy else "quick", budget=400 if heavy else 100)
            yield mlp(dom, (2, 3, 2), method, lab="same slope", conc=3, eps=1.0, slope="same-slope")
            for name in STRUCT:
                def b(name=name, method=method, dom=dom):
                    n, make = N.NETS[name]
                    f = lambda: L.e2e(make, n, method, domain=dom, key=(name,), conc=5, eps=0.5)
                    if method.startswith("crown") and name in REFUSED:
                        return L.or_refused(f, f"{name}, {method}")
                    return f()
                yield f"{dom} net {name} {method}", dict(budget=100, tier="thorough" if dom == "l2" and name == "conv" else "quick"), b
