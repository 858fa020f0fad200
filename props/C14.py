from props.lazy import Lazy

L = Lazy("props.lib")
N = Lazy("props.nets")
META = dict(assumptions=["real arithmetic (float rounding outside the claim), tolerance 1e-3",
                         "bounds converted from ibp to affine are constant functions: nothing is claimed on their domain"])
M = ("ibp", "affine", "hybrid")
DOM = (("box", 1), ("box", 2), ("linf", 2), ("l1", 2), ("l2", 2))


def cases():
    for a in M:
        for b in M:
            for d, n in DOM:
                for sh in ((1,), (2,), (2, 2)) if d == "box" else ((2,),):
                    tag = f"convert {a} {b} {d}{n} {sh}"
                    yield tag, dict(budget=60), lambda a=a, b=b, d=d, n=n, sh=sh, tag=tag: L.convert2mode(a, b, n, sh, d, key=(tag,))
        for d, n in DOM:
            for sh in ((1,), (2,), (2, 2)) if d == "box" else ((2,),):
                for compute in (True, False):
                    for tight in (True, False):
                        for dc in (False, True):
                            tag = f"complete {a} {d}{n} {sh} compute {compute} tight {tight}" + (" dc" if dc else "")
                            yield tag, dict(budget=60), lambda a=a, d=d, n=n, sh=sh, compute=compute, tight=tight, dc=dc, tag=tag: L.completed(
                                a, n, sh, compute, tight, d, key=(tag,), dc=dc)
            for m in (1, 2, 3):
                tag = f"backward {a} {d}{n} {m}"
                yield tag, dict(budget=60), lambda a=a, d=d, n=n, m=m, tag=tag: L.convert2backward(a, n, m, d, key=(tag,))

    def e2e(net, method, fi, fa, domain="box", **kw):
        if fa and method in ("crown", "crown-forward-ibp", "forward-ibp"):  # constant functions, on whatever domain
            def viol(outs, refs, ex, m="hybrid" if fi else "affine", back=method.startswith("crown")):
                return [(k, v) for k, v in L.multi_enclosure(m, back)(outs, refs, ex) if "domain" not in k]

            kw["viol"] = viol
        tag = f"clone {net} {method} {domain} final ibp {fi} affine {fa}"

        def b():
            n, make = N.NETS[net]
            return L.e2e(make, n, method, domain=domain, key=(tag,), conc=1, clone_kw=dict(final_ibp=fi, final_affine=fa), **kw)

        return tag, dict(budget=120), b

    for method in ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid", "forward-ibp", "forward-affine", "forward-hybrid"):
        for net in ("relu", "last relu", "two_heads_depths"):
            for fi, fa in ((True, False), (False, True), (True, True)):
                yield e2e(net, method, fi, fa)
                if net == "relu":
                    for dom in ("linf", "l1", "l2"):
                        yield e2e(net, method, fi, fa, dom)
