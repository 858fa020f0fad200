from props.lazy import Lazy

L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "exactness over an l2 ball is stated as (bound - value at the centre)^2 = eps^2 |w|^2; its soundness is the Cauchy-Schwarz inequality, decided by the solver up to dimension 2",
])

P = {"linf": float("inf"), "l1": 1, "l2": 2}


def case(domain, n, out, B=4, use_spec=None, diag=False, batch=1):
    """get_upper/get_lower of the domain on arbitrary affine functions, at an arbitrary point of the domain"""
    import numpy as np

    K = L
    E, tfx = K.E, K.tfx
    osh = tuple(out)
    wsh = osh if diag else (n,) + osh
    w = tfx.const_arr(np.ones(wsh)) if diag else tfx.symvar("w", wsh, -B, B)
    b = tfx.const_arr(np.zeros(osh)) if diag else tfx.symvar("b", osh, -B, B)
    assume, nl, hints = [], [], []
    box = domain == "box"
    eps = None
    if box:
        lo = tfx.symvar("lo", (n,), -B, B)
        th = tfx.symvar("width", (n,), 0, B)
        t = tfx.symvar("t", (n,), 0, B)
        for i in range(n):
            assume.append(E.ge(th[i], t[i]))
        hi, xs = lo + th, lo + t
        x = np.stack([lo, hi])[None]
    else:
        x0 = tfx.symvar("x0", (n,), -B, B)
        eps = tfx.symvar("eps", (), 0, B)[()]
        d = tfx.symvar("d", (n,), -B, B)
        xs = x0 + d
        x = x0[None]
        if domain == "linf":
            for i in range(n):
                assume += [E.ge(eps, d[i]), E.ge(eps, -d[i])]
        elif domain == "l1":
            assume.append(E.ge(eps, tfx._sum([E.abs_(v) for v in d])))
        else:
            nl.append(E.ge(E.mul(eps, eps), tfx._sum([E.mul(v, v) for v in d])))
    from decomon.core import BallDomain, BoxDomain

    def impl(x, w, b, *e):
        if box:
            dom = BoxDomain()
        else:
            dom = BallDomain(eps=0.5, p=P[domain])
            dom.eps = e[0]
        return [dom.get_upper(x, w, b), dom.get_lower(x, w, b)]

    def viol(outs, refs, ex):
        up, low = outs[0][0], outs[1][0]
        w_, b_, xs_ = ex["w"], ex["b"], ex["xs"]
        up, low = np.asarray(up, dtype=b_.dtype), np.asarray(low, dtype=b_.dtype)
        val = K.lin(w_, xs_, b_)
        r = []
        if domain != "l2" or n == 1:
            r += [("upper", val - up), ("lower", low - val)]
        if diag:
            wfull = None
        if box:
            lo_, hi_ = ex["lo"], ex["hi"]
            if diag:
                tu, tl = hi_.reshape(b_.shape), lo_.reshape(b_.shape)
            else:
                tu, tl = b_, b_
                for i in range(n):
                    tu = tu + K.p_max(w_[i] * lo_[i], w_[i] * hi_[i])
                    tl = tl + K.p_min(w_[i] * lo_[i], w_[i] * hi_[i])
        else:
            e_, x0_ = ex["eps"], ex["x0"]
            e_ = e_ if isinstance(e_, np.ndarray) else e_
            e_ = e_[0]
            if diag:
                tu, tl = x0_.reshape(b_.shape) + e_, x0_.reshape(b_.shape) - e_
            else:
                c = K.lin(w_, x0_, b_)
                if domain == "linf":
                    rad = 0 * b_
                    for i in range(n):
                        rad = rad + K.p_abs(w_[i]) * e_
                elif domain == "l1":
                    rad = K.p_abs(w_[0])
                    for i in range(1, n):
                        rad = K.p_max(rad, K.p_abs(w_[i]))
                    rad = rad * e_
                else:
                    sq = 0 * b_
                    for i in range(n):
                        sq = sq + w_[i] * w_[i]
                    sq = sq * e_ * e_
                    du, dl = up - c, c - low
                    return r + [("radius sign u", -du), ("radius sign l", -dl)] + [
                        (nm, s * (dd * dd - sq)) for nm, dd in (("exact u", du), ("exact l", dl)) for s in (1, -1)]
                tu, tl = c + rad, c - rad
        # attained: the bound is not above the largest value of the function over the domain
        return r + [("exact upper", up - tu), ("exact upper-", tu - up), ("exact lower", tl - low), ("exact lower-", low - tl)]

    ex = dict(w=w, b=b, xs=xs)
    args = [x, w[None], b[None]]
    if box:
        ex.update(lo=lo, hi=hi)
    else:
        ea = np.array([eps], dtype=object)
        ex.update(eps=ea, x0=x0)
        args.append(np.asarray(eps, dtype=object).reshape(()))
    return K.Case("", impl, args, viol, extras=ex, assume=assume, nl=nl,
                  bounds=f"{domain} of dimension {n}, affine functions of shape {osh}, |w|,|b|,|x|<={B}, radius/width in [0,{B}], all symbolic")


def cases():
    for dom in ("box", "linf", "l1", "l2"):
        for n in (1, 2, 3) if dom != "l2" else (1, 2):
            for out in ((1,), (2,), (1, 2)) if n < 3 else ((1,),):
                yield f"{dom} n={n} out={out}", dict(budget=60), (lambda dom=dom, n=n, out=out: case(dom, n, out))
        if dom != "l2":
            yield f"{dom} n=4 out=(1,)", dict(tier="thorough", budget=200), (lambda dom=dom: case(dom, 4, (1,)))
        for n in (1, 2):
            yield f"{dom} identity n={n}", dict(budget=60), (lambda dom=dom, n=n: case(dom, n, (n,), diag=True))
