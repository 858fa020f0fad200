import importlib

from props.lazy import Lazy

F = Lazy("props.conf")
L = Lazy("props.lib")
META = dict(assumptions=[
    "real arithmetic (float rounding outside the claim), tolerance 1e-3",
    "the configuration is passed from get_config to from_config as it is (no file)",
    "backward versions of layers with weights hold the layer they stand for, whose weights no configuration carries: outside",
])
# property -> one case out of n in the quick tier
SOURCES = {"C02": 2, "C03": 3, "C04": 3, "C05": 5, "C06": 3, "C07": 6, "C08": 5, "C11": 12, "C23": 16}


def cases():
    for pid, n in SOURCES.items():
        k = 0
        for name, opts, b in importlib.import_module(f"props.{pid}").cases():
            k += 1
            tag = f"{pid} {name}"
            tier = "quick" if k % n == 0 and opts.get("tier", "quick") == "quick" else "thorough"
            yield tag, dict(opts, tier=tier), (lambda b=b, tag=tag: F.rebuilt(b()))
    for mode in ("ibp", "affine", "hybrid"):
        for dom in ("box", "l2"):
            for kind in ("Fuse", "Convert2BackwardMode", "ibp", "affine", "hybrid", "MergeWithPrevious"):
                if (kind == "Convert2BackwardMode" and mode == "ibp") or (kind == "MergeWithPrevious" and (mode, dom) != ("ibp", "box")):
                    continue
                for dim in (True, False):
                    if dim or kind in ("ibp", "MergeWithPrevious"):
                        yield (f"{kind} {mode} {dom}" + ("" if dim else " without dimensions"), dict(budget=60),
                               lambda kind=kind, mode=mode, dom=dom, dim=dim: F.crown_layer(kind, mode, dom, dim))
            for which in ("score", "check", "upper", "fusion", "asymptotic", "radius"):
                for back in (False, True) if which in ("score", "check", "upper", "radius") else (False,):
                    if which == "radius" and (mode == "ibp" or dom != "box"):
                        continue
                    yield (f"{which} {mode} {dom}" + (" backward" if back else ""), dict(budget=60),
                           lambda which=which, mode=mode, dom=dom, back=back: F.metric(which, mode, dom, back))
