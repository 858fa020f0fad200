"""Verification cases: symbolic execution of decomon's real code + solver queries + replay on the real code."""
from __future__ import annotations

import hashlib
import json
import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import expr as E
from . import smt, tfx

TOL = Fraction(1, 1000)


def fl(a):
    return np.asarray(a, dtype=np.float64)


# ---- polymorphic helpers usable in `viol` functions on symbolic and on float arrays
def issym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def p_relu(a):
    return tfx.v_relu(a) if issym(a) else np.maximum(a, 0.0)


def p_max(a, b):
    if issym(a) or issym(b):
        return tfx._ret(np.frompyfunc(E.max_, 2, 1)(tfx.obj(a), tfx.obj(b)))
    return np.maximum(a, b)


def p_min(a, b):
    if issym(a) or issym(b):
        return tfx._ret(np.frompyfunc(E.min_, 2, 1)(tfx.obj(a), tfx.obj(b)))
    return np.minimum(a, b)


def p_abs(a):
    return tfx.v_abs(a) if issym(a) else np.abs(a)


def lin(w, x, b):
    """value at x of the affine functions (w, b): w (n_in, *out) or diagonal (same shape as b), b (*out)"""
    if w.ndim == b.ndim:
        return w * x.reshape(w.shape) + b
    r = b
    for i in range(w.shape[0]):
        r = r + w[i] * x[i]
    return np.asarray(r, dtype=b.dtype)


class Case:
    """one verification case.

    impl / ref  : Python callables on tensors (decomon's real code / the real Keras layer or model)
    args / rargs: symbolic arrays fed to them; variables: [(keras variable, symbolic or concrete array)]
    extras      : symbolic quantities used by viol
    viol        : (outs, refs, extras) -> [(label, array of excess)]; the property is "every excess <= tol"
    """

    def __init__(
        self,
        name,
        impl,
        args,
        viol,
        ref=None,
        rargs=(),
        variables=(),
        extras=None,
        assume=(),
        tol=TOL,
        functions=(),
        bounds="",
        axioms=None,
        direct_ms=4000,
        budget_s=60.0,
        leaf_ms=20000,
        prune_ms=300,
        hints=(),
        nl=(),
        known=(),
        strong=(Fraction(1, 2), Fraction(1, 10)),
        validate=True,
        replay_scale=0.5,
        split_first=True,
        fn_replay=True,
        replay_impl=None,
        defined=True,
    ):
        self.__dict__.update(locals())
        self.extras = extras or {}

    def encode(self, out):
        return _encode_graph(self, out)

    def run_real(self, fn, arrs, ev):
        return _real_run(fn, arrs, self.variables, ev)


class Outcome:
    def __init__(self, name):
        self.name = name
        self.queries = []
        self.violations = []
        self.undecided = []
        self.paths = 0
        self.stats = {}
        self.errors = []
        self.known_hits = []
        self.validated = 0
        self.witness = None
        self.digests = []
        self.functions = []
        self.bounds = ""
        self.wall = 0.0
        self.probe_sat = 0

    def as_dict(self):
        return dict(self.__dict__)


def _arr_vals(arr, ev):
    if arr.dtype != object:
        return np.asarray(arr)
    out = np.empty(arr.shape, dtype=np.float64)
    for idx in np.ndindex(*arr.shape):
        out[idx] = float(ev.expr(arr[idx]))
    return out


def _real_run(fn, arrs, variables, ev, dtype="float32"):
    """run the real code eagerly on concrete values"""
    import tensorflow as tf

    old = []
    try:
        for v, a in variables:
            old.append((v, np.array(v.numpy())))
            v.assign(_arr_vals(np.asarray(a), ev).astype(dtype))
        r = fn(*[tf.constant(a.astype(dtype) if a.dtype.kind == "f" else a) for a in arrs])
        return [fl(x) for x in tf.nest.flatten(r)]
    finally:
        for v, a in old:
            v.assign(a)


def _sample_env(rng, names):
    env = {}
    st = rng.random()
    for n, lo, hi in names:
        l, h = max(lo, -20.0), min(hi, 20.0)
        if st < 0.4:
            v = rng.uniform(l, h)
        elif st < 0.7:
            v = rng.choice([l, h, 0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, rng.uniform(l, h)])
            v = min(max(v, l), h)
        else:
            m = 0.0 if l <= 0 <= h else (l if l > 0 else h)
            v = m + rng.uniform(-1, 1) * min(2.0, h - l)
            v = min(max(v, l), h)
        env[n] = Fraction(round(v * 1024), 1024)
        if env[n] < Fraction(lo) if lo > -E.INF else False:
            env[n] = Fraction(lo)
        if env[n] > Fraction(hi) if hi < E.INF else False:
            env[n] = Fraction(hi)
    return env


def model_search(fs, rng, tries, tmax=2.0):
    """local model finder used when looking for a satisfying assignment (never used to conclude unsat)"""
    al = E.collect_atoms(bools=fs)
    names = [(E.ATOMS[a].name, E.ATOMS[a].lo, E.ATOMS[a].hi) for a in al if E.ATOMS[a].kind == "var"]
    t0 = time.time()
    for _ in range(tries):
        if time.time() - t0 > tmax:
            return None
        env = {k: float(v) for k, v in _sample_env(rng, names).items()}
        ev = E.Evaluator(env)
        try:
            if all(ev.bool(f) for f in fs):
                return {k: Fraction(v) for k, v in env.items()}
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
    return None


def run_case(case: Case, seed=1, known=None, tier="quick"):
    out = Outcome(case.name)
    out.functions = list(case.functions)
    out.bounds = case.bounds
    t0 = time.time()
    try:
        _run_case(case, out, seed, known or [], tier)
    except Exception as e:  # machinery failure: never a verdict
        out.errors.append(f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}")
    out.wall = time.time() - t0
    return out


class RealCodeRaises(Exception):
    """the real code raises on every input of this configuration"""


def _encode_graph(case, out):
    """[(path condition, outs, refs)] of the real code, by symbolic execution of its dataflow graph"""
    try:
        timpl = tfx.trace(case.impl, [a.shape for a in case.args])
    except Exception as e:
        raise RealCodeRaises(f"{type(e).__name__}: {str(e)[:800]}") from e
    out.digests.append(("impl",) + timpl.digest())
    outs = [tfx.obj(o) for o in timpl.run(*case.args, variables=case.variables)]
    refs = []
    if case.ref is not None:
        tref = tfx.trace(case.ref, [a.shape for a in case.rargs])
        out.digests.append(("ref",) + tref.digest())
        refs = [tfx.obj(o) for o in tref.run(*case.rargs, variables=case.variables)]
    return [([], outs, refs)]


def _case_vars(case, exprs, bools):
    names = set()

    def add(es=(), bs=()):
        for a in E.collect_atoms(exprs=list(es), bools=list(bs)):
            if E.ATOMS[a].kind == "var":
                names.add(E.ATOMS[a].name)

    add(exprs, bools)
    for arrs in (case.args, case.rargs, [np.asarray(a) for _, a in case.variables], list(case.extras.values())):
        for arr in arrs:
            if isinstance(arr, np.ndarray) and arr.dtype == object:
                add(arr.reshape(-1))
    return [(a.name, a.lo, a.hi) for a in E.ATOMS if a.kind == "var" and a.name in names]


def _complete(vinfo, m):
    env = {}
    for n, lo, hi in vinfo:
        v = m.get(n)
        if v is None:
            v = Fraction(0)
            if lo > -E.INF and v < Fraction(lo):
                v = Fraction(lo)
            if hi < E.INF and v > Fraction(hi):
                v = Fraction(hi)
        env[n] = v
    return env


def concrete_run(case, env, want_viol=True):
    """the real code, eagerly, on the concrete values of env (replay_impl: without the parts replaced by a contract)"""
    ev = E.Evaluator({k: float(v) for k, v in env.items()})
    a = [_arr_vals(x, ev) for x in case.args]
    ro = case.run_real(case.replay_impl if want_viol and case.replay_impl else case.impl, a, ev)
    rr = []
    if case.ref is not None:
        r = [_arr_vals(x, ev) for x in case.rargs]
        rr = case.run_real(case.ref, r, ev)
    ex = {k: _arr_vals(v, ev) if isinstance(v, np.ndarray) else v for k, v in case.extras.items()}
    vi = case.viol(ro, rr, ex) if want_viol else None
    return ev, a, ro, rr, ex, vi


def _record(case, label, val, env, ev, a, ro, rr, ex):
    return dict(
        case=case.name,
        query=label,
        excess=val if isinstance(val, str) else float(val),
        assignment={k: str(v) for k, v in env.items()},
        inputs=[np.asarray(x).tolist() for x in a],
        outputs=[np.asarray(x).tolist() for x in ro],
        reference=[np.asarray(x).tolist() for x in rr],
        extras={k: (v.tolist() if isinstance(v, np.ndarray) else str(v)) for k, v in ex.items()},
        weights=[
            [str(getattr(v, "path", getattr(v, "name", i))), _arr_vals(np.asarray(w), ev).tolist()]
            for i, (v, w) in enumerate(case.variables)
        ],
    )


def _raises_violation(case, out, rng, known, err):
    """the real code raised while its graph was built: a violation when it also raises on a concrete input"""
    vinfo = _case_vars(case, [], list(case.assume))
    env = model_search(list(case.assume), rng, 400) if case.assume else {}
    env = _complete(vinfo, env or _sample_env(rng, vinfo))
    try:
        concrete_run(case, env, want_viol=False)
    except Exception as e2:
        label = "raises"
        k = next((k for k in known if k["case"] == case.name and _match(k["query"], label)), None)
        out.queries.append((label, "sat", 0.0, "raises while building the graph and on a concrete input"))
        if k is not None:
            out.known_hits.append((k["id"], label))
            return
        ev = E.Evaluator({k: float(v) for k, v in env.items()})
        ex = {k: _arr_vals(v, ev) if isinstance(v, np.ndarray) else v for k, v in case.extras.items()}
        a = [_arr_vals(x, ev) for x in case.args]
        out.violations.append(
            _record(case, label, f"raises {type(e2).__name__}: {str(e2)[:500]}", env, ev, a, [], [], ex)
        )
        return
    out.errors.append(f"cannot build the graph: {err}")


def construction_raises(out, known, e):
    label = "construction raises"
    out.queries.append((label, "sat", 0.0, "the real code raises whatever the inputs"))
    k = next((k for k in known if k["case"] == out.name and _match(k["query"], label)), None)
    if k is not None:
        out.known_hits.append((k["id"], label))
    else:
        tb = traceback.format_exc()[-2500:]
        out.violations.append(
            dict(case=out.name, query=label, excess=f"raises {type(e).__name__}: {str(e)[:300]}", assignment={}, traceback=tb)
        )


def _probe_only(case, out, rng, known, why):
    """the graph cannot be encoded: look for a counterexample on the real code, claim nothing otherwise"""
    out.undecided.append(f"not encodable: {why}")
    assume = list(case.assume)
    vinfo = _case_vars(case, [], assume)
    for _ in range(40):
        env = model_search(assume, rng, 200, 0.5) if assume else _sample_env(rng, vinfo)
        if env is None:
            continue
        env = _complete(vinfo, env)
        ev, a, ro, rr, ex, vi = concrete_run(case, env)
        for label, arr in vi:
            arr = np.asarray(arr)
            for idx in np.ndindex(*arr.shape):
                if arr[idx] > float(case.tol) * 2:
                    lab = f"{label}[{','.join(map(str, idx))}]"
                    k = next((k for k in known if k["case"] == case.name and _match(k["query"], lab)), None)
                    if k is not None:
                        out.known_hits.append((k["id"], lab))
                        return
                    out.violations.append(_record(case, lab, arr[idx], env, ev, a, ro, rr, ex))
                    return


def _run_case(case, out, seed, known, tier):
    rng = random.Random(hashlib.sha256(f"{seed}:{case.name}".encode()).hexdigest())
    st0 = smt.STATS.as_dict()
    t_end = time.time() + case.budget_s * (4 if tier == "thorough" else 1)
    try:
        paths = case.encode(out)
    except RealCodeRaises as e:
        _raises_violation(case, out, rng, known, str(e))
        return
    except (tfx.Unsupported, E.ExprTooBig) as e:
        _probe_only(case, out, rng, known, str(e))
        return
    out.paths = len(paths)
    assume0 = list(case.assume) + list(case.nl)
    all_exprs = [e for _, outs, refs in paths for a in outs + refs for e in a.reshape(-1)]
    vinfo = _case_vars(case, all_exprs, assume0)

    # ---- vacuity: the assumptions must be satisfiable; the witness validates the encoding against the real code
    wit = model_search(assume0, rng, 400) if assume0 else _sample_env(rng, vinfo)
    if wit is None:
        v, wit = smt.check(assume0, 30000)
        if v != smt.SAT:
            out.errors.append(f"vacuous or unwitnessed assumptions ({v})")
            return
    out.witness = {k: str(v) for k, v in list(_complete(vinfo, wit).items())[:12]}
    if case.validate:
        pts = [_complete(vinfo, wit)] + [_complete(vinfo, _sample_env(rng, vinfo)) for _ in range(3)]
        mism = []
        for env in pts:
            try:
                ev, a, ro, rr, ex, _ = concrete_run(case, env, want_viol=False)
                sel = [(o, r) for pc, o, r in paths if all(ev.bool(c) for c in pc)]
                if len(sel) != 1:
                    if not sel and (len(paths) > 1 or paths[0][0]):
                        continue  # outside the assumptions
                    raise ValueError(f"{len(sel)} paths")
                mm = _compare(ev, sel[0][0], ro) or (_compare(ev, sel[0][1], rr) if sel[0][1] else None)
            except (OverflowError, ZeroDivisionError):
                continue
            if mm:
                mism.append((mm, env))
            else:
                out.validated += 1
        # one point may sit on a discontinuity (sign, argmin) that float rounding crosses; two may not
        if len(mism) >= 2 or (mism and not out.validated):
            out.errors.append(f"encoding does not match the real code: {mism[0]}")
            return
    for pi, (pc, outs, refs) in enumerate(paths):
        pre = f"path {pi}: " if len(paths) > 1 else ""
        _discharge(case, out, rng, known, assume0 + list(pc), outs, refs, vinfo, t_end, pre)
    st1 = smt.STATS.as_dict()
    out.stats = {k: round(st1[k] - st0[k], 3) for k in st1}


def _discharge(case, out, rng, known, assume, outs, refs, vinfo, t_end, pre):
    items = case.viol(outs, refs, case.extras)
    all_exprs = [e for a in outs + refs for e in a.reshape(-1)]
    qs = []
    # ---- definedness of divisions/roots reachable from the outputs
    for a in E.collect_atoms(exprs=all_exprs) if case.defined else ():
        at = E.ATOMS[a]
        if at.kind == "inv":
            lo, hi = at.arg.interval()
            if lo > 0 or hi < 0:
                continue
            qs.append(("defined", f"inv#{len(qs)}", E.eq(at.arg, E.ZERO), None, None))
        elif at.kind == "sqrt":
            lo, hi = at.arg.interval()
            if lo >= 0:
                continue
            if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in at.arg.t.items()):
                continue
            qs.append(("defined", f"sqrt#{len(qs)}", E.gt(E.ZERO, at.arg), None, None))
    tol = E.const(case.tol)
    for li, (label, arr) in enumerate(items):
        arr = arr if isinstance(arr, np.ndarray) else tfx._ret(arr)
        for idx in np.ndindex(*arr.shape):
            e = E.as_expr(arr[idx])
            qs.append(("bound", f"{label}[{','.join(map(str, idx))}]", E.gt(e, tol), (li, idx), e))
    # ---- lemmas: proved from the assumptions by the solver first, then available to the other queries
    for i, h in enumerate(case.hints):
        if h.is_const() and h.arg:
            continue
        v, _ = smt.check(assume + [E.not_(h)], 10000)
        if v == smt.UNKNOWN:
            v, _ = smt.split_check(assume + [E.not_(h)], min(t_end, time.time() + 20))
        out.queries.append((f"lemma {i}", v if v != smt.SAT else "not valid (unused)", 0.0, "z3"))
        if v == smt.UNSAT:
            assume = assume + [h]
    # the nonlinear assumptions are dropped first (sound): the lemmas proved above usually replace them
    nl = {id(f) for f in case.nl}
    weak = [f for f in assume if id(f) not in nl] if case.nl else None
    for kind, label, bad, where, e in qs:
        tq = time.time()
        if bad.is_const() and not bad.arg:
            out.queries.append((pre + label, "unsat", 0.0, "normal form"))
            continue
        model = None
        verdict = None
        fs = assume + [bad]
        m = model_search(fs, rng, 60, 0.4)
        if m is None and weak is not None:
            left = t_end - time.time()
            how = "z3 (lemmas)"
            if left > 0.5:
                verdict, _ = smt.check(weak + [bad], min(3000, left * 1000))
                if verdict == smt.UNKNOWN:
                    verdict, _ = smt.split_check(weak + [bad], min(t_end, time.time() + left / 3), leaf_ms=case.leaf_ms,
                                                 prune_ms=case.prune_ms, axioms=case.axioms)
            if verdict != smt.UNSAT:
                verdict = None
        if verdict == smt.UNSAT:
            pass
        elif m is not None:
            verdict, model, how = smt.SAT, m, "model search"
            out.probe_sat += 1
        else:
            how = "z3"
            left = t_end - time.time()
            if left <= 0.5:
                verdict = smt.UNKNOWN
                how = "budget"
            else:
                if case.direct_ms and not case.axioms:
                    verdict, model = smt.check(fs, min(case.direct_ms, left * 1000))
                if verdict in (None, smt.UNKNOWN):
                    how = "z3+split"
                    verdict, model = smt.split_check(
                        fs, t_end, leaf_ms=case.leaf_ms, prune_ms=case.prune_ms, axioms=case.axioms
                    )
        if verdict == smt.SAT and kind == "bound":
            # prefer a counterexample with a large margin: it survives float rounding when replayed
            for s in case.strong:
                if s <= case.tol:
                    continue
                sf = assume + [E.gt(e, E.const(s))]
                m2 = model_search(sf, rng, 300, 1.0)
                if m2 is None:
                    _, m2 = smt.check(sf, 3000, axioms=case.axioms(E.collect_atoms(bools=sf)) if case.axioms else ())
                if m2 is not None:
                    model = m2
                    break
        out.queries.append((pre + label, verdict, round(time.time() - tq, 3), how))
        if verdict == smt.UNSAT:
            continue
        if verdict == smt.UNKNOWN:
            out.undecided.append(label)
            continue
        ok = False
        val = None
        env = _complete(vinfo, model)
        try:
            ev, a, ro, rr, ex, vi = concrete_run(case, env)
        except Exception as ee:
            out.errors.append(f"replay of {label} raised {type(ee).__name__}: {ee}")
            continue
        if kind == "bound":
            val = float(np.asarray(vi[where[0]][1])[where[1]])
            ok = (val > float(case.tol) * case.replay_scale) or math.isnan(val)
        else:
            ok = any(not np.all(np.isfinite(o)) for o in ro)
            val = "non finite output"
        if not ok:
            if kind == "defined":
                # an output that stays finite at the singular point: not observable
                out.queries[-1] = (pre + label, "unsat*", out.queries[-1][2], "singular point not observable")
            else:
                out.undecided.append(label + f" (counterexample does not replay: {val})")
            continue
        k = next((k for k in known if k["case"] == case.name and _match(k["query"], label)), None)
        if k is not None:
            out.known_hits.append((k["id"], label))
        else:
            out.violations.append(_record(case, label, val, env, ev, a, ro, rr, ex))
            if len(out.violations) >= 3:
                return


def _match(pat, label):
    import fnmatch

    return fnmatch.fnmatchcase(label.replace("[", "(").replace("]", ")"), pat.replace("[", "(").replace("]", ")"))


def _compare(ev, syms, reals):
    if len(syms) != len(reals):
        return f"{len(syms)} outputs vs {len(reals)}"
    for k, (s, r) in enumerate(zip(syms, reals)):
        if s.shape != r.shape:
            return f"output {k}: shape {s.shape} vs {r.shape}"
        for idx in np.ndindex(*s.shape):
            v = float(ev.expr(s[idx]))
            if not math.isfinite(v) or not math.isfinite(r[idx]):
                continue
            if abs(v - r[idx]) > 2e-3 * (1 + abs(v)):
                # discontinuities (sign, argmin) under float rounding are filtered by the caller's several points
                return f"output {k}{idx}: encoded {v} real {r[idx]}"
    return None
