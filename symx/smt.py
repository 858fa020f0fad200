"""Deciding assertions over symbolic values: encoding to SMT (z3, real arithmetic) and exhaustive case splitting."""
from __future__ import annotations

import time
from fractions import Fraction

from . import expr as E
from .z3load import z3

UNSAT, SAT, UNKNOWN = "unsat", "sat", "unknown"


class Stats:
    def __init__(self):
        self.queries = 0
        self.leaves = 0
        self.pruned = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def as_dict(self):
        return dict(
            queries=self.queries,
            leaves=self.leaves,
            pruned=self.pruned,
            solver_s=round(self.solver_s, 3),
            unsat=self.unsat,
            sat=self.sat,
            unknown=self.unknown,
        )


STATS = Stats()


class Encoder:
    def __init__(self, linear=False):
        # linear: every product of atoms is an unconstrained variable of its own (an over-approximation: unsat only)
        self.linear = linear
        self.mono = {}
        self.defs = []  # z3 constraints
        self.ac = {}
        self.ec = {}
        self.bc = {}
        self.nonlinear = False

    def atom(self, aid):
        z = self.ac.get(aid)
        if z is not None:
            return z
        a = E.ATOMS[aid]
        k = a.kind
        if k == "var":
            z = z3.Real(a.name)
            if a.lo > -E.INF:
                self.defs.append(z >= _q(Fraction(a.lo)))
            if a.hi < E.INF:
                self.defs.append(z <= _q(Fraction(a.hi)))
        elif k == "relu":
            q = self.expr(a.arg)
            z = z3.Real(f"relu!{aid}")
            self.defs.append(z3.Or(z3.And(q >= 0, z == q), z3.And(q <= 0, z == 0)))
        elif k == "ind":
            c = self.bool(a.arg)
            z = z3.Real(f"ind!{aid}")
            self.defs.append(z3.Or(z3.And(c, z == 1), z3.And(z3.Not(c), z == 0)))
        elif k == "inv":
            z = z3.Real(f"inv!{aid}")
            self.ac[aid] = z
            if self.linear:
                self.defs.append(self.expr(E.mul(E._aexpr(a), a.arg)) == 1)
            else:
                q = self.expr(a.arg)
                self.nonlinear = True
                self.defs.append(z * q == 1)
        elif k == "sqrt":
            q = self.expr(a.arg)
            z = z3.Real(f"sqrt!{aid}")
            self.defs.append(z >= _q(Fraction(a.lo)))
            if a.hi < E.INF:
                self.defs.append(z <= _q(Fraction(a.hi)))
            if not self.linear and not a.arg.is_const():
                self.nonlinear = True
                self.defs.append(z * z == q)
        else:
            z = z3.Real(f"{k}!{aid}")
            if a.lo > -E.INF:
                self.defs.append(z >= _q(Fraction(a.lo)))
            if a.hi < E.INF:
                self.defs.append(z <= _q(Fraction(a.hi)))
        self.ac[aid] = z
        return z

    def expr(self, e):
        z = self.ec.get(id(e))
        if z is None:
            terms = []
            for m, c in e.t.items():
                if self.linear and (len(m) > 1 or (m and m[0][1] > 1)):
                    t = self.mono.get(m)
                    if t is None:
                        t = self.mono[m] = z3.Real(f"mono!{len(self.mono)}")
                        if all(ex % 2 == 0 for _, ex in m):
                            self.defs.append(t >= 0)
                    terms.append(_q(c) * t if c != 1 else t)
                    continue
                fs = []
                for a, ex in m:
                    fs.extend([self.atom(a)] * ex)
                if len(fs) > 1:
                    self.nonlinear = True
                if not fs:
                    terms.append(_q(c))
                    continue
                if c != 1:
                    fs.insert(0, _q(c))
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            if not terms:
                z = z3.RealVal(0)
            elif len(terms) == 1:
                z = terms[0]
            else:
                z = z3.Sum(terms)
            self.ec[id(e)] = (z, e)
            return z
        return z[0]

    def bool(self, f):
        z = self.bc.get(id(f))
        if z is None:
            k = f.kind
            if k == "const":
                z = z3.BoolVal(f.arg)
            elif k == "gt":
                z = self.expr(f.arg) > 0
            elif k == "eq":
                z = self.expr(f.arg) == 0
            elif k == "not":
                g = f.arg
                z = (self.expr(g.arg) <= 0) if g.kind == "gt" else z3.Not(self.bool(g))
            else:
                z = z3.And([self.bool(g) for g in f.arg])
            self.bc[id(f)] = (z, f)
            return z
        return z[0]


def _q(c):
    c = Fraction(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(c.numerator)


def check(fs, timeout_ms=10000, axioms=(), tactic=None, want_model=True):
    """satisfiability of the conjunction of Bool fs. Returns (verdict, model: name->Fraction/float)"""
    enc = Encoder(linear=tactic == "linear")
    zs = []
    for f in fs:
        if f.is_const():
            if not f.arg:
                return UNSAT, None
            continue
        zs.append(enc.bool(f))
    for f in axioms:
        zs.append(enc.bool(f))
    zs += enc.defs
    t0 = time.time()
    if enc.nonlinear:
        s = z3.Tactic("qfnra-nlsat").solver() if tactic == "nlsat" else z3.Solver()
    else:
        s = z3.SolverFor("QF_LRA")
    s.set("timeout", int(timeout_ms))
    s.add(zs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS.queries += 1
    STATS.solver_s += dt
    if r == z3.unsat:
        STATS.unsat += 1
        return UNSAT, None
    if r == z3.sat:
        STATS.sat += 1
        return SAT, (_model(s.model(), enc) if want_model else None)
    STATS.unknown += 1
    return UNKNOWN, None


def _model(m, enc):
    out = {}
    for aid, z in enc.ac.items():
        a = E.ATOMS[aid]
        v = m.eval(z, model_completion=True)
        if z3.is_rational_value(v):
            val = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            v = v.approx(20)
            val = Fraction(v.numerator_as_long(), v.denominator_as_long())
        else:
            continue
        if a.kind == "var":
            out[a.name] = val
        elif a.kind.startswith("fn:"):
            out[f"{a.kind}!{aid}"] = val
    return out


class Budget(Exception):
    pass


def _flatten(fs):
    out = []
    for f in fs:
        if f.kind == "and":
            out.extend(_flatten(f.arg))
        elif f.kind == "const" and f.arg:
            continue
        else:
            out.append(f)
    return out


def split_check(fs, deadline, leaf_ms=20000, prune_ms=300, direct_ms=0, max_leaves=200000, axioms=None):
    """exhaustive case splitting over the relu/ind atoms of the conjunction fs.

    Every branch is either closed by a solver verdict (unsat of its path condition or of its leaf formula) or is
    satisfiable, in which case its model is returned. Verdict UNSAT only if all branches were closed.
    """
    leaves = [0]
    unknown = [0]
    if direct_ms:
        v, m = check(fs, direct_ms)
        if v != UNKNOWN:
            return v, m

    def rec(fs, path):
        if time.time() > deadline:
            raise Budget("deadline")
        fs = _flatten(fs)
        for f in fs:
            if f.kind == "const" and not f.arg:
                return None
        al = E.collect_atoms(bools=fs)
        cand = [a for a in al if E.ATOMS[a].kind in ("relu", "ind")]
        # negated conjunctions at top level are split too
        if not cand:
            disj = next((f for f in fs if f.kind == "not" and f.arg.kind == "and"), None)
            if disj is not None:
                rest = [f for f in fs if f is not disj]
                prev = []
                for g in disj.arg.arg:
                    r = rec(rest + prev + [E.not_(g)], path)
                    if r is not None:
                        return r
                    prev.append(g)
                return None
            leaves[0] += 1
            STATS.leaves += 1
            if leaves[0] > max_leaves:
                raise Budget("leaves")
            left = max(1.0, deadline - time.time())
            ax = axioms(al) if axioms else ()
            if axioms:  # the facts usually decide the leaf with every product abstracted
                v, _ = check(fs, min(leaf_ms, left * 1000), axioms=ax, tactic="linear", want_model=False)
                if v == UNSAT:
                    return None
                left = max(1.0, deadline - time.time())
            v, m = check(fs, min(leaf_ms, left * 1000), axioms=ax)
            if v == UNKNOWN:
                v, m = check(fs, min(leaf_ms, left * 1000), axioms=ax, tactic="nlsat")
            if v == SAT:
                return m
            if v == UNKNOWN:
                unknown[0] += 1
            return None
        aid = cand[0]
        a = E.ATOMS[aid]
        if a.kind == "relu":
            branches = [(E.gt(a.arg, E.ZERO), a.arg), (E.ge(E.ZERO, a.arg), E.ZERO)]
        else:
            branches = [(a.arg, E.ONE), (E.not_(a.arg), E.ZERO)]
        for cond, val in branches:
            if cond.is_const() and not cond.arg:
                continue
            env = {aid: val}
            # the complementary indicator (sign atoms) is decided as well
            if a.kind == "ind" and val is E.ONE:
                x = E._excl.get(aid)
                if x is not None:
                    env[x] = E.ZERO
            sb = E.Subst(env)
            nfs = [sb.bool(f) for f in fs]
            nfs.append(cond)
            # other ind atoms deciding the same condition
            sb2 = None
            quick = [f for f in _flatten(nfs) if f.kind in ("gt", "eq", "not")]
            quick = [f for f in quick if not any(E.ATOMS[x].kind in ("relu", "ind") for x in E.collect_atoms(bools=[f]))]
            if prune_ms and quick:
                v, _ = check(quick, prune_ms, want_model=False)
                if v == UNSAT:
                    STATS.pruned += 1
                    continue
            r = rec(nfs, path + [cond])
            if r is not None:
                return r
        return None

    try:
        m = rec(list(fs), [])
    except Budget:
        return UNKNOWN, None
    if m is not None:
        return SAT, m
    return (UNKNOWN if unknown[0] else UNSAT), None
