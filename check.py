#!/usr/bin/env python
"""Decide one property: check.py <ID> [--tier quick|thorough] [--only GLOB] [-v]

Every case executes decomon's current source symbolically and hands the negated property to the SMT solver; see
DESIGN.md. Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the machinery failed."""
import argparse
import collections
import fnmatch
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PY = "/opt/venv/bin/python"


def reexec():
    """run under the interpreter that has decomon's dependencies"""
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
        if os.environ.get("SYMX_REEXEC"):
            return
        os.environ["SYMX_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.setup:
        from symx import z3load

        print("z3", z3load.z3.get_version_string())
        return
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    limit = 820 if tier == "quick" else 6 * 3600

    from symx import listing

    meta = listing.meta(pid)
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [
        dict(id=f["id"], case=c["case"], query=c["query"])
        for f in kf["findings"]
        if f["property"] == pid
        for c in f["sites"]
    ]
    names = listing.names(pid, tier)
    if a.only:
        names = [n for n in names if fnmatch.fnmatchcase(n, a.only)]
    budgets = listing.budgets(pid)

    os.environ["OMP_NUM_THREADS"] = "1"
    ctx = mp.get_context("spawn")
    from symx import worker

    inq, outq = ctx.Queue(), ctx.Queue()
    for n in names:
        inq.put(n)
    procs = {}

    def spawn():
        p = ctx.Process(target=worker.main, args=(pid, tier, seed, known, inq, outq), daemon=True)
        p.start()
        procs[p.pid] = p

    nproc = max(1, min(a.j, (len(names) + 1) // 2))
    for _ in range(nproc):
        inq.put(None)
        spawn()
    running, done, fatal, cover = {}, {}, [], set()
    finished = 0
    import queue

    while finished < nproc:
        try:
            kind, wp, payload = outq.get(timeout=2)
            if kind == "start":
                running[wp] = (payload, time.time())
            elif kind == "done":
                running.pop(wp, None)
                done[payload["name"]] = payload
                if a.v:
                    show(payload)
            elif kind == "cover":
                cover.update(payload)
                finished += 1
            elif kind == "fatal":
                fatal.append(payload)
                finished += 1
        except queue.Empty:
            pass
        now = time.time()
        for wp, p in list(procs.items()):
            if wp in running:
                n, ts = running[wp]
                hard = budgets.get(n, 60) * (1 if tier == "quick" else 4) * 1.5 + 90
                if now - ts > hard and p.is_alive():
                    p.kill()
                    p.join()
            if not p.is_alive() and wp in procs:
                if wp in running:
                    n, _ = running.pop(wp)
                    # drain a possible late result first
                    done.setdefault(n, dict(name=n, queries=[], violations=[], undecided=["case deadline"], errors=[],
                                            known_hits=[], validated=0, functions=[], bounds="", wall=now - ts,
                                            stats={}, witness=None, digests=[], probe_sat=0, paths=0))
                    del procs[wp]
                    spawn()
                else:
                    del procs[wp]
        if not procs and finished < nproc and outq.empty():
            break
        if now - t0 > limit:
            for p in procs.values():
                p.kill()
            break
    for p in procs.values():
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    sys.exit(report(pid, tier, seed, t0, names, done, fatal, cover, meta, kf, a))


def show(o):
    print("%-48s %6.1fs q=%d viol=%d und=%s err=%s known=%d val=%d" % (
        o["name"], o["wall"], len(o["queries"]), len(o["violations"]), o["undecided"][:3],
        [e[:200].replace(chr(10), ' ') for e in o["errors"][:1]], len(o["known_hits"]), o["validated"]), flush=True)
    for v in o["violations"][:2]:
        print("     !!", v["query"], v["excess"], str(v["assignment"])[:300], flush=True)


def report(pid, tier, seed, t0, names, done, fatal, cover, meta, kf, a):
    missing = [n for n in names if n not in done]
    outs = [done[n] for n in names if n in done]
    viol = [(o["name"], v) for o in outs for v in o["violations"]]
    errors = [(o["name"], e) for o in outs for e in o["errors"]]
    und = [(o["name"], u) for o in outs for u in o["undecided"]] + [(n, "not run: time limit") for n in missing]
    hits = collections.Counter()
    for o in outs:
        for k, q in o["known_hits"]:
            hits[k] += 1
    verd = collections.Counter(q[1] for o in outs for q in o["queries"])
    how = collections.Counter(q[3] for o in outs for q in o["queries"])
    tot = collections.Counter()
    for o in outs:
        for k, v in (o.get("stats") or {}).items():
            tot[k] += v
    samples = []
    for o in outs[:: max(1, len(outs) // 4)][:5]:
        samples.append(dict(case=o["name"], bounds=o["bounds"], witness_of_assumptions=o["witness"],
                            queries=[list(q) for q in o["queries"][:4]]))
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="other",
        coverage=dict(
            explanation=(
                "Bounded SMT verification: the real code named under functions_encoded was executed symbolically "
                "(dataflow graph built by the current source, or its numpy code over symbolic arrays), every query "
                "is the negation of the property over all values within the bounds; unsat = holds for all of them."
            ),
            cases=len(outs),
            cases_planned=len(names),
            cases_fully_decided=sum(1 for o in outs if not o["undecided"] and not o["errors"]),
            queries=sum(len(o["queries"]) for o in outs),
            verdicts=dict(verd),
            decided_by=dict(how),
            solver_queries=int(tot.get("queries", 0)),
            solver_time_s=round(tot.get("solver_s", 0.0), 2),
            split_leaves=int(tot.get("leaves", 0)),
            split_pruned=int(tot.get("pruned", 0)),
            encoding_points_validated_against_real_code=sum(o["validated"] for o in outs),
            symbolic_paths=sum(o.get("paths", 0) for o in outs),
            graphs=sum(len(o["digests"]) for o in outs),
            functions_encoded=sorted(cover),
            bounds=sorted({o["bounds"] for o in outs if o["bounds"]}),
            undecided=[f"{n}: {u}" for n, u in und][:50],
            known_findings_hit=dict(hits),
            case_list=[o["name"] for o in outs],
            samples=samples,
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for f in kf["findings"]:
        if f["property"] == pid and hits.get(f["id"]):
            print(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
    for n, u in und[:20]:
        print(f"UNDECIDED {n}: {u}")
    print(
        f"{pid} tier={tier} cases={len(outs)}/{len(names)} queries={ev['coverage']['queries']} {dict(verd)} "
        f"solver={ev['coverage']['solver_time_s']}s wall={ev['wall_s']}s"
    )
    if viol:
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (n, v) in enumerate(viol[:5]):
            path = os.path.join(rd, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1, default=str)
            print(f"violated: case {n}, {v['query']}, excess {v['excess']}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    for n, e in errors[:3]:
        print(f"ERROR {n}: {e[:1500]}")
    for e in fatal[:2]:
        print(f"FATAL worker: {e}")
    if errors or fatal:
        return 2
    bad = len({n for n, _ in und})
    if bad * 2 > len(names):
        print("more than half of the cases are undecided")
        return 2
    return 0


if __name__ == "__main__":
    reexec()
    main()
