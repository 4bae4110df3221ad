#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on the current /repo tree by symbolic execution of its real code (see DESIGN.md).
exit 0: held on everything explored; exit 1: VIOLATION line with a replayed counterexample; exit 2: no answer."""
import os
import re
import sys
import json
import time
import threading
import importlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vp import engine, build  # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))


def known():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) case=(\S+) label=(\S+) (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--case") + 1] if "--case" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in a
    t0 = time.time()
    modname = pid.lower()
    try:
        mod = importlib.import_module("harness." + modname)
        cases = mod.cases(tier)
        if only:
            cases = [c for c in cases if only in c[0]]
        nat = {}

        def bld():
            try:
                nat["n"] = engine.Native(vrt=getattr(mod, "OMP", False))
            except Exception as e:
                nat["err"] = e
        engine.get_prog(getattr(mod, "OMP", False))
        budget = 780 if tier == "quick" else 7000
        bs = []
        th = threading.Thread(target=bld)
        res = None
        # fork the workers before starting the build thread
        box = {}

        def go():
            kn = known()
            box["res"] = engine.run_cases(modname, cases, dict(getattr(mod, "OPTS", {})), budget=budget - 150,
                                          known=lambda c, f: any(x[0] == pid and re.fullmatch(x[1], c) and re.fullmatch(x[2], f["label"]) for x in kn))
        th.start()
        th.join()
        go()
        res = box["res"]
    except build.BuildError as e:
        print("the code does not build: %s" % e)
        return 2
    if "err" in nat:
        print("the concrete build failed: %s" % nat["err"])
        return 2
    N = nat["n"]
    SAN = None
    try:
        # ---- replay of counterexamples
        viol, findings, notrep, skipped = [], [], [], 0
        kn = known()
        tr = time.time()
        for r in res:
            for f in r["failures"]:
                if len(viol) >= 25 or (viol and time.time() - tr > 60):
                    skipped += 1    # enough violations confirmed
                    continue
                rq = dict(module=modname, case=r["case"], values=f["model"])
                how = None
                rr = N.run([rq])[0]
                if rr["ok"] is False:
                    how, det = "concrete", rr
                elif getattr(mod, "OMP", False):
                    pass
                elif f["label"].startswith("memory:") or rr["ok"]:
                    if SAN is None:
                        SAN = engine.Native(san=True)
                    r2 = SAN.run([rq])[0]
                    if r2["ok"] is False:
                        how, det = "sanitizer", r2
                    else:
                        for pv in ("1", "85", "170", "254"):
                            r3 = N.run([rq], env={"MALLOC_PERTURB_": pv, "PYTHONMALLOC": "malloc"})[0]
                            if r3["ok"] is False:
                                how, det = "malloc_perturb=" + pv, r3
                                break
                if how is None:
                    notrep.append((r["case"], f, rr))
                    continue
                f["replay_how"] = how
                f["replayed"] = det
                k = [x for x in kn if x[0] == pid and re.fullmatch(x[1], r["case"]) and re.fullmatch(x[2], f["label"])]
                (findings if k else viol).append((r["case"], f, k))
        # ---- concrete runs of a model of explored paths: encoding and real code must agree
        wr = []
        for r in res:
            if r["status"] == "ok":
                for w in r.get("witness") or []:
                    wr.append(dict(module=modname, case=r["case"], values=w))
        # a case without a verdict is at least run on the real code at the centre of its bounds
        for r in res:
            if r["status"] in ("inconclusive", "error"):
                wr.append(dict(module=modname, case=r["case"], values={}))
        wres = N.run(wr) if wr else []
        mismatch = []
        validated = 0
        for q, r in zip(wr, wres):
            if r["ok"]:
                validated += 1
            elif r["ok"] is False:
                k = [x for x in kn if x[0] == pid and re.fullmatch(x[1], q["case"]) and re.fullmatch(x[2], r["label"] or "")]
                (findings if k else viol).append((q["case"], dict(label=r["label"], detail=r["detail"], model=q["values"], replay_how="concrete",
                                                                  replayed=r, note="found by the concrete validation run"), k))
    finally:
        N.close()
        if SAN is not None:
            SAN.close()
    rc = 0
    seen = set()
    for case, f, k in findings:
        if k[0][3] not in seen:
            seen.add(k[0][3])
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0][3]))
    rdir = VERIF + "/evidence/replay"
    vrec = []
    for i, (case, f, _) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = "%s/%s_%d.json" % (rdir, pid, i)
        json.dump(dict(property=pid, module=modname, case=case, label=f["label"], detail=f["detail"], values=f["model"],
                       how=f["replay_how"], concrete=f["replayed"]), open(p, "w"), indent=1, default=str)
        vrec.append(dict(case=case, label=f["label"], detail=f["detail"], replay=p))
        if i < 5:
            print("%s: %s: %s  [replayed: %s: %s]" % (case, f["label"], f["detail"], f["replay_how"], str(f["replayed"].get("detail"))[:200]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    bad = [r for r in res if r["status"] in ("inconclusive", "error")]
    for r in bad:
        print("no answer for case %s: %s" % (r["case"], r.get("why")))
        if verbose:
            print(r.get("tb"))
    for case, f, rr in notrep:
        print("counterexample of case %s (%s: %s) does not reproduce on the real code: %s" % (case, f["label"], f["detail"], rr))
        if f.get("tb"):
            print(f["tb"])
    # no verdict for a case is not an alarm; no verdict for most of the property is no answer
    nund = len(set([r["case"] for r in bad] + [c for c, _, _ in notrep]))
    if rc == 0 and nund > max(2, 0.5 * len(res)):
        rc = 2
    # ---- evidence
    tot = {}
    fns = set()
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        fns.update(r["functions"])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
              coverage=dict(states=tot.get("paths", 0), transitions=tot.get("decisions", 0) + tot.get("paths", 0),
                            traces_validated_against_impl=validated,
                            samples=[dict(case=q["case"], values=dict(list(q["values"].items())[:12]), concrete_checks=r.get("n"))
                                     for q, r in list(zip(wr, wres))[:5]],
                            undecided_cases=sorted(set([r["case"] for r in bad] + [c for c, _, _ in notrep])),
                            technique="symbolic execution of the LLVM IR of the C sources and of the Python sources, z3",
                            functions_encoded=sorted(fns)[:400], n_functions=len(fns),
                            bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})) if isinstance(getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
                            obligations=tot.get("obligations", 0), queries=tot.get("queries", 0), unsat=tot.get("unsat", 0),
                            sat=tot.get("sat", 0), unknown=tot.get("unknown", 0), solver_s=round(tot.get("solver_s", 0.0), 2),
                            infeasible_paths=tot.get("infeasible_paths", 0),
                            obligations_large_and_cancelling_term_by_term=tot.get("cancelled", 0),
                            cases=[dict(case=r["case"], status=r["status"], why=r.get("why"), wall_s=round(r["wall"], 2), **r["stats"]) for r in res],
                            known_findings=sorted(seen), violation_records=vrec,
                            not_replayed=skipped,
                            not_reproduced=[dict(case=c, label=f["label"], detail=f["detail"]) for c, f, _ in notrep]))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d obligations, %d queries (%.1f s solver), %d concrete validations, %.1f s, exit %d" % (
        pid, tier, len(res), tot.get("paths", 0), tot.get("obligations", 0), tot.get("queries", 0), tot.get("solver_s", 0.0), validated,
        time.time() - t0, rc))
    return rc


COMMON = ["symbolic values are real numbers, concrete ones IEEE doubles; differences below the stated tolerance are not reported",
          "GSL, FFTW, cfitsio, chealpix, libc and libm calls follow the contracts in vp/stubs.py",
          "allocation succeeds unless the harness makes it fail",
          "clang -O0 IR with mem2reg; the OpenMP pragmas are executed sequentially except in P26"]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
