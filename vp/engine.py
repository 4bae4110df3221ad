"""Runs the cases of a property: symbolic exploration, replay, evidence."""
import os
import sys
import json
import time
import shutil
import signal
import importlib
import traceback
import subprocess
import multiprocessing as mp
from . import sym, build, stubs
from .sym import Stats, Violation, Failure, Inconclusive, Unsupported, Infeasible

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = None


def get_prog(omp=False, _c={}):
    if omp not in _c:
        from . import symback
        d = build.scratch()
        try:
            _c[omp] = symback.Prog(d, omp)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _c[omp]


def run_case(modname, case, opts):
    """symbolic exploration of one case -> dict"""
    from . import symback, symh
    t0 = time.time()
    mod = importlib.import_module("harness." + modname)
    name, fn, kw = case[:3]
    prog = get_prog(getattr(mod, "OMP", False))
    be = symback.Backend(prog)
    st = Stats()
    res = dict(case=name, status="ok", witness=None, failures=[])
    wit = []

    def path(c):
        for k, v in getattr(mod, "CTX", {}).items():
            setattr(c, k, v)
        be.reset()
        h = symh.HS(be, c)
        try:
            try:
                fn(h, **kw)
            except (Infeasible, Failure, Inconclusive, Unsupported):
                raise
            except Violation as e:
                c.fail_const("memory:" + e.kind, e.msg)
            except RecursionError:
                raise Unsupported("recursion")
            except symh.ERRS as e:
                tb = traceback.format_exc()
                try:
                    c.fail_const("exception", "%s: %s" % (type(e).__name__, e))
                except Failure as f:
                    f.tb = tb
                    raise
            h.flush()
        except Failure as f:
            if f.model is None:
                raise Infeasible()
            res["failures"].append(dict(label=f.label, detail=f.detail, model=f.model, tb=getattr(f, "tb", None)))
            if len(res["failures"]) >= opts.get("max_failures", 3):
                raise StopIteration
            return
        if len(wit) < opts.get("witnesses", 2):
            m = c.any_model()
            if m is not None:
                wit.append(m)
    try:
        sym.explore(path, st, max_paths=opts.get("max_paths", 20000), deadline=t0 + opts.get("case_time", 600))
    except StopIteration:
        pass
    except (Inconclusive, Unsupported) as e:
        res["status"] = "inconclusive"
        res["why"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()[-3000:]
    except Exception as e:
        res["status"] = "error"
        res["why"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()[-4000:]
    if res["failures"]:
        res["status"] = "fail"
    elif res["status"] == "ok" and (st.paths == 0 or st.obligations == 0):
        res["status"] = "error"
        res["why"] = "vacuous: %d paths, %d obligations" % (st.paths, st.obligations)
    res["witness"] = wit
    res["stats"] = st.d()
    res["functions"] = sorted(prog.ex.used)
    res["wall"] = time.time() - t0
    return res


def _worker(q, out, modname, cases, opts):
    while True:
        i = q.get()
        if i is None:
            return
        try:
            prog = get_prog(getattr(importlib.import_module("harness." + modname), "OMP", False))
            prog.ex.used.clear()
            r = run_case(modname, cases[i], opts)
        except BaseException as e:
            r = dict(case=cases[i][0], status="error", why="worker: %r" % e, failures=[], stats=Stats().d(), functions=[], wall=0,
                     tb=traceback.format_exc())
        r["i"] = i
        out.put(r)


def run_cases(modname, cases, opts, jobs=8, budget=800, known=lambda case, f: False, grace=60):
    mod = importlib.import_module("harness." + modname)
    get_prog(getattr(mod, "OMP", False))
    if jobs == 1:
        return [run_case(modname, c, opts) for c in cases]
    mpc = mp.get_context("fork")
    q, out = mpc.Queue(), mpc.Queue()
    order = sorted(range(len(cases)), key=lambda i: -(cases[i][3] if len(cases[i]) > 3 else 1))
    for i in order:
        q.put(i)
    jobs = min(jobs, len(cases))
    for _ in range(jobs):
        q.put(None)
    ps = [mpc.Process(target=_worker, args=(q, out, modname, cases, opts), daemon=True) for _ in range(jobs)]
    for p in ps:
        p.start()
    res = {}
    hurry = False
    t0 = time.time()
    while len(res) < len(cases):
        try:
            r = out.get(timeout=1)
            res[r["i"]] = r
            # with a counterexample at hand the remaining cases get little more time
            if not hurry and any(not known(r["case"], f) for f in r["failures"]):
                hurry = True
                budget = min(budget, time.time() - t0 + grace)
        except Exception:
            if time.time() - t0 > budget or not any(p.is_alive() for p in ps):
                try:
                    while True:
                        r = out.get(timeout=0.5)
                        res[r["i"]] = r
                except Exception:
                    pass
                break
    for p in ps:
        p.terminate()
    for i, c in enumerate(cases):
        if i not in res:
            res[i] = dict(case=c[0], status="inconclusive", why="did not finish in time", failures=[], stats=Stats().d(), functions=[], wall=0)
    return [res[i] for i in range(len(cases))]


# ------------------------------------------------------------------ concrete replay
def san_env(lib):
    e = dict(os.environ)
    return e


class Native:
    """a concrete build and the process that runs harnesses against it"""

    def __init__(self, san=False, extra_env=None, vrt=False):
        self.d = build.scratch()
        self.san = san
        self.env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", PYTHONPATH=VERIF)
        flags = None
        if san:
            flags = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            lib2 = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            self.env.update(LD_PRELOAD=lib + " " + lib2, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
                            UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", OMP_NUM_THREADS="1")
        self.env.update(extra_env or {})
        build.build_native(self.d, flags, omp=not san, vrt=vrt)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def run(self, reqs, timeout=300, env=None):
        """reqs: list of dicts(module, case, values); -> list of results; a crash is a result"""
        if len(reqs) < 24:
            return self.run_one(reqs, timeout, env)
        from concurrent.futures import ThreadPoolExecutor
        n = 4
        out = [None] * len(reqs)
        with ThreadPoolExecutor(n) as ex:
            for i, rs in enumerate(ex.map(lambda i: self.run_one(reqs[i::n], timeout, env), range(n))):
                out[i::n] = [dict(r, id=i + n * r["id"]) for r in rs]
        return out

    def run_one(self, reqs, timeout, env):
        todo = [dict(r, id=i) for i, r in enumerate(reqs)]
        out = {}
        while todo:
            inp = "".join(json.dumps(r) + "\n" for r in todo)
            try:
                p = subprocess.run([build.NATPY, VERIF + "/vp/native.py", self.d], input=inp.encode(), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env=dict(self.env, **(env or {})), cwd=self.d)
                rc, so, se = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as e:
                rc, so, se = "timeout", e.stdout or b"", e.stderr or b""
            started = None
            for ln in so.decode(errors="replace").splitlines():
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                if r.get("start"):
                    started = r["id"]
                else:
                    out[r["id"]] = r
                    started = None
            rest = [r for r in todo if r["id"] not in out]
            if not rest:
                break
            if started is None:
                raise RuntimeError("concrete runner failed (%s): %s" % (rc, se.decode(errors="replace")[-2000:]))
            out[started] = dict(id=started, ok=False, label="crash", detail="process ended with %s: %s" % (
                rc, crash_summary(se.decode(errors="replace"))))
            todo = [r for r in rest if r["id"] != started]
        return [out[i] for i in range(len(reqs))]


def crash_summary(s):
    for ln in s.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error:" in ln or "SUMMARY" in ln:
            return ln[:300]
    return s[-300:]
