"""nptest.py [-v] [substr]: the numpy stand-in on common idioms: each line of nptests.txt evaluated
by numpy on numbers and by the stand-in on symbolic values, the two compared by the solver."""
import builtins, functools, itertools, math, operator, os, sys, traceback, types, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
import numpy as np
from vp import sym, symback, symh, pyload
from vp.sym import Infeasible
import vp.hcore
here = os.path.dirname(os.path.abspath(__file__))
X = [0.31, -0.42, 0.77, 0.12, -0.66, 0.9]
Y = [0.5, -0.1, 0.25, -0.8, 0.35, 0.62]
W = [0.23, 0.53, 0.9, 0.41, 0.33, 0.7]
K = [0, 2, 1, 3, 5, 2]
S = [[2.0, 0.3, 0.1], [0.3, 1.5, -0.2], [0.1, -0.2, 1.1]]
Q = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0]
v = "-v" in sys.argv
a = [z for z in sys.argv[1:] if z != "-v"]


def env(mk):
    x, y, w = mk(X, "x"), mk(Y, "y"), mk(W, "w")
    e = dict(x=x, y=y, w=w, m=mk(X, "x").reshape(2, 3) + 0.0, k=np.array(K), q=mk(Q, None), math=math, functools=functools,
             itertools=itertools, operator=operator)
    return e


bad = n = 0
for line in open(here + "/nptests.txt"):
    line = line.strip()
    if not line or a and a[0] not in line:
        continue
    n += 1
    e = env(lambda l, nm: np.array(l))
    e["np"] = np
    e["S"] = np.array(S)
    e["z"] = e["x"] + 1j * e["y"]
    try:
        want = eval(line, e)
    except Exception as er:
        print("BADTEST", line, er)
        continue
    if isinstance(want, (bool, np.bool_)) or isinstance(want, np.ndarray) and want.dtype == bool:
        want = np.array(want, dtype=float)
    want = np.array(want, dtype=complex)

    def path(c):
        h = symh.HS(types.SimpleNamespace(lib=None, C=None, nmt=None), c)

        def mk(l, nm):
            if nm is None:
                return h.array(list(l))
            return h.array([h.real("%s%d" % (nm, i), t - 1e-9, t + 1e-9) for i, t in enumerate(l)])
        e = env(mk)
        NPm = symback.NPS
        e["np"] = NPm
        s = {(i, j): h.real("s%d%d" % (i, j), S[i][j] - 1e-9, S[i][j] + 1e-9) for i in range(3) for j in range(i + 1)}
        e["S"] = h.array([[s[max(i, j), min(i, j)] for j in range(3)] for i in range(3)])
        e["z"] = h.array([h.cplx(p, r) for p, r in zip(e["x"], e["y"])])
        bi = dict(vars(builtins))
        bi["float"] = pyload.SFloat
        e["math"] = pyload.SMath
        e["__builtins__"] = bi
        got = eval(line, e)
        f = [g if isinstance(g, (sym.Sym, symback.SymC)) else (float(g) if isinstance(g, (bool, np.bool_)) else (float(bool(g)) if isinstance(g, sym.SymBool) else g)) for g in h.flat(got)]
        h.close("r", f, list(want.reshape(-1)), 1e-6)
        h.flush()
    st = sym.Stats()
    try:
        sym.explore(path, st, max_paths=500, deadline=__import__("time").time() + 60)
    except sym.Failure as f:
        print("DIFFERS", line, "|", f.label, f.detail)
        bad += 1
        if v:
            traceback.print_exc()
    except Exception as er:
        print("FAILS", line, "|", type(er).__name__, str(er)[:150])
        bad += 1
        if v:
            traceback.print_exc()
print(n, "idioms,", bad, "failures")
