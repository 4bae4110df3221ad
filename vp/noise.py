"""Random sources as symbols, and exact moments of quantities that are polynomial in them.

Uniform deviates (GSL, numpy) are independent symbols in [0,1); Gaussian deviates are independent unit symbols; the
harmonic coefficients of healpy.synalm are Gaussian symbols with the covariance given to it.  The generators' contract:
the stream is a function of the seed, streams of different seeds and different draws of one stream are independent."""
import math
import numpy as np
from . import sym, symback
from .sym import Sym, Unsupported


def C():
    return sym.CTX


def table():
    return C().memo.setdefault("noise", {})


def draw(kind, key, info=None):
    c = C()
    k = ("noise", kind) + key
    v = c.memo.get(k)
    if v is None:
        lo, hi = (0.0, 1.0 - 2.0 ** -53) if kind == "u" else (-40.0, 40.0)
        v = c.fresh("rnd_" + kind, lo=lo, hi=hi)
        c.memo[k] = v
        table()[c.var_of(v).id] = (kind,) + (info or ())
    return v


def uniform(seed, n):
    """GSL hook"""
    return draw("u", ("gsl", rep(seed), n))


def rep(s):
    return repr(s.p) if isinstance(s, Sym) else repr(s)


class Rng:
    """numpy generator"""

    def __init__(self, state=None):
        self._s = state

    def _get(self):
        return C().memo.setdefault("nprng", [("os",), 0]) if self._s is None else self._s

    def seed(self, s=None):
        st = self._get()
        if s is None:
            k = C().memo["entropy"] = C().memo.get("entropy", 0) + 1
            st[:] = [("os", k), 0]
        else:
            st[:] = [("seed", rep(s)), 0]

    def get_state(self, *a, **k):
        return list(self._get())

    def set_state(self, s):
        self._get()[:] = list(s)

    def _next(self):
        st = self._get()
        st[1] += 1
        return (st[0], st[1] - 1)

    def randint(self, *a, **k):
        # two draws differ, and draws of one state are the same
        return 12345 + int.from_bytes(repr(self._next()).encode(), "big") % 30000011

    integers = random_integers = randint

    def _many(self, kind, size):
        if size is None:
            return draw(kind, ("np",) + self._next())
        n = self._next()
        shape = (size,) if np.isscalar(size) else tuple(size)
        r = np.empty(shape, dtype=object).view(symback.SArr)
        for k, i in enumerate(np.ndindex(*shape)):
            r[i] = draw(kind, ("np",) + n + (k,))
        return r

    def standard_normal(self, size=None, **k):
        return self._many("n", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many("n", size) * scale + loc

    def randn(self, *shape):
        return self._many("n", shape or None)

    def random(self, size=None):
        return self._many("u", size)

    random_sample = random

    def rand(self, *shape):
        return self._many("u", shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many("u", size) * (high - low) + low

    def RandomState(self, s=None):
        r = Rng([None, 0])
        r.seed(s)
        return r

    default_rng = RandomState

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("np.random." + k)


def synalm(cls, lmax=None, mmax=None, new=False, verbose=True):
    single = not isinstance(cls[0], (list, tuple, np.ndarray)) and cls[0] is not None
    if single:
        cls = [cls]
    n = int((math.sqrt(8 * len(cls) + 1) - 1) / 2)
    if n * (n + 1) // 2 != len(cls):
        if len(cls) == 4 and not new:
            raise Unsupported("synalm with 4 spectra")
        raise TypeError("The argument \"cls\" must have n(n+1)/2 elements")
    if lmax is None or lmax < 0:
        lmax = max(len(c) for c in cls if c is not None) - 1
    if mmax is None or mmax < 0:
        mmax = lmax
    if mmax != lmax:
        raise Unsupported("synalm with mmax")
    pos = {}
    if new:
        i = 0
        for d in range(n):
            for a in range(n - d):
                pos[a, a + d] = pos[a + d, a] = i
                i += 1
    else:
        i = 0
        for a in range(n):
            for b in range(a, n):
                pos[a, b] = pos[b, a] = i
                i += 1

    def val(c, l):
        c = cls[c]
        if c is None or l >= len(c):
            return 0.0
        v = c[l]
        return v.item() if isinstance(v, np.generic) else v
    g = symback.NP.random._next()
    mats = [[[val(pos[a, b], l) for b in range(n)] for a in range(n)] for l in range(lmax + 1)]
    idx = [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]
    out = []
    for a in range(n):
        r = np.empty(len(idx), dtype=object).view(symback.SArr)
        for k, (l, m) in enumerate(idx):
            p = [draw("g", g + (l, m, part, a, tuple(rep(x) for x in mats[l][a])), ((g, l, m, part), a, mats[l], 0.5 if m else 1.0))
                 for part in ((0, 1) if m else (0,))]
            r[k] = symback.SymC(p[0], p[1] if m else 0.0)
        out.append(r)
    return out[0] if single else out


# ------------------------------------------------------------------ moments
def deps(v):
    """random symbols that a variable depends on"""
    c = C()
    memo = c.memo.setdefault("noisedeps", {})
    if v.id in memo:
        return memo[v.id]
    if v.id in table():
        r = frozenset([v.id])
    elif v.defn is None:
        r = frozenset()
    else:
        r = set()
        for x in v.defn[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Sym):
                    for m in y.p:
                        for i in m:
                            r |= deps(c.vars[i])
        r = frozenset(r)
    memo[v.id] = r
    return r


def split(p):
    """polynomial -> {random monomial: coefficient polynomial}"""
    c = C()
    out = {}
    for m, k in p.items():
        a = tuple(i for i in m if deps(c.vars[i]))
        b = tuple(i for i in m if not deps(c.vars[i]))
        d = out.setdefault(a, {})
        d[b] = d.get(b, 0.0) + k
    return {a: Sym(d, False) for a, d in out.items()}


def evaluate(i, u, x, env):
    """value of variable i given that the uniform symbol u is x (and 1-u is y)"""
    c = C()
    if i == u:
        return x
    if i in env:
        return env[i]
    v = c.vars[i]
    d = v.defn

    def p(q):
        if not isinstance(q, Sym):
            return q
        t = 0.0
        for m, k in q.p.items():
            for j in m:
                k = k * evaluate(j, u, x, env)
            t += k
        return t
    if d[0] == "inv":
        r = 1.0 / p(d[1])
    elif d[0] == "sqrt":
        r = math.sqrt(max(p(d[1]), 0.0))
    elif d[0] == "fn":
        r = sym.FN_EVAL[d[1]](p(d[2]))
    else:
        raise Unsupported("random " + d[0])
    env[i] = r
    return r


def nodes():
    """tanh-sinh rule on (0,1)"""
    r = []
    h = 1.0 / 32
    for k in range(-105, 106):
        t = k * h
        s = math.pi / 2 * math.sinh(t)
        x = 1.0 / (1.0 + math.exp(-2 * s)) if s > -300 else 0.0
        w = h * math.pi / 2 * math.cosh(t) / (2 * math.cosh(s) ** 2) if abs(s) < 300 else 0.0
        if w > 1e-19 and 0 < x < 1:
            r.append((x, w))
    return r


NODES = nodes()


def single(u, ids):
    """expectation of a product of functions of one uniform deviate"""
    c = C()
    key = ("moment", u, ids)
    r = c.memo.get(key)
    if r is None:
        # same function of another deviate
        k2 = ("momentf", tuple(shape(i, u) for i in ids))
        r = c.memo.get(k2)
        if r is None:
            r = 0.0
            for x, w in NODES:
                env = {}
                t = w
                for i in ids:
                    t *= evaluate(i, u, x, env)
                r += t
            r = round(r, 11)
            c.memo[k2] = r
        c.memo[key] = r
    return r


def shape(i, u):
    """structure of a variable as a function of u"""
    if i == u:
        return "u"
    c = C()
    d = c.vars[i].defn

    def p(q):
        return q if not isinstance(q, Sym) else tuple(sorted((tuple(sorted(map(repr, (shape(j, u) for j in m)))), k) for m, k in q.p.items()))
    return tuple(x if isinstance(x, str) else p(x) for x in d)


def gauss(ids):
    """expectation of a product of jointly Gaussian symbols"""
    if not ids:
        return 1.0
    if len(ids) & 1:
        return 0.0
    T = table()
    t = 0.0
    for j in range(1, len(ids)):
        a, b = T[ids[0]], T[ids[j]]
        if a[0] != b[0]:
            continue
        if a[0] == "n":
            e = 1.0 if ids[0] == ids[j] else 0.0
        else:
            e = a[3][a[2]][b[2]] * a[4] if a[1] == b[1] else 0.0
        if isinstance(e, float) and e == 0.0:
            continue
        t = t + e * gauss(ids[1:j] + ids[j + 1:])
    return t


def moment(ids):
    """expectation of a random monomial (sorted variable ids)"""
    if not ids:
        return 1.0
    c = C()
    key = ("Emono", ids)
    r = c.memo.get(key)
    if r is not None:
        return r
    T = table()
    groups, g = {}, []
    for i in ids:
        d = deps(c.vars[i])
        if i in T and T[i][0] != "u":
            g.append(i)
            continue
        if len(d) != 1 or T[next(iter(d))][0] != "u":
            raise Unsupported("moment of a function of several random numbers")
        groups.setdefault(next(iter(d)), []).append(i)
    r = 1.0
    for u, v in groups.items():
        r = r * single(u, tuple(v))
        if isinstance(r, float) and r == 0.0:
            break
    else:
        r = r * gauss(tuple(g))
    c.memo[key] = r
    return r


def expect(*xs):
    """expectation of the product of the given quantities"""
    parts = [split(x.p) if isinstance(x, Sym) else {(): float(x)} for x in xs]
    acc = {(): 1.0}
    for p in parts[:-1]:
        n = {}
        for a, x in acc.items():
            for b, y in p.items():
                k = tuple(sorted(a + b))
                t = x * y
                n[k] = n[k] + t if k in n else t
        acc = n
    t = 0.0
    for a, x in acc.items():
        for b, y in parts[-1].items():
            e = moment(tuple(sorted(a + b)))
            if isinstance(e, float) and e == 0.0:
                continue
            t = t + x * y * e
    return t


def moments(xs):
    """means and covariances of a list of quantities"""
    n = len(xs)
    mean = [expect(x) for x in xs]
    cov = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            cov[i][j] = cov[j][i] = expect(xs[i], xs[j])
    return mean, cov
