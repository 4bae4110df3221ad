"""Symbolic harness object."""
import math
import numpy as np
from . import sym, stubs, symback
from .sym import Sym, SymBool, Violation, Failure, Unsupported, Infeasible
from .hcore import HBase

ERRS = (RuntimeError, ValueError, TypeError, MemoryError, OverflowError, IndexError, AttributeError, FileNotFoundError, OSError, KeyError, NotImplementedError, AssertionError, SyntaxError, ZeroDivisionError)


class HS(HBase):
    sym = True

    def __init__(self, be, ctx):
        super().__init__(be)
        self.ctx = ctx
        self.items = []
        self.bools = []
        self.vars = {}

    def real(self, name, lo=-1.0, hi=1.0):
        if name in self.vars:
            return self.vars[name]
        if lo == hi:
            return float(lo)
        v = self.vars[name] = self.ctx.newvar(name, float(lo), float(hi), False, None, True)
        return v

    def int(self, name, lo, hi):
        if name in self.vars:
            return self.vars[name]
        if lo == hi:
            return lo
        v = self.vars[name] = self.ctx.newvar(name, lo, hi, True, None, True)
        return v

    def count_store(self, p, v):
        """write a 32-bit integer into the memory of the program"""
        from . import mem
        mem.ST["4"](p, v)

    def leaks(self, label, f, wcs=False):
        """memory and files that f leaves behind"""
        import gc
        from . import mem
        gc.collect()
        mem.TRACK = []
        try:
            f()
            gc.collect()
            left = [o for o in mem.TRACK if o.alive]
        finally:
            mem.TRACK = None
        if left:
            self.ctx.fail_const(label, "%d blocks are never released: %s" % (len(left), ", ".join(sorted(o.name for o in left))[:200]))
        self.bools.append((label, True))

    def assume(self, c):
        if isinstance(c, SymBool):
            self.ctx.assume(c)
        elif not c:
            raise Infeasible()

    def close(self, label, a, b, tol=1e-9):
        A, B = self.flat(a), self.flat(b)
        if len(A) != len(B):
            self.ctx.fail_const(label, "sizes differ: %d and %d" % (len(A), len(B)))
        for i, (x, y) in enumerate(zip(A, B)):
            for part, (p, q) in enumerate(parts(x, y)):
                l = "%s[%d]" % (label, i)
                if isinstance(p, np.generic):
                    p = p.item()
                if isinstance(q, np.generic):
                    q = q.item()
                for z in (p, q):
                    if isinstance(z, sym.Undef):
                        z._bad()
                if isinstance(p, (float,)) and p != p or isinstance(q, float) and q != q:
                    self.ctx.fail_const(l, "is not a number")
                if any(isinstance(z, float) and abs(z) == math.inf for z in (p, q)) and (isinstance(p, Sym) or isinstance(q, Sym) or p != q):
                    self.ctx.fail_const(l, "is infinite")
                if not isinstance(p, Sym) and not isinstance(q, Sym) and p == q:
                    d = 0.0
                else:
                    d = p - q
                self.items.append((l, d, tol, p, q))

    def true(self, label, c):
        if isinstance(c, np.bool_):
            c = bool(c)
        self.bools.append((label, c))

    def raises(self, label, f, *a, **k):
        try:
            f(*a, **k)
        except Unsupported:
            raise
        except ERRS as e:
            self.bools.append((label, True))
            return e
        self.bools.append((label, False))

    def flush(self):
        # identical differences are one obligation each; grouped by batches
        items, self.items = self.items, []
        for i in range(0, len(items), 64):
            self.ctx.prove_small(items[i:i + 64])
        bools, self.bools = self.bools, []
        rest = [x for x in bools if isinstance(x[1], SymBool)]
        for l, c in bools:
            if not isinstance(c, SymBool):
                self.ctx.prove(l, c)
        if len(rest) > 1 and self.ctx.prove_all([c for l, c in rest]):
            return
        for l, c in rest:
            self.ctx.prove(l, c)

    def file(self, name):
        return "/scratch/" + name

    def zeros(self, shape):
        r = np.empty(shape, dtype=object).view(symback.SArr)
        r[...] = 0.0
        return r

    def array(self, x):
        return symback.NPS.array(x)

    def cplx(self, re, im):
        if isinstance(re, Sym) or isinstance(im, Sym):
            return symback.SymC(re, im)
        return complex(re, im)

    def mat(self, M, v):
        from .sht import lincomb
        v = [sym.to_real(x) for x in v]
        return [lincomb([c if abs(c) > 1e-15 else 0.0 for c in r], v) for r in M.tolist()]

    def sqrt(self, x):
        return sym.sym_sqrt(x)

    def cos(self, x):
        return stubs.S["cos"](sym.to_real(x))

    def sin(self, x):
        return stubs.S["sin"](sym.to_real(x))

    def exp(self, x):
        return stubs.S["exp"](sym.to_real(x))

    def inv(self, M):
        return stubs.inverse_of([list(r) for r in M])

    def inv_bound(self, b):
        """assume that the entries of inverses of matrices are below b"""
        self.ctx.inv_bound = b

    def cov(self, f):
        """means and covariances of the list of reals returned by f(seed)"""
        from . import noise
        self.ctx.rng_hook = noise.uniform
        return noise.moments(self.flat(f(7)))

    def cov_close(self, label, S, mean, want, tol):
        m, c = S
        self.close(label + " mean", m, mean, tol)
        rows = {}
        for (i, j), w in want.items():
            rows.setdefault(i, []).append((c[i][j], w))
        for i, r in rows.items():
            self.close("%s %d" % (label, i), [x for x, _ in r], [w for _, w in r], tol)

    def threads(self, T, rev=False, assign="cyclic"):
        """parallel regions run T virtual threads from here on"""
        from . import omp
        if assign == "any":
            omp.threads(T, rev, lambda k, i, n: self.ctx.concretize(self.int("chunk_%d" % k, 0, T - 1)))
        else:
            omp.threads(T, rev, omp.ASSIGN[assign](T))

    def if_(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        """fork over the values of a bounded integer"""
        return self.ctx.concretize(x)


def parts(x, y):
    def im(v):
        return isinstance(v, (complex, np.complexfloating, symback.SymC))
    if im(x) or im(y):
        def ri(v):
            return (v.real, v.imag) if im(v) else (v, 0.0)
        a, b = ri(x), ri(y)
        return [(a[0], b[0]), (a[1], b[1])]
    return [(x, y)]
