"""Concrete back end: the same harnesses against the extension module compiled from the current sources.
Run with the test Python:  native.py BUILDDIR  (requests as JSON lines on stdin)."""
import sys
import os
import json
import math
import ctypes
import importlib
import faulthandler
import numpy as np


class Failure(Exception):
    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Skip(Exception):
    pass


CT = {"int": ctypes.c_int, "double": ctypes.c_double, "flouble": ctypes.c_double, "long": ctypes.c_long,
      "size_t": ctypes.c_size_t, "char": ctypes.c_char, "unsigned int": ctypes.c_uint}


class NPtr:
    def __init__(self, be, addr, base, n, keep=None):
        self.be, self.addr, self.base, self.n, self.keep = be, addr, base, n, keep

    def __getitem__(self, i):
        if self.n > 1:
            a = ctypes.cast(self.addr, ctypes.POINTER(ctypes.c_void_p))[i]
            return NPtr(self.be, a, self.base, self.n - 1)
        return ctypes.cast(self.addr, ctypes.POINTER(CT[self.base]))[i]

    def __setitem__(self, i, v):
        if self.n > 1:
            ctypes.cast(self.addr, ctypes.POINTER(ctypes.c_void_p))[i] = None if v is None else v.addr
            return
        ctypes.cast(self.addr, ctypes.POINTER(CT[self.base]))[i] = v

    def read(self, n):
        return [self[i] for i in range(n)]


class NObj(NPtr):
    def __init__(self, be, addr, st):
        self.be, self.addr, self.st = be, addr, st
        self.base, self.n = st, 1

    def __getattr__(self, k):
        be = self.__dict__["be"]
        st = self.__dict__["st"]
        m = be.structs.get(st, {})
        if k not in m:
            raise AttributeError(k)
        base, n = m[k]
        f = be.so["vp_get_%s__%s" % (st, k)]
        f.argtypes = [ctypes.c_void_p]
        f.restype = ctypes.c_void_p if n else CT[base]
        v = f(self.addr)
        if n == 0:
            return v
        if not v:
            return None
        if n == 1 and base in be.structs:
            return NObj(be, v, base)
        return NPtr(be, v, base, n)


class NCApi:
    def __init__(self, be):
        self.be = be

    def __getattr__(self, name):
        be = self.be
        pr = be.protos.get(name)
        if pr is None:
            raise AttributeError(name)
        ret, al = pr

        def call(*a):
            f = be.so[name]
            ia, da, keep = [], [], []
            for v, (ct, n, an) in zip(a, al):
                if n == 0:
                    if ct in ("int", "long", "size_t"):
                        ia.append(int(v))
                    else:
                        da.append(float(v))
                elif v is None:
                    ia.append(0)
                elif isinstance(v, str):
                    b = ctypes.create_string_buffer(v.encode())
                    keep.append(b)
                    ia.append(ctypes.addressof(b))
                elif isinstance(v, NPtr):
                    ia.append(v.addr)
                else:
                    ia.append(int(v.this))
            assert len(ia) <= 16 and len(da) <= 8
            err = ctypes.c_int(0)
            dbl = ret[1] == 0 and ret[0] in ("double", "flouble")
            t = be.so.vp_try_d if dbl else be.so.vp_try_l
            t.restype = ctypes.c_double if dbl else ctypes.c_long
            t.argtypes = [ctypes.c_void_p] * 4
            IA = (ctypes.c_long * 16)(*[x if x < 2 ** 63 else x - 2 ** 64 for x in ia])
            DA = (ctypes.c_double * 8)(*da)
            be.guard_begin()
            r = t(ctypes.cast(f, ctypes.c_void_p), ctypes.addressof(err), ctypes.addressof(IA), ctypes.addressof(DA))
            if err.value:
                raise RuntimeError("error %d reported" % err.value)
            if ret == ("void", 0):
                r = None
            elif ret == ("int", 0):
                r = ctypes.c_int(r).value
            if ret[1]:
                if not r:
                    return None
                if ret[1] == 1 and ret[0] in be.structs:
                    return NObj(be, r, ret[0])
                return NPtr(be, r, ret[0], ret[1])
            return r
        return call


class NBackend:
    symbolic = False

    def __init__(self, d):
        sys.path.insert(0, d)
        from vp import build
        import pymaster
        assert os.path.dirname(os.path.dirname(os.path.abspath(pymaster.__file__))) == os.path.abspath(d), pymaster.__file__
        import _nmtlib
        assert _nmtlib.__file__.startswith(d)
        self.nmt = pymaster
        from pymaster import nmtlib
        self.lib = nmtlib
        self.so = ctypes.CDLL(_nmtlib.__file__)
        H = open(build.REPO + "/src/namaster.h").read() + open(build.REPO + "/src/utils.h").read()
        self.protos = dict(build.protos(build.wrap_inline()))
        self.protos.update(build.protos(H))
        _, self.structs = build.accessors()
        self.C = NCApi(self)

    def guard_begin(self):
        pass

    def dbuf(self, vals):
        b = (ctypes.c_double * max(1, len(vals)))(*[float(v) for v in vals])
        return NPtr(self, ctypes.addressof(b), "double", 1, b)

    def ibuf(self, vals):
        b = (ctypes.c_int * max(1, len(vals)))(*[int(v) for v in vals])
        return NPtr(self, ctypes.addressof(b), "int", 1, b)

    def lbuf(self, vals):
        b = (ctypes.c_long * max(1, len(vals)))(*[int(v) for v in vals])
        return NPtr(self, ctypes.addressof(b), "long", 1, b)

    def pbuf(self, ptrs):
        b = (ctypes.c_void_p * max(1, len(ptrs)))(*[None if p is None else p.addr for p in ptrs])
        return NPtr(self, ctypes.addressof(b), "double", 2, (b, ptrs))

    def gmat(self, rows):
        n, m = len(rows), len(rows[0])
        d = (ctypes.c_double * (n * m))(*[float(v) for r in rows for v in r])
        b = (ctypes.c_long * 6)(n, m, m, ctypes.addressof(d), 0, 0)
        o = NPtr(self, ctypes.addressof(b), "gsl_matrix", 1, (b, d))
        o.values = lambda: [[d[i * m + j] for j in range(m)] for i in range(n)]
        return o

    def pm(self):
        return self.nmt


from vp.hcore import HBase


class HN(HBase):
    sym = False

    def __init__(self, be, values, scratch):
        super().__init__(be)
        self.values = values
        self.n = 0
        self.scratchdir = scratch
        self.rngcalls = 0

    def real(self, name, lo=-1.0, hi=1.0):
        v = self.values.get(name)
        if v is None:
            v = 0.5 * (lo + hi)
        return float(min(max(v, lo), hi))

    def int(self, name, lo, hi):
        v = self.values.get(name)
        return int(lo if v is None else v)

    def leaks(self, label, f, wcs=False):
        """bytes allocated and files open that grow with every repetition of f"""
        self.n += 1
        if wcs:
            return      # astropy.wcs objects themselves leave memory behind
        import gc
        lib = ctypes.CDLL(None)
        try:
            size = getattr(lib, "__" + "sanitizer_get_current_allocated_bytes")
            size.restype = ctypes.c_size_t
        except AttributeError:
            class Info(ctypes.Structure):
                _fields_ = [(x, ctypes.c_size_t) for x in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
            lib.mallinfo2.restype = Info

            def size():
                m = lib.mallinfo2()
                return m.uordblks + m.hblkhd

        def state():
            gc.collect()
            return size(), len(os.listdir("/proc/self/fd"))
        import time
        f()
        t = time.time()
        f()
        k = 3 if time.time() - t < 0.05 else 1
        # suspicious growth is confirmed by more and larger batches, all growing by the same amount
        for k, nb, need in ((k, 3, 2), (8, 4, 3), (25, 5, 4)):
            for _ in range(k):
                f()
            s = [state()]
            for _ in range(nb):
                for _ in range(k):
                    f()
                s.append(state())
            d = [b[0] - a[0] for a, b in zip(s, s[1:])]
            files = [b[1] - a[1] for a, b in zip(s, s[1:])]
            same = max(d, key=d.count)
            if not (min(d) >= 8 * k and d.count(same) >= need or min(files) >= k):
                return
        raise Failure(label, "every repetition leaves about %d bytes and %d files behind" % (same // k, min(files) // k))

    def assume(self, c):
        if not c:
            raise Skip()

    def close(self, label, a, b, tol=1e-9):
        A, B = self.flat(a), self.flat(b)
        if len(A) != len(B):
            raise Failure(label, "sizes differ: %d and %d" % (len(A), len(B)))
        for i, (x, y) in enumerate(zip(A, B)):
            self.n += 1
            x, y = complex(x), complex(y)
            if not abs(x - y) <= 0.5 * tol:
                raise Failure(label, "element %d: %r != %r" % (i, x, y))

    def true(self, label, c):
        self.n += 1
        if not c:
            raise Failure(label, "is false")

    def raises(self, label, f, *a, **k):
        self.n += 1
        try:
            r = f(*a, **k)
        except (RuntimeError, ValueError, TypeError, MemoryError, OverflowError, IndexError, AttributeError, FileNotFoundError, OSError, KeyError, NotImplementedError, AssertionError, ZeroDivisionError, SyntaxError) as e:
            return e
        raise Failure(label, "no error was raised")

    def file(self, name):
        return os.path.join(self.scratchdir, name)

    def zeros(self, shape):
        return np.zeros(shape)

    def array(self, x):
        return np.array(x)

    def cplx(self, re, im):
        return complex(re, im)

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def exp(self, x):
        return math.exp(x)

    def inv(self, M):
        return np.linalg.inv(np.array(M, dtype=float)).tolist()

    def inv_bound(self, b):
        pass

    def cov(self, f):
        """sample means and covariances over seeds"""
        return Sample(self, f)

    def cov_close(self, label, S, mean, want, tol):
        """want: {(i, j): covariance}, with all variances; more samples are drawn as long as a difference looks significant"""
        for n, nsig in ((2000, 4.5), (8000, 5.), (40000, 8.)):
            m, c = S.take(n)
            bad = None
            for (i, j), w in want.items():
                sg = math.sqrt(max(0., want[i, i] * want[j, j]) + w * w) / math.sqrt(n) + 1e-9 + tol
                e = abs(c[i, j] - w) / sg
                if not (e <= nsig) and (bad is None or not (e <= bad[0])):
                    bad = (e, "[%d,%d]" % (i, j), "covariance %g should be %g" % (c[i, j], w))
            for i, w in enumerate(mean):
                e = abs(m[i] - w) / (math.sqrt(max(0., want[i, i]) / n) + 1e-9 + tol)
                if not (e <= nsig) and (bad is None or not (e <= bad[0])):
                    bad = (e, "[%d]" % i, "mean %g should be %g" % (m[i], w))
            self.n += len(want) + len(mean)
            if bad is None:
                return
        raise Failure(label + bad[1], "%s (%.1f standard deviations with %d samples)" % (bad[2], bad[0], n))

    def threads(self, T, rev=False, assign="cyclic"):
        m = dict(cyclic=0, back=1, last=2, any=3)[assign]
        l = [int(self.values.get("chunk_%d" % k) or 0) for k in range(4096)] if m == 3 else []
        self.be.so.vp_omp_config(T, int(rev), m, len(l), (ctypes.c_int * max(1, len(l)))(*l))

    def races(self):
        f = getattr(self.be.so, "vp_omp_msg", None)
        if f is not None:
            f.restype = ctypes.c_char_p
            s = f()
            if s:
                raise Failure("memory:race", s.decode())

    def if_(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        return x


class Sample:
    def __init__(self, h, f):
        self.h, self.f, self.x = h, f, []

    def take(self, n):
        while len(self.x) < n:
            self.x.append([float(v) for v in self.h.flat(self.f(1000 + 17 * len(self.x)))])
        x = np.array(self.x[:n])
        return x.mean(axis=0), x.T @ x / n


def main():
    d = sys.argv[1]
    devnull = os.open(os.devnull, os.O_WRONLY)
    out = os.dup(1)
    os.dup2(2, 1)
    be = NBackend(d)
    import tempfile
    import shutil
    import warnings
    warnings.simplefilter("ignore")
    known = {}
    for ln in sys.stdin:
        rq = json.loads(ln)
        mod = importlib.import_module("harness." + rq["module"])
        sc = tempfile.mkdtemp(prefix="vpnm.fits.")
        res = {"id": rq.get("id")}
        os.write(out, (json.dumps({"id": rq.get("id"), "start": True}) + "\n").encode())
        try:
            h = HN(be, rq["values"], sc)
            if rq["module"] not in known:
                known[rq["module"]] = dict((c[0], c) for c in mod.cases("all"))
            f = known[rq["module"]][rq["case"]]
            if getattr(mod, "OMP", False):
                h.threads(1)
            f[1](h, **f[2])
            if getattr(mod, "OMP", False):
                h.races()
            res.update(ok=True, n=h.n, outs=h.outs)
        except Skip:
            res.update(ok=None, detail="assumption not met")
        except Failure as e:
            res.update(ok=False, label=e.label, detail=e.detail)
        except Exception as e:
            import traceback
            res.update(ok=False, label="exception", detail="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
        shutil.rmtree(sc, ignore_errors=True)
        os.write(out, (json.dumps(res) + "\n").encode())


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.modules.setdefault("vp.native", sys.modules["__main__"])
    main()
