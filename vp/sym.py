"""Symbolic real/integer values, path exploration and solver queries.

A symbolic number is a multivariate polynomial over declared variables.  Concrete
arithmetic is done in IEEE doubles exactly as the compiled code does it; once a
symbolic variable is involved the arithmetic is real arithmetic (coefficients are
doubles).  Non-polynomial operations introduce a fresh variable together with the
constraint that defines it.
"""
import math
import time
import random
from fractions import Fraction
import z3


class Infeasible(Exception):
    """The current path turned out to be infeasible."""


class Unsupported(Exception):
    """The machinery cannot encode this; never a verdict."""


class Violation(Exception):
    """A memory-safety violation or failed assertion on the current path."""
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Var:
    __slots__ = ("id", "name", "lo", "hi", "isint", "defn", "z", "base")

    def __init__(self, id, name, lo, hi, isint, defn=None, base=False):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.isint = isint
        self.defn = defn
        self.base = base
        self.z = z3.Int(name) if isint else z3.Real(name)


CTX = None  # current context


def ctx():
    return CTX


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(c)
    return z3.Q(f.numerator, f.denominator)


def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y
    v = (m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1]))
    return (min(v), max(v))


def mono_bounds(m):
    C = CTX
    b = C.mbounds.get(m)
    if b is not None:
        return b
    lo, hi = 1.0, 1.0
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        k = j - i
        v = C.vars[m[i]]
        a, c = v.lo, v.hi
        if k == 1:
            pa, pc = a, c
        else:
            try:
                x, y = a ** k, c ** k
            except OverflowError:
                x, y = (math.inf if k % 2 == 0 or a > 0 else -math.inf), math.inf
            if k % 2 == 0:
                pc = max(x, y)
                pa = 0.0 if a <= 0 <= c else min(x, y)
            else:
                pa, pc = x, y
        lo, hi = _imul((lo, hi), (pa, pc))
        i = j
    C.mbounds[m] = (lo, hi)
    return (lo, hi)


def poly_bounds(p):
    lo = hi = 0.0
    for m, c in p.items():
        if not m:
            lo += c
            hi += c
            continue
        a, b = mono_bounds(m)
        x, y = _imul((c, c), (a, b))
        lo += x
        hi += y
    return lo, hi


def _key(p):
    return tuple(sorted(p.items()))


class Sym:
    """Polynomial; .i tells whether it is an integer."""
    __slots__ = ("p", "i", "w", "f")
    __hash__ = None
    __array_priority__ = 1000.0

    def __init__(self, p, i=False):
        self.p = p
        self.i = i

    # ---- helpers
    def const(self):
        p = self.p
        if not p:
            return 0 if self.i else 0.0
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def bounds(self):
        return poly_bounds(self.p)

    @staticmethod
    def norm(s):
        p = s.p
        if not p:
            return 0 if s.i else 0.0
        if len(p) == 1 and () in p:
            c = p[()]
            return c if s.i else float(c)
        return s

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def conj(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, Sym):
            a, b = self.p, o.p
            if len(a) < len(b):
                a, b = b, a
            r = dict(a)
            for m, c in b.items():
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
            return Sym.norm(Sym(r, self.i and o.i))
        if isinstance(o, (int, float)):
            if o == 0 and (self.i <= isinstance(o, int)):
                return self
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported("symbolic + non-finite")
            r = dict(self.p)
            v = r.get((), 0) + o
            if v == 0:
                r.pop((), None)
            else:
                r[()] = v
            return Sym.norm(Sym(r, self.i and isinstance(o, int)))
        o2 = lift(o)
        if o2 is None:
            return arr_op(self, "__add__", o)
        return self + o2
    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()}, self.i)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            return self + (-o)
        if isinstance(o, (int, float)):
            return self + (-o)
        o2 = lift(o)
        if o2 is None:
            return arr_op(self, "__sub__", o)
        return self - o2

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Sym):
            r = {}
            for m1, c1 in self.p.items():
                for m2, c2 in o.p.items():
                    if not m1:
                        m = m2
                    elif not m2:
                        m = m1
                    else:
                        m = tuple(sorted(m1 + m2))
                    v = r.get(m)
                    c = c1 * c2
                    r[m] = c if v is None else v + c
            rw = CTX.rewrites
            if rw:
                r = CTX.rewrite(r)
            if 0 in r.values() or 0.0 in r.values():
                r = {m: c for m, c in r.items() if c != 0}
            r = Sym.norm(Sym(r, self.i and o.i))
            if isinstance(r, Sym):
                r.f = (self, o)
            return r
        if isinstance(o, (int, float)):
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported("symbolic * non-finite")
            if o == 0:
                return 0 if (self.i and isinstance(o, int)) else 0.0
            if o == 1 and (self.i <= isinstance(o, int)):
                return self
            return Sym({m: c * o for m, c in self.p.items()}, self.i and isinstance(o, int))
        o2 = lift(o)
        if o2 is None:
            return arr_op(self, "__mul__", o)
        return self * o2
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Sym):
            return self * inverse(o)
        if isinstance(o, (int, float)):
            if o == 0:
                raise Unsupported("symbolic / 0")
            return to_real(self) * 1.0 if o == 1 else Sym({m: c / o for m, c in self.p.items()}, False)
        o2 = lift(o)
        if o2 is None:
            return arr_op(self, "__truediv__", o)
        return self / o2

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return arr_op(self, "__rtruediv__", o)
        return o2 * inverse(self)

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n >= 0:
                r = 1 if self.i else 1.0
                for _ in range(n):
                    r = self * r
                return r
            return 1.0 / (self ** (-n))
        if n == 0.5:
            return self.sqrt()
        raise Unsupported("pow")

    def __abs__(self):
        return -self if (self < 0) else self

    def __floordiv__(self, o):
        if self.i and isinstance(o, int) and o > 0:
            q = CTX.fresh("q", isint=True, defn=("fdiv", self, o))
            lo, hi = self.bounds()
            v = CTX.var_of(q)
            v.lo, v.hi = math.floor(lo / o), math.floor(hi / o)
            CTX.add_def(self - q * o >= 0)
            CTX.add_def(self - q * o <= o - 1)
            return q
        if not self.i or isinstance(o, float):
            return to_real(floor_int(self / o))
        raise Unsupported("floordiv")

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __trunc__(self):
        return trunc_int(self)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def trunc(self):
        return to_real(trunc_int(self))

    def __lshift__(self, n):
        return self * (1 << n)

    def __rshift__(self, n):
        return self // (1 << n)

    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_fn("exp", self, 0.0, math.inf)

    def log(self):
        return sym_fn("log", self, -math.inf, math.inf)

    def cos(self):
        return sym_fn("cos", self, -1.0, 1.0)

    def sin(self):
        return sym_fn("sin", self, -1.0, 1.0)

    # ---- comparisons
    def __lt__(self, o):
        return cmp("<", self, o)

    def __le__(self, o):
        return cmp("<=", self, o)

    def __gt__(self, o):
        return cmp("<", o, self)

    def __ge__(self, o):
        return cmp("<=", o, self)

    def __eq__(self, o):
        return cmp("==", self, o)

    def __ne__(self, o):
        r = cmp("==", self, o)
        if isinstance(r, bool):
            return not r
        return r.neg()

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return CTX.concretize(self)

    def __int__(self):
        return CTX.concretize(self if self.i else trunc_int(self))

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return "Sym(%s)" % poly_str(self.p)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round of symbolic")
        # nearest integer, ties to even
        x = to_real(self)
        f = floor_int(x + 0.5)
        if isinstance(f, Sym):
            if bool(x + 0.5 == f):
                raise Unsupported("round of symbolic")
            return f
        if f & 1 and bool(x + 0.5 == f):
            f -= 1
        return f

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def z(self):
        return CTX.zpoly(self.p)


def arr_op(x, op, o):
    """scalar with an array: element by element"""
    import numpy as np
    if not isinstance(o, np.ndarray):
        return NotImplemented
    from .symback import vec
    return vec(o, lambda v: getattr(x, op)(v.item() if isinstance(v, np.generic) else v))


def poly_str(p, maxn=12):
    out = []
    for m, c in list(p.items())[:maxn]:
        out.append("%r*%s" % (c, "*".join(CTX.vars[i].name for i in m)) if m else repr(c))
    if len(p) > maxn:
        out.append("...(%d terms)" % len(p))
    return " + ".join(out) if out else "0"


class Undef:
    """undefined double: goes through copies and arithmetic, must not decide anything or reach an output"""
    __slots__ = ("msg",)

    def __init__(self, msg):
        self.msg = msg

    def _bad(self, *a):
        raise Violation("uninit", self.msg)

    def _prop(self, *a):
        return self

    for _n in "add radd sub rsub mul rmul truediv rtruediv neg abs pow rpow".split():
        locals()["__%s__" % _n] = _prop
    for _n in "lt le gt ge eq ne bool float int round mod rmod floordiv rfloordiv index trunc floor ceil".split():
        locals()["__%s__" % _n] = _bad
    __hash__ = None
    sqrt = exp = log = cos = sin = conjugate = _prop

    def __repr__(self):
        return "undefined"


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, bool):
        return Sym({(): int(o)} if o else {}, True)
    if isinstance(o, int):
        return Sym({(): o} if o else {}, True)
    if isinstance(o, float):
        if o != o or o in (math.inf, -math.inf):
            raise Unsupported("non-finite in symbolic arithmetic")
        return Sym({(): o} if o else {}, False)
    try:
        import numpy as np
        if isinstance(o, np.floating):
            return lift(float(o))
        if isinstance(o, np.integer):
            return lift(int(o))
        if isinstance(o, np.bool_):
            return lift(bool(o))
        if isinstance(o, np.ndarray) and o.shape == ():
            return lift(o.item())
    except ImportError:
        pass
    return None


def issym(x):
    return isinstance(x, Sym)


def to_real(x):
    if isinstance(x, Undef):
        return x
    if isinstance(x, Sym):
        return Sym(x.p, False) if x.i else x
    return float(x)


def trunc_int(x):
    """C conversion double -> int (truncation towards zero)."""
    if not isinstance(x, Sym):
        if x != x or abs(x) == math.inf:
            raise Violation("float-cast", "conversion of %r to an integer" % x)
        return int(x)
    if x.i:
        return x
    lo, hi = x.bounds()
    if lo >= 0 or bool(x >= 0):
        return floor_int(x)
    return -floor_int(-x)


def floor_int(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    if x.i:
        return x
    k = _key(x.p)
    f = CTX.memo.get(("floor", k))
    if f is None:
        lo, hi = x.bounds()
        if hi - lo <= CTX.eager_int:
            # fork over the values
            f = math.floor(hi)
            for v in range(math.floor(lo), math.floor(hi)):
                if bool(x < v + 1):
                    f = v
                    break
            CTX.memo[("floor", k)] = f
            return f
        f = CTX.fresh("fl", isint=True, defn=("floor", x))
        v = CTX.var_of(f)
        v.lo = math.floor(lo) if lo > -math.inf else lo
        v.hi = math.floor(hi) if hi < math.inf else hi
        CTX.memo[("floor", k)] = f
        CTX.add_def(to_real(f) <= x)
        CTX.add_def(x < to_real(f) + 1)
    return f


def inverse(d):
    """1/d as a fresh variable r with r*d == 1 (d != 0 is decided on the path)."""
    d = to_real(d) if isinstance(d, Sym) else d
    if not isinstance(d, Sym):
        if d == 0:
            raise Unsupported("1/0")
        return 1.0 / d
    lo, hi = d.bounds()
    if not (lo > 0 or hi < 0):
        if bool(d == 0):
            CTX.note_divzero()
    # normalise
    lead = d.p[min(d.p)]
    p = {m: c / lead for m, c in d.p.items()}
    if len(p) == 1:
        m = next(iter(p))
        # product of inverses of the variables
        r = 1.0
        for i in m:
            r = r * _inv_atom({(i,): 1.0})
        return r * (1.0 / lead)
    # common monomial factor; the inverse of an inverse is the original
    m = list(min(p, key=len))
    for q in p:
        if not m:
            break
        left, m2 = list(q), []
        for i in m:
            if i in left:
                left.remove(i)
                m2.append(i)
        m = m2
    if m:
        Q = {}
        for q, c in p.items():
            q = list(q)
            for i in m:
                q.remove(i)
            Q[tuple(q)] = c
        r, rest = 1.0 / lead, Sym(Q, False)
        for i in m:
            dn = CTX.vars[i].defn
            if dn and dn[0] == "inv":
                f = ratio(rest.p, dn[1].p)
                if f is not None:
                    r, rest = r / f, Sym({(): 1.0}, False)
                else:
                    r = r * dn[1]
            else:
                r = r * _inv_atom({(i,): 1.0})
        c = rest.const()
        return r * (1.0 / c if c is not None else inverse(rest))
    k = ("inv", _key(p))
    r = CTX.memo.get(k)
    if r is None:
        # match up to rounding of coefficients
        for (kk, pp, rr) in CTX.invs:
            if len(pp) == len(p) and all(m in pp and abs(pp[m] - c) <= 1e-13 * max(abs(c), 1.0) for m, c in p.items()):
                r = rr
                break
        if r is None:
            r = _inv_atom(p)
            CTX.invs.append((k, p, r))
        CTX.memo[k] = r
    return r * (1.0 / lead)


def ratio(p, q):
    """c with p = c*q, or None"""
    if len(p) != len(q) or not p or any(m not in q for m in p):
        return None
    m = min(p)
    c = p[m] / q[m]
    if all(abs(p[k] - c * q[k]) <= 1e-13 * abs(p[k]) for k in p):
        return c
    return None


def _inv_atom(p):
    k = ("inv", _key(p))
    r = CTX.memo.get(k)
    if r is None:
        d = Sym(p, False)
        lo, hi = d.bounds()
        r = CTX.fresh("inv", defn=("inv", d))
        v = CTX.var_of(r)
        if lo > 0:
            v.lo, v.hi = (1.0 / hi if hi < math.inf else 0.0) * (1 - 1e-12), (1.0 / lo) * (1 + 1e-12)
        elif hi < 0:
            v.lo, v.hi = (1.0 / hi) * (1 + 1e-12), (1.0 / lo if lo > -math.inf else 0.0) * (1 - 1e-12)
        CTX.memo[k] = r
        if len(p) == 1 and len(next(iter(p))) == 1:
            # x * (1/x) rewrites to 1
            CTX.add_rewrite((next(iter(p))[0], v.id), {(): 1.0})
        CTX.add_def(r * d == 1.0, poly=(r * d) - 1.0)
    return r


def surely_nonneg(x):
    """products of factors whose signs are known on this path"""
    if not isinstance(x, Sym):
        return x >= 0
    if x.bounds()[0] >= 0:
        return True
    f = getattr(x, "f", None)
    if f is not None and surely_nonneg(f[0]) and surely_nonneg(f[1]):
        return True
    if f is None:
        e = x < 0
        return not (CTX.feasible(e) if isinstance(e, SymBool) else e)
    return False


def sym_sqrt(x):
    if not isinstance(x, Sym):
        return math.sqrt(x) if x >= 0 else math.nan
    x = to_real(x)
    c = x.const()
    if c is not None:
        return math.sqrt(c) if c >= 0 else math.nan
    lo, hi = x.bounds()
    if lo < 0 and not surely_nonneg(x):
        if bool(x < 0):
            raise Violation("nan", "sqrt of a negative number")
    # perfect square of a single variable monomial
    if len(x.p) == 1:
        m, cf = next(iter(x.p.items()))
        if len(m) % 2 == 0 and all(m[2 * j] == m[2 * j + 1] for j in range(len(m) // 2)) and cf > 0:
            half = tuple(m[2 * j] for j in range(len(m) // 2))
            s = Sym({half: math.sqrt(cf)}, False)
            return abs(s)
    k = ("sqrt", _key(x.p))
    r = CTX.memo.get(k)
    if r is None:
        r = CTX.fresh("sqrt", defn=("sqrt", x))
        v = CTX.var_of(r)
        v.lo = math.sqrt(max(lo, 0.0)) * (1 - 1e-12)
        v.hi = math.sqrt(hi) * (1 + 1e-12) if hi < math.inf else math.inf
        CTX.memo[k] = r
        CTX.add_rewrite((v.id, v.id), x.p)
        CTX.add_def(r >= 0)
        CTX.add_defz(v.z * v.z == CTX.zpoly(x.p))
    return r


def fn_bounds(name, lo, hi):
    """range of a library function over an interval"""
    try:
        if name in ("acos", "asin"):
            lo, hi = max(lo, -1.0), min(hi, 1.0)
            a, b = getattr(math, name)(lo), getattr(math, name)(hi)
        elif name in ("exp", "atan"):
            a, b = getattr(math, name)(max(lo, -700.0)) if lo > -700 else (0.0 if name == "exp" else -math.pi / 2), getattr(math, name)(hi)
        elif name == "log":
            a = math.log(lo) if lo > 0 else -math.inf
            b = math.log(hi)
            return a - 1e-12 * abs(a), (b + 1e-12 * abs(b) if hi != 1.0 else 0.0)
        elif name in ("sin", "cos") and hi - lo < 6:
            f = getattr(math, name)
            sh = 0.0 if name == "cos" else math.pi / 2
            a, b = sorted((f(lo), f(hi)))
            # maxima of cos at 2k pi, minima at (2k+1) pi
            for k in range(math.ceil((lo - sh) / math.pi), math.floor((hi - sh) / math.pi) + 1):
                if k % 2:
                    a = -1.0
                else:
                    b = 1.0
        else:
            return -math.inf, math.inf
    except (ValueError, OverflowError):
        return -math.inf, math.inf
    a, b = min(a, b), max(a, b)
    return a - 1e-12 * max(1.0, abs(a)), b + 1e-12 * max(1.0, abs(b))


def sym_fn(name, x, lo, hi):
    """Uninterpreted function with a range."""
    if not isinstance(x, Sym):
        return getattr(math, name)(x)
    x = to_real(x)
    k = ("fn", name, _key(x.p))
    r = CTX.memo.get(k)
    if r is None:
        for (nm, pp, rr) in CTX.fns:
            if nm == name and len(pp) == len(x.p) and all(
                    m in pp and abs(pp[m] - c) <= 1e-13 * max(abs(c), 1.0) for m, c in x.p.items()):
                r = rr
                break
        if r is None:
            r = CTX.fresh(name, defn=("fn", name, x))
            v = CTX.var_of(r)
            a, b = fn_bounds(name, *x.bounds())
            v.lo, v.hi = max(lo, a), min(hi, b)
            CTX.fns.append((name, dict(x.p), r))
            CTX.fn_axioms(name, x, r)
        CTX.memo[k] = r
    return r


def cmp(op, a, b):
    a2, b2 = a, b
    if isinstance(b, (float,)) and b in (math.inf, -math.inf):
        if op == "==":
            return False
        return b > 0
    if isinstance(a, (float,)) and a in (math.inf, -math.inf):
        if op == "==":
            return False
        return a < 0
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return False
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        if op == "==":
            return False
        raise Unsupported("comparison of symbolic value with %r / %r" % (a, b))
    d = a2 - b2  # d op 0
    if not isinstance(d, Sym):
        return d < 0 if op == "<" else (d <= 0 if op == "<=" else d == 0)
    lo, hi = d.bounds()
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == "<=":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return False
    return SymBool("cmp", op, d)


class SymBool:
    __slots__ = ("k", "a", "b", "_z")
    __hash__ = None

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b
        self._z = None

    def neg(self):
        if self.k == "not":
            return self.a
        if self.k == "cmp":
            if self.a == "<":   # d<0 -> -d<=0
                return SymBool("cmp", "<=", -self.b)
            if self.a == "<=":
                return SymBool("cmp", "<", -self.b)
        return SymBool("not", self)

    def z(self):
        if self._z is None:
            if self.k == "cmp":
                e = CTX.zpoly(self.b.p)
                self._z = e < 0 if self.a == "<" else (e <= 0 if self.a == "<=" else e == 0)
            elif self.k == "not":
                self._z = z3.Not(self.a.z())
            elif self.k == "and":
                self._z = z3.And([bz(x) for x in self.a])
            elif self.k == "or":
                self._z = z3.Or([bz(x) for x in self.a])
            elif self.k == "z":
                self._z = self.a
        return self._z

    def ev(self, env):
        if self.k == "cmp":
            v = CTX.evalp(self.b.p, env)
            return v < 0 if self.a == "<" else (v <= 0 if self.a == "<=" else v == 0)
        if self.k == "not":
            return not self.a.ev(env)
        if self.k == "and":
            return all(bev(x, env) for x in self.a)
        if self.k == "or":
            return any(bev(x, env) for x in self.a)
        raise Unsupported("ev")

    def lin(self):
        """linear-relaxation form over monomial variables"""
        if self.k == "cmp":
            e = CTX.lpoly(self.b.p)
            return e < 0 if self.a == "<" else (e <= 0 if self.a == "<=" else e == 0)
        if self.k == "not":
            return z3.Not(self.a.lin())
        if self.k == "and":
            return z3.And([blin(x) for x in self.a])
        if self.k == "or":
            return z3.Or([blin(x) for x in self.a])
        raise Unsupported("lin")

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __xor__(self, o):
        if bool(o):
            return self.neg()
        return self
    __rxor__ = __xor__

    # integer view (zext)
    def __int__(self):
        return 1 if CTX.decide(self) else 0

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __repr__(self):
        return "SymBool(%s)" % self.z()


def margin(b, env):
    """b holds at env, clearly"""
    if not isinstance(b, SymBool):
        return bool(b)
    if b.k == "cmp":
        v = CTX.evalp(b.b.p, env)
        if any(CTX.vars[i].isint for m in b.b.p for i in m):
            return b.ev(env)
        return v < -1e-9 * (1 + max(abs(c) for c in b.b.p.values())) if b.a in ("<", "<=") else False
    if b.k == "not":
        n = b.a
        if isinstance(n, SymBool) and n.k == "cmp":
            v = CTX.evalp(n.b.p, env)
            if any(CTX.vars[i].isint for m in n.b.p for i in m):
                return b.ev(env)
            eps = 1e-9 * (1 + max(abs(c) for c in n.b.p.values()))
            return v > eps if n.a in ("<", "<=") else abs(v) > eps
        return b.ev(env)
    if b.k == "and":
        return all(margin(x, env) for x in b.a)
    if b.k == "or":
        return any(margin(x, env) for x in b.a)
    return b.ev(env)


def bz(x):
    return x.z() if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def blin(x):
    return x.lin() if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def bev(x, env):
    return x.ev(env) if isinstance(x, SymBool) else bool(x)


def b_not(x):
    if isinstance(x, SymBool):
        return x.neg()
    return not x


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", out)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.infeasible = 0
        self.normalised = 0
        self.fns = set()
        self.instr = 0
        self.funcs_py = set()

    def d(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, paths=self.paths, decisions=self.decisions,
                    obligations=self.obligations, infeasible_paths=self.infeasible, cancelled=self.normalised)


class Failure(Exception):
    """An obligation (or memory safety) fails for the model given."""
    def __init__(self, label, detail, model):
        super().__init__("%s: %s" % (label, detail))
        self.label = label
        self.detail = detail
        self.model = model


class Inconclusive(Exception):
    pass


class Context:
    """One path of one harness instance."""
    def __init__(self, stats, prefix=(), seed=1, timeout_ms=20000, dec_timeout_ms=4000):
        self.stats = stats
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.vars = []
        self.mbounds = {}
        self.memo = {}
        self.invs = []
        self.fns = []
        self.rewrites = {}
        self.rwpairs = {}
        self.cons = []       # SymBool constraints (assumes, decisions, definitions)
        self.defs_poly = []  # polynomials known to be zero
        self.defs_z = []
        self.seed = seed
        self.timeout = timeout_ms
        self.dec_timeout = dec_timeout_ms
        self.solver = None
        self.solver_n = 0
        self.solver_nz = 0
        self.solver_nv = 0
        self.lmono = {}
        self.rng = random.Random(seed)
        self.nfresh = {}
        self.samples = None
        self.no_fork = False
        self.inv_bound = 1e5
        self.eager_int = 0
        self.pb = {}
        self.pb_n = 0
        self.concrete_log = []

    # ------------------------------------------------------------ variables
    samples = None

    def newvar(self, name, lo, hi, isint=False, defn=None, base=False):
        v = Var(len(self.vars), name, lo, hi, isint, defn, base)
        self.vars.append(v)
        return Sym({(v.id,): 1 if isint else 1.0}, isint)

    def fresh(self, stem, isint=False, defn=None, lo=-math.inf, hi=math.inf):
        n = self.nfresh.get(stem, 0)
        self.nfresh[stem] = n + 1
        return self.newvar("_%s%d" % (stem, n), lo, hi, isint, defn)

    def var_of(self, s):
        return self.vars[next(iter(s.p))[0]]

    def add_rewrite(self, pair, p):
        self.rewrites[tuple(sorted(pair))] = p
        self.rwpairs.setdefault(min(pair), []).append((max(pair), p))

    def rewrite(self, r):
        """apply pair rewrites (x*inv x -> 1, s*s -> arg) to a fixpoint"""
        rwp = self.rwpairs
        todo = r
        out = {}
        while todo:
            nxt = {}
            for m, c in todo.items():
                hit = None
                for idx, i in enumerate(m):
                    prs = rwp.get(i)
                    if prs:
                        rest = m[:idx] + m[idx + 1:]
                        for (j, p) in prs:
                            if j in rest:
                                k = rest.index(j)
                                hit = (rest[:k] + rest[k + 1:], p)
                                break
                        if hit:
                            break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
                else:
                    rest, p = hit
                    for m2, c2 in p.items():
                        mm = tuple(sorted(rest + m2))
                        nxt[mm] = nxt.get(mm, 0) + c * c2
            todo = nxt
        return out

    # ------------------------------------------------------------ z3 views
    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(zq(c))
                continue
            t = None
            for i in m:
                v = self.vars[i]
                z = z3.ToReal(v.z) if v.isint else v.z
                t = z if t is None else t * z
            if c == 1:
                ts.append(t)
            else:
                ts.append(zq(c) * t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def lvar(self, m):
        z = self.lmono.get(m)
        if z is None:
            if len(m) == 1:
                v = self.vars[m[0]]
                z = z3.ToReal(v.z) if v.isint else v.z
            else:
                z = z3.Real("m_" + "_".join(map(str, m)))
            self.lmono[m] = z
        return z

    def lpoly(self, p):
        ts = []
        for m, c in p.items():
            ts.append(zq(c) if not m else (self.lvar(m) if c == 1 else zq(c) * self.lvar(m)))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    # ------------------------------------------------------------ constraints
    def assume(self, b):
        if isinstance(b, SymBool):
            self.cons.append(b)
        elif not b:
            raise Infeasible()

    def add_def(self, b, poly=None):
        if isinstance(b, SymBool):
            self.cons.append(b)
        if poly is not None and isinstance(poly, Sym):
            self.defs_poly.append(poly)

    def add_defz(self, z):
        self.defs_z.append(z)

    def fn_axioms(self, name, x, r):
        if name == "exp":
            self.add_def(r > 0)

    def note_divzero(self):
        raise Violation("div0", "division by zero")

    def var_bound_constraints(self, v):
        out = []
        if v.lo > -math.inf:
            out.append(v.z >= (int(v.lo) if v.isint else zq(v.lo)))
        if v.hi < math.inf:
            out.append(v.z <= (int(v.hi) if v.isint else zq(v.hi)))
        return out

    def sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("random_seed", 1)
        while self.solver_nv < len(self.vars):
            v = self.vars[self.solver_nv]
            for c in self.var_bound_constraints(v):
                self.solver.add(c)
            self.solver_nv += 1
        while self.solver_n < len(self.cons):
            self.solver.add(self.cons[self.solver_n].z())
            self.solver_n += 1
        while self.solver_nz < len(self.defs_z):
            self.solver.add(self.defs_z[self.solver_nz])
            self.solver_nz += 1
        return self.solver

    def check(self, *extra, timeout=None):
        s = self.sync()
        s.set("timeout", timeout or self.timeout)
        t0 = time.time()
        r = s.check(*extra)
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    # ------------------------------------------------------------ decisions
    def narrow(self):
        """intervals of variables from the path's constraints in one variable"""
        pb = self.pb
        while self.pb_n < len(self.cons):
            b = self.cons[self.pb_n]
            self.pb_n += 1
            todo = [b]
            while todo:
                b = todo.pop()
                if not isinstance(b, SymBool):
                    continue
                if b.k == "and":
                    todo += b.a
                    continue
                if b.k != "cmp" or len(b.b.p) > 2:
                    continue
                p = b.b.p
                ks = [m for m in p if m]
                if len(ks) != 1 or len(ks[0]) != 1 or len(p) == 2 and () not in p:
                    continue
                i, c, d = ks[0][0], p[ks[0]], p.get((), 0)
                x = -d / c
                e = 1e-12 * max(1.0, abs(x))
                lo, hi = pb.get(i, (-math.inf, math.inf))
                if b.a == "==":
                    lo, hi = max(lo, x - e), min(hi, x + e)
                elif c > 0:
                    hi = min(hi, x + e)
                else:
                    lo = max(lo, x - e)
                pb[i] = (lo, hi)

    def forced(self, b):
        """outcome of a comparison that intervals settle, or None"""
        if b.k == "not":
            r = self.forced(b.a)
            return None if r is None else not r
        if b.k != "cmp":
            return None
        self.narrow()
        pb = self.pb
        lo = hi = 0.0
        for m, c in b.b.p.items():
            a, e = c, c
            if len(m) > 2:
                return None
            for i in m:
                v = self.vars[i]
                x, y = v.lo, v.hi
                q = pb.get(i)
                if q:
                    x, y = max(x, q[0]), min(y, q[1])
                if x == -math.inf or y == math.inf:
                    return None
                t = (a * x, a * y, e * x, e * y)
                a, e = min(t), max(t)
            lo += a
            hi += e
        tol = 1e-11 * (1.0 + max(abs(lo), abs(hi)))
        if lo > tol:
            return False
        if hi < -tol:
            return b.a != "=="
        return None

    def decide(self, b):
        r = self.forced(b)
        if r is not None:
            return r
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            self.cons.append(b if d else b.neg())
            return d
        self.stats.decisions += 1
        t, f = self.quick_witness(b)
        can_t = True if t else None
        can_f = True if f else None
        if can_t is None:
            can_t = self.feasible(b)
        if can_f is None:
            if not can_t:
                can_f = True
            else:
                can_f = self.feasible(b.neg())
        if not can_t and not can_f:
            raise Infeasible()
        if can_t and can_f:
            self.alts.append(list(self.trace) + [False])
            d = True
        else:
            d = can_t
        self.trace.append(d)
        self.cons.append(b if d else b.neg())
        return d

    def feasible(self, b):
        """may b hold on this path (False only if the solver refutes it)"""
        if len(self.defs_poly) > 4:
            try:
                s, _ = self.lin_solver([], False)
                s.set("timeout", 1000)
                e = b.lin()
                for c in self.cons:
                    s.add(c.lin())
                for m, z in list(self.lmono.items()):
                    lo, hi = mono_bounds(m)
                    if lo > -math.inf:
                        s.add(z >= zq(lo))
                    if hi < math.inf:
                        s.add(z <= zq(hi))
                if self.timed(s, e) == z3.unsat:
                    return False
            except Unsupported:
                pass
        return self.check(b.z(), timeout=self.dec_timeout) != z3.unsat

    def quick_witness(self, b):
        """Concrete samples on the path tell feasible sides without a query."""
        if self.samples is None:
            self.samples = []
            self.sample_cons = 0
            self.sample_vars = 0
            for _ in range(6):
                e = self.random_env()
                if e is not None:
                    self.samples.append(e)
        if not self.samples:
            return False, False
        new = self.cons[self.sample_cons:]
        self.sample_cons = len(self.cons)
        keep = []
        for e in self.samples:
            for v in self.vars[len(e):]:
                if v.id not in e and v.defn is None:
                    lo, hi = max(v.lo, -10.0), v.hi
                    hi = hi if hi < math.inf else max(lo + 1, 10.0)
                    e[v.id] = self.rng.randint(int(lo), int(hi)) if v.isint else lo + (hi - lo) * self.rng.random()
            if not self.complete_env(e):
                continue
            try:
                if all(margin(c, e) for c in new):
                    keep.append(e)
            except Exception:
                pass
        self.samples = keep
        t = f = False
        for e in keep:
            try:
                if margin(b, e):
                    t = True
                elif margin(b.neg(), e):
                    f = True
            except Exception:
                pass
        return t, f

    def concretize(self, s):
        """Fork over the feasible integer values of s."""
        if not isinstance(s, Sym):
            return int(s)
        c = s.const()
        if c is not None:
            return int(c)
        key = ("conc", _key(s.p))
        if key in self.memo:
            return self.memo[key]
        lo, hi = s.bounds()
        if hi - lo > 4096:
            raise Unsupported("concretize with range [%s,%s]" % (lo, hi))
        for v in range(math.ceil(lo), math.floor(hi) + 1):
            e = cmp("==", s, v)
            if (self.decide(e) if isinstance(e, SymBool) else e):
                self.memo[key] = v
                return v
        raise Infeasible()

    # ------------------------------------------------------------ evaluation
    def evalp(self, p, env):
        t = 0.0
        for m, c in p.items():
            x = c
            for i in m:
                x = x * env[i]
            t = t + x
        return t

    def complete_env(self, env):
        """values of defined variables from the base ones"""
        for v in self.vars:
            if v.id in env:
                continue
            d = v.defn
            if d is None:
                return False
            try:
                if d[0] == "inv":
                    env[v.id] = 1.0 / self.evalp(d[1].p, env)
                elif d[0] == "sqrt":
                    env[v.id] = math.sqrt(self.evalp(d[1].p, env))
                elif d[0] == "fn":
                    f = FN_EVAL.get(d[1])
                    if f is None:
                        return False
                    env[v.id] = f(self.evalp(d[2].p, env)) if isinstance(d[2], Sym) else None
                elif d[0] == "fn2":
                    env[v.id] = FN_EVAL[d[1]](*[self.evalp(x.p, env) if isinstance(x, Sym) else x for x in d[2]])
                elif d[0] == "floor":
                    env[v.id] = math.floor(self.evalp(d[1].p, env))
                elif d[0] == "fdiv":
                    env[v.id] = self.evalp(d[1].p, env) // d[2]
                elif d[0] == "py":
                    env[v.id] = d[1](env)
                else:
                    return False
            except Exception:
                return False
        return True

    def random_env(self, corner=False):
        env = {}
        R = self.rng
        for v in self.vars:
            if v.defn is not None:
                continue
            lo = v.lo if v.lo > -math.inf else -10.0
            hi = v.hi if v.hi < math.inf else max(lo + 1, 10.0)
            if v.isint:
                env[v.id] = R.randint(int(lo), int(hi))
            else:
                x = lo + (hi - lo) * R.random()
                env[v.id] = round(x, 6) if hi - lo > 1e-3 else x
        if not self.complete_env(env):
            return None
        return env

    def env_ok(self, env):
        for c in self.cons:
            try:
                if c.k == "cmp" and c.a == "==":
                    if abs(self.evalp(c.b.p, env)) > 1e-9:
                        return False
                elif not c.ev(env):
                    return False
            except Unsupported:
                return False
        return True

    # ------------------------------------------------------------ obligations
    def model_of(self, m):
        out = {}
        for v in self.vars:
            if not v.base:
                continue
            x = m.eval(v.z, model_completion=True)
            if v.isint:
                out[v.name] = x.as_long()
            else:
                if z3.is_algebraic_value(x):
                    x = x.approx(30)
                out[v.name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return out

    def env_model(self, env):
        return {v.name: env[v.id] for v in self.vars if v.base}

    def lin_solver(self, polys, full=True, defs=None):
        """QF_LRA relaxation: every monomial is an independent bounded variable.
        full: with the path condition and the defining equations of auxiliary variables (defs: these only)"""
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", self.timeout)
        cons = [c.lin() for c in self.cons] if full else []
        for d in (self.defs_poly if full else ()) if defs is None else defs:
            cons.append(self.lpoly(d.p) == 0)
        pl = [self.lpoly(p) if isinstance(p, dict) else self.lpoly(p[0]) - self.lpoly(p[1]) for p in polys]
        done = set()
        for m, z in list(self.lmono.items()):
            lo, hi = mono_bounds(m)
            if lo > -math.inf:
                s.add(z >= zq(lo))
            if hi < math.inf:
                s.add(z <= zq(hi))
            done.add(m)
        for c in cons:
            s.add(c)
        return s, pl

    def timed(self, s, *a):
        t0 = time.time()
        r = s.check(*a)
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t0
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def has_int(self):
        return any(v.isint for v in self.vars)

    def reduce(self, p, mults):
        return p

    def prove_small(self, items):
        """items: list of (label, a - b, tol, a, b).  Every |a - b|<=tol on this path.
        The solver gets both sides as computed; only large sides that cancel term by term are not resubmitted."""
        pend, sides = [], []
        for label, d, tol, a, b in items:
            self.stats.obligations += 1
            na = len(a.p) if isinstance(a, Sym) else 0
            nb = len(b.p) if isinstance(b, Sym) else 0
            if not isinstance(d, Sym):
                if d != d or abs(d) > tol:
                    self.fail_const(label, "differs by %r" % (d,))
                if na + nb == 0:
                    continue
                if na + nb > 80:
                    self.stats.normalised += 1
                    continue
                d = Sym({(): d} if d else {})
            pend.append((label, d, tol))
            sides.append((a, b) if na + nb <= 80 else None)
        if not pend:
            return
        if len(pend) > 1:
            # many large sides: smaller groups are faster
            size = [len(d.p) + (sum(len(lift(x).p) for x in ab) if ab is not None else 0) for (_, d, _), ab in zip(pend, sides)]
            if sum(size) > 250:
                g, n = [], 0
                for it, z in zip(zip(pend, sides), size):
                    if g and n + z > 250:
                        self.prove_group([x for x, _ in g], [y for _, y in g])
                        g, n = [], 0
                    g.append(it)
                    n += z
                return self.prove_group([x for x, _ in g], [y for _, y in g])
        self.prove_group(pend, sides)

    def prove_group(self, pend, sides):
        # group all into one relaxation query; first without constraints (enough when both sides are the same polynomial)
        if self.cons or self.defs_poly:
            s, pl = self.lin_solver([d.p if ab is None else (lift(ab[0]).p, lift(ab[1]).p) for (_, d, _), ab in zip(pend, sides)], False)
            left = []
            r = self.timed(s, z3.Or([z3.Or(e > zq(t), e < -zq(t)) for (_, _, t), e in zip(pend, pl)]))
            if r == z3.unsat:
                return
            for i, ((label, d, tol), e) in enumerate(zip(pend, pl)):
                t = zq(tol)
                if len(pend) == 1 or self.timed(s, z3.Or(e > t, e < -t)) != z3.unsat:
                    left.append(i)
            pend, sides = [pend[i] for i in left], [sides[i] for i in left]
        # then with only the defining equations all of whose monomials occur in the obligation
        if len(self.defs_poly) > 8:
            left = []
            dm = [(x, frozenset(m for m in x.p if m)) for x in self.defs_poly]
            for i, (label, d, tol) in enumerate(pend):
                ms = set(m for m in d.p if m)
                rel = sorted(((sum(abs(d.p.get(m, 0) - x.p.get(m, 0)) for m in f | ms), j) for j, (x, f) in enumerate(dm) if f and len(f - ms) <= 3))[:6]
                if rel:
                    s, (e,) = self.lin_solver([d.p], False, [dm[j][0] for _, j in rel])
                    if self.timed(s, z3.Or(e > zq(tol), e < -zq(tol))) == z3.unsat:
                        continue
                left.append(i)
            pend, sides = [pend[i] for i in left], [sides[i] for i in left]
            if not pend:
                return
        s, pl = self.lin_solver([d.p if ab is None else (lift(ab[0]).p, lift(ab[1]).p) for (_, d, _), ab in zip(pend, sides)])
        ors = []
        for (label, d, tol), e in zip(pend, pl):
            t = zq(tol)
            ors.append(z3.Or(e > t, e < -t))
        r = self.timed(s, z3.Or(ors) if len(ors) > 1 else ors[0])
        if r == z3.unsat:
            return
        for (label, d, tol), e in zip(pend, pl):
            t = zq(tol)
            bad = z3.Or(e > t, e < -t)
            r = self.timed(s, bad)
            if r == z3.unsat:
                continue
            self.nonlinear(label, d, tol)

    def clear(self, d):
        """(e, c) with |d| <= |e|/c on this path and no inverse of degree one left in e; None if there is none"""
        c, hit = 1.0, False
        for _ in range(4):
            cand = None
            for m in d.p:
                for i in m:
                    df = self.vars[i].defn
                    if df and df[0] == "inv" and (cand is None or i > cand):
                        cand = i
            if cand is None:
                break
            D = self.vars[cand].defn[1]
            lb = None
            hi = max(abs(self.vars[cand].lo), abs(self.vars[cand].hi))
            if 0 < hi <= 1e6:
                lb = 1.0 / hi
            else:
                for t in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5):
                    s, (z,) = self.lin_solver([D.p])
                    if self.timed(s, z3.And(z < zq(t), z > zq(-t))) == z3.unsat:
                        lb = t
                        break
            if lb is None:
                break
            by = {}
            for m, v in d.p.items():
                n = m.count(cand)
                by.setdefault(n, {})[tuple(i for i in m if i != cand)] = v
            top = max(by)
            pw = [Sym({(): 1.0}, False)]
            for _k in range(top):
                pw.append(lift(pw[-1] * D))
            e = Sym({}, False)
            for n, q in by.items():
                e = lift(e + Sym(q, False) * pw[top - n])
            d = Sym(e.p, False)
            c *= lb ** top
            hit = True
        return (d, c) if hit else None

    def nonlinear(self, label, d, tol):
        e = self.clear(d)
        if e is not None:
            s, (z,) = self.lin_solver([e[0].p])
            t = zq(tol * e[1])
            if self.timed(s, z3.Or(z > t, z < -t)) == z3.unsat:
                return
        viol = SymBool("or", [SymBool("cmp", "<", lift(tol) - d), SymBool("cmp", "<", lift(tol) + d)])
        # candidate witnesses first (confirmed by the solver with the inputs fixed)
        env = self.search(lambda e: abs(self.evalp(d.p, e)) - tol, more=60)
        if env is not None:
            fix = [v.z == (int(env[v.id]) if v.isint else zq(env[v.id])) for v in self.vars if v.defn is None]
            uninterp = any(v.defn is not None and v.defn[0] in ("fn", "fn2", "py") for v in self.vars)
            if not uninterp:
                r = self.check(viol.z(), *fix, timeout=self.timeout)
                if r == z3.unsat:
                    env = None
            if env is not None:
                raise Failure(label, "difference %.6g exceeds %g" % (self.evalp(d.p, env), tol), self.env_model(env))
        r = self.check(viol.z())
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = self.solver.model()
            raise Failure(label, "difference exceeds %g" % tol, self.model_of(m))
        raise Inconclusive("%s: solver unknown on %s" % (label, poly_str(d.p, 6)))

    def search(self, score, n=400, more=20):
        best, be = 0.0, None
        t0 = time.time()
        for k in range(n):
            env = self.random_env()
            if env is None:
                if k > 50 and be is None:
                    break
                continue
            if not self.env_ok(env):
                continue
            try:
                v = score(env)
            except Exception:
                continue
            if v == v and v > best:
                best, be = v, env
            if be is not None and (k >= more or time.time() - t0 > 2):
                break
        return be

    def prove_all(self, bs):
        """one query for all; False when undecided"""
        nb = [b.neg() for b in bs]
        ok = False
        if not self.has_int():
            try:
                s, _ = self.lin_solver([])
                e = z3.Or([b.lin() for b in nb])
                for m, z in list(self.lmono.items()):
                    lo, hi = mono_bounds(m)
                    if lo > -math.inf:
                        s.add(z >= zq(lo))
                    if hi < math.inf:
                        s.add(z <= zq(hi))
                ok = self.timed(s, e) == z3.unsat
            except Unsupported:
                pass
        if not ok:
            ok = self.check(z3.Or([b.z() for b in nb]), timeout=3000) == z3.unsat
        if ok:
            self.stats.obligations += len(bs)
        return ok

    def prove(self, label, b):
        self.stats.obligations += 1
        if not isinstance(b, SymBool):
            if not b:
                self.fail_const(label, "is false")
            return
        nb = b.neg()
        try:
            s, _ = self.lin_solver([])
            e = nb.lin()
            for m, z in list(self.lmono.items()):
                lo, hi = mono_bounds(m)
                if lo > -math.inf:
                    s.add(z >= zq(lo))
                if hi < math.inf:
                    s.add(z <= zq(hi))
            if not self.has_int() and self.timed(s, e) == z3.unsat:
                return
        except Unsupported:
            pass
        env = self.search(lambda ev: 1.0 if nb.ev(ev) else -1.0, n=100)
        if env is not None and not any(v.defn is not None and v.defn[0] in ("fn", "fn2", "py") for v in self.vars):
            fix = [v.z == (int(env[v.id]) if v.isint else zq(env[v.id])) for v in self.vars if v.defn is None]
            if self.check(nb.z(), *fix) == z3.unsat:
                env = None
        if env is not None:
            raise Failure(label, "is false", self.env_model(env))
        r = self.check(nb.z())
        if r == z3.unsat:
            return
        if r == z3.sat:
            raise Failure(label, "is false", self.model_of(self.solver.model()))
        raise Inconclusive("%s: solver unknown" % label)

    def fail_const(self, label, detail):
        """Fails for every value on this path: need one model of the path."""
        m = self.any_model()
        if m is None:
            raise Infeasible()
        raise Failure(label, detail, m)

    def any_model(self):
        env = self.search(lambda e: 1.0, n=60)
        if env is not None:
            return self.env_model(env)
        r = self.check()
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self.model_of(self.solver.model())
        raise Inconclusive("cannot find a model of a failing path")


FN_EVAL = {"exp": math.exp, "cos": math.cos, "sin": math.sin, "log": math.log, "acos": math.acos, "asin": math.asin,
           "atan2": math.atan2, "fmod": math.fmod, "tan": math.tan, "atan": math.atan, "pow": math.pow}


def explore(run, stats, max_paths=100000, deadline=None, **kw):
    """run(ctx) executes the harness on one path.  Depth-first over all paths."""
    global CTX
    work = [[]]
    while work:
        prefix = work.pop()
        c = Context(stats, prefix, **kw)
        CTX = c
        try:
            run(c)
            stats.paths += 1
        except Infeasible:
            stats.infeasible += 1
        finally:
            work.extend(c.alts)
        if stats.paths > max_paths:
            raise Inconclusive("more than %d paths" % max_paths)
        if deadline and time.time() > deadline:
            raise Inconclusive("time limit reached with %d paths open" % len(work))
