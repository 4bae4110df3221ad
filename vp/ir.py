"""LLVM IR (textual, clang-18) -> Python code, executed over concrete or symbolic values."""
import re
import math
import struct
from . import sym, mem, omp
from .sym import Sym, SymBool, Unsupported, Violation, b_not, b_and, b_or
from .mem import Obj, NULL, NULLO, FuncObj

# ------------------------------------------------------------------ types


class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs")

    def __init__(self, k, n=0, el=None):
        self.k = k      # int, double, float, ptr, arr, struct, void, vec
        self.n = n
        self.el = el
        self.size = self.align = 0
        self.offs = None


def split_top(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self):
        self.types = {}
        self.tycache = {}
        self.funcs = {}     # name -> (header, lines, src)
        self.globals = {}   # name -> (line, modprefix)
        self.decls = set()

    def load(self, path, tag):
        cur = None
        ren = {}

        def gname(n):
            return ren.get(n, n)
        lines = open(path).read().split("\n")
        # private/internal globals and functions are renamed with the module tag
        for ln in lines:
            if ln.startswith("@"):
                m = re.match(r'@("?[^ ]+"?) = (.*)', ln)
                if m and re.match(r'(private|internal)\b', m.group(2)):
                    ren[m.group(1)] = m.group(1) + "$" + tag
            elif ln.startswith("define internal"):
                m = re.search(r'@([A-Za-z0-9_.$]+)\(', ln)
                ren[m.group(1)] = m.group(1) + "$" + tag
        rx = re.compile(r'@([A-Za-z0-9_.$]+)')

        tren = {}

        def tsub(ln):
            for a, b in tren.items():
                if a in ln:
                    ln = re.sub(re.escape(a) + r'(?![A-Za-z0-9_.])', b, ln)
            return ln

        def sub(ln):
            if tren and "%" in ln:
                ln = tsub(ln)
            if "@" not in ln:
                return ln
            return rx.sub(lambda m: "@" + ren.get(m.group(1), m.group(1)), ln)
        for ln in lines:
            if cur is not None:
                if ln.startswith("}"):
                    cur = None
                else:
                    cur.append(ln)
                continue
            if ln.startswith("define"):
                l2 = sub(ln)
                m = re.search(r'@([A-Za-z0-9_.$]+)\(', l2)
                body = []
                if m.group(1) not in self.funcs or not re.match(r'define (linkonce|weak|available)', ln):
                    self.funcs[m.group(1)] = (l2, body, sub)
                cur = body
            elif ln.startswith("%"):
                m = re.match(r'(%[^ ]+) = type (.*)', ln)
                if m:
                    tn, body = m.group(1), tsub(m.group(2))
                    if self.types.get(tn, body) != body:    # another structure of the same name
                        tren[tn] = tn + "." + tag
                        tn += "." + tag
                    self.types[tn] = body
            elif ln.startswith("@"):
                l2 = sub(ln)
                m = re.match(r'@([^ ]+) = (.*)', l2)
                if m and not (m.group(1) in self.globals and " external " in m.group(2)):
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith("declare"):
                m = re.search(r'@([A-Za-z0-9_.$]+)\(', ln)
                self.decls.add(m.group(1))

    def ty(self, s):
        s = s.strip()
        t = self.tycache.get(s)
        if t is None:
            t = self._ty(s)
            self.tycache[s] = t
        return t

    def _ty(self, s):
        if s == "ptr":
            t = Ty("ptr")
            t.size = t.align = 8
            return t
        if s == "double":
            t = Ty("double")
            t.size = t.align = 8
            return t
        if s == "float":
            t = Ty("float")
            t.size = t.align = 4
            return t
        if s == "void":
            return Ty("void")
        m = re.fullmatch(r'i(\d+)', s)
        if m:
            t = Ty("int", int(m.group(1)))
            t.size = t.align = max(1, (t.n + 7) // 8)
            return t
        m = re.fullmatch(r'\[(\d+) x (.*)\]', s)
        if m:
            e = self.ty(m.group(2))
            t = Ty("arr", int(m.group(1)), e)
            t.size, t.align = t.n * e.size, e.align
            return t
        m = re.fullmatch(r'<(\d+) x (.*)>', s)
        if m:
            e = self.ty(m.group(2))
            t = Ty("vec", int(m.group(1)), e)
            t.size = t.align = t.n * e.size
            return t
        if s.startswith("%"):
            return self.ty(self.types[s])
        if s == "opaque":
            t = Ty("struct", 0, [])
            t.offs = []
            return t
        if s.startswith("{"):
            els = [self.ty(x) for x in split_top(s[1:-1])]
            t = Ty("struct", len(els), els)
            off, al = 0, 1
            t.offs = []
            for e in els:
                off = (off + e.align - 1) // e.align * e.align
                t.offs.append(off)
                off += e.size
                al = max(al, e.align)
            t.size = (off + al - 1) // al * al
            t.align = al
            return t
        raise Unsupported("type " + s)


def kind(t):
    if t.k == "double":
        return "d"
    if t.k == "float":
        return "f"
    if t.k == "ptr":
        return "p"
    if t.k == "int":
        return {1: "1", 8: "1", 16: "2", 32: "4", 64: "8"}[t.n]
    raise Unsupported("memory type " + t.k)


# ------------------------------------------------------------------ runtime helpers

def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def fixi(r, n, nsw):
    if r.__class__ is int:
        lim = 1 << (n - 1)
        if nsw:
            raise Violation("overflow", "signed %d-bit overflow: %d" % (n, r))
        return wrap(r, n)
    if isinstance(r, Sym):
        lo, hi = r.bounds()
        lim = 1 << (n - 1)
        if lo >= -lim and hi < lim:
            return r
        # decide whether it can overflow
        ok = b_and(r >= -lim, r <= lim - 1)
        if bool(ok):
            return r
        if nsw:
            raise Violation("overflow", "signed %d-bit overflow" % n)
        raise Unsupported("wrapping symbolic arithmetic")
    if isinstance(r, (bool, SymBool)):
        return int(r)
    if r is None:
        raise Violation("uninit", "arithmetic on an undefined value")
    return r


def sdiv(a, b, n):
    if isinstance(b, Sym):
        b = sym.CTX.concretize(b)
    if b == 0:
        raise Violation("div0", "integer division by zero")
    if isinstance(a, Sym):
        if b < 0:
            return -sdiv(a, -b, n)
        if b == 1:
            return a
        lo, hi = a.bounds()
        if lo >= 0 or bool(a >= 0):
            return a // b
        return -((-a) // b)
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def srem(a, b, n):
    return a - sdiv(a, b, n) * b


def uns(a, n):
    if isinstance(a, Sym):
        lo, hi = a.bounds()
        if lo >= 0:
            return a
        if bool(a >= 0):
            return a
        return a + (1 << n)
    if isinstance(a, (bool, SymBool)):
        return 1 if a else 0
    return a if a >= 0 else a + (1 << n)


def zext(a, n):
    if a.__class__ is int:
        return a if a >= 0 else a + (1 << n)
    if a is None or a.__class__ is sym.Undef:
        return a
    return uns(a, n)


def trunc(a, n):
    if a is None or a.__class__ is sym.Undef:
        return a
    if isinstance(a, Sym):
        if any(c % (1 << n) == 0 for c in a.p.values()) and n > 1:
            a = Sym({k: c for k, c in a.p.items() if c % (1 << n)}, True)
            if not a.p:
                return 0
        lo, hi = a.bounds()
        if n == 1:
            return (a % 2) == 1
        if lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
            return a
        if bool(b_and(a >= -(1 << (n - 1)), a <= (1 << (n - 1)) - 1)):
            return a
        raise Unsupported("symbolic trunc")
    if isinstance(a, SymBool):
        return a
    if n == 1:
        return bool(a & 1)
    return wrap(int(a), n)


def iand(a, b, n):
    if n == 1:
        return b_and(a, b)
    if a is None or b is None or a.__class__ is sym.Undef or b.__class__ is sym.Undef:
        return 0        # undefined padding is masked out
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and not isinstance(b, Sym) and b >= 0 and (b & (b + 1)) == 0:
            if a.bounds()[0] >= 0 or bool(a >= 0):
                return a % (b + 1)
        a, b = sym.CTX.concretize(a), sym.CTX.concretize(b)
    return wrap(int(a) & int(b), n)


def ior(a, b, n):
    if n == 1:
        return b_or(a, b)
    if a is None:       # undefined padding
        a = 0
    if b is None:
        b = 0
    if isinstance(a, Sym) or isinstance(b, Sym):
        # two fields packed into one word
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Sym):
                lo, hi = y.bounds()
            else:
                lo = hi = y
            if lo >= 0 and hi < 1 << 32 and (all(c % (1 << 32) == 0 for c in x.p.values()) if isinstance(x, Sym) else x % (1 << 32) == 0):
                return x + y
        a, b = sym.CTX.concretize(a), sym.CTX.concretize(b)
    return wrap(int(a) | int(b), n)


def ixor(a, b, n):
    if n == 1:
        if b is True or b == 1:
            return b_not(a)
        if a is True or a == 1:
            return b_not(b)
        if b is False or b == 0:
            return a
        return bool(a) != bool(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, Sym) and b == -1:
            return -a - 1
        a, b = sym.CTX.concretize(a), sym.CTX.concretize(b)
    return wrap(int(a) ^ int(b), n)


def shl(a, b, n, nsw):
    if a is None or a.__class__ is sym.Undef:
        return a
    if isinstance(b, Sym):
        b = sym.CTX.concretize(b)
    if b < 0 or b >= n:
        raise Violation("shift", "shift by %d" % b)
    return fixi(a * (1 << b), n, nsw)


def ashr(a, b, n):
    if isinstance(b, Sym):
        b = sym.CTX.concretize(b)
    if isinstance(a, Sym):
        return a // (1 << b)
    return a >> b


def lshr(a, b, n):
    if isinstance(b, Sym):
        b = sym.CTX.concretize(b)
    a = uns(a, n)
    if isinstance(a, Sym):
        return a // (1 << b)
    return wrap(a >> b, n)


def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0.0:
            if a == 0.0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    if b.__class__ is float and b == 0.0 and isinstance(a, Sym):
        # IEEE semantics
        if a > 0:
            return math.copysign(math.inf, b)
        return -math.copysign(math.inf, b) if a < 0 else math.nan
    return a / b


def frem(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported("frem")
    return math.fmod(a, b)


def funo(a, b):
    return (a.__class__ is float and a != a) or (b.__class__ is float and b != b)


def sitofp(a):
    if a.__class__ is int:
        return float(a)
    if isinstance(a, Sym):
        return Sym(a.p, False)
    return float(int(a))


def peq(a, b):
    if a.__class__ is int or b.__class__ is int:
        if a == 0:
            a = NULL
        if b == 0:
            b = NULL
    if a is None or b is None:
        raise Violation("uninit", "comparison of undefined pointer")
    return a[0] is b[0] and bool(a[1] == b[1])


def pcmp(a, b, op):
    if a[0] is not b[0]:
        raise Unsupported("relational comparison of unrelated pointers")
    x, y = a[1], b[1]
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def gep(p, off):
    if p.__class__ is not tuple:
        if p is None:
            raise Violation("uninit", "arithmetic on an undefined pointer")
        raise Unsupported("gep on %r" % (p,))
    o = p[0]
    if o is NULLO:
        return (NULLO, off) if off.__class__ is int and off else p
    return (o, p[1] + off)


class PInt:
    """an address as an integer"""
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __add__(self, k):
        return PInt(self.o, self.off + k)
    __radd__ = __add__

    def __sub__(self, q):
        if q.__class__ is PInt:
            if self.o is not q.o:
                raise Violation("badptr", "difference of pointers into different objects")
            return self.off - q.off
        return PInt(self.o, self.off - q)

    def _c(self, q, op):
        if q.__class__ is not PInt:
            if op in ("==", "!="):
                return op == "!="
            if op in (">", ">="):
                return True
            return False
        if self.o is not q.o:
            if op in ("==", "!="):
                return op == "!="
            raise Unsupported("relational comparison of unrelated pointers")
        x, y = self.off, q.off
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]

    def __eq__(self, q):
        return self._c(q, "==")

    def __ne__(self, q):
        return self._c(q, "!=")

    def __lt__(self, q):
        return self._c(q, "<")

    def __le__(self, q):
        return self._c(q, "<=")

    def __gt__(self, q):
        return self._c(q, ">")

    def __ge__(self, q):
        return self._c(q, ">=")

    def __hash__(self):
        return id(self.o)

    def __and__(self, k):   # alignment tests: objects are aligned
        if k.__class__ is int and 0 <= k < 64:
            return self.off & k
        raise Unsupported("bit operation on an address")


def ptrtoint(p):
    if p[0] is NULLO:
        return p[1]
    return PInt(*p)


def inttoptr(a):
    if a.__class__ is PInt:
        return (a.o, a.off)
    if a.__class__ is tuple:
        return a
    if a == 0:
        return NULL
    raise Unsupported("inttoptr")


def sel(c, a, b):
    return a if c else b


def chk_alloca(n):
    return n


class Halt(Exception):
    pass


# ------------------------------------------------------------------ translation

INT_RE = re.compile(r'-?\d+$')
OPERANDS = {"null", "true", "false", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "none", "c"}


class FnGen:
    def __init__(self, ex, name):
        self.ex = ex
        self.m = ex.m
        self.name = name
        self.hdr, self.lines, self.sub = ex.m.funcs[name]
        self.consts = {}

    def const_name(self, v):
        n = "K%d" % len(self.consts)
        self.consts[n] = v
        return n

    def val(self, t, s):
        """Python expression for operand s of type text t"""
        s = s.strip()
        if s.startswith("%"):
            return self.v(s)
        if s.startswith("@"):
            return self.const_name(self.ex.gptr(s[1:]))
        if s == "null":
            return "NULL"
        if s in ("true", "false"):
            return "True" if s == "true" else "False"
        if s in ("undef", "poison"):
            tt = self.m.ty(t)
            if tt.k == "struct":
                return repr(tuple([None] * tt.n))
            return "None"
        if s == "zeroinitializer":
            tt = self.m.ty(t)
            return repr(tuple([0.0 if e.k == "double" else 0 for e in tt.el]))
        if t in ("double", "float"):
            return self.fconst(s, t)
        if INT_RE.match(s):
            if t == "i1":
                return "True" if int(s) & 1 else "False"
            n = int(s)
            return "(%d)" % n if n < 0 else s
        if s.startswith("getelementptr") or s.startswith("ptrtoint") or s.startswith("inttoptr"):
            return self.const_name(self.ex.cexpr(s))
        raise Unsupported("operand %s %s" % (t, s))

    def fconst(self, s, t):
        if s.startswith("0x"):
            v = struct.unpack(">d", bytes.fromhex(s[2:].zfill(16)))[0]
        else:
            v = float(s)
        if v != v or abs(v) == math.inf:
            return self.const_name(v)
        return "(%r)" % v if v < 0 else repr(v)

    def v(self, s):
        return "v_" + re.sub(r'[^A-Za-z0-9_]', '_', s[1:].strip('"'))

    def parse_args(self, s):
        """list of (type, operand, attrs)"""
        out = []
        for a in split_top(s):
            if a == "...":
                out.append(("...", None, ()))
                continue
            a = self.strip_attrs(a)
            t, rest, at = a
            out.append((t, rest, at))
        return out

    def take_type(self, s):
        s = s.strip()
        if s[0] in "[{<":
            d = 0
            for i, ch in enumerate(s):
                if ch in "[{<":
                    d += 1
                elif ch in "]}>":
                    d -= 1
                    if d == 0:
                        return s[:i + 1], s[i + 1:].strip()
        m = re.match(r'(%"[^"]*"|%?[A-Za-z0-9_.$]+\*?)\s*', s)
        return m.group(1), s[m.end():].strip()

    def strip_attrs(self, a):
        t, rest = self.take_type(a)
        at = []
        while rest:
            m = re.match(r'(byval|sret|align|dereferenceable|dereferenceable_or_null|elementtype)(\([^)]*\)| \d+)\s*', rest)
            if m:
                at.append(m.group(0).strip())
                rest = rest[m.end():]
                continue
            m = re.match(r'([a-z_]+)(\s+|$|\()', rest)
            if m and m.group(1) not in OPERANDS:
                rest = rest[m.end():]
                if m.group(2) == "(":   # attribute with arguments
                    d = 1
                    for j, ch in enumerate(rest):
                        d += (ch == "(") - (ch == ")")
                        if d == 0:
                            break
                    rest = rest[j + 1:].strip()
                continue
            break
        return t, rest.strip(), at

    def build(self):
        m = re.search(r'@[A-Za-z0-9_.$]+\((.*)\)\s*(?:[a-z_]*addr\s*)?(?:local_unnamed_addr)?\s*(#\d+.*)?\{$', self.hdr)
        hdr = self.hdr
        i = hdr.index("(", hdr.index("@"))
        d = 0
        for j in range(i, len(hdr)):
            if hdr[j] == "(":
                d += 1
            elif hdr[j] == ")":
                d -= 1
                if d == 0:
                    break
        params = self.parse_args(hdr[i + 1:j])
        vararg = bool(params) and params[-1][0] == "..."
        names = []
        body_pre = []
        for t, r, at in params:
            if t == "...":
                continue
            names.append(self.v(r))
            for x in at:
                mm = re.match(r'byval\((.*)\)', x)
                if mm:
                    sz = self.m.ty(mm.group(1)).size
                    body_pre.append("%s_c=mem_new(%d,'byval'); memcpy(%s_c,%s,%d); %s=%s_c" % (names[-1], sz, names[-1], names[-1], sz, names[-1], names[-1]))
        # blocks
        blocks = []
        cur = None
        nparam = len([1 for p in params if p[0] != "..."])
        sw = None
        for ln in self.lines:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            mm = re.match(r'^("?[A-Za-z0-9_.$-]+"?):', ln)
            if mm:
                cur = (mm.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ("<entry>", [])
                blocks.append(cur)
            s = ln.strip()
            if sw is not None:
                sw += " " + s
                if s.startswith("]"):
                    cur[1].append(sw)
                    sw = None
                continue
            if s.startswith("switch") and not s.rstrip().endswith("]"):
                sw = s
                continue
            cur[1].append(self.sub(s))
        bidx = {n: i for i, (n, _) in enumerate(blocks)}
        entry_label = blocks[0][0]
        if entry_label == "<entry>":
            # unnamed entry block has number nparam (or next)
            bidx[str(nparam)] = 0
        # phis per block
        phis = {}
        for n, ins in blocks:
            ph = []
            for s in ins:
                mm = re.match(r'(%\S+) = phi (.*)', s)
                if not mm:
                    break
                t, rest = self.take_type(mm.group(2).replace("fast ", ""))
                inc = {}
                for a in split_top(rest):
                    a = a.strip()
                    if not a.startswith("["):
                        continue
                    x, lab = split_top(a[1:-1])
                    inc[lab.strip()[1:]] = self.val(t, x)
                ph.append((self.v(mm.group(1)), inc))
            phis[n] = ph
        self.phis, self.bidx = phis, bidx
        code = []
        for bi, (n, ins) in enumerate(blocks):
            label = n if n != "<entry>" else str(nparam)
            out = []
            for s in ins:
                self.instr(s, out, label)
            code.append(out)
        src = ["def F(%s):" % ", ".join(names + (["*va"] if vararg else []))]
        src.append(" INSTR.add(%r)" % self.name)
        for x in body_pre:
            src.append(" " + x)
        if len(blocks) == 1:
            src += [" " + x for x in code[0]]
        else:
            src.append(" b=0")
            src.append(" while True:")

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for x in code[lo]:
                        src.append(" " * ind + x)
                    return
                mid = (lo + hi) // 2
                src.append(" " * ind + "if b<%d:" % mid)
                tree(lo, mid, ind + 1)
                src.append(" " * ind + "else:")
                tree(mid, hi, ind + 1)
            tree(0, len(blocks), 2)
        text = "\n".join(src)
        g = dict(self.ex.env)
        g.update(self.consts)
        exec(compile(text, "<ir:%s>" % self.name, "exec"), g)
        return g["F"]

    def jump(self, frm, to, out, ind=""):
        ph = self.phis.get(to) or (self.phis.get("<entry>") if False else None) or []
        asg = []
        for v, inc in self.phis.get(to, []):
            e = inc.get(frm)
            if e is None:
                raise Unsupported("phi edge %s->%s" % (frm, to))
            if e != v:
                asg.append((v, e))
        if len(asg) == 1:
            out.append(ind + "%s=%s" % asg[0])
        elif asg:
            out.append(ind + ",".join(a for a, _ in asg) + "=" + ",".join(e for _, e in asg))
        out.append(ind + "b=%d; continue" % self.bidx[to])

    def instr(self, s, out, label):
        s = re.sub(r', !.*$', '', s)
        s = re.sub(r' #\d+$', '', s)
        m = re.match(r'(%\S+) = (.*)', s)
        if m:
            d, rest = self.v(m.group(1)), m.group(2)
        else:
            d, rest = None, s
        op, _, rest1 = rest.partition(" ")
        if op in ("tail", "notail", "musttail"):
            op, _, rest1 = rest1.partition(" ")
        f = getattr(self, "i_" + op, None)
        if f is None:
            if op in BIN:
                return self.binop(op, d, rest1, out)
            out.append("raise Unsupported(%r)" % ("instruction " + op))
            return
        f(d, rest1, out, label)

    def i_phi(self, d, r, out, label):
        return

    def i_br(self, d, r, out, label):
        if r.startswith("label"):
            self.jump(label, r.split("%")[1].strip(), out)
            return
        m = re.match(r'i1 (.*), label %([^,]+), label %(.+)$', r)
        c = self.val("i1", m.group(1))
        out.append("if %s:" % c)
        self.jump(label, m.group(2).strip(), out, " ")
        self.jump(label, m.group(3).strip(), out)

    def i_switch(self, d, r, out, label):
        m = re.match(r'(i\d+) ([^,]+), label %(\S+) \[(.*)\]', r)
        v = self.val(m.group(1), m.group(2))
        for mm in re.finditer(r'i\d+ (-?\d+), label %(\S+)', m.group(4)):
            out.append("if %s==%s:" % (v, mm.group(1)))
            self.jump(label, mm.group(2), out, " ")
        self.jump(label, m.group(3), out)

    def i_ret(self, d, r, out, label):
        if r.startswith("void"):
            out.append("return None")
        else:
            t, x = self.take_type(r)
            out.append("return %s" % self.val(t, x))

    def i_unreachable(self, d, r, out, label):
        out.append("raise Unsupported('unreachable reached')")

    def i_alloca(self, d, r, out, label):
        parts = split_top(r)
        t = self.m.ty(parts[0])
        n = None
        for p in parts[1:]:
            if not p.startswith("align"):
                tt, x = self.take_type(p)
                n = self.val(tt, x)
        if n is None:
            out.append("%s=mem_new(%d,%r,'stack')" % (d, t.size, "local"))
        else:
            out.append("%s=mem_new(%d*as_int(%s),%r,'stack')" % (d, t.size, n, "local"))

    def i_load(self, d, r, out, label):
        at = r.startswith("atomic ")
        r = re.sub(r'^(atomic )?(volatile )?', '', r)
        parts = split_top(r)
        t = self.m.ty(parts[0])
        pt, p = self.take_type(parts[1])
        if at:
            out.append("%s=lda_%s(%s)" % (d, kind(t), self.val("ptr", p.split()[0])))
            return
        if t.k in ("struct", "arr", "vec"):
            raise Unsupported("aggregate load")
        if t.k == "int" and t.n == 1:
            out.append("%s=bool(ld_1(%s))" % (d, self.val("ptr", p)))
        else:
            out.append("%s=ld_%s(%s)" % (d, kind(t), self.val("ptr", p)))

    def i_store(self, d, r, out, label):
        at = r.startswith("atomic ")
        r = re.sub(r'^(atomic )?(volatile )?', '', r)
        parts = split_top(r)
        t, x = self.take_type(parts[0])
        pt, p = self.take_type(parts[1])
        tt = self.m.ty(t)
        if at:
            out.append("sta_%s(%s,%s)" % (kind(tt), self.val("ptr", p.split()[0]), self.val(t, x)))
            return
        if tt.k == "int" and tt.n == 1:
            out.append("st_1(%s,int(%s))" % (self.val("ptr", p), self.val(t, x)))
        else:
            out.append("st_%s(%s,%s)" % (kind(tt), self.val("ptr", p), self.val(t, x)))

    def i_getelementptr(self, d, r, out, label):
        r = re.sub(r'^(inbounds |nuw |nusw )+', '', r)
        parts = split_top(r)
        out.append("%s=%s" % (d, self.gepx(parts)))

    def gepx(self, parts):
        t = self.m.ty(parts[0])
        pt, p = self.take_type(parts[1])
        base = self.val("ptr", p)
        coff = 0
        terms = []
        first = True
        for a in parts[2:]:
            it, x = self.take_type(a)
            if first:
                sz = t.size
                first = False
            elif t.k in ("arr", "vec"):
                t = t.el
                sz = t.size
            elif t.k == "struct":
                k = int(x)
                coff += t.offs[k]
                t = t.el[k]
                continue
            else:
                raise Unsupported("gep")
            if INT_RE.match(x):
                coff += int(x) * sz
            else:
                e = self.val(it, x)
                terms.append(e if sz == 1 else "%s*%d" % (e, sz))
        if coff or not terms:
            terms.append(str(coff))
        return "gep(%s,%s)" % (base, "+".join(terms))

    def i_icmp(self, d, r, out, label):
        m = re.match(r'(samesign )?(\w+) (.*)', r)
        pred = m.group(2)
        t, rest = self.take_type(m.group(3))
        a, b = split_top(rest)
        x, y = self.val(t, a), self.val(t, b)
        if t == "ptr":
            if pred == "eq":
                e = "peq(%s,%s)" % (x, y)
            elif pred == "ne":
                e = "not peq(%s,%s)" % (x, y)
            else:
                e = "pcmp(%s,%s,%r)" % (x, y, {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]])
        elif pred in ("eq", "ne"):
            if t == "i1":
                e = "ixor(%s,%s,1)" % (x, y)
                if pred == "eq":
                    e = "b_not(%s)" % e
            else:
                e = "%s%s%s" % (x, "==" if pred == "eq" else "!=", y)
        else:
            o = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]]
            if pred[0] == "u":
                n = self.m.ty(t).n
                e = "uns(%s,%d)%suns(%s,%d)" % (x, n, o, y, n)
            else:
                e = "%s%s%s" % (x, o, y)
        out.append("%s=%s" % (d, e))

    def i_fcmp(self, d, r, out, label):
        r = re.sub(r'^((nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )+', '', r)
        m = re.match(r'(\w+) (.*)', r)
        pred = m.group(1)
        t, rest = self.take_type(m.group(2))
        a, b = split_top(rest)
        x, y = self.val(t, a), self.val(t, b)
        P = {"eq": "==", "gt": ">", "ge": ">=", "lt": "<", "le": "<=", "ne": "!="}
        N = {"eq": "!=", "gt": "<=", "ge": "<", "lt": ">=", "le": ">", "ne": "=="}
        if pred == "uno":
            e = "funo(%s,%s)" % (x, y)
        elif pred == "ord":
            e = "not funo(%s,%s)" % (x, y)
        elif pred in ("true", "false"):
            e = pred.capitalize()
        elif pred == "une":
            e = "%s!=%s" % (x, y)
        elif pred == "one":
            e = "(not funo(%s,%s)) and (%s!=%s)" % (x, y, x, y)
        elif pred[0] == "o":
            e = "%s%s%s" % (x, P[pred[1:]], y)
        else:
            e = "b_not(%s%s%s)" % (x, N[pred[1:]], y)
        out.append("%s=%s" % (d, e))

    def i_select(self, d, r, out, label):
        r = re.sub(r'^((nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )+', '', r)
        parts = split_top(r)
        ct, c = self.take_type(parts[0])
        t, a = self.take_type(parts[1])
        t2, b = self.take_type(parts[2])
        if t == "i1":
            x, y = self.val(t, a), self.val(t, b)
            if y == "False":
                out.append("%s=b_and(%s,%s)" % (d, self.val(ct, c), x))
                return
            if x == "True":
                out.append("%s=b_or(%s,%s)" % (d, self.val(ct, c), y))
                return
        out.append("%s=%s if %s else %s" % (d, self.val(t, a), self.val(ct, c), self.val(t2, b)))

    def i_fneg(self, d, r, out, label):
        r = re.sub(r'^((nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )+', '', r)
        t, x = self.take_type(r)
        out.append("%s=-%s" % (d, self.val(t, x)))

    def cast(self, d, r, out, fmt):
        r = re.sub(r'^((nneg|nuw|nsw|disjoint) )+', '', r)
        m = re.match(r'(.*) to (\S+)$', r)
        t, x = self.take_type(m.group(1))
        out.append("%s=%s" % (d, fmt(self.val(t, x), self.m.ty(t), self.m.ty(m.group(2)))))

    def i_sext(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: ("(-1 if %s else 0)" % x) if a.n == 1 else x)

    def i_zext(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: ("(1 if %s else 0)" % x) if a.n == 1 else "zext(%s,%d)" % (x, a.n))

    def i_trunc(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "trunc(%s,%d)" % (x, b.n))

    def i_sitofp(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "sitofp(%s)" % x)

    def i_uitofp(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "sitofp(uns(%s,%d))" % (x, a.n))

    def i_fptosi(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "fptosi(%s,%d)" % (x, b.n))

    def i_fptoui(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "fptosi(%s,%d)" % (x, b.n + 1))

    def i_fpext(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: x)

    def i_fptrunc(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "fptrunc(%s)" % x)

    def i_bitcast(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: x if a.k == b.k else "bitc(%s,%r,%r)" % (x, a.k, b.k))

    def i_ptrtoint(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "ptrtoint(%s)" % x)

    def i_inttoptr(self, d, r, out, label):
        self.cast(d, r, out, lambda x, a, b: "inttoptr(%s)" % x)

    def i_freeze(self, d, r, out, label):
        t, x = self.take_type(r)
        out.append("%s=%s" % (d, self.val(t, x)))

    def i_extractvalue(self, d, r, out, label):
        parts = split_top(r)
        t, x = self.take_type(parts[0])
        e = self.val(t, x)
        for i in parts[1:]:
            e += "[%s]" % i
        out.append("%s=%s" % (d, e))

    def i_insertvalue(self, d, r, out, label):
        parts = split_top(r)
        t, x = self.take_type(parts[0])
        t2, y = self.take_type(parts[1])
        i = int(parts[2])
        if len(parts) > 3:
            raise Unsupported("nested insertvalue")
        out.append("%s=tset(%s,%d,%s)" % (d, self.val(t, x), i, self.val(t2, y)))

    def i_extractelement(self, d, r, out, label):
        parts = split_top(r)
        t, x = self.take_type(parts[0])
        it, i = self.take_type(parts[1])
        out.append("%s=%s[%s]" % (d, self.val(t, x), self.val(it, i)))

    def i_insertelement(self, d, r, out, label):
        parts = split_top(r)
        t, x = self.take_type(parts[0])
        t2, y = self.take_type(parts[1])
        it, i = self.take_type(parts[2])
        e = self.val(t, x)
        if e == "None":
            e = repr((None,) * self.m.ty(t).n)
        out.append("%s=tset(%s,%s,%s)" % (d, e, self.val(it, i), self.val(t2, y)))

    def i_fence(self, d, r, out, label):
        return

    def i_atomicrmw(self, d, r, out, label):
        m = re.match(r'(volatile )?(\w+) ptr (\S+), (\S+) ([^ ]+) ', r)
        p, k = self.val("ptr", m.group(3)), kind(self.m.ty(m.group(4)))
        x = self.val(m.group(4), m.group(5))
        e = {"add": "%s+%s", "fadd": "%s+%s", "sub": "%s-%s", "fsub": "%s-%s", "xchg": "%.0s%s"}[m.group(2)]
        out.append("%s=lda_%s(%s); sta_%s(%s,%s)" % (d, k, p, k, p, e % (d, x)))

    def i_cmpxchg(self, d, r, out, label):
        m = re.match(r'(weak )?(volatile )?ptr (\S+), (\S+) ([^ ]+), (\S+) ([^ ]+) ', r)
        k = kind(self.m.ty(m.group(4)))
        out.append("%s=cx_%s(%s,%s,%s)" % (d, k, self.val("ptr", m.group(3)), self.val(m.group(4), m.group(5)), self.val(m.group(6), m.group(7))))

    def i_call(self, d, r, out, label):
        # [fast] [cconv] [ret attrs] <type or fnty> <callee>(<args>)
        r = re.sub(r'^((nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|fastcc|ccc) )+', '', r)
        while True:
            m = re.match(r'(noundef|noalias|nonnull|signext|zeroext|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\))\s+', r)
            if not m:
                break
            r = r[m.end():]
        t, rest = self.take_type(r)
        if rest.startswith("("):   # function type
            dd = 0
            for j, ch in enumerate(rest):
                if ch == "(":
                    dd += 1
                elif ch == ")":
                    dd -= 1
                    if dd == 0:
                        break
            rest = rest[j + 1:].strip()
        m = re.match(r'(@[A-Za-z0-9_.$]+|%[A-Za-z0-9_.$]+)\(', rest)
        if not m:
            out.append("raise Unsupported(%r)" % ("call " + rest[:60]))
            return
        cal = m.group(1)
        dd = 0
        st = m.end() - 1
        for j in range(st, len(rest)):
            if rest[j] == "(":
                dd += 1
            elif rest[j] == ")":
                dd -= 1
                if dd == 0:
                    break
        argtxt = rest[st + 1:j]
        if cal.startswith("@llvm.stacksave") or cal.startswith("@llvm.stackrestore"):
            if d:
                out.append("%s=NULL" % d)
            return
        if cal.startswith("@llvm.dbg") or cal.startswith("@llvm.lifetime") or cal.startswith("@llvm.assume") or cal.startswith("@llvm.experimental.noalias"):
            return
        if cal in ("@llvm.va_start", "@llvm.va_start.p0"):
            a = self.parse_args(argtxt)[0]
            out.append("va_start(%s,va)" % self.val("ptr", a[1]))
            return
        if cal in ("@llvm.va_end", "@llvm.va_end.p0"):
            return
        args = []
        for tt, x, at in self.parse_args(argtxt):
            if tt == "metadata":
                return
            args.append(self.val(tt, x))
        if cal.startswith("@"):
            fn = "G_" + re.sub(r'[^A-Za-z0-9_]', '_', cal[1:])
            self.consts[fn] = self.ex.fn(cal[1:])
            e = "%s(%s)" % (fn, ",".join(args))
        else:
            e = "icall(%s)(%s)" % (self.v(cal), ",".join(args))
        out.append("%s=%s" % (d, e) if d else e)

    def binop(self, op, d, r, out):
        nsw = "nsw" in r.split("%")[0].split() if True else False
        flags = []
        while True:
            m = re.match(r'(nsw|nuw|exact|disjoint|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast)\s+', r)
            if not m:
                break
            flags.append(m.group(1))
            r = r[m.end():]
        t, rest = self.take_type(r)
        a, b = split_top(rest)
        x, y = self.val(t, a), self.val(t, b)
        if op in ("fadd", "fsub", "fmul"):
            o = {"fadd": "+", "fsub": "-", "fmul": "*"}[op]
            out.append(("%s=fptrunc(%s%s%s)" if t == "float" else "%s=%s%s%s") % (d, x, o, y))
            return
        if op == "fdiv":
            out.append(("%s=fptrunc(fdiv(%s,%s))" if t == "float" else "%s=fdiv(%s,%s)") % (d, x, y))
            return
        if op == "frem":
            out.append("%s=frem(%s,%s)" % (d, x, y))
            return
        n = self.m.ty(t).n
        if op in ("add", "sub", "mul"):
            if n == 1:
                out.append("%s=ixor(%s,%s,1)" % (d, x, y))
                return
            o = {"add": "+", "sub": "-", "mul": "*"}[op]
            lim = 1 << (n - 1)
            out.append("%s=%s%s%s" % (d, x, o, y))
            out.append("if %s.__class__ is not int or %s<-%d or %s>=%d: %s=fixi(%s,%d,%s)" % (d, d, lim, d, lim, d, d, n, "nsw" in flags))
            return
        if op in ("sdiv", "srem"):
            out.append("%s=%s(%s,%s,%d)" % (d, op, x, y, n))
        elif op in ("udiv", "urem"):
            out.append("%s=trunc(%s(uns(%s,%d),uns(%s,%d),%d),%d)" % (d, "sdiv" if op == "udiv" else "srem", x, n, y, n, n, n))
        elif op == "shl":
            out.append("%s=shl(%s,%s,%d,%s)" % (d, x, y, n, "nsw" in flags))
        elif op in ("ashr", "lshr"):
            out.append("%s=%s(%s,%s,%d)" % (d, op, x, y, n))
        else:
            out.append("%s=%s(%s,%s,%d)" % (d, {"and": "iand", "or": "ior", "xor": "ixor"}[op], x, y, n))


BIN = {"add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "ashr", "lshr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}


def tset(t, i, v):
    t = list(t)
    t[i] = v
    return tuple(t)


def fptosi(x, n):
    r = sym.trunc_int(x)
    lim = 1 << (n - 1)
    if r.__class__ is int:
        if not -lim <= r < lim:
            raise Violation("float-cast", "conversion of %r to a %d-bit integer" % (x, n))
        return r
    return fixi(r, n, True)


def fptrunc(x):
    if x.__class__ is not float or x != x:
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def as_int(x):
    return sym.CTX.concretize(x) if isinstance(x, Sym) else x


class Exec:
    """Loaded program: functions translated on demand, stubs for externals."""

    def __init__(self, module, stubs):
        self.m = module
        self.stubs = stubs
        self.cache = {}
        self.gobjs = {}
        self.used = set()
        self.env = dict(Unsupported=Unsupported, NULL=NULL, gep=gep, peq=peq, pcmp=pcmp, fixi=fixi, sdiv=sdiv,
                        srem=srem, uns=uns, zext=zext, trunc=trunc, iand=iand, ior=ior, ixor=ixor, shl=shl,
                        ashr=ashr, lshr=lshr, fdiv=fdiv, frem=frem, funo=funo, sitofp=sitofp, fptosi=fptosi,
                        fptrunc=fptrunc, ptrtoint=ptrtoint, inttoptr=inttoptr, tset=tset, b_not=b_not, b_and=b_and,
                        b_or=b_or, mem_new=mem.new, memcpy=mem.memcpy, icall=self.icall, va_start=self.va_start,
                        INSTR=self.used, as_int=as_int)
        for k in mem.KINDS:
            self.env["ld_" + k] = mem.LD[k]
            self.env["st_" + k] = mem.ST[k]
            self.env["lda_" + k] = omp.LDA[k]
            self.env["sta_" + k] = omp.STA[k]
            self.env["cx_" + k] = omp.CX[k]
        self.env["bitc"] = omp.bc
        self.fnobjs = {}

    def reset(self):
        """fresh globals for a new path"""
        for n, o in self.gobjs.items():
            self.init_global(n, o)

    def fn(self, name):
        f = self.cache.get(name)
        if f is None:
            if name in self.stubs:
                f = self.stubs[name]
            elif name in self.m.funcs:
                box = {}

                def lazy(*a, _n=name, _b=box):
                    g = _b.get("f")
                    if g is None:
                        g = _b["f"] = FnGen(self, _n).build()
                        self.cache[_n + "!"] = g
                    return g(*a)
                f = lazy
            else:
                def missing(*a, _n=name):
                    raise Unsupported("call of unmodelled external function %s" % _n)
                f = missing
            self.cache[name] = f
        return f

    def icall(self, p):
        if p.__class__ is tuple and isinstance(p[0], FuncObj):
            return p[0].fn
        raise Violation("badptr", "call through %r" % (p,))

    def va_start(self, ap, va):
        ap[0].meta = list(va)
        # every argument in the overflow area
        a = mem.new(8 * len(va) + 8, "arguments", "stack")
        for i, x in enumerate(va):
            q = (a[0], 8 * i)
            mem.ST["p" if x.__class__ is tuple else "8" if x.__class__ in (int, bool) or isinstance(x, Sym) and x.i else "d"](q, x)
        o, off = ap
        mem.ST["4"]((o, off), 48)
        mem.ST["4"]((o, off + 4), 176)
        mem.ST["p"]((o, off + 8), a)
        mem.ST["p"]((o, off + 16), NULL)

    def gptr(self, name):
        if name in self.m.funcs or name in self.m.decls and name not in self.m.globals:
            if name not in self.fnobjs:
                self.fnobjs[name] = (FuncObj(name, self.fn(name)), 0)
            return self.fnobjs[name]
        o = self.gobjs.get(name)
        if o is None:
            d = self.m.globals.get(name)
            if d is None:
                raise Unsupported("global " + name)
            o = Obj(1 << 30, "@" + name, "global")
            self.gobjs[name] = o
            self.init_global(name, o)
        return (o, 0)

    def init_global(self, name, o):
        d = self.m.globals[name]
        m = re.match(r'(?:(?:private|internal|dso_local|unnamed_addr|local_unnamed_addr|common|external|thread_local|hidden|weak|linkonce_odr)\s+)*(global|constant)\s+(.*)', d)
        ext = re.search(r'\bexternal\b', d) is not None
        body = m.group(2)
        fg = FnGen.__new__(FnGen)
        t, rest = FnGen.take_type(fg, body)
        tt = self.m.ty(t)
        o.size = tt.size
        o.ro = m.group(1) == "constant"
        for k in mem.KINDS:
            o.cells(k).clear()
        o.zero = []
        if ext:
            o.zero = [(0, tt.size)]
            return
        init = split_top(rest)[0] if rest else "zeroinitializer"
        ro, o.ro = o.ro, False
        self.put_init(o, 0, tt, init, t)
        o.ro = ro

    def put_init(self, o, off, t, s, ts):
        s = s.strip()
        if s in ("zeroinitializer", "null"):
            o.zero = o.zero + [(off, off + t.size)]
            return
        if s in ("undef", "poison"):
            return
        if t.k == "arr" and s.startswith('c"'):
            b = []
            x = s[2:s.rindex('"')]
            i = 0
            while i < len(x):
                if x[i] == "\\":
                    b.append(int(x[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(x[i]))
                    i += 1
            for k, ch in enumerate(b):
                o.c1[off + k] = ch - 256 if ch >= 128 else ch
            return
        if t.k in ("arr", "struct", "vec"):
            els = split_top(s[1:-1])
            fg = FnGen.__new__(FnGen)
            for k, e in enumerate(els):
                et, v = FnGen.take_type(fg, e)
                eo = off + (k * t.el.size if t.k in ("arr", "vec") else t.offs[k])
                self.put_init(o, eo, self.m.ty(et), v, et)
            return
        if t.k == "ptr":
            if s.startswith("@"):
                v = self.gptr(s[1:])
            else:
                v = self.cexpr(s)
            o.cp[off] = v
            return
        fg = FnGen.__new__(FnGen)
        fg.consts = {}
        fg.ex = self
        fg.m = self.m
        e = fg.val(ts, s)
        v = fg.consts[e] if e in fg.consts else eval(e)
        o.cells(kind(t))[off] = v

    def cexpr(self, s):
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
        if m:
            fg = FnGen.__new__(FnGen)
            fg.consts = {}
            fg.ex = self
            fg.m = self.m
            e = fg.gepx(split_top(m.group(1)))
            return eval(e, dict(self.env, **fg.consts))
        raise Unsupported("constant expression " + s)
