"""Object-based memory of the IR executor: every access is checked."""
import math
from .sym import Sym, Violation, Unsupported, CTX
from . import sym

KINDS = ("1", "2", "4", "8", "d", "f", "p")
KSIZE = {"1": 1, "2": 2, "4": 4, "8": 8, "d": 8, "f": 4, "p": 8}


DEFREC = None        # access recorder of new objects (parallel programs)
TRACK = None         # list of heap objects created since leak tracking was started


class Obj:
    __slots__ = ("size", "name", "alive", "kind", "c1", "c2", "c4", "c8", "cd", "cf", "cp", "zero", "meta", "ro",
                 "rec", "__weakref__")

    def __init__(self, size, name, kind="heap", zero=False):
        self.size = size
        self.name = name
        self.alive = True
        self.kind = kind
        self.c1 = {}
        self.c2 = {}
        self.c4 = {}
        self.c8 = {}
        self.cd = {}
        self.cf = {}
        self.cp = {}
        self.zero = [(0, size)] if zero else []
        self.meta = None
        self.ro = False
        self.rec = DEFREC
        if TRACK is not None and kind == "heap" and name != "string":
            TRACK.append(self)

    def cells(self, k):
        return getattr(self, "c" + k)

    def __repr__(self):
        return "<%s %s[%s]>" % (self.kind, self.name, self.size)


class NullObj:
    def __repr__(self):
        return "NULL"


NULLO = NullObj()
NULL = (NULLO, 0)


class IntPtr:
    """pointer made from an integer"""


class FuncObj:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<func %s>" % self.name


def viol(kind, msg):
    raise Violation(kind, msg)


def chk(p, n, what):
    if type(p) is not tuple:
        if p is None:
            viol("uninit", "%s through an undefined pointer" % what)
        raise Unsupported("%s through %r" % (what, p))
    o, off = p
    if o is NULLO:
        viol("null", "%s through a NULL pointer" % what)
    if not isinstance(o, Obj):
        viol("badptr", "%s through %r" % (what, o))
    if isinstance(off, Sym):
        off = sym.CTX.concretize(off)
    if not o.alive:
        viol("use-after-free", "%s of freed %s" % (what, o.name))
    if off < 0 or off + n > o.size:
        viol("out-of-bounds", "%s of %d bytes at offset %d of %r" % (what, n, off, o))
    return o, off


def zero_covers(o, off, n):
    for a, b in o.zero:
        if a <= off and off + n <= b:
            return True
    return False


def _overlap(o, off, n, skip=None):
    """remove cells overlapping [off,off+n)"""
    for k in KINDS:
        d = o.cells(k)
        if not d:
            continue
        s = KSIZE[k]
        if len(d) < n + s:
            for q in [q for q in d if q < off + n and q + s > off]:
                if not (k == skip and q == off):
                    del d[q]
        else:
            for q in range(off - s + 1, off + n):
                if q in d and not (k == skip and q == off):
                    del d[q]


def _zero_cut(o, off, n):
    if not o.zero:
        return
    z = []
    for a, b in o.zero:
        if b <= off or a >= off + n:
            z.append((a, b))
        else:
            if a < off:
                z.append((a, off))
            if b > off + n:
                z.append((off + n, b))
    o.zero = z


def mk(kind, size, zero_val, pyt):
    cname = "c" + kind
    src = f'''
def ld(p):
    try:
        o, off = p
        v = o.{cname}[off]
        if o.rec is None:
            return v
    except Exception:
        pass
    return ld_slow(p)
def ld_slow(p):
    o, off = chk(p, {size}, "read")
    if o.rec is not None:
        o.rec.read(o, off, {size})
    d = o.{cname}
    if off in d:
        return d[off]
    return ld_pun(o, off, {size}, "{kind}")
def st(p, v):
    o, off = p
    if off.__class__ is int and o.__class__ is Obj and o.alive and o.rec is None:
        d = o.{cname}
        if off in d:
            d[off] = v
            return
    st_slow(p, v)
def st_slow(p, v):
    o, off = chk(p, {size}, "write")
    if o.ro:
        viol("write-const", "write to constant %s" % o.name)
    if o.rec is not None:
        o.rec.write(o, off, {size})
    _overlap(o, off, {size}, "{kind}")
    o.{cname}[off] = v
'''
    g = dict(chk=chk, ld_pun=ld_pun, Obj=Obj, viol=viol, _overlap=_overlap, _zero_cut=_zero_cut)
    exec(src, g)
    return g["ld"], g["st"]


def tobytes(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n)]


def ld_pun(o, off, n, kind):
    """load of a kind not stored as such at this offset"""
    # exact zero region with no cell over it
    over = []
    for k in KINDS:
        d = o.cells(k)
        if d:
            s = KSIZE[k]
            for q in range(off - s + 1, off + n):
                if q in d:
                    over.append((q, k, d[q]))
    if not over:
        if zero_covers(o, off, n):
            return {"d": 0.0, "f": 0.0, "p": NULL}.get(kind, 0)
        if kind == "d" or o.kind == "stack" and kind != "p":
            # may be copied (padding of work arrays), any other use is a violation
            return sym.Undef("use of %d uninitialised bytes read at offset %d of %r" % (n, off, o))
        viol("uninit", "read of %d uninitialised bytes at offset %d of %r" % (n, off, o))
    if kind in "1248":
        if len(over) == 1 and over[0][0] == off and isinstance(over[0][2], Sym) and over[0][1] in "48":
            q, k, v = over[0]
            lo, hi = v.bounds()
            if k == "8" and kind == "4" and lo >= -(1 << 31) and hi < 1 << 31:
                return v
            if k == "4" and kind == "8" and o.kind == "stack" and not zero_covers(o, off, n):
                return v    # a small structure passed in a register
        by = [None] * n
        if zero_covers(o, off, n):
            by = [0] * n
        for q, k, v in over:
            if k == "p" and v == NULL:
                v = 0
            elif k == "d" and v.__class__ is float and kind == "8" and q == off:
                import struct
                return struct.unpack("<q", struct.pack("<d", v))[0]
            elif k in "dfp" or v.__class__ is not int:
                if n == 8 and k == "p" and q == off:
                    return v
                raise Unsupported("byte view of a %s cell" % k)
            bs = tobytes(v, KSIZE[k])
            for i, b in enumerate(bs):
                if off <= q + i < off + n:
                    by[q + i - off] = b
        if None in by and o.kind == "stack" and by[0] is not None:
            by = [b or 0 for b in by]    # padding of a structure passed in a register
        if None in by:
            viol("uninit", "read of partly uninitialised %d bytes at offset %d of %r" % (n, off, o))
        v = 0
        for i, b in enumerate(by):
            v |= b << (8 * i)
        if v >= 1 << (8 * n - 1):
            v -= 1 << (8 * n)
        return v
    if len(over) == 1 and over[0][0] == off and over[0][1] == "8":
        v = over[0][2]
        if kind == "p":
            if v.__class__ is tuple:
                return v
            if v == 0:
                return NULL
        if kind == "d" and v.__class__ is int:
            import struct
            return struct.unpack("<d", struct.pack("<q", v))[0]
    raise Unsupported("pun load %s from %s" % (kind, over[:3]))


LD = {}
ST = {}
for _k in KINDS:
    LD[_k], ST[_k] = mk(_k, KSIZE[_k], None, None)


def memcpy(dst, src, n):
    if isinstance(n, Sym):
        n = sym.CTX.concretize(n)
    if n < 0:
        viol("out-of-bounds", "copy of %d bytes" % n)
    if n == 0:
        return
    do, doff = chk(dst, n, "write (copy)")
    so, soff = chk(src, n, "read (copy)")
    if do.ro:
        viol("write-const", "write to constant %s" % do.name)
    if so.rec is not None:
        so.rec.read(so, soff, n)
    if do.rec is not None:
        do.rec.write(do, doff, n)
    items = []
    for k in KINDS:
        d = so.cells(k)
        if d:
            s = KSIZE[k]
            for q, v in d.items():
                if soff <= q and q + s <= soff + n:
                    items.append((k, q - soff + doff, v))
                elif q < soff + n and q + s > soff:
                    raise Unsupported("copy splits a cell")
    zs = [(max(a, soff) - soff + doff, min(b, soff + n) - soff + doff) for a, b in so.zero if a < soff + n and b > soff]
    _overlap(do, doff, n)
    _zero_cut(do, doff, n)
    do.zero = do.zero + zs
    for k, q, v in items:
        do.cells(k)[q] = v


def memset(dst, c, n):
    if isinstance(n, Sym):
        n = sym.CTX.concretize(n)
    if n == 0:
        return
    o, off = chk(dst, n, "write (memset)")
    if o.rec is not None:
        o.rec.write(o, off, n)
    if isinstance(c, Sym):
        c = sym.CTX.concretize(c)
    _overlap(o, off, n)
    _zero_cut(o, off, n)
    c &= 0xff
    if c == 0:
        o.zero = o.zero + [(off, off + n)]
    else:
        if c >= 128:
            c -= 256
        for i in range(n):
            o.c1[off + i] = c


def new(size, name="heap", kind="heap", zero=False):
    return (Obj(size, name, kind, zero), 0)


def cstr(p):
    """Python string from a C string"""
    out = []
    o, off = p
    i = 0
    while True:
        c = LD["1"]((o, off + i))
        if c == 0:
            break
        out.append(c & 0xff)
        i += 1
    return bytes(out).decode("latin1")


def put_cstr(p, s):
    b = s.encode("latin1") if isinstance(s, str) else s
    o, off = p
    for i, ch in enumerate(b):
        ST["1"]((o, off + i), ch - 256 if ch >= 128 else ch)
    ST["1"]((o, off + len(b)), 0)


def new_cstr(s):
    b = s.encode("latin1")
    p = new(len(b) + 1, "string")
    put_cstr(p, s)
    return p
