"""Virtual OpenMP threads for the IR of clang -fopenmp, with a data-race detector on every memory access.

A parallel region runs T virtual threads that hand over control only at barriers and at their end, in a chosen order;
iterations of worksharing loops go to threads as with static scheduling (balanced blocks) or, for dynamic schedules, as
chosen by the harness.  Two accesses of the same memory by different threads with no barrier between them, one of them
a write, not both atomic and not both inside the same critical section, are a race.  Without races every interleaving
equals one of the orders executed here up to the order of critical sections and of atomic updates."""
import math
import threading
from . import sym, mem
from .sym import Sym, Unsupported, Violation
from .mem import LD, ST, NULL, Obj, viol
from .stubs import S, stub, CThrow, ci
from . import stubs

threading.stack_size(256 << 20)


class Abort(BaseException):
    pass


class Rec:
    """accesses of the current phase (between two barriers)"""

    def __init__(self):
        self.d = {}
        self.tid = None
        self.mode = None
        self.on = False

    def keys(self, off, n):
        if n < 4:
            return [(off + i, 1) for i in range(n)]
        return range(off >> 2, (off + n + 3) >> 2)

    def read(self, o, off, n):
        if self.on:
            self.access(o, off, n, False)

    def write(self, o, off, n):
        if self.on:
            self.access(o, off, n, True)

    def access(self, o, off, n, w):
        d = self.d.get(o)
        if d is None:
            d = self.d[o] = {}
        t, m = self.tid, self.mode
        for k in self.keys(off, n):
            c = d.get(k)
            if c is None:
                c = d[k] = {}
            elif len(c) > 1 or (t, m) not in c:
                for (t2, m2), w2 in c.items():
                    if t2 != t and (w or w2) and (m is None or m != m2):
                        viol("race", "threads %d and %d both access bytes %s of %s, at least one writes, unsynchronised" % (t2, t, k, o.name))
            if w or (t, m) not in c:
                c[(t, m)] = w or c.get((t, m), False)

    def free(self, o):
        if self.on and o in self.d:
            for k, c in self.d[o].items():
                for (t2, m2) in c:
                    if t2 != self.tid:
                        viol("race", "thread %d frees %s used by thread %d, unsynchronised" % (self.tid, o.name, t2))

    def phase(self):
        self.d = {}


REC = Rec()


class Cfg:
    T = 1
    rev = False
    assign = staticmethod(lambda k, i, n: 0)
    chunk = 0           # dynamic chunks so far


CFG = Cfg()
TEAM = None
REGIONS = set()


def reset():
    global TEAM
    CFG.T, CFG.rev, CFG.chunk = 1, False, 0
    CFG.assign = lambda k, i, n: 0
    TEAM = None
    REC.on = False
    REC.phase()


class Team:
    def __init__(self, T):
        self.T = T
        self.cur = 0
        self.err = None
        self.abort = False
        self.loops = {}     # dynamic loops: per thread counter -> chunk lists
        self.nloop = [0] * T
        self.state = ["new"] * T
        self.sem = [threading.Semaphore(0) for _ in range(T)]
        self.main = threading.Semaphore(0)
        self.modes = [None] * T
        self.single = set()
        self.nsingle = [0] * T

    def yield_(self, st):
        t = self.cur
        self.state[t] = st
        self.main.release()
        self.sem[t].acquire()
        if self.abort:
            raise Abort()
        self.cur = t

    def run(self, fn, args):
        T = self.T
        gt = []
        for t in range(T):
            g = mem.new(4, "gtid", "stack")
            ST["4"](g, t)
            gt.append(g)

        def body(t):
            self.sem[t].acquire()
            if not self.abort:
                self.cur = t
                try:
                    fn(gt[t], gt[t], *args)
                except Abort:
                    pass
                except BaseException as e:
                    if self.err is None:
                        self.err = e
            self.state[t] = "done"
            self.main.release()
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(T)]
        for x in ths:
            x.start()
        order = list(range(T))
        if CFG.rev:
            order.reverse()
        was = REC.on, REC.tid, REC.mode
        REC.on = True
        try:
            while self.err is None and any(s != "done" for s in self.state):
                REC.phase()
                for t in order:
                    if self.state[t] == "done":
                        continue
                    REC.tid, REC.mode = t, self.modes[t]
                    self.state[t] = "running"
                    self.sem[t].release()
                    self.main.acquire()
                    self.modes[t] = REC.mode
                    if self.err is not None:
                        break
                if self.err is None and len(set(self.state)) > 1:
                    self.err = Violation("barrier", "some threads end the region while others wait at a barrier")
        finally:
            self.abort = True
            for t in range(T):
                if self.state[t] != "done":
                    self.sem[t].release()
            for x in ths:
                x.join()
            REC.on, REC.tid, REC.mode = was
            REC.phase()
        e = self.err
        if e is not None:
            if isinstance(e, CThrow):
                raise Violation("omp", "an error is thrown out of a parallel region")
            raise e


def va(a):
    return a


@stub("__kmpc_fork_call")
def k_fork(loc, n, fnp, *args):
    global TEAM
    REGIONS.add(fnp[0].name)
    fn = fnp[0].fn
    T = 1 if TEAM is not None else CFG.T
    old = TEAM
    TEAM = Team(T)
    try:
        if old is not None:     # nested regions have one thread
            TEAM.nested = True
            g = mem.new(4, "gtid", "stack")
            ST["4"](g, 0)
            fn(g, g, *args)
        else:
            TEAM.run(fn, args)
    finally:
        TEAM = old


@stub("__kmpc_push_num_threads", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_for_static_fini",
      "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8u",
      "__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_flush", "__kmpc_end_reduce_nowait")
def k_nop(*a):
    return None


@stub("__kmpc_global_thread_num")
def k_gtn(loc):
    return TEAM.cur if TEAM is not None else 0


S["omp_get_thread_num"] = lambda: TEAM.cur if TEAM is not None else 0
S["omp_get_num_threads"] = lambda: TEAM.T if TEAM is not None else 1
S["omp_get_max_threads"] = lambda: CFG.T
S["omp_in_parallel"] = lambda: 1 if TEAM is not None and TEAM.T > 1 else 0


@stub("__kmpc_barrier")
def k_barrier(loc, gtid):
    if TEAM is None or getattr(TEAM, "nested", False):
        return
    if REC.mode is not None:
        viol("omp", "a barrier inside a critical section")
    TEAM.yield_("barrier")


@stub("__kmpc_critical", "__kmpc_critical_with_hint")
def k_crit(loc, gtid, lock, *r):
    if REC.mode is not None:
        viol("omp", "nested critical section")
    REC.mode = ("critical", id(lock[0]))


@stub("__kmpc_end_critical")
def k_ecrit(loc, gtid, lock):
    REC.mode = None


@stub("__kmpc_reduce_nowait", "__kmpc_reduce")
def k_red(loc, gtid, n, sz, data, fn, lock):
    REC.mode = ("critical", id(lock[0]))
    k_red.barrier = False
    return 1


def k_ered(loc, gtid, lock):
    REC.mode = None


S["__kmpc_end_reduce_nowait"] = k_ered


@stub("__kmpc_end_reduce")
def k_ered2(loc, gtid, lock):
    REC.mode = None
    k_barrier(loc, gtid)


@stub("__kmpc_master", "__kmpc_masked")
def k_master(loc, gtid, *r):
    return 1 if (TEAM is None or TEAM.cur == 0) else 0


@stub("__kmpc_single")
def k_single(loc, gtid):
    if TEAM is None:
        return 1
    t = TEAM.cur
    k = TEAM.nsingle[t]
    TEAM.nsingle[t] += 1
    if k in TEAM.single:
        return 0
    TEAM.single.add(k)
    return 1


def mkstatic(k, bits, uns):
    def f(loc, gtid, sched, plast, plo, pup, pst, incr, chunk):
        lo, up = ci(LD[k](plo)), ci(LD[k](pup))
        if uns:
            lo, up = lo % (1 << bits), up % (1 << bits)
        T, t = (TEAM.T, TEAM.cur) if TEAM is not None else (1, 0)
        incr, chunk, sched = ci(incr), ci(chunk), ci(sched) & 0xff

        def w(p, v):
            v %= 1 << bits
            ST[k](p, v - (1 << bits) if v >> (bits - 1) else v)
        n = (up - lo) // incr + 1 if incr > 0 else (lo - up) // -incr + 1
        if n <= 0:
            return
        if sched == 34:
            q, r = divmod(n, T)
            a = t * q + min(t, r)
            m = q + (1 if t < r else 0)
            if m == 0:
                w(plo, up + incr)
                ST["4"](plast, 0)
            else:
                w(plo, lo + a * incr)
                w(pup, lo + (a + m - 1) * incr)
                ST["4"](plast, int(a + m == n))
            w(pst, incr * n)
        elif sched == 33:
            w(plo, lo + t * chunk * incr)
            w(pup, lo + ((t + 1) * chunk - 1) * incr)
            w(pst, T * chunk * incr)
            ST["4"](plast, int((n - 1) // chunk % T == t))
        else:
            raise Unsupported("OpenMP schedule %d" % sched)
    return f


def mkdisp(k, bits, uns):
    def init(loc, gtid, sched, lo, up, st, chunk):
        lo, up, st, chunk = ci(lo), ci(up), ci(st), max(1, ci(chunk))
        if uns:
            lo, up = lo % (1 << bits), up % (1 << bits)
        tm = TEAM if TEAM is not None else k_solo()
        t = tm.cur
        key = tm.nloop[t]
        tm.nloop[t] += 1
        if key not in tm.loops:
            n = (up - lo) // st + 1 if st > 0 else (lo - up) // -st + 1
            ch = []
            i = 0
            nc = max(0, (n + chunk - 1) // chunk)
            for c in range(nc):
                j = min(n, i + chunk)
                ch.append((CFG.assign(CFG.chunk, c, nc) if tm.T > 1 else 0, lo + i * st, lo + (j - 1) * st, j == n))
                CFG.chunk += 1
                i = j
            tm.loops[key] = [[x for x in ch if x[0] == u] for u in range(tm.T)]
        tm.active = getattr(tm, "active", {})
        tm.active[t] = (key, st)

    def nxt(loc, gtid, plast, plo, pup, pst):
        tm = TEAM if TEAM is not None else k_solo()
        key, st = tm.active[tm.cur]
        L = tm.loops[key][tm.cur]
        if not L:
            return 0
        _, a, b, last = L.pop(0)

        def w(p, v):
            v %= 1 << bits
            ST[k](p, v - (1 << bits) if v >> (bits - 1) else v)
        w(plo, a)
        w(pup, b)
        w(pst, st)
        ST["4"](plast, int(last))
        return 1
    return init, nxt


def k_solo():
    raise Unsupported("worksharing loop outside a parallel region")


for _k, _b, _u, _n in (("4", 32, False, "4"), ("4", 32, True, "4u"), ("8", 64, False, "8"), ("8", 64, True, "8u")):
    S["__kmpc_for_static_init_" + _n] = mkstatic(_k, _b, _u)
    _i, _x = mkdisp(_k, _b, _u)
    S["__kmpc_dispatch_init_" + _n] = _i
    S["__kmpc_dispatch_next_" + _n] = _x


# ------------------------------------------------------------------ atomics
class Bits:
    """64-bit pattern of a double"""

    def __init__(self, v):
        self.v = v

    def __lt__(self, k):
        if k.__class__ is int and k == 0:
            return self.v < 0 if isinstance(self.v, sym.Sym) else math.copysign(1.0, self.v) < 0
        raise sym.Unsupported("bits of a number")

    def __ge__(self, k):
        return not (self < k)

    def __gt__(self, k):
        if k.__class__ is int and k == -1:
            return not (self < 0)
        raise sym.Unsupported("bits of a number")


def atomic(f):
    def g(*a):
        m = REC.mode
        if m is None:
            REC.mode = "atomic"
        try:
            return f(*a)
        finally:
            REC.mode = m
    return g


def ld_at(k):
    def f(p):
        if k == "8" and type(p) is tuple and isinstance(p[0], Obj):
            o, off = p
            if not isinstance(off, Sym) and (off in o.cd or (off not in o.c8 and off not in o.cp and o.zero)):
                return Bits(LD["d"](p))
        return LD[k](p)
    return atomic(f)


def st_at(k):
    def f(p, v):
        if isinstance(v, Bits):
            return ST["d"](p, v.v)
        return ST[k](p, v)
    return atomic(f)


LDA = {k: ld_at(k) for k in mem.KINDS}
STA = {k: st_at(k) for k in mem.KINDS}


def bits_eq(a, b):
    x, y = (a.v if isinstance(a, Bits) else a), (b.v if isinstance(b, Bits) else b)
    if x is y:
        return True
    if isinstance(a, Bits) and isinstance(b, Bits) and isinstance(x, float) and isinstance(y, float):
        return x == y
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return bool(x == y)


def cmpxchg(k):
    def f(p, old, new):
        cur = LDA[k](p)
        ok = bits_eq(cur, old)
        if ok:
            STA[k](p, new)
        return (cur, ok)
    return f


CX = {k: cmpxchg(k) for k in mem.KINDS}


def bc(v, frm, to):
    """bitcast between i64 and double"""
    if isinstance(v, Bits):
        return v.v if to == "double" else v
    if frm == "double" and to == "int":
        return Bits(v)
    if frm == "int" and to == "double":
        if v.__class__ is int:
            import struct
            return struct.unpack("<d", struct.pack("<q", v))[0]
        raise Unsupported("bitcast of %r" % (v,))
    return v


def serial_only(f, name):
    def g(*a):
        if TEAM is not None and TEAM.T > 1 and REC.mode is None:
            viol("race", "%s, which is not thread safe, is called inside a parallel region" % name)
        return f(*a)
    return g


for _n in list(S):
    if _n.startswith("fftw_plan") or _n in ("fftw_destroy_plan", "fftw_cleanup", "rand", "strtok", "srand"):
        S[_n] = serial_only(S[_n], _n)


def threads(T, rev=False, assign=None):
    CFG.T, CFG.rev, CFG.chunk = T, rev, 0
    CFG.assign = assign


ASSIGN = {"cyclic": lambda T: lambda k, i, n: i % T,
          "back": lambda T: lambda k, i, n: T - 1 - min(T - 1, i * T // n),
          "last": lambda T: lambda k, i, n: T - 1}
