"""irtest.py: the IR translator on common C idioms: compares tools/irtest.c interpreted and native."""
import ctypes, os, re, subprocess, sys, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import sym, ir, stubs, mem
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp()
subprocess.check_call(["clang-18", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", here + "/irtest.c", "-o", d + "/a.0"])
subprocess.check_call(["opt-18", "-passes=sroa,mem2reg,simplifycfg", "-S", d + "/a.0", "-o", d + "/a.ll"])
subprocess.check_call(["gcc", "-w", "-shared", "-fPIC", here + "/irtest.c", "-o", d + "/a.so", "-lm"])
so = ctypes.CDLL(d + "/a.so")
m = ir.Module()
m.load(d + "/a.ll", "a")
ex = ir.Exec(m, stubs.S)
names = re.findall(r"^double (t\d+)\(", open(here + "/irtest.c").read(), re.M)
bad = 0
sym.set_ctx(sym.Ctx()) if hasattr(sym, "set_ctx") else None
for n in names:
    f = getattr(so, n)
    f.restype, f.argtypes = ctypes.c_double, [ctypes.c_double, ctypes.c_int]
    for x in (0.7, -1.3, 2.5):
        for k in (1, 3, 6):
            w = f(x, k)
            try:
                g = ex.fn(n)(x, k)
                if not abs(g - w) <= 1e-12 * max(1, abs(w)):
                    print(n, x, k, "got", g, "want", w)
                    bad += 1
            except Exception as e:
                print(n, x, k, type(e).__name__, str(e)[:150])
                if "-v" in sys.argv:
                    traceback.print_exc()
                bad += 1
                break
        else:
            continue
        break
for f in os.listdir(d):
    os.remove(d + "/" + f)
os.rmdir(d)
print(len(names), "functions,", bad, "failures")
