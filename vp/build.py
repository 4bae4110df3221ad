"""Builds of the code under test, from /repo's working tree, into a scratch directory."""
import os
import re
import glob
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
NPINC = "/opt/venv/lib/python3.12/site-packages/numpy/_core/include"
PYINC = "/usr/include/python3.12"
NATPY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="vpnm.")


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


def sources():
    s = sorted(glob.glob(REPO + "/src/*.c"))
    if not s:
        raise BuildError("no sources in %s/src" % REPO)
    return s


def accessors():
    """get/set functions for every member of every structure of namaster.h"""
    txt = open(REPO + "/src/namaster.h").read()
    txt = re.sub(r'//.*', '', re.sub(r'/\*.*?\*/', '', txt, flags=re.S))
    out = ['#include "config.h"\n#include "utils.h"\n']
    meta = {}
    for m in re.finditer(r'typedef\s+struct\s*\w*\s*\{(.*?)\}\s*(\w+)\s*;', txt, re.S):
        st = m.group(2)
        meta[st] = {}
        for decl in m.group(1).split(";"):
            decl = " ".join(decl.split())
            if not decl or "[" in decl:
                continue
            mm = re.match(r'((?:const |unsigned |struct )*\w+)\s*(.*)', decl)
            base = mm.group(1)
            for d in mm.group(2).split(","):
                d = d.strip()
                nptr = d.count("*")
                f = d.replace("*", "").strip()
                ty = base + " " + "*" * nptr
                meta[st][f] = (base, nptr)
                out.append("%s vp_get_%s__%s(%s *p){return p->%s;}\n" % (ty, st, f, st, f))
                out.append("void vp_set_%s__%s(%s *p,%s v){p->%s=v;}\n" % (st, f, st, ty, f))
    return "".join(out), meta


def stubdir(d):
    os.makedirs(d + "/inc", exist_ok=True)
    open(d + "/inc/config.h", "w").close()
    return d + "/inc"


def build_ir(d, omp=False, wrap=True):
    """LLVM IR of every C file; returns {tag: path}"""
    inc = stubdir(d)
    acc, meta = accessors()
    open(d + "/vp_acc.c", "w").write(acc)
    jobs = [(os.path.basename(s)[:-2], s, []) for s in sources()]
    jobs.append(("vp_acc", d + "/vp_acc.c", []))
    if wrap:
        jobs.append(("wrap", REPO + "/pymaster/namaster_wrap.c", ["-I" + REPO + "/pymaster", "-I" + NPINC, "-I" + PYINC]))

    def one(j):
        tag, src, extra = j
        o = "%s/%s%s.ll" % (d, tag, ".omp" if omp else "")
        run(["clang-18", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-I" + inc, "-I" + REPO + "/src",
             "-ffp-contract=off", "-D_FORTIFY_SOURCE=0"] + (["-fopenmp"] if omp and tag != "wrap" else []) + extra + [src, "-o", o + ".0"])
        run(["opt-18", "-passes=sroa,mem2reg,simplifycfg", "-S", o + ".0", "-o", o])
        os.unlink(o + ".0")
        return tag, o
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, jobs)), meta


TRY = """#include "config.h"
#include "utils.h"
#define I long a0,long a1,long a2,long a3,long a4,long a5,double,double,double,double,double,double,double,double,long,long,long,long,long,long,long,long,long,long
#define A a[0],a[1],a[2],a[3],a[4],a[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15]
/* calls a function; errors thrown by the library are returned in err */
long vp_try_l(void *f,int *err,long *a,double *d)
{
  *err=setjmp(nmt_exception_buffer);
  if(*err) return 0;
  return ((long(*)(I))f)(A);
}
double vp_try_d(void *f,int *err,long *a,double *d)
{
  *err=setjmp(nmt_exception_buffer);
  if(*err) return 0;
  return ((double(*)(I))f)(A);
}
"""


def build_native(d, san=None, omp=True, vrt=False):
    """Python package with the current sources: <d>/pymaster, <d>/_nmtlib.so
    vrt: OpenMP regions run on the deterministic runtime of vp/gomp.c"""
    inc = stubdir(d)
    flags = ["-g", "-O1", "-fPIC", "-w", "-I" + inc, "-I" + REPO + "/src", "-I" + REPO + "/pymaster", "-I" + NPINC, "-I" + PYINC]
    if omp:
        flags.append("-fopenmp")
    if san:
        flags += san
    acc, meta = accessors()
    open(d + "/vp_acc.c", "w").write(acc)
    open(d + "/vp_try.c", "w").write(TRY)
    if vrt:
        flags.append("-fsanitize=thread")
    srcs = sources() + [d + "/vp_acc.c", d + "/vp_try.c", REPO + "/pymaster/namaster_wrap.c"]

    def one(s):
        o = d + "/" + os.path.basename(s) + ".o"
        run(["gcc", "-c", s, "-o", o] + [f for f in flags if not (s.endswith("_wrap.c") and f == "-fsanitize=thread")])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = d + "/_nmtlib.so"
    link = ["-fopenmp"]
    if vrt:
        run(["gcc", "-c", "-O1", "-w", "-fPIC", "-fvisibility=hidden", os.path.dirname(os.path.abspath(__file__)) + "/gomp.c", "-o", d + "/gomp.o"])
        objs.append(d + "/gomp.o")
        link = ["-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "fftw_malloc", "memcpy", "memset")]
    run(["gcc", "-shared", "-o", so] + objs + (san or []) + link + ["-lgsl", "-lgslcblas", "-lfftw3_omp", "-lfftw3", "-lcfitsio",
         "/usr/lib/x86_64-linux-gnu/libchealpix.so", "-lm"])
    for o in objs:
        os.unlink(o)
    os.makedirs(d + "/pymaster", exist_ok=True)
    for f in glob.glob(REPO + "/pymaster/*.py"):
        shutil.copy(f, d + "/pymaster/")
    return so


def protos(txt):
    """C prototypes/definitions found in a text: {name: (ret, [(type, name)])}"""
    txt = re.sub(r'//.*', '', re.sub(r'/\*.*?\*/', '', txt, flags=re.S))
    out = {}
    for m in re.finditer(r'(?:^|\n)\s*((?:(?:const|unsigned|struct|extern)\s+)*\w+(?:\s+complex)?\s*\**)\s*(\w+)\s*\(([^()]*)\)\s*[;{]', txt):
        ret, name, args = m.groups()
        if ret.split()[0] in ("return", "else", "typedef", "static", "define"):
            continue
        al = []
        ok = True
        for a in args.split(","):
            a = " ".join(a.split())
            if a in ("", "void"):
                continue
            mm = re.match(r'^((?:const |unsigned |struct )*\w+(?: complex)?)\s*(\**)\s*(\w+)?\s*((?:\[\w*\])*)$', a)
            if not mm:
                ok = False
                break
            np_ = len(mm.group(2)) + mm.group(4).count("[")
            al.append((mm.group(1).replace("const ", ""), np_, mm.group(3) or ""))
        if ok:
            ret = " ".join(ret.split())
            out[name] = ((ret.replace("*", "").replace("extern ", "").strip(), ret.count("*")), al)
    return out


def wrap_inline():
    """text of the hand-written functions inside namaster_wrap.c"""
    t = open(REPO + "/pymaster/namaster_wrap.c").read()
    i = t.find('#include "../src/utils.h"')
    j = t.find("_wrap_", i)
    return t[i:j]


def applies():
    """argument groups with numpy typemaps, from namaster.i"""
    t = open(REPO + "/pymaster/namaster.i").read()
    t = re.sub(r'//.*', '', t)
    out = {}
    for m in re.finditer(r'%apply\s*\(([^)]*)\)\s*\{(.*?)\}\s*;', t, re.S):
        pat = m.group(1)
        if "ARGOUT_ARRAY1" in pat:
            kind = "out"
        else:
            kind = "in%d" % int(re.search(r'IN_ARRAY(\d)', pat).group(1))
        ct = "int" if re.search(r'\bint\s*\*', pat) else "double"
        for g in re.finditer(r'\(([^)]*)\)', m.group(2)):
            names = tuple(re.search(r'(\w+)\s*$', a).group(1) for a in g.group(1).split(","))
            out[names] = (kind, ct)
    return out
