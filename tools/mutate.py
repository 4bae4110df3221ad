"""mutation survey (developer tool): mutate.py gen N SEED OUTDIR [file-substr] -> OUTDIR/<n>.diff ; mutate.py kill REPO [first harnesses...] -> which harness detects the change"""
import sys, os, re, random, subprocess, io, tokenize, ast, difflib
R = "/repo"
BASE = "d1da614"
CF = ["nmt_bins.c", "nmt_bins_flat.c", "nmt_master.c", "nmt_covar.c", "nmt_io.c", "nmt_master_flat.c", "nmt_covar_flat.c", "nmt_field_flat.c", "flatsky_utils.c", "nmt_mask.c", "nmt_mask_flat.c",
      "healpix_extra.c", "utils.c"]
PF = ["bins.py", "field.py", "workspaces.py", "covariance.py", "utils.py"]
REL = {"nmt_bins.c": "p02 p01 p25 p31", "nmt_bins_flat.c": "p03 p13 p25", "nmt_master.c": "p04 p08 p05 p06 p07 p01 p26 p31", "nmt_covar.c": "p10 p09 p07 p11", "nmt_io.c": "p11", "nmt_master_flat.c": "p12 p13 p16 p26 p31",
       "nmt_covar_flat.c": "p14", "nmt_field_flat.c": "p15 p24 p16 p25", "flatsky_utils.c": "p15 p24 p12 p17", "nmt_mask.c": "p17", "nmt_mask_flat.c": "p17", "healpix_extra.c": "p18", "utils.c": "p10 p23 p04",
       "bins.py": "p02 p03 p01 p25 p30", "field.py": "p19 p21 p20 p29 p15 p25 p30", "workspaces.py": "p01 p04 p05 p06 p08 p12 p13 p16 p20 p27 p29 p25", "covariance.py": "p09 p14 p10 p25", "utils.py": "p22 p28 p29 p19 p18 p23 p24 p17 p25"}
SUBS = [(r"<=", "<"), (r"(?<![<>=!-])>=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![->=<])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\band\b", "or"), (r"\bor\b", "and"),
        (r"(?<![+eE])\+(?![+=])", "-"), (r"(?<![-eE(=,<\[ ])-(?![-=>])", "+"), (r"\+=", "-="), (r"(?<!\*)\*(?![*=/])(?=[\w(])", "/"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"),
        (r"\b2\b(?!\.)", "3"), (r"\b0\.5\b", "1."), (r"\b1\.(?!\d)", "0.5"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\bcreal\b", "cimag"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bnot ", ""),
        (r"\b(\w+)1\b", r"\g<1>2"), (r"\b(\w+)2\b", r"\g<1>1"), (r"\b(\w*)_a\b", r"\g<1>_b"), (r"\b(\w*)_b\b", r"\g<1>_a"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bnx\b", "ny"), (r"\bny\b", "nx"), (r"\blx\b", "ly"),
        (r"\bii\b", "jj"), (r"\bjj\b", "ii"), (r"\bic1\b", "ic2"), (r"\bpe1\b", "pe2"), (r"\bpb1\b", "pb2"), (r"pure_e", "pure_b"), (r"\bclac\b", "clad"), (r"_1122", "_1221"), (r"lmax_mask", "lmax"), (r"\.copy\(\)", ""),
        (r"continue;", ";"), (r"break;", ";"), (r"\bNMT_MAX\b", "NMT_MIN"), (r"\bNMT_MIN\b", "NMT_MAX"), (r"critical", "master"), (r"&", "|"), (r"abs\(", "("), (r"\[0\]", "[-1]"), (r"\[::-1\]", ""), (r"amax", "amin")]


def skipc(l):
    s = l.strip()
    return (not s or s.startswith(("//", "/*", "*", "#include", "}", "report_error", "static", "fprintf", "printf", "free", "dftw_free", "gsl_matrix_free", "int ", "long ", "flouble *", "double *", "fcomplex *", "shared(", "my_malloc"))
            or "malloc(" in s or "calloc(" in s or "report_error" in s or "free(" in s)


def sites(path):
    src = open(path).read()
    L = src.split("\n")
    ok = set(range(len(L)))
    if path.endswith(".py"):
        t = ast.parse(src)
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
                ok -= set(range(n.body[0].lineno - 1, n.body[0].end_lineno))
            if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
                ok -= set(range(n.lineno - 1, n.end_lineno))
        ok = {i for i in ok if L[i].strip() and not L[i].strip().startswith(("#", "def ", "class ", "import", "from ", "@", "warnings", '"', "'", "f\"", "f'"))}
    else:
        depth = 0
        keep = set()
        for i, l in enumerate(L):
            d0 = depth
            depth += l.count("{") - l.count("}")
            if d0 > 0 and not skipc(l):
                keep.add(i)
        ok = keep
    return L, sorted(ok)


def gen(n, seed, out, sub=""):
    rnd = random.Random(seed)
    os.makedirs(out, exist_ok=True)
    files = [("src/" + f) for f in CF] + [("pymaster/" + f) for f in PF]
    files = [f for f in files if sub in f]
    added = {}
    for f in files:
        d = subprocess.run(["git", "-C", R, "diff", "-U0", BASE, "HEAD", "--", f], capture_output=True, text=True).stdout
        a = set()
        for m in re.finditer(r"^@@ -\S+ \+(\d+)(?:,(\d+))? @@", d, re.M):
            s, c = int(m[1]), int(m[2]) if m[2] else 1
            a |= set(range(s - 1, s - 1 + c))
        added[f] = a
    S = {f: sites(R + "/" + f) for f in files}
    pool = []
    for f in files:
        L, ok = S[f]
        for i in ok:
            if i in added[f]:
                continue
            l = L[i]
            code = re.split(r"//|  #", l)[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    pool.append((f, i, m.start(), m.end(), m.expand(b)))
    print(len(pool), "candidates")
    w = {}
    for p in pool:
        w.setdefault(p[0], []).append(p)
    k = 0
    used = set()
    while k < n:
        f = rnd.choice(files) if rnd.random() < 0.5 else rnd.choice(pool)[0]
        if not w.get(f):
            continue
        p = rnd.choice(w[f])
        if p[:3] in used:
            continue
        used.add(p[:3])
        L = list(S[f][0])
        o = "\n".join(L)
        L[p[1]] = L[p[1]][:p[2]] + p[4] + L[p[1]][p[3]:]
        s = "\n".join(L)
        if s == o:
            continue
        if f.endswith(".py"):
            try:
                ast.parse(s)
            except SyntaxError:
                continue
        d = "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
        open("%s/%03d.diff" % (out, k), "w").write(d)
        k += 1


def kill(repo, first):
    os.environ["VP_REPO"] = repo
    sys.path.insert(0, "/verif")
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    import importlib, time
    from vp import engine, build
    order = list(first) + ["p%02d" % i for i in range(1, 30)]
    seen = set()
    jobs = int(os.environ.get("JOBS", "8"))
    only = os.environ.get("ONLY")
    nov = 0
    for hn in order:
        if hn in seen:
            continue
        seen.add(hn)
        if only and hn not in first:
            break
        mod = importlib.import_module("harness." + hn)
        t = time.time()
        try:
            rs = engine.run_cases(hn, mod.cases("quick"), dict(getattr(mod, "OPTS", {})), jobs=jobs, budget=300, grace=1)
        except build.BuildError as e:
            print("BUILD", str(e)[:200])
            return
        bad = [r for r in rs if r["failures"] and r["case"] != "leak"]
        err = [r for r in rs if r["status"] in ("error", "inconclusive")]
        if bad:
            r = bad[0]
            print("KILLED %s %s %s %s (%.0f s)" % (hn, r["case"], r["failures"][0]["label"][:60], r["failures"][0]["detail"][:60], time.time() - t))
            return
        if err:
            nov += len(err)
            print("  %s: %d without a verdict, e.g. %s %s" % (hn, len(err), err[0]["case"], str(err[0].get("why"))[:100]), flush=True)
    print("UNDECIDED (the concrete runs of check.py decide)" if nov else "SURVIVED", " ".join(sorted(seen)))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], *sys.argv[5:])
    else:
        kill(sys.argv[2], sys.argv[3:])
