"""P26: the results do not depend on the number of threads or on the schedule; no data races."""
import importlib

OMP = True

# cases of the other harnesses (their oracles must hold under every schedule), by the parallel regions they execute
BASE = [
    ("p04", ["mcm_0_0_lm4", "mcm_2_2_lm10", "mcm_1_2_lm4", "mcm_2_0_lm10", "pure_2_2_1101", "pure_1_2_11", "teb_2", "teb_pure_3", "short_2_2",
             "fields_2_2_carflip_"]),
    ("p05", ["seq_02_BM", "seq_22_BbM", "independent_FKP"]),
    ("p06", ["lib_0_2_01", "lib_2_0_10", "lib_2_2_11", "lib_1_1_01", "lib_1_2_11"]),
    ("p07", ["00_l5_20", "22_l5_1", "teb_l6", "cov_l5", "10_l5_1", "11_l5_0"]),
    ("p09", ["cpl_0000", "cpl_2222", "cpl_0220", "dec_0202", "cpl_spin1"]),
    ("p12", ["c00_3x3", "c00_4x4", "c22", "c12", "c02_p11", "c22_p1101", "t2", "t_p11", "d00", "d22", "d22p", "dt", "c00_one", "i02p"]),
    ("p13", ["c00", "c22", "c00_5x5", "c00_cutxy", "c12", "r22", "rt", "r22p", "m22_03", "d22"]),
    ("p14", ["m_0000", "m_2222", "auto_02", "w_0202", "w_2200"]),
    ("p15", ["p0_34", "p2_33", "p1_45", "b35_10", "b53_01", "b33l_11", "u34", "d0_two", "d2_two", "db_two", "s0", "s2"]),
    ("p16", ["b00_2", "b22_3", "b11_1", "p22_1001_2", "p02_0001_1", "b22_same"]),
    ("p17", ["s1_90_C1", "s2_30_C2", "s4_40_C1", "f53_1_C1", "f34_1_C2", "sm2", "f57_C2", "fs45_1"]),
    ("p18", ["ud24", "ud42", "prod2", "order2"]),
    ("p19", ["p2_car", "b10_carflip", "p0_carflip", "d2_two_car", "s2", "bx11_carfull", "p1_hp2"]),
    ("p20", ["e22_one_two", "b22_11", "n2"]),
    ("p24", ["flat 3x3 (0,)", "flat 4x4 (2,)", "flat 5x4 (1,)", "flat 4x4 (0, 0) beam", "flat seeds", "flat seeds spin 2",
             "sphere carxy (2,)", "sphere hp2 (0,)"]),
]
QUICK = [(2, True, "back"), (5, False, "cyclic")]
MORE = [(2, False, "cyclic"), (3, True, "cyclic"), (3, False, "last"), (16, True, "back"), (1, False, "cyclic")]
# every assignment of the chunks of dynamic loops to two threads (symbolic, forked)
FREE = [("p04", "mcm_0_2_lm1"), ("p06", "lib_0_2_01"), ("p06", "exchange_0_1"), ("p17", "fs33_1")]
FREEMORE = [("p04", "mcm_2_2_lm1"), ("p04", "teb_1"), ("p04", "short_0_2"), ("p06", "lib_2_2_11")]

BOUNDS = {"quick": "virtual threads: 2 (reverse order, dynamic chunks in reversed blocks) and 5 (cyclic); every assignment of dynamic chunks to 2 "
                   "threads for the smallest loops; the sizes and inputs of the reused cases of P04-P07, P09, P12-P20 and P24",
          "thorough": "additionally 1, 2, 3 and 16 threads in other orders and assignments, and all quick cases of the reused harnesses that "
                      "take below a few seconds"}
ASSUMPTIONS = ["threads hand over control at barriers and at the end of regions only; with the absence of unsynchronised conflicting accesses "
               "(checked on every access of every explored execution) other interleavings give the same results up to the order of critical "
               "sections and atomic updates, which are executed in the given thread orders",
               "additions commute (real arithmetic): reassociation of sums across threads changes results by rounding only",
               "threads inside ducc, healpy, FFTW and cfitsio are outside"]


def names(mod, tier="quick"):
    return {c[0]: c for c in importlib.import_module("harness." + mod).cases(tier)}


def under(h, mod, case, T, rev, assign):
    m = importlib.import_module("harness." + mod)
    if h.sym:
        for k, v in getattr(m, "CTX", {}).items():
            setattr(h.ctx, k, v)
    c = names(mod, "all")[case]
    h.threads(T, rev, assign)
    return c[1](h, **c[2])


def cases(tier):
    out = []
    for mod, L in BASE:
        have = names(mod, "quick")
        for n in L:
            if n not in have:
                raise KeyError("%s %s" % (mod, n))
            for T, rev, a in QUICK + (MORE if tier != "quick" else []):
                w = have[n][3] if len(have[n]) > 3 else 1
                out.append(("%s:%s T%d%s %s" % (mod, n, T, "r" if rev else "", a), under, dict(mod=mod, case=n, T=T, rev=rev, assign=a), w))
    for mod, n in FREE + (FREEMORE if tier != "quick" else []):
        if True:
            out.append(("%s:%s any" % (mod, n), under, dict(mod=mod, case=n, T=2, rev=False, assign="any"), 5))
    return out
