"""P31: everything that is allocated is released."""
import importlib
import re

NOTE = "every value of the symbolic inputs of the workloads; geometries, spins and options as enumerated"
BOUNDS = {"quick": "workloads of the other checks (about 400), for every kind of object and operation that they construct, use, recompute, write, read and delete: all paths through them, "
                   "with their symbolic inputs and bounds; the real library is run 6 to 200 times over each that makes no WCS object", "thorough": "about 1500 workloads"}
ASSUMPTIONS = ["allocation never fails; blocks owned by NumPy, healpy, ducc0 and Python are theirs to release; operations that end in an error are not covered"]

# workloads that leave nothing behind themselves, per check
QUICK = {1: "arbitrary3|linear|edges1|fedges", 2: "bin0|unbin1|constant_3_10|dell|bin_neg", 3: "search2$|history2|bin1|roundtrip|constant|values",
         4: "mcm_(0_0|0_2|2_0|1_2|2_2)_lm(1|4)|pure_(2_2_(0010|0101|1011|1110)|0_2_..|2_0_01)|teb_2|teb_pure_2|short_teb", 5: "seq_0[02]_..$|seqfkp_00_.$|layout_|layout2_wf|independent",
         6: "short", 7: "00_l5_2|mm_(22|12)_0|(02|22|12)_l5_0|teb_l5|short_mask|long_mask", 8: ".*", 9: "whole|only0|dec_(0000|0202|2222)|cpl_(same|sym)$", 10: "fields_(hp2|car)_(abcd|abab|abba)|short|again|two",
         11: "c00_[0-2o]|c00_ops_bWM|c22_b|fkp22_b|teb_B|lmask_B|reread_02|nounb(02|_teb).*|cov_(0000|2222|nounb)|flat.*", 12: "c00_3x3|c02$|c22_(same|beam|p0001|p1011|pm)|t2|d(00|02|22p|20p)$", 13: "c00$|c22_same|d(02|22|t)|r(00|02p)|m.*", 14: "w_0(0|2)..|w_2222|m_0022|auto_02|w3",
         15: "p[02]_..|b33_|b33l_01|b33u_11|u3|d[02]_(one|two|dep)|dl_|dlb|dlbm|dbm|s0|s2", 16: "b0[02]_[0-4]|b22_[01]|b22_same|p02_0001_.|p22_0101_.|b00_cut", 17: "sm2$|fs33_.", 18: "strip[12]$|stripb2",
         19: "(p[02]|kept[02]|pm2|pl2|an2|b01|bx11|pd)_hp2|p2_car", 20: "e0[02]_one_two|e22_dep_dup|s2_two|u0_one", 21: "c[02]$|cl0|m2|k32|x02|w22|xcc", 22: "gp[+][+]$|m1p..$", 23: "py3mixed|f.k2|f.d2",
         24: "flat_3x3_.*|flat_4x4_\\(2.*|sphere_hp2_\\((0|2),\\)", 27: ".*", 28: "(syn|adj)_(hp2|car)_[02]|ana_(hp2|car)_2_1", 29: "tol|bias_00.*|biasf_00.*|backends2_.", 30: "bins|edges|binflat|.*_hp2.*|cat._0|flat.*|work_.*02|work_(22|fkp)|workflat_.*02|cov.*|fcalls"}
MORE = {**QUICK, **{4: "mcm.*|pure.*|teb.*|short.*", 5: ".*", 7: "00.*|mm.*|.._l[56].*|teb.*|short.*|long.*", 10: ".*", 11: ".*", 12: ".*", 13: "[cdkmr].*", 14: "[wm]_.*|auto.*|w3|one.*", 15: ".*", 16: ".*", 19: ".*hp2|.*car", 20: ".*", 21: "[cmxwk].*",
                      22: ".*", 24: ".*", 28: ".*_2|ana.*", 29: ".*", 30: ".*"}}


class Mute:
    """the workload without its assertions"""

    def __init__(self, h):
        self._h = h

    def __getattr__(self, k):
        return getattr(self._h, k)

    def close(self, *a, **k):
        pass

    true = cov_close = raises = close


def run(h, fn, kw, wcs):
    h.leaks("released", lambda: fn(Mute(h), **kw), wcs)


def cases(tier):
    out, seen = [], set()
    for T, P in ((0, QUICK), (1, MORE)):
        if T and tier == "quick":
            continue
        for n in sorted(P):
            m = importlib.import_module("harness.p%02d" % n)
            for c in m.cases("quick"):
                k = "p%02d_%s" % (n, c[0].replace(" ", "_"))
                if re.match("(%s)" % P[n], c[0].replace(" ", "_")) and k not in seen and not re.match("refused|errors|many|leak", c[0]):
                    seen.add(k)
                    out.append((k, run, dict(fn=c[1], kw=c[2], wcs=n == 22 or "car" in repr(c[2]) or "car" in c[0])) + tuple(c[3:]))
    return out
