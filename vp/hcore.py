"""Harness interface shared by the symbolic and the concrete back end."""
import numpy as np


class HBase:
    def __init__(self, be):
        self.be = be
        self.lib = be.lib
        self.C = be.C
        self.outs = []

    @property
    def nmt(self):
        return self.be.pm()

    def dbuf(self, v):
        return self.be.dbuf(v)

    def ibuf(self, v):
        return self.be.ibuf(v)

    def lbuf(self, v):
        return self.be.lbuf(v)

    def pbuf(self, v):
        return self.be.pbuf(v)

    def gmat(self, rows):
        return self.be.gmat(rows)

    def reals(self, name, shape, lo=-1.0, hi=1.0):
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        a = self.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = self.real("%s_%s" % (name, "_".join(map(str, i))), lo, hi)
        return a

    def mat(self, M, v):
        """concrete matrix times list of values"""
        return [sum(a * b for a, b in zip(r, v)) for r in M.tolist()]

    def flat(self, a):
        if isinstance(a, np.ndarray):
            return [x for x in a.reshape(-1)]
        if isinstance(a, (list, tuple)):
            r = []
            for x in a:
                r += self.flat(x)
            return r
        return [a]

    def log(self, *v):
        """values compared between the two back ends on concrete inputs"""
        self.outs += v
