"""Sound integer abstraction of bit-vector formulas: every BV term becomes an integer in [0, 2^w); wrap-around of additions
and subtractions is exact (a bounded integer quotient); bit-wise operators and array reads become unconstrained integers
(shared between equal terms).  An UNSAT answer for the abstraction is an UNSAT answer for the original formula."""
import z3

K = z3


class Lia:
    def __init__(self):
        self.cache = {}     # ast id -> (ast, term, lo, hi)
        self.bcache = {}
        self.side = []
        self.n = 0
        self.journal = []
        self.marks = []
        self.solver = None

    # ---- incremental use: one frame per path-condition conjunct
    def start(self, timeout_ms):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)

    def push(self, e):
        self.marks.append(len(self.journal))
        self.solver.push()
        self.add(e)

    def add(self, e):
        f = self.bool(e)
        for x in self.side:
            self.solver.add(x)
        self.side = []
        self.solver.add(f)

    def pop(self, k):
        self.solver.pop(k)
        m = self.marks[-k]
        del self.marks[-k:]
        for c, key in self.journal[m:]:
            c.pop(key, None)
        del self.journal[m:]

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('i!%d' % self.n)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def bv(self, e):
        """-> (int term, lo, hi)"""
        key = e.get_id()
        c = self.cache.get(key)
        if c is not None:
            return c[1:]
        r = self._bv(e)
        self.cache[key] = (e,) + r
        self.journal.append((self.cache, key))
        return r

    def wrap(self, t, lo, hi, w):
        """t mod 2^w"""
        M = 1 << w
        ql, qh = lo // M, hi // M
        if ql == qh:
            return (t - ql * M if ql else t), lo - ql * M, hi - ql * M
        q = self.fresh(ql, qh)
        r = self.fresh(0, M - 1)
        self.side.append(t == r + M * q)
        return r, 0, M - 1

    def lin(self, e):
        """unwrapped linear form of an add/mul-by-constant tree"""
        w = e.size()
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            T, L, H = 0, 0, 0
            for ch in e.children():
                t, lo, hi = self.lin(ch)
                T, L, H = T + t, L + lo, H + hi
            return T, L, H
        if k == z3.Z3_OP_BSUB:
            a, b = e.children()
            t, lo, hi = self.lin(a)
            t2, lo2, hi2 = self.lin(b)
            return t - t2, lo - hi2, hi - lo2
        if k == z3.Z3_OP_BNEG:
            t, lo, hi = self.lin(e.arg(0))
            return -t, -hi, -lo
        if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            c = e.arg(0).as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            t, lo, hi = self.lin(e.arg(1))
            return c * t, min(c * lo, c * hi), max(c * lo, c * hi)
        if k == z3.Z3_OP_BNUM:
            v = e.as_long()
            if v >= 1 << (w - 1):
                v -= 1 << w
            return z3.IntVal(v), v, v
        return self.bv(e)

    def _bv(self, e):
        w = e.size()
        k = e.decl().kind()
        M = (1 << w) - 1
        if k == z3.Z3_OP_BNUM:
            v = e.as_long()
            return z3.IntVal(v), v, v
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or \
                (k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0))):
            t, lo, hi = self.lin(e)
            return self.wrap(t, lo, hi, w)
        if k == z3.Z3_OP_BNOT:
            t, lo, hi = self.bv(e.arg(0))
            return M - t, M - hi, M - lo
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bv(e.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            a = e.arg(0)
            t, lo, hi = self.bv(a)
            h = 1 << (a.size() - 1)
            if hi < h:
                return t, lo, hi
            d = (1 << w) - (1 << a.size())
            if lo >= h:
                return t + d, lo + d, hi + d
            return z3.If(t < h, t, t + d), 0, M
        if k == z3.Z3_OP_CONCAT:
            T, L, H = 0, 0, 0
            for ch in e.children():
                t, lo, hi = self.bv(ch)
                s = 1 << ch.size()
                T, L, H = T * s + t, L * s + lo, H * s + hi
            return T, L, H
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = e.params()
            a = e.arg(0)
            t, lo, hi = self.bv(a)
            if lo_ == 0:
                if hi < (1 << (hi_ + 1)):
                    return t, lo, hi
                return self.wrap(t, lo, hi, hi_ + 1)
            # t = q * 2^lo_ + r
            q = self.fresh(lo >> lo_, hi >> lo_)
            r = self.fresh(0, (1 << lo_) - 1)
            self.side.append(t == q * (1 << lo_) + r)
            return self.wrap(q, lo >> lo_, hi >> lo_, w)
        if k == z3.Z3_OP_ITE:
            c = self.bool(e.arg(0))
            t1, l1, h1 = self.bv(e.arg(1))
            t2, l2, h2 = self.bv(e.arg(2))
            return z3.If(c, t1, t2), min(l1, l2), max(h1, h2)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            if c >= w:
                return z3.IntVal(0), 0, 0
            t, lo, hi = self.bv(e.arg(0))
            return self.wrap(t * (1 << c), lo << c, hi << c, w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            t, lo, hi = self.bv(e.arg(0))
            if c >= w:
                return z3.IntVal(0), 0, 0
            q = self.fresh(lo >> c, hi >> c)
            r = self.fresh(0, (1 << c) - 1)
            self.side.append(t == q * (1 << c) + r)
            return q, lo >> c, hi >> c
        if k in (z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and \
                e.arg(1).as_long():
            c = e.arg(1).as_long()
            t, lo, hi = self.bv(e.arg(0))
            q = self.fresh(lo // c, hi // c)
            r = self.fresh(0, c - 1)
            self.side.append(t == q * c + r)
            if k in (z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUDIV):
                return q, lo // c, hi // c
            return r, 0, c - 1
        if k == z3.Z3_OP_BAND:
            # result <= each operand
            hs = []
            ts = []
            for ch in e.children():
                t, lo, hi = self.bv(ch)
                hs.append(hi)
                ts.append(t)
            r = self.fresh(0, min(hs))
            for t in ts:
                self.side.append(r <= t)
            return r, 0, min(hs)
        if k == z3.Z3_OP_BOR:
            ts = [self.bv(ch) for ch in e.children()]
            hb = max(h for _, _, h in ts).bit_length()
            r = self.fresh(max(l for _, l, _ in ts), (1 << hb) - 1)
            for t, _, _ in ts:
                self.side.append(r >= t)
            return r, 0, (1 << hb) - 1
        if k == z3.Z3_OP_SELECT and z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            f = z3.Function('f!' + e.arg(0).decl().name(), z3.IntSort(), z3.IntSort())
            t = f(self.bv(e.arg(1))[0])
            self.side.append(t >= 0)
            self.side.append(t <= M)
            return t, 0, M
        return self.fresh(0, M), 0, M

    def bool(self, e):
        key = e.get_id()
        c = self.bcache.get(key)
        if c is not None:
            return c[1]
        r = self._bool(e)
        self.bcache[key] = (e, r)
        self.journal.append((self.bcache, key))
        return r

    def sg(self, e):
        w = e.size()
        t, lo, hi = self.bv(e)
        h = 1 << (w - 1)
        if hi < h:
            return t
        if lo >= h:
            return t - (1 << w)
        return z3.If(t < h, t, t - (1 << w))

    def _bool(self, e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.bool(c) for c in e.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.bool(c) for c in e.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool(e.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(e.arg(0)), self.bool(e.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.bool(e.arg(0)), self.bool(e.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(e.arg(0)), self.bool(e.arg(1)), self.bool(e.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2:
            a, b = e.children()
            if z3.is_bv(a):
                A, la, ha = self.bv(a)
                B, lb, hb = self.bv(b)
                r = z3.BoolVal(False) if ha < lb or hb < la else (A == B)
            elif z3.is_bool(a):
                r = self.bool(a) == self.bool(b)
            else:
                return self.fb()
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        cmpk = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b,
                z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
        if k in cmpk:
            return cmpk[k](self.bv(e.arg(0))[0], self.bv(e.arg(1))[0])
        cmps = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b,
                z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SGT: lambda a, b: a > b}
        if k in cmps:
            return cmps[k](self.sg(e.arg(0)), self.sg(e.arg(1)))
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED:
            return e
        return self.fb()

    def fb(self):
        self.n += 1
        return z3.Bool('b!%d' % self.n)


if __name__ == '__main__':
    import sys, time
    for f in sys.argv[1:]:
        s = z3.Solver()
        s.from_file(f)
        t = time.time()
        L = Lia()
        s2 = z3.Solver()
        s2.set('timeout', 20000)
        for a in s.assertions():
            s2.add(L.bool(a))
        for x in L.side:
            s2.add(x)
        t1 = time.time()
        print(f, s2.check(), t1 - t, time.time() - t1)
