"""Symbolic executor / verification-condition generator over LLVM IR.

Machine arithmetic is modelled exactly (bit-vectors, wrap-around).  Memory is a set of disjoint regions; a pointer is
(region, byte offset).  Every load/store is a bounds/liveness obligation.  Path conditions and obligations are
quantifier free (arrays + bit-vectors) and are discharged by Z3.
"""
import z3, time, re, heapq, sys
from ir import Module, VOID, PTR
from lia import Lia

sys.setrecursionlimit(20000)
z3.set_param('model.compact', False)

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.off)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Opaque:
    """float or other value the engine only moves around"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag


def is_int(v):
    return isinstance(v, int)


def mask(w):
    return (1 << w) - 1


def tobv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def tobool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v, int):
        return bool(v)
    if z3.is_bool(v):
        return v
    return v == 1


def simp(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v, elim_sign_ext=False)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bool01(v):
    """condition c if v is the integer (c ? 1 : 0), else None"""
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, x, y = v.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            xl, yl = x.as_long(), y.as_long()
            if xl == 1 and yl == 0:
                return c
            if xl == 0 and yl == 1:
                return z3.Not(c)
    return None


def bv_bin(op, a, b, w):
    if w > 1 and op in ('and', 'or', 'xor') and not (isinstance(a, int) and isinstance(b, int)):
        ca = bool01(a)
        cb = bool01(b) if ca is not None else None
        if ca is not None and cb is not None:
            c = bv_bin(op, int(ca) if isinstance(ca, bool) else ca, int(cb) if isinstance(cb, bool) else cb, 1)
            return bv_ext(simp(c) if not isinstance(c, bool) else int(c), 1, w, False)
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        A, B = tobool(a), tobool(b)
        if op == 'and' or op == 'mul':
            return z3.And(A, B)
        if op == 'or':
            return z3.Or(A, B)
        if op in ('xor', 'add', 'sub'):
            if isinstance(A, bool):
                return z3.Not(B) if A else B
            if isinstance(B, bool):
                return z3.Not(A) if B else A
            return z3.Xor(A, B)
        raise Unsupported('i1 ' + op)
    if isinstance(a, int) and isinstance(b, int):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w)) & m
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & m
    if op == 'add':
        if is_int(b) and b == 0:
            return a
        if is_int(a) and a == 0:
            return b
        return tobv(a, w) + tobv(b, w)
    if op == 'sub':
        if is_int(b) and b == 0:
            return a
        if not is_int(a) and not is_int(b) and a.eq(b):
            return 0
        return tobv(a, w) - tobv(b, w)
    if op == 'mul':
        if is_int(b) and b == 1:
            return a
        if is_int(a) and a == 1:
            return b
        if (is_int(a) and a == 0) or (is_int(b) and b == 0):
            return 0
        if is_int(b) and b & (b - 1) == 0:
            return tobv(a, w) << (b.bit_length() - 1)
        if is_int(a) and a & (a - 1) == 0:
            return tobv(b, w) << (a.bit_length() - 1)
        return tobv(a, w) * tobv(b, w)
    if op == 'and':
        if (is_int(a) and a == 0) or (is_int(b) and b == 0):
            return 0
        if is_int(b) and b == mask(w):
            return a
        return tobv(a, w) & tobv(b, w)
    if op == 'or':
        if is_int(b) and b == 0:
            return a
        if is_int(a) and a == 0:
            return b
        return tobv(a, w) | tobv(b, w)
    if op == 'xor':
        return tobv(a, w) ^ tobv(b, w)
    if op == 'shl':
        if is_int(b) and b == 0:
            return a
        return tobv(a, w) << tobv(b, w)
    if op == 'lshr':
        if is_int(b) and b == 0:
            return a
        return z3.LShR(tobv(a, w), tobv(b, w))
    if op == 'ashr':
        if is_int(b) and b == 0:
            return a
        return tobv(a, w) >> tobv(b, w)
    if op == 'udiv':
        if is_int(b) and b & (b - 1) == 0 and b:
            return z3.LShR(tobv(a, w), b.bit_length() - 1) if b > 1 else a
        return z3.UDiv(tobv(a, w), tobv(b, w))
    if op == 'urem':
        if is_int(b) and b & (b - 1) == 0 and b:
            return tobv(a, w) & (b - 1)
        return z3.URem(tobv(a, w), tobv(b, w))
    if op == 'sdiv':
        return tobv(a, w) / tobv(b, w)
    if op == 'srem':
        return z3.SRem(tobv(a, w), tobv(b, w))
    raise Unsupported('binop ' + op)


def bv_cmp(pred, a, b, w):
    if w == 1:
        A, B = tobool(a), tobool(b)
        if pred in ('eq', 'ne'):
            if isinstance(A, bool) and isinstance(B, bool):
                return int((A == B) == (pred == 'eq'))
            if isinstance(A, bool):
                r = B if A else z3.Not(B)
            elif isinstance(B, bool):
                r = A if B else z3.Not(A)
            else:
                r = A == B
            return r if pred == 'eq' else z3.Not(r)
        a, b = tobv(a, 1), tobv(b, 1)
        w = 1
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
    if not is_int(a) and not is_int(b) and a.eq(b):
        return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    # unwrap (ite c 1 0) ==/!= 0
    A, B = tobv(a, w), tobv(b, w)
    if pred in ('eq', 'ne') and is_int(b) and z3.is_app_of(A, z3.Z3_OP_ITE):
        c, x, y = A.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            xe, ye = x.as_long() == b, y.as_long() == b
            if xe and not ye:
                r = c
            elif ye and not xe:
                r = z3.Not(c)
            elif not xe and not ye:
                return int(pred == 'ne')
            else:
                return int(pred == 'eq')
            return r if pred == 'eq' else z3.Not(r)
    if pred == 'eq':
        return A == B
    if pred == 'ne':
        return A != B
    return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y,
            'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](A, B)


def bv_ext(v, w1, w2, signed):
    if w1 == 1:
        if isinstance(v, int):
            return (mask(w2) if signed else 1) if v else 0
        b = tobool(v)
        return z3.If(b, z3.BitVecVal(mask(w2) if signed else 1, w2), z3.BitVecVal(0, w2))
    if isinstance(v, int):
        return (sgn(v, w1) & mask(w2)) if signed else v
    return z3.SignExt(w2 - w1, v) if signed else z3.ZeroExt(w2 - w1, v)


def bv_trunc(v, w1, w2):
    if isinstance(v, int):
        return v & mask(w2)
    if w2 == 1:
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, x, y = v.children()
            if z3.is_bv_value(x) and z3.is_bv_value(y):
                xl, yl = x.as_long() & 1, y.as_long() & 1
                if xl == yl:
                    return xl
                return c if xl else z3.Not(c)
        return z3.Extract(0, 0, v) == 1
    # trunc(zext x)
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(v, z3.Z3_OP_SIGN_EXT):
        c = v.children()[0]
        if c.size() == w2:
            return c
    return z3.Extract(w2 - 1, 0, v)


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if w == 1:
        A, B = tobool(a), tobool(b)
        return z3.If(c, z3.BoolVal(A) if isinstance(A, bool) else A, z3.BoolVal(B) if isinstance(B, bool) else B)
    A, B = tobv(a, w), tobv(b, w)
    if A.eq(B):
        return a
    return z3.If(c, A, B)


def concat_bytes(bs):
    """bs[0] least significant"""
    if all(isinstance(b, int) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b << (8 * i)
        return v
    if len(bs) == 1:
        return bs[0]
    # recombine extracts of one value
    return z3.Concat(*[tobv(b, 8) for b in reversed(bs)])


def byte_of(v, i, n):
    if isinstance(v, int):
        return (v >> (8 * i)) & 255
    if z3.is_bool(v):
        return tobv(v, 8) if i == 0 else 0
    if n == 1:
        return v
    # Extract over ZeroExt / Concat is simplified to keep terms small
    return simp(z3.Extract(8 * i + 7, 8 * i, v))


# ------------------------------------------------------------------ byte-buffer content (immutable chain)
class Chain:
    __slots__ = ('k', 'p', 'a')

    def __init__(self, k, p, *a):
        self.k, self.p, self.a = k, p, a


def chain_read(ch, idx, dec=None):
    """byte at idx -> int or BV8; dec(c) may decide a condition under the path condition"""
    while True:
        k = ch.k
        if k == 'store':
            off, n, val = ch.a
            d = simp(bv_bin('sub', idx, off, 64))
            if is_int(d):
                if d < n:
                    return byte_of(val, d, n)
                ch = ch.p
                continue
            if dec is not None:
                c = dec(simp(bv_cmp('ult', d, n, 64)))
                if c is False:
                    ch = ch.p
                    continue
                if c is True and n == 1:
                    return byte_of(val, 0, n)
            rest = chain_read(ch.p, idx, dec)
            r = rest
            for i in range(n):
                r = ite(d == i, byte_of(val, i, n), r, 8)
            return r
        if k == 'copy':
            doff, ln, sch, soff = ch.a
            d = simp(bv_bin('sub', idx, doff, 64))
            c = simp(bv_cmp('ult', d, ln, 64))
            if dec is not None and not is_int(c):
                c = dec(c)
            if is_int(c):
                if c:
                    ch, idx = sch, simp(bv_bin('add', d, soff, 64))
                else:
                    ch = ch.p
                continue
            return ite(c, chain_read(sch, simp(bv_bin('add', d, soff, 64)), dec), chain_read(ch.p, idx, dec), 8)
        if k == 'fill':
            off, ln, byte = ch.a
            d = simp(bv_bin('sub', idx, off, 64))
            c = simp(bv_cmp('ult', d, ln, 64))
            if dec is not None and not is_int(c):
                c = dec(c)
            if is_int(c):
                if c:
                    return byte
                ch = ch.p
                continue
            return ite(c, byte, chain_read(ch.p, idx, dec), 8)
        if k == 'base':
            return z3.Select(ch.a[0], tobv(idx, 64))
        if k == 'const':
            return ch.a[0]
        if k == 'bytes':
            data = ch.a[0]
            if is_int(idx):
                return data[idx] if idx < len(data) else 0
            if len(data) > 1024:
                raise Unsupported('symbolic index into constant table of %d bytes' % len(data))
            r = 0
            # group by value
            by = {}
            for i, b in enumerate(data):
                by.setdefault(b, []).append(i)
            most = max(by, key=lambda b: len(by[b])) if by else 0
            r = most
            for b, ix in by.items():
                if b == most:
                    continue
                r = ite(z3.Or(*[idx == i for i in ix]) if len(ix) > 1 else idx == ix[0], b, r, 8)
            return r
        if k == 'ite':
            c, A, B = ch.a
            return ite(c, chain_read(A, idx, dec), chain_read(B, idx, dec), 8)
        raise Unsupported('chain ' + k)


class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'cells', 'chain', 'live', 'base', 'stack', 'ro', 'tag')

    def clone(self):
        r = Region.__new__(Region)
        r.rid, r.name, r.size, r.kind, r.chain, r.live, r.base, r.stack, r.ro, r.tag = \
            self.rid, self.name, self.size, self.kind, self.chain, self.live, self.base, self.stack, self.ro, self.tag
        r.cells = dict(self.cells) if self.cells is not None else None
        return r


class State:
    __slots__ = ('mem', 'pc', 'own', 'trace', 'g', 'cstack', 'covers', 'norm')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.own = set()
        self.trace = ()
        self.g = {}
        self.cstack = ()
        self.covers = frozenset()
        self.norm = {}

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        self.own = set()
        s.own = set()
        s.trace = self.trace
        s.g = dict(self.g)
        s.cstack = self.cstack
        s.covers = self.covers
        s.norm = dict(self.norm)
        return s


class Failure:
    def __init__(self, kind, name, where, status, model=None, trace=None, goal=None):
        self.kind, self.name, self.where, self.status, self.model, self.trace = kind, name, where, status, model, trace
        self.goal = goal

    def key(self):
        return '%s:%s@%s' % (self.kind, self.name, self.where)


class Deadline(Exception):
    pass


class LoopHit(Exception):
    """unrolling bound exceeded in (function, header)"""

    def __init__(self, fn, hdr):
        self.fn, self.hdr = fn, hdr


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = dict(unroll=40, timeout_ms=30000, bmc=False, merge='pure', deadline=None, cut=set(), inline_all=False, eager=False, cutfn='', peel=0, tmpl='all', lia_ms=1500)
        o.update(opts or {})
        self.o = o
        self.solver = z3.Solver()
        self.solver.set('timeout', o['timeout_ms'])
        self.stack = []
        self.lstack = []
        self.lia = Lia()
        self.lia.start(o['lia_ms'] or 1)
        self.by_lia = 0
        self.nchecks = 0
        self.tsolver = 0.0
        self.fails = []
        self.obl = 0
        self.discharged = 0
        self.trivial = 0
        self.obl_kinds = {}
        self.obl_names = {}
        self.rid = 1
        self.fresh_n = 0
        self.gl = {}
        self.callstack = []
        self.quiet = 0
        self.used_hooks = {}
        self.executed = {}
        self.addrs = {}
        self.hooks = []
        self.hook_cache = {}
        self.contracts = {}     # demangled target -> contract fn name
        self.contract_fns = {}  # contract fn name -> target
        self.inv_nullary = []
        self.inv_unary = []
        self.loop_hits = {}
        self.loop_report = {}
        self.applied = {}
        self.covered = {}
        self.ends = 0
        self.unwound = set()
        self.last_where = ''
        self.shard = None
        import hooks
        import seqs
        import pods
        hooks.install(self)

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        k = 0
        st = self.stack
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if k < len(st):
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, pc, *extra, quick=False, lia_only=False, ms=None):
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise Deadline()
        self.nchecks += 1
        t = time.time()
        self._alt = None
        try:
            if self._lia(pc, extra):
                self.by_lia += 1
                return z3.unsat
            if lia_only:
                return z3.unknown
            self._sync(pc)
            full = self.o['timeout_ms']
            self.solver.set('timeout', min(ms or full, 40))
            r = self.solver.check(*extra)
            if r == z3.unknown:
                # a fresh solver preprocesses the whole query, which the incremental one cannot
                s = z3.SolverFor('QF_AUFBV')
                s.set('timeout', ms or (4000 if quick else full))
                for c in pc:
                    s.add(c)
                for c in extra:
                    s.add(c)
                r = s.check()
                self._alt = s
                if r == z3.unknown and not ms and not quick:
                    self._alt = None
                    self.solver.set('timeout', full)
                    r = self.solver.check(*extra)
            return r
        finally:
            self.tsolver += time.time() - t

    def lia_model(self, pc, neg):
        """None: unsat.  Otherwise a predicate telling which formulas the abstract model (if any) makes false"""
        if not self.o['lia_ms']:
            return lambda x: True
        self._lia(pc, ())
        self.lia.push(neg)
        try:
            r = self.lia.solver.check()
            self.nchecks += 1
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                return lambda x: True
            m = self.lia.solver.model()
            lia = self.lia
            # conjuncts of neg are in the cache now; evaluate before popping
            tab = {k: (v[0], z3.is_false(m.eval(v[1], model_completion=True))) for k, v in lia.bcache.items()
                   if k in {c.get_id() for c in (neg.arg(0).children() if z3.is_and(neg.arg(0)) else [neg.arg(0)])}}
            return lambda x: tab[x.get_id()][1] if x.get_id() in tab else True
        finally:
            self.lia.pop(1)

    def _lia(self, pc, extra):
        """integer abstraction: True means unsat"""
        if not self.o['lia_ms']:
            return False
        k = 0
        st = self.lstack
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if k < len(st):
            self.lia.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.lia.push(c)
            st.append(c)
        if not extra:
            return self.lia.solver.check() == z3.unsat
        self.lia.push(extra[0])
        try:
            for e in extra[1:]:
                self.lia.add(e)
            return self.lia.solver.check() == z3.unsat
        finally:
            self.lia.pop(1)

    def model(self):
        return (self._alt or self.solver).model()

    def feasible(self, st, c):
        return self.check(st.pc, c) != z3.unsat

    def where(self):
        if not self.callstack:
            return '?'
        out = []
        for f, ln in self.callstack[-1:]:
            out.append('%s:%s' % (f, ln))
        return ' < '.join(out)

    def oblige(self, st, kind, name, goal):
        """goal: python bool/int or z3 Bool. After the call the goal may be assumed."""
        if isinstance(goal, int):
            goal = bool(goal)
        if self.quiet:
            if goal is False:
                raise Infeasible()
            if goal is not True:
                st.pc.append(goal)
            return
        self.obl += 1
        self.obl_kinds[kind] = self.obl_kinds.get(kind, 0) + 1
        if kind not in ('mem',):
            self.obl_names[kind + ':' + name] = self.obl_names.get(kind + ':' + name, 0) + 1
        if goal is True:
            self.discharged += 1
            self.trivial += 1
            return
        if goal is False:
            r = self.check(st.pc)
            neg = None
        else:
            g = z3.simplify(goal, elim_sign_ext=False)
            if z3.is_true(g):
                self.discharged += 1
                self.trivial += 1
                return
            goal = g
            neg = z3.Not(goal)
            r = self.check(st.pc, neg)
        if r == z3.unsat:
            self.discharged += 1
            if neg is None:
                raise Infeasible()
            return
        w = ' < '.join('%s:%s' % (f, ln) for f, ln in reversed(self.callstack[-4:]))
        fl = Failure(kind, name, w, 'sat' if r == z3.sat else 'unknown', goal=goal)
        if r == z3.sat:
            try:
                self.extract(st, neg, fl)
            except z3.Z3Exception as e:
                fl.trace = None
        self.fails.append(fl)
        if neg is None:
            raise Infeasible()
        st.pc.append(goal)
        if self.check(st.pc) == z3.unsat:
            raise Infeasible()

    def extract(self, st, neg, fl):
        extra = [neg] if neg is not None else []
        if any(e[0] == 'cut' for e in st.trace):
            return
        # prefer small buffers
        sizes = [e[2] for e in st.trace if e[0] in ('buf', 'fill') and not is_int(e[2])]
        done = False
        for lim in (16, 64, 300, 2000, 20000, 200000):
            if not sizes:
                break
            cs = [z3.ULE(tobv(s, 64), lim) for s in sizes]
            if self.check(st.pc, *(extra + cs)) == z3.sat:
                done = True
                break
        if not done:
            if self.check(st.pc, *extra) != z3.sat:
                return
        m = self.model()
        tr = []
        for e in st.trace:
            if e[0] == 'int':
                v = m.eval(tobv(e[2], e[3]), model_completion=True).as_long() if not is_int(e[2]) else e[2]
                tr.append(['int', e[1], v])
            elif e[0] in ('buf', 'fill'):
                n = e[2] if is_int(e[2]) else m.eval(tobv(e[2], 64), model_completion=True).as_long()
                if n > (1 << 22):
                    tr.append(['buf', e[1], n, None])
                    continue
                arr = e[3]
                off = e[4] if len(e) > 4 else 0
                bs = bytearray(n)
                known = self.array_model(m, arr, n) if n > 256 and is_int(off) and off == 0 else None
                if known is not None:
                    tr.append(['buf', e[1], n, known.hex()])
                    continue
                for i in range(n):
                    b = chain_read(arr, bv_bin('add', off, i, 64) if not is_int(off) else off + i)
                    bs[i] = b if is_int(b) else m.eval(b, model_completion=True).as_long()
                tr.append(['buf', e[1], n, bytes(bs).hex()])
        fl.trace = tr

    def array_model(self, m, chain, n):
        """bytes 0..n of an unmodified input buffer in the model, without n evaluations"""
        if chain.k != "base" or not z3.is_expr(chain.a[0]):
            return None
        v = m.eval(chain.a[0], model_completion=True)
        st = []
        while z3.is_store(v):
            st.append((v.arg(1), v.arg(2)))
            v = v.arg(0)
        if z3.is_K(v):
            d = v.arg(0)
        elif z3.is_as_array(v):
            fi = m[z3.get_as_array_func(v)]
            d = fi.else_value()
            st += [(fi.entry(i).arg_value(0), fi.entry(i).value()) for i in range(fi.num_entries())]
        else:
            return None
        if not z3.is_bv_value(d) or not all(z3.is_bv_value(a) and z3.is_bv_value(b) for a, b in st):
            return None
        bs = bytearray([d.as_long()]) * n
        for a, b in reversed(st):
            if a.as_long() < n:
                bs[a.as_long()] = b.as_long()
        return bytes(bs)

    # ------------------------------------------------------------ fresh things
    def fresh(self, name, w):
        self.fresh_n += 1
        nm = '%s!%d' % (name, self.fresh_n)
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)

    def fresh_arr(self, name):
        self.fresh_n += 1
        return Chain('base', None, z3.Array('%s!%d' % (name, self.fresh_n), BV64, BV8))

    def new_region(self, st, name, size, kind='obj', base='undef', stack=False, chain=None, ro=False, tag=None):
        r = Region.__new__(Region)
        r.rid = self.rid
        self.rid += 1
        r.name, r.size, r.kind, r.base, r.stack, r.live, r.ro, r.tag = name, size, kind, base, stack, True, ro, tag
        r.cells = {} if kind == 'obj' else None
        r.chain = None
        if kind == 'buf':
            r.chain = chain if chain is not None else (
                Chain('const', None, 0) if base == 'zero' else self.fresh_arr(name))
        st.mem[r.rid] = r
        st.own.add(r.rid)
        return Ptr(r.rid, 0)

    def wr(self, st, rid):
        r = st.mem[rid]
        if rid not in st.own:
            r = r.clone()
            st.mem[rid] = r
            st.own.add(rid)
        return r

    def addr(self, rid):
        if rid == 0:
            return 0
        a = self.addrs.get(rid)
        if a is None:
            a = z3.BitVec('addr!%d' % rid, 64)
            self.addrs[rid] = a
        return a

    def p2i(self, p):
        if isinstance(p, FnPtr):
            return self.addr('fn' + p.name)
        if isinstance(p, Ptr):
            return simp(bv_bin('add', self.addr(p.r), p.off, 64))
        return p

    # ------------------------------------------------------------ affine normal form of offsets
    def norm64(self, st, e):
        """64-bit expression equal to e under the path condition, with extensions pushed below constant additions"""
        if is_int(e):
            return e
        key = e.get_id()
        c = st.norm.get(key)
        if c is not None and c[0].eq(e):
            return c[1]
        r = self._norm64(st, e)
        st.norm[key] = (e, r)
        return r

    def _norm64(self, st, e):
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            acc = 0
            for ch in e.children():
                acc = bv_bin('add', acc, self.norm64(st, simp(ch)), 64)
            return simp(acc)
        inner, signed = None, False
        if z3.is_app_of(e, z3.Z3_OP_SIGN_EXT):
            inner, signed = e.children()[0], True
        elif z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
            inner = e.children()[0]
        elif z3.is_app_of(e, z3.Z3_OP_CONCAT) and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and \
                e.arg(0).as_long() == 0:
            inner = e.arg(1)
        if inner is not None:
            w = inner.size()
            ext = (lambda x: simp(z3.SignExt(64 - w, x))) if signed else (lambda x: simp(z3.ZeroExt(64 - w, x)))
            if z3.is_app_of(inner, z3.Z3_OP_BADD):
                cs = [c for c in inner.children() if z3.is_bv_value(c)]
                rest = [c for c in inner.children() if not z3.is_bv_value(c)]
                if cs and rest:
                    k = sum(c.as_long() for c in cs) & mask(w)
                    y = rest[0]
                    for c in rest[1:]:
                        y = y + c
                    for kk in ((sgn(k, w),) if signed else (k, k - (1 << w))):
                        cand = (z3.SignExt(64 - w, y) if signed else z3.ZeroExt(64 - w, y)) + z3.BitVecVal(kk, 64)
                        if self.check(st.pc, e != cand) == z3.unsat:
                            return simp(bv_bin('add', self.norm64(st, ext(y)), kk & mask(64), 64))
        return e

    # ------------------------------------------------------------ memory access
    def region_for(self, st, p, n, what):
        if isinstance(p, FnPtr):
            raise Unsupported('data access through function pointer ' + p.name)
        if not isinstance(p, Ptr):
            raise Unsupported('access through integer-valued pointer (%s)' % what)
        if p.r == 0:
            self.oblige(st, 'mem', 'null-%s' % what, False)
        r = st.mem.get(p.r)
        if r is None:
            raise Unsupported('access to unknown region %s' % p.r)
        if not is_int(p.off):
            p.off = self.norm64(st, p.off)
        if not r.live:
            self.oblige(st, 'mem', 'use-after-free-%s(%s)' % (what, r.name), False)
        if what != 'load' and r.ro:
            self.oblige(st, 'mem', 'write-to-constant(%s)' % r.name, False)
        off, sz = p.off, r.size
        if is_int(off) and is_int(n) and is_int(sz):
            ok = off + n <= sz
        else:
            o, nn, s = tobv(off, 64), tobv(n, 64), tobv(sz, 64)
            ok = z3.And(z3.ULE(nn, s), z3.ULE(o, s - nn))
        self.oblige(st, 'mem', '%s-in-bounds(%s)' % (what, re.sub(r'!\d+$', '', r.name)), ok)
        return st.mem[p.r]

    def unique_off(self, st, r, off):
        """the only value the path condition leaves for an offset into an object that holds pointers, or None"""
        if not any(isinstance(v, (Ptr, FnPtr, Opaque)) for k, v in r.cells.values()):
            return None
        if self.check(st.pc) != z3.sat:
            return None
        x = self.model().eval(off, model_completion=True).as_long()
        return x if self.check(st.pc, off != x) == z3.unsat else None

    def to_buf(self, st, r):
        """turn an object region with integer cells into a byte-buffer region"""
        r = self.wr(st, r.rid)
        if r.kind == 'buf':
            return r
        ch = Chain('const', None, 0) if r.base == 'zero' else self.fresh_arr(r.name)
        for off in sorted(r.cells):
            n, v = r.cells[off]
            if isinstance(v, (Ptr, FnPtr, Opaque, list)):
                raise Unsupported('symbolic access to region %s holding pointers' % r.name)
            ch = Chain('store', ch, off, n, v)
        r.kind = 'buf'
        r.chain = ch
        r.cells = None
        return r

    def obj_byte(self, r, off):
        c = r.cells.get(off)
        if c is not None and c[0] >= 1:
            if isinstance(c[1], (Ptr, FnPtr, Opaque)):
                if c[0] == 1:
                    raise Unsupported('byte of pointer')
                v = self.p2i(c[1]) if not isinstance(c[1], Opaque) else None
                if v is None:
                    raise Unsupported('byte of opaque')
                return byte_of(v, 0, c[0])
            return byte_of(c[1], 0, c[0])
        for d in range(1, 16):
            c = r.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if isinstance(v, (Ptr, FnPtr)):
                        v = self.p2i(v)
                    elif isinstance(v, Opaque):
                        raise Unsupported('byte of opaque')
                    return byte_of(v, d, c[0])
                break
        if r.base == 'zero':
            return 0
        v = self.fresh('undef_' + r.name, 8)
        r.cells[off] = (1, v)   # memoise (sound: same value on re-read within this state)
        return v

    def off_cases(self, off, depth=0):
        """offset that is one of a few constants -> [(condition, constant)], else None"""
        if is_int(off):
            return [(True, off)]
        if z3.is_bv_value(off):
            return [(True, off.as_long())]
        if depth > 6:
            return None
        if z3.is_app_of(off, z3.Z3_OP_ITE):
            c, a, b = off.children()
            la, lb = self.off_cases(a, depth + 1), self.off_cases(b, depth + 1)
            if la is None or lb is None or len(la) + len(lb) > 12:
                return None
            return [(c if x is True else z3.And(c, x), o) for x, o in la] + \
                   [(z3.Not(c) if x is True else z3.And(z3.Not(c), x), o) for x, o in lb]
        if z3.is_app_of(off, z3.Z3_OP_BADD):
            k, rest = 0, []
            for ch in off.children():
                if z3.is_bv_value(ch):
                    k += ch.as_long()
                else:
                    rest.append(ch)
            if len(rest) == 1:
                l = self.off_cases(rest[0], depth + 1)
                return None if l is None else [(c, (o + k) & mask(64)) for c, o in l]
        return None

    def load_int(self, st, p, n):
        """n bytes -> raw value (int/BV/Ptr)"""
        r = self.region_for(st, p, n, 'load')
        off = p.off
        if r.kind == 'obj':
            if not is_int(off):
                off = simp(off)
            if not is_int(off):
                cs = self.off_cases(off)
                if cs:
                    vs = []
                    for c, o in cs:
                        if o + n > (r.size if is_int(r.size) else 1 << 62):
                            continue
                        vs.append((c, self.load_int(st, Ptr(p.r, o), n)))
                    if vs and all(same_val(v, vs[0][1]) for c, v in vs):
                        return vs[0][1]
                    if vs and not any(isinstance(v, (Ptr, FnPtr, Opaque, list)) for c, v in vs):
                        out = tobv(vs[-1][1], 8 * n)
                        for c, v in reversed(vs[:-1]):
                            out = z3.If(c, tobv(v, 8 * n), out) if c is not True else tobv(v, 8 * n)
                        return out
                    if vs and all(isinstance(v, Ptr) for c, v in vs) and len({v.r for c, v in vs}) == 1:
                        out = tobv(vs[-1][1].off, 64)
                        for c, v in reversed(vs[:-1]):
                            out = z3.If(c, tobv(v.off, 64), out) if c is not True else tobv(v.off, 64)
                        return Ptr(vs[0][1].r, out)
            if not is_int(off):
                u = self.unique_off(st, r, off)
                if u is not None:
                    return self.load_int(st, Ptr(p.r, u), n)
                r = self.to_buf(st, r)
            else:
                c = r.cells.get(off)
                if c is not None and c[0] == n:
                    return c[1]
                if r.base == 'undef' and c is None and not any((off - d) in r.cells for d in range(1, 16)) and \
                        not any((off + d) in r.cells for d in range(1, n)):
                    v = self.fresh('undef_' + r.name, 8 * n)
                    r = self.wr(st, r.rid)
                    r.cells[off] = (n, v)
                    return v
                if r.base == 'undef':
                    r = self.wr(st, r.rid)
                return concat_bytes([self.obj_byte(r, off + i) for i in range(n)])
        ch = r.chain
        if ch.k == 'store':
            o2, n2, v2 = ch.a
            if n2 == n and (o2 is off or (is_int(o2) and is_int(off) and o2 == off) or
                            (not is_int(o2) and not is_int(off) and o2.eq(off))):
                return v2
        dec = self.decider(st)
        return concat_bytes([chain_read(ch, simp(bv_bin('add', off, i, 64)), dec) for i in range(n)])

    def decider(self, st):
        """decides byte-range membership under the path condition, so that reads become plain terms"""
        if self.quiet or self.o['bmc']:
            return None
        seen = st.norm

        def dec(c):
            if is_int(c):
                return bool(c)
            i = ('dec', c.get_id())
            if i in seen:
                return seen[i][1]
            r = None
            if self.check(st.pc, z3.Not(c), lia_only=True) == z3.unsat:
                r = True
            elif self.check(st.pc, c, lia_only=True) == z3.unsat:
                r = False
            if r is not None:
                seen[i] = (c, r)
            return c if r is None else r
        return dec

    def store_int(self, st, p, n, v):
        r = self.region_for(st, p, n, 'store')
        r = self.wr(st, r.rid)
        off = p.off
        if r.kind == 'obj':
            if not is_int(off):
                off = simp(off)
            if not is_int(off):
                cs = self.off_cases(off)
                if cs and not isinstance(v, (Ptr, FnPtr, Opaque, list)):
                    olds = [(c, o, self.load_int(st, Ptr(p.r, o), n)) for c, o in cs
                            if o + n <= (r.size if is_int(r.size) else 1 << 62)]
                    if olds and not any(isinstance(x, (Ptr, FnPtr, Opaque, list)) for c, o, x in olds):
                        r = self.wr(st, r.rid)
                        for c, o, x in olds:
                            self.obj_put(r, o, n, tobv(v, 8 * n) if c is True else z3.If(c, tobv(v, 8 * n), tobv(x, 8 * n)))
                        return
                u = self.unique_off(st, r, off)
                if u is not None:
                    self.obj_put(r, u, n, v)
                    return
                r = self.to_buf(st, r)
            else:
                self.obj_put(r, off, n, v)
                return
        if isinstance(v, (Ptr, FnPtr, Opaque)):
            if isinstance(v, Ptr) and v.r == 0 and v.off == 0:
                v = 0
            else:
                raise Unsupported('pointer stored into byte buffer %s' % r.name)
        r.chain = Chain('store', r.chain, off, n, v)

    def obj_clear(self, r, off, n):
        cells = r.cells
        for o in range(max(0, off - 15), off + n):
            c = cells.get(o)
            if c is None:
                continue
            cn, cv = c
            if o + cn <= off:
                continue
            if o >= off and o + cn <= off + n:
                del cells[o]
                continue
            # partial overlap: split
            if isinstance(cv, (Ptr, FnPtr)):
                cv = self.p2i(cv)
            if isinstance(cv, Opaque):
                raise Unsupported('partial overwrite of opaque')
            del cells[o]
            for i in range(cn):
                if not (off <= o + i < off + n):
                    cells[o + i] = (1, byte_of(cv, i, cn))

    def obj_put(self, r, off, n, v):
        c = r.cells.get(off)
        if c is None or c[0] != n:
            self.obj_clear(r, off, n)
        r.cells[off] = (n, v)

    def load(self, st, p, ty):
        ty = self.m.res(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            v = self.load_int(st, p, n)
            if isinstance(v, (Ptr, FnPtr)):
                v = self.p2i(v)
            if isinstance(v, Opaque):
                raise Unsupported('float bits as int')
            if ty[1] == 1:
                return bv_trunc(tobv(v, 8) if not is_int(v) else v, 8, 1)
            if ty[1] != n * 8:
                return bv_trunc(v, n * 8, ty[1])
            if z3.is_expr(v) and z3.is_bool(v):
                v = tobv(v, 8)
            return v
        if k == 'p':
            v = self.load_int(st, p, 8)
            return self.as_ptr(st, v)
        if k == 'f':
            v = self.load_int(st, p, self.m.size(ty))
            return v if isinstance(v, Opaque) else Opaque(('bits', v))
        if k in ('s', 'a'):
            out = []
            if k == 's':
                for i, e in enumerate(ty[1]):
                    o, et = self.m.field_off(ty, i)
                    out.append(self.load(st, self.padd(p, o), et))
            else:
                es = self.m.size(ty[2])
                for i in range(ty[1]):
                    out.append(self.load(st, self.padd(p, i * es), ty[2]))
            return out
        raise Unsupported('load %r' % (ty,))

    def as_ptr(self, st, v):
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if isinstance(v, int):
            return Ptr(0, v)
        if isinstance(v, list):
            return v
        v2 = simp(v)
        if is_int(v2):
            return Ptr(0, v2)
        # addr!k + off
        for t in ([v2] + (list(v2.children()) if z3.is_app_of(v2, z3.Z3_OP_BADD) else [])):
            s = t.decl().name() if z3.is_const(t) else ''
            if s.startswith('addr!') and s[5:].isdigit():
                return Ptr(int(s[5:]), simp(v2 - t))
        return v2     # opaque integer-valued pointer

    def padd(self, p, d):
        if isinstance(p, Ptr):
            if is_int(d) and d == 0:
                return p
            return Ptr(p.r, simp(bv_bin('add', p.off, d, 64)))
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        return bv_bin('add', p, d, 64)

    def store(self, st, p, ty, v):
        ty = self.m.res(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            if ty[1] == 1:
                v = bv_ext(v, 1, 8, False)
            elif ty[1] != n * 8:
                v = bv_ext(v, ty[1], n * 8, False)
            self.store_int(st, p, n, v)
        elif k == 'p':
            self.store_int(st, p, 8, v)
        elif k == 'f':
            self.store_int(st, p, self.m.size(ty), v)
        elif k == 's':
            for i, e in enumerate(ty[1]):
                o, et = self.m.field_off(ty, i)
                self.store(st, self.padd(p, o), et, v[i])
        elif k == 'a':
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, i * es), ty[2], v[i])
        else:
            raise Unsupported('store %r' % (ty,))

    # ------------------------------------------------------------ block operations
    def memcpy(self, st, d, s, n, move=False):
        n = simp(n)
        if is_int(n) and n == 0:
            return
        rs = self.region_for(st, s, n, 'load')
        rd = self.region_for(st, d, n, 'store')
        rs, rd = st.mem[s.r], self.wr(st, d.r)
        if s.r == d.r:
            rs = rd
        if rd.kind == 'obj' and rs.kind == 'obj' and is_int(n) and is_int(d.off) and is_int(s.off):
            items = []
            off = s.off
            end = s.off + n
            ok = True
            o = off
            while o < end:
                c = rs.cells.get(o)
                if c is not None and o + c[0] <= end:
                    items.append((o - off, c[0], c[1]))
                    o += c[0]
                else:
                    if rs.base == 'undef':
                        rs = self.wr(st, rs.rid)
                        if s.r == d.r:
                            rd = rs
                    items.append((o - off, 1, self.obj_byte(rs, o)))
                    o += 1
            self.obj_clear(rd, d.off, n)
            for o, k, v in items:
                rd.cells[d.off + o] = (k, v)
            return
        if rd.kind == 'obj' and is_int(n) and is_int(d.off) and rs.kind == 'buf' and n <= 4096:
            bs = [chain_read(rs.chain, simp(bv_bin('add', s.off, i, 64))) for i in range(n)]
            self.obj_clear(rd, d.off, n)
            for i, b in enumerate(bs):
                rd.cells[d.off + i] = (1, b)
            return
        if rd.kind == 'obj':
            rd = self.to_buf(st, rd)
            if s.r == d.r:
                rs = rd
        if rs.kind == 'obj':
            if is_int(n) and is_int(s.off) and n <= 4096:
                if rs.base == 'undef':
                    rs = self.wr(st, rs.rid)
                bs = [self.obj_byte(rs, s.off + i) for i in range(n)]
                for i, b in enumerate(bs):
                    rd.chain = Chain('store', rd.chain, simp(bv_bin('add', d.off, i, 64)), 1, b)
                return
            rs = self.to_buf(st, rs)
        if s.r == d.r and not move:
            # memcpy must not overlap
            o, p, nn = tobv(d.off, 64), tobv(s.off, 64), tobv(n, 64)
            self.oblige(st, 'mem', 'memcpy-no-overlap', z3.Or(z3.UGE(o - p, nn) if False else z3.And(z3.UGE(o, p), z3.UGE(o - p, nn)),
                                                               z3.And(z3.UGE(p, o), z3.UGE(p - o, nn)), nn == 0))
            rd = self.wr(st, d.r)
        if is_int(n) and n <= 16:
            bs = [chain_read(rs.chain, simp(bv_bin('add', s.off, i, 64))) for i in range(n)]
            rd.chain = Chain('store', rd.chain, d.off, n, concat_bytes(bs))
        else:
            rd.chain = Chain('copy', rd.chain, d.off, n, rs.chain, s.off)

    def memset(self, st, d, byte, n):
        n = simp(n)
        if is_int(n) and n == 0:
            return
        self.region_for(st, d, n, 'store')
        rd = self.wr(st, d.r)
        if rd.kind == 'obj' and is_int(n) and is_int(d.off):
            self.obj_clear(rd, d.off, n)
            if is_int(byte):
                o = 0
                while o < n:
                    k = 8 if n - o >= 8 and (d.off + o) % 8 == 0 else 1
                    rd.cells[d.off + o] = (k, int.from_bytes(bytes([byte]) * k, 'little'))
                    o += k
            else:
                for i in range(n):
                    rd.cells[d.off + i] = (1, byte)
            return
        if rd.kind == 'obj':
            rd = self.to_buf(st, rd)
        rd.chain = Chain('fill', rd.chain, d.off, n, byte)

    def havoc_range(self, st, d, n, name='havoc'):
        self.region_for(st, d, n, 'store')
        rd = self.wr(st, d.r)
        n = simp(n)
        if rd.kind == 'obj' and is_int(n) and is_int(d.off):
            old = {o: c for o, c in rd.cells.items() if d.off <= o < d.off + n}
            self.obj_clear(rd, d.off, n)
            for o, (k, v) in old.items():
                if isinstance(v, (Ptr, FnPtr, Opaque)):
                    raise Unsupported('havoc of pointer cell in %s' % rd.name)
                if o + k <= d.off + n:
                    rd.cells[o] = (k, self.fresh(name, 8 * k))
            # remaining bytes: undef base gives fresh; zero base must be overwritten
            if rd.base == 'zero':
                for i in range(n):
                    if not any((d.off + i - q) in rd.cells and rd.cells[d.off + i - q][0] > q for q in range(16)):
                        rd.cells[d.off + i] = (1, self.fresh(name, 8))
            return
        if rd.kind == 'obj':
            rd = self.to_buf(st, rd)
        rd.chain = Chain('copy', rd.chain, d.off, n, self.fresh_arr(name), d.off)

    def cstring(self, st, p):
        if not isinstance(p, Ptr) or p.r == 0:
            return None
        r = st.mem[p.r]
        out = bytearray()
        i = p.off
        if not is_int(i):
            return None
        while True:
            if is_int(r.size) and i >= r.size:
                return None
            if r.kind == 'buf':
                b = chain_read(r.chain, i)
            else:
                b = self.obj_byte(r, i)
            if not is_int(b):
                b = simp(b)
            if not is_int(b):
                return None
            if b == 0:
                return bytes(out).decode('latin1')
            out.append(b)
            i += 1

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.m.fn_text or name in self.m.decls:
            return FnPtr(name)
        al = self.m.aliases_().get(name)
        if al:
            return self.global_ptr(st, al)
        rid = self.gl.get(name)
        if rid is None:
            rid = self.rid
            self.rid += 1
            self.gl[name] = rid
        if rid not in st.mem:
            g = self.m.global_def(name)
            if g is None:
                raise Unsupported('unknown global ' + name)
            ty, init, const = g
            r = Region.__new__(Region)
            r.rid, r.name, r.live, r.stack, r.ro, r.tag = rid, name, True, False, const, None
            rt = self.m.res(ty)
            r.size = self.m.size(ty) if rt[0] != 'x' else 1 << 20
            r.base = 'zero' if init is not None else 'undef'
            r.kind, r.cells, r.chain = 'obj', {}, None
            if init is not None and init[0] == 'str':
                r.kind, r.cells, r.chain = 'buf', None, Chain('bytes', None, init[1])
            elif rt[0] == 'a' and self.m.res(rt[2])[0] == 'i' and init is not None and init[0] == 'agg':
                es = self.m.size(rt[2])
                data = b''.join(e[1][1].to_bytes(es, 'little') if e[1][0] == 'c' else bytes(es) for e in init[1])
                r.kind, r.cells, r.chain = 'buf', None, Chain('bytes', None, data)
            elif rt[0] == 'a' and self.m.res(rt[2])[0] == 'i' and init is not None and init[0] == 'zero':
                r.kind, r.cells, r.chain = 'buf', None, Chain('const', None, 0)
            st.mem[rid] = r
            st.own.add(rid)
            if r.kind == 'obj' and init is not None:
                self._ginit(st, r, 0, ty, init)
        return Ptr(rid, 0)

    def _ginit(self, st, r, off, ty, c):
        rt = self.m.res(ty)
        if c[0] in ('zero', 'undef'):
            return
        if c[0] == 'agg':
            if rt[0] == 's':
                for i, (et, e) in enumerate(c[1]):
                    o, _ = self.m.field_off(rt, i)
                    self._ginit(st, r, off + o, et, e)
            else:
                es = self.m.size(rt[2])
                for i, (et, e) in enumerate(c[1]):
                    self._ginit(st, r, off + i * es, et, e)
            return
        if c[0] == 'str':
            for i, b in enumerate(c[1]):
                r.cells[off + i] = (1, b)
            return
        v = self.const(st, rt, c)
        r.cells[off] = (self.m.size(rt), v)

    def const(self, st, ty, c):
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, c[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const(st, t, x) for t, x in c[1]]
        if k == 'ce':
            if c[1] == 'gep':
                return self.gep(st, c[2], self.const(st, PTR, c[3]), [(t, self.const(st, t, x)) for t, x in c[4]])
            if c[1] == 'cast':
                return self.cast(c[2], self.m.res(c[3]), self.const(st, c[3], c[4]), self.m.res(c[5]), st)
            if c[1] == 'bin':
                t = self.m.res(c[3])
                return bv_bin(c[2], self.const(st, t, c[4]), self.const(st, t, c[5]), t[1])
            if c[1] == 'icmp':
                return self.icmp(st, c[2], self.m.res(c[3]), self.const(st, c[3], c[4]), self.const(st, c[3], c[5]))
        if k == 'fc':
            return Opaque(('fc', c[1]))
        raise Unsupported('const %r' % (c,))

    def undef(self, ty):
        ty = self.m.res(ty)
        if ty[0] == 'i':
            return self.fresh('undef', ty[1])
        if ty[0] == 'p':
            return self.fresh('undefp', 64)
        if ty[0] == 's':
            return [self.undef(t) for t in ty[1]]
        if ty[0] == 'a':
            return [self.undef(ty[2]) for _ in range(ty[1])]
        return Opaque('undef')

    def zero(self, ty):
        ty = self.m.res(ty)
        if ty[0] == 'i':
            return 0
        if ty[0] == 'p':
            return NULL
        if ty[0] == 's':
            return [self.zero(t) for t in ty[1]]
        if ty[0] == 'a':
            return [self.zero(ty[2]) for _ in range(ty[1])]
        return Opaque('zero')

    def gep(self, st, ty, p, idx):
        off = 0
        t0, i0 = idx[0]
        es = self.m.size(ty)
        off = bv_bin('mul', self._idx64(t0, i0), es, 64)
        cur = ty
        for t, i in idx[1:]:
            r = self.m.res(cur)
            if r[0] == 's':
                o, cur = self.m.field_off(r, i)
                off = bv_bin('add', off, o, 64)
            else:
                cur = r[2]
                off = bv_bin('add', off, bv_bin('mul', self._idx64(t, i), self.m.size(cur), 64), 64)
        if isinstance(p, FnPtr):
            raise Unsupported('gep fn')
        return self.padd(p, off)

    def _idx64(self, t, v):
        w = self.m.res(t)[1]
        if w == 64:
            return v
        return bv_ext(v, w, 64, True)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'p':
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.p2i(a), self.p2i(b)
        if w == 64 and pred in ('eq', 'ne') and is_int(b) and b == 0 and not is_int(a) and self.is_addr(a):
            return int(pred == 'ne')       # the address of an object is not null
        return bv_cmp(pred, a, b, w)

    def is_addr(self, v):
        """v = addr!k + offset"""
        n = 0
        for t in (v.children() if z3.is_app_of(v, z3.Z3_OP_BADD) else [v]):
            if z3.is_const(t) and t.decl().name().startswith('addr!'):
                n += 1
            elif 'addr!' in t.sexpr():
                return False
        return n == 1

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if pred in ('eq', 'ne'):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(e == (pred == 'eq'))
            raise Unsupported('fn compare')
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return bv_cmp(pred, a.off, b.off, 64)
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')     # distinct regions: distinct addresses (valid pointers)
            x, y = self.p2i(a), self.p2i(b)
            def inside(q):
                g = st.mem.get(q.r)
                return q.r and g is not None and g.live and is_int(q.off) and is_int(g.size) and q.off < g.size
            if inside(a) and inside(b):
                st.pc.append(tobv(x, 64) != tobv(y, 64))       # distinct objects have distinct addresses
            return bv_cmp(pred, x, y, 64)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if is_int(q) and q == 0 and p.r and pred in ('eq', 'ne'):
                return int(pred == 'ne')
            return bv_cmp(pred, self.p2i(a), self.p2i(b), 64)
        return bv_cmp(pred, a, b, 64)

    def cast(self, op, t1, v, t2, st):
        if op == 'trunc':
            if isinstance(v, (Ptr, FnPtr)):
                v = self.p2i(v)
            return bv_trunc(v, t1[1], t2[1])
        if op == 'zext':
            return bv_ext(v, t1[1], t2[1], False)
        if op == 'sext':
            return bv_ext(v, t1[1], t2[1], True)
        if op == 'ptrtoint':
            r = self.p2i(v)
            return r if t2[1] == 64 else bv_trunc(r, 64, t2[1])
        if op == 'inttoptr':
            return self.as_ptr(st, v)
        if op == 'bitcast':
            if t1[0] == t2[0]:
                return v
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast'):
            return Opaque(('cast', op, v))
        if op in ('fptosi', 'fptoui'):
            return self.fresh('fp2int', t2[1])
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ execution
    def val(self, st, env, ty, o):
        if o[0] == 'l':
            v = env.get(o[1])
            if v is None:
                raise Unsupported('undefined local ' + o[1])
            return v
        return self.const(st, ty, o)

    def call(self, st, name, args, rt=None, vargs=None):
        """call function by IR name -> list of (state, ret)"""
        dem = self.m.dem.get(name, name[1:])
        h = self.hook_cache.get(name, 0)
        if h == 0:
            h = None
            for pat, fn, label in self.hooks:
                if pat.match(dem):
                    h = (fn, label)
                    break
            self.hook_cache[name] = h
        if h is not None:
            r = h[0](self, st, args, dem, rt)
            if r is not NotImplemented:
                if h[1]:
                    self.used_hooks.setdefault(h[1], set()).add(dem.split('(')[0][:120])
                return r
        c = self.contracts.get(dem)
        if c is not None and not self.o['inline_all'] and not self.in_contract_of(st, dem):
            self.applied[dem] = self.applied.get(dem, 0) + 1
            return self.run_contract(st, c, args, apply=True)
        if name[1:] in self.contract_fns:
            return self.run_contract(st, name[1:], args, apply=False)
        f = self.m.func(name)
        if f is None:
            raise Unsupported('external function ' + dem)
        return self.run(st, f, args)

    def in_contract_of(self, st, dem):
        """the contract function itself calls the function it specifies: run the body, not the contract"""
        if not st.cstack:
            return False
        c = st.cstack[-1]
        return c['target'] == dem and bool(self.callstack) and \
            self.callstack[-1][0].startswith(c['name'])

    def run_contract(self, st, cname, args, apply):
        f = self.m.func('@' + cname)
        if f is None:
            raise Unsupported('missing contract function ' + cname)
        st.cstack = st.cstack + ({'name': cname, 'apply': apply, 'target': self.contract_fns[cname], 'assigns': (),
                                  'depth': len(self.callstack), 'snap': None},)
        out = self.run(st, f, args)
        for s, r in out:
            s.cstack = s.cstack[:-1]
        return out

    def run(self, st, f, args):
        if len(self.callstack) > 120:
            raise Unsupported('call depth')
        f.blocks
        self.executed[f.demangled] = self.executed.get(f.demangled, 0) + 1
        self.callstack.append([f.demangled.split('(')[0][:90], 0])
        try:
            base = len(st.pc)
            mem0 = st.mem
            env = {}
            for (t, n), a in zip(f.params, args):
                env[n] = a
            out = self.explore(f, [(f.entry, None, 0, env, st, {})], None)
        except Unsupported:
            if not self.last_where:
                self.last_where = ' < '.join('%s:%s' % tuple(x) for x in reversed(self.callstack[-6:]))
            raise
        finally:
            self.callstack.pop()
        if len(out) > 1 and self.o['merge'] and self.callstack:
            out = self.merge_results(f, out, base)
        return out

    def key(self, f, blk, idx, iters):
        loops, rpo, nest = f.loops
        k = []
        for h in nest.get(blk, ()):
            k.append(rpo[h])
            k.append(iters.get(h, 0))
        k.append(rpo[blk])
        k.append(idx)
        return tuple(k)

    def explore(self, f, items, stop):
        """run until return; returns list of (state, ret). With stop=(header, body): collect states re-entering header
        in `back` and states leaving the loop in `exits` instead (used for loop cuts)."""
        results = []
        heap = []
        cnt = 0
        for it in items:
            heapq.heappush(heap, (self.key(f, it[0], it[2], it[5]), cnt, it))
            cnt += 1
        frame = self.callstack[-1]
        while heap:
            key, _, (blk, prev, idx, env, st, iters) = heapq.heappop(heap)
            # join merging
            if self.o['merge'] == 'all' and idx == 0 and heap and heap[0][0] == key and stop is None:
                group = [(prev, env, st)]
                while heap and heap[0][0] == key and heap[0][2][0] == blk:
                    it = heapq.heappop(heap)[2]
                    group.append((it[1], it[3], it[4]))
                merged = self.merge_at(f, blk, group)
                for (p2, e2, s2) in merged[1:]:
                    heapq.heappush(heap, (key + (1,), cnt, (blk, p2, 0, e2, s2, iters)))
                    cnt += 1
                prev, env, st = merged[0]
            try:
                succ = self.step(f, blk, prev, idx, env, st, iters, frame, stop)
            except Infeasible:
                continue
            for s in succ:
                if s[0] == 'ret':
                    results.append((s[1], s[2]))
                elif s[0] == 'back':
                    stop['back'].append(s[1:])
                elif s[0] == 'exit':
                    stop['exits'].append(s[1:])
                else:
                    it = s[1]
                    heapq.heappush(heap, (self.key(f, it[0], it[2], it[5]), cnt, it))
                    cnt += 1
        return results

    def unroll_of(self, f):
        """helper functions of the specifications (constant trip counts) are not held to the harness' unroll="""
        n = self.o['unroll']
        if self.o['cutfn']:
            return n if self.o['bmc'] or re.search(self.o['cutfn'], self.m.dem.get(f.name) or '') else 40
        if n < 40 and not self.o['bmc']:
            d = (self.m.dem.get(f.name) or f.name).split('(')[0]
            if not re.search(r'sps::|std::|__gnu|^@?(h|c)_', d):
                return 40
        return n

    def step(self, f, blk, prev, idx, env, st, iters, frame, stop):
        """execute from (blk, idx) until control transfer; returns list of successors"""
        while True:
            ins_list = f.blocks[blk]
            loops = f.loops[0]
            if idx == 0:
                if blk in loops and prev != '#cut':
                    if prev is not None and prev in loops[blk]:
                        if stop is not None and stop['hdr'] == blk:
                            return [('back', blk, prev, env, st)]
                        it = iters.get(blk, 0) + 1
                        iters = dict(iters)
                        iters[blk] = it
                        for h in list(iters):      # inner loops restart
                            if h != blk and h in loops[blk]:
                                del iters[h]
                        if self.o['peel'] and it == self.o['peel'] and (f.name, blk) in self.o['cut']:
                            import loops as L
                            return L.cut_loop(self, f, blk, prev, env, st, iters, stop)
                        if it > self.unroll_of(f):
                            self.unwound.add((f.name, blk))
                            if self.o['bmc']:
                                return []
                            raise LoopHit(f.name, blk)
                    elif self.o['eager'] and (f.name, blk) not in self.o['cut'] and self.unroll_of(f) < 40 \
                            and 'sps::' in (self.m.dem.get(f.name) or ''):
                        raise LoopHit(f.name, blk)
                    elif (f.name, blk) in self.o['cut'] and not self.o['peel']:
                        import loops as L
                        return L.cut_loop(self, f, blk, prev, env, st, iters, stop)
                # phis
                if ins_list[0].op == 'phi':
                    nv = {}
                    j = 0
                    while ins_list[j].op == 'phi':
                        ins = ins_list[j]
                        if prev == '#cut':
                            nv[ins.res] = stop['phis'][ins.res]
                        else:
                            nv[ins.res] = self.val(st, env, ins.ty, ins.a[prev])
                        j += 1
                    env = dict(env)
                    env.update(nv)
                    idx = j
            r = self.block_body(f, blk, idx, env, st, iters, frame)
            # r: list of ('goto', blk2, env, st) / ('ret',..) / ('item', ...)
            out = []
            for s in r:
                if s[0] == 'goto':
                    _, b2, e2, s2 = s
                    if stop is not None and b2 not in stop['body']:
                        out.append(('exit', b2, blk, e2, s2))
                    else:
                        out.append(('item', (b2, blk, 0, e2, s2, iters)))
                else:
                    out.append(s)
            if len(out) == 1 and out[0][0] == 'item' and out[0][1][2] == 0 and self.o['merge'] != 'all':
                blk, prev, idx, env, st, iters = out[0][1]
                continue
            return out

    def branch(self, st, c):
        """-> list of (bool, state) feasible"""
        c = simp(c) if not is_int(c) else c
        if is_int(c):
            return [(bool(c), st)]
        c = tobool(c)
        nc = z3.Not(c)
        rt = self.check(st.pc, c)
        if rt == z3.unsat:
            st.pc.append(nc)
            return [(False, st)]
        rf = self.check(st.pc, nc)
        if rf == z3.unsat:
            st.pc.append(c)
            return [(True, st)]
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(nc)
        return [(True, st), (False, s2)]

    def block_body(self, f, blk, idx, env, st, iters, frame):
        ins_list = f.blocks[blk]
        n = len(ins_list)
        env = dict(env)
        while idx < n:
            ins = ins_list[idx]
            if ins.line:
                frame[1] = ins.line
            op = ins.op
            if op == 'load':
                p = self.val(st, env, PTR, ins.a)
                env[ins.res] = self.load(st, p, ins.ty)
            elif op == 'store':
                v = self.val(st, env, ins.ty, ins.a[0])
                p = self.val(st, env, PTR, ins.a[1])
                self.store(st, p, ins.ty, v)
            elif op == 'gep':
                p = self.val(st, env, PTR, ins.a[0])
                env[ins.res] = self.gep(st, ins.ty, p, [(t, self.val(st, env, t, v)) for t, v in ins.a[1]])
            elif op == 'bin':
                o, a, b = ins.a
                ty = self.m.res(ins.ty)
                A, B = self.val(st, env, ty, a), self.val(st, env, ty, b)
                if ty[0] != 'i':
                    env[ins.res] = Opaque(('fop', o))
                else:
                    if isinstance(A, (Ptr, FnPtr)):
                        A = self.p2i(A)
                    if isinstance(B, (Ptr, FnPtr)):
                        B = self.p2i(B)
                    if o in ('udiv', 'sdiv', 'urem', 'srem') :
                        self.oblige(st, 'mem', 'division-by-zero', bv_cmp('ne', B, 0, ty[1]))
                    if o in ('shl', 'lshr', 'ashr') and not is_int(B):
                        # C++: shift amount must be below the width
                        self.oblige(st, 'mem', 'shift-in-range', bv_cmp('ult', B, ty[1], ty[1]))
                    env[ins.res] = bv_bin(o, A, B, ty[1])
            elif op == 'icmp':
                p, a, b = ins.a
                ty = self.m.res(ins.ty)
                env[ins.res] = self.icmp(st, p, ty, self.val(st, env, ty, a), self.val(st, env, ty, b))
            elif op == 'cast':
                o, t1, v = ins.a
                env[ins.res] = self.cast(o, self.m.res(t1), self.val(st, env, t1, v), self.m.res(ins.ty), st)
            elif op == 'alloca':
                cntv = self.val(st, env, ('i', 64), ins.a)
                rt = self.m.res(ins.ty)
                sz = self.m.size(ins.ty)
                kind = 'obj'
                if rt[0] == 'a' and self.m.res(rt[2])[0] == 'i' and rt[1] > 16:
                    kind = 'buf'
                if not is_int(cntv):
                    sz = bv_bin('mul', cntv, sz, 64)
                    kind = 'buf'
                else:
                    sz *= cntv
                env[ins.res] = self.new_region(st, f.demangled.split('(')[0].split('::')[-1][:30] + ins.res, sz, kind,
                                               'undef', stack=True)
            elif op in ('call', 'invoke'):
                res = self.do_call(f, ins, env, st)
                if op == 'invoke':
                    outs = []
                    for s, v in res:
                        e = dict(env) if len(res) > 1 else env
                        if ins.res:
                            e[ins.res] = v
                        outs.append(('goto', ins.a['normal'], e, s))
                    return outs
                if not res:
                    return []
                if len(res) == 1:
                    st, v = res[0]
                    if ins.res:
                        env[ins.res] = v
                else:
                    outs = []
                    for s, v in res:
                        e = dict(env)
                        if ins.res:
                            e[ins.res] = v
                        outs.append(('item', (blk, None, idx + 1, e, s, iters)))
                    return outs
            elif op == 'br':
                if len(ins.a) == 1:
                    return [('goto', ins.a[0], env, st)]
                c = self.val(st, env, ('i', 1), ins.a[0])
                outs = []
                br = self.branch(st, c)
                for b, s in br:
                    outs.append(('goto', ins.a[1] if b else ins.a[2], dict(env) if len(br) > 1 else env, s))
                return outs
            elif op == 'ret':
                v = None if ins.a is None else self.val(st, env, ins.ty, ins.a)
                for nme in f.allocas:
                    p = env.get(nme)
                    if p is not None:
                        st.mem.pop(p.r, None)
                return [('ret', st, v)]
            elif op == 'select':
                c = self.val(st, env, ('i', 1), ins.a[0])
                ty = self.m.res(ins.ty)
                a, b = self.val(st, env, ty, ins.a[1]), self.val(st, env, ty, ins.a[2])
                c = simp(c)
                if is_int(c):
                    env[ins.res] = a if c else b
                elif ty[0] == 'i':
                    env[ins.res] = ite(tobool(c), self.p2i(a) if isinstance(a, Ptr) else a, self.p2i(b) if isinstance(b, Ptr) else b, ty[1])
                elif ty[0] == 'p' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    env[ins.res] = Ptr(a.r, simp(ite(tobool(c), a.off, b.off, 64)))
                else:
                    outs = []
                    for t, s in self.branch(st, c):
                        e = dict(env)
                        e[ins.res] = a if t else b
                        outs.append(('item', (blk, None, idx + 1, e, s, iters)))
                    return outs
            elif op == 'switch':
                v, d, cs = ins.a
                ty = self.m.res(ins.ty)
                V = simp(self.val(st, env, ty, v))
                if is_int(V):
                    for c, b in cs:
                        if c == V:
                            return [('goto', b, env, st)]
                    return [('goto', d, env, st)]
                by = {}
                for c, b in cs:
                    by.setdefault(b, []).append(c)
                outs = []
                cur = st
                for b, vals in by.items():
                    if b == d:
                        continue
                    cond = z3.Or(*[V == z3.BitVecVal(c, ty[1]) for c in vals]) if len(vals) > 1 else \
                        (V == z3.BitVecVal(vals[0], ty[1]))
                    if self.check(cur.pc, cond) != z3.unsat:
                        s2 = cur.fork()
                        s2.pc.append(cond)
                        outs.append(('goto', b, dict(env), s2))
                        cur.pc.append(z3.Not(cond))
                if self.check(cur.pc) != z3.unsat:
                    outs.append(('goto', d, env, cur))
                return outs
            elif op == 'extractvalue':
                v = self.val(st, env, ins.ty, ins.a[0])
                for i in ins.a[1]:
                    v = v[i]
                env[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(st, env, ins.ty, ins.a[0])
                x = self.val(st, env, ins.a[1], ins.a[2])
                env[ins.res] = self._ins(v, ins.a[3], x)
            elif op == 'freeze':
                env[ins.res] = self.val(st, env, ins.ty, ins.a)
            elif op == 'unreachable':
                return []
            elif op == 'atomicrmw':
                o, p, v = ins.a
                ty = self.m.res(ins.ty)
                P = self.val(st, env, PTR, p)
                V = self.val(st, env, ty, v)
                old = self.load(st, P, ty)
                if o == 'xchg':
                    new = V
                else:
                    new = bv_bin(o, old, V, ty[1])
                self.store(st, P, ty, new)
                env[ins.res] = old
            elif op == 'cmpxchg':
                p, c, nn = ins.a
                ty = self.m.res(ins.ty)
                P = self.val(st, env, PTR, p)
                C, N = self.val(st, env, ty, c), self.val(st, env, ty, nn)
                old = self.load(st, P, ty)
                eq = self.icmp(st, 'eq', ty, old, C)
                outs = []
                for t, s in self.branch(st, eq):
                    e = dict(env)
                    if t:
                        self.store(s, P, ty, N)
                    e[ins.res] = [old, int(t)]
                    outs.append(('item', (blk, None, idx + 1, e, s, iters)))
                return outs
            elif op == 'fcmp':
                env[ins.res] = self.fresh('fcmp', 1)
            elif op == 'fneg':
                env[ins.res] = Opaque('fneg')
            elif op == 'nop':
                pass
            elif op == 'phi':
                raise Unsupported('phi position')
            else:
                raise Unsupported('instruction %s' % op)
            idx += 1
        raise Unsupported('fell off block')

    def _ins(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self._ins(v[idx[0]], idx[1:], x)
        return v

    def do_call(self, f, ins, env, st):
        callee = ins.a['callee']
        if callee[0] == 'g':
            fn = self.global_ptr(st, callee[1])
        else:
            fn = self.val(st, env, PTR, callee)
        args = []
        for t, a in ins.a['args']:
            if t == ('x',):
                args.append(None)
            else:
                args.append(self.val(st, env, t, a))
        if not isinstance(fn, FnPtr):
            if isinstance(fn, Ptr) and fn.r == 0:
                self.oblige(st, 'mem', 'call-through-null', False)
            raise Unsupported('indirect call through %r' % (fn,))
        return self.call(st, fn.name, args, ins.ty)

    # ------------------------------------------------------------ merging
    def merge_results(self, f, out, base):
        """merge states that differ only in path condition and integer return value / integer memory"""
        groups = []
        for s, v in out:
            for g in groups:
                m = self.try_merge(g[0], g[1], s, v, base, f)
                if m is not None:
                    g[0], g[1] = m
                    break
            else:
                groups.append([s, v])
        return [(s, v) for s, v in groups]

    def mval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r:
                return None
            if is_int(a.off) and is_int(b.off) and a.off == b.off:
                return a
            if not self.merge_off:
                return None
            return Ptr(a.r, simp(ite(c, a.off, b.off, 64)))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            r = [self.mval(c, x, y) for x, y in zip(a, b)]
            return None if any(x is None for x in r) else r
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return (c, a, b)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if z3.is_expr(a) and isinstance(b, int):
            if z3.is_bool(a):
                return z3.If(c, a, z3.BoolVal(bool(b)))
            return z3.If(c, a, z3.BitVecVal(b, a.size()))
        if z3.is_expr(b) and isinstance(a, int):
            if z3.is_bool(b):
                return z3.If(c, z3.BoolVal(bool(a)), b)
            return z3.If(c, z3.BitVecVal(a, b.size()), b)
        return None

    merge_off = False

    def try_merge(self, s1, v1, s2, v2, base, f=None):
        if s1.trace is not s2.trace or s1.cstack is not s2.cstack:
            if len(s1.trace) != len(s2.trace) or len(s1.cstack) != len(s2.cstack):
                return None
            if any(a is not b for a, b in zip(s1.trace, s2.trace)):
                return None
            for a, b in zip(s1.cstack, s2.cstack):
                if a is not b:
                    return None
        if s1.g != s2.g:
            return None
        w = None
        if f is not None:
            rt = self.m.res(f.ret) if f.ret else VOID
            w = rt[1] if rt[0] == 'i' else None
        # common prefix of pcs
        k = base
        n = min(len(s1.pc), len(s2.pc))
        while k < n and s1.pc[k] is s2.pc[k]:
            k += 1
        d1, d2 = s1.pc[k:], s2.pc[k:]
        c = z3.And(*d1) if len(d1) != 1 else d1[0]
        c2 = z3.And(*d2) if len(d2) != 1 else d2[0]
        if not d1 or not d2:
            return None
        # return value
        nv = None
        if v1 is not None or v2 is not None:
            nv = self.mval(c, v1, v2)
            if nv is None:
                return None
            if isinstance(nv, tuple):
                if w is None:
                    return None
                nv = ite(c, nv[1], nv[2], w)
            if isinstance(nv, list) and any(isinstance(x, tuple) for x in nv):
                return None
        # memory
        upd = {}
        allrids = set(s1.mem) | set(s2.mem)
        for rid in allrids:
            r1, r2 = s1.mem.get(rid), s2.mem.get(rid)
            if r1 is r2:
                continue
            if r1 is None or r2 is None:
                upd[rid] = r1 or r2
                continue
            if r1.kind != r2.kind or r1.live != r2.live:
                return None
            if self.o['merge'] == 'pure':
                # only tolerate identical contents
                if r1.kind == 'obj':
                    if not self.same_cells(r1, r2):
                        return None
                    continue
                if r1.chain is not r2.chain:
                    return None
                continue
            r = r1.clone()
            if r1.kind == 'buf':
                if r1.chain is not r2.chain:
                    r.chain = Chain('ite', None, c, r1.chain, r2.chain)
            else:
                cells = {}
                for off in set(r1.cells) | set(r2.cells):
                    a, b = r1.cells.get(off), r2.cells.get(off)
                    if a is None or b is None:
                        if r1.base == 'undef':
                            x = a or b
                            # other side never initialised/read: any value; use x only if no overlap
                            cells[off] = x
                            if any((off + d) in (r2.cells if b is None else r1.cells) for d in range(1, x[0])) or \
                               any((off - d) in (r2.cells if b is None else r1.cells) and (r2.cells if b is None else r1.cells)[off - d][0] > d for d in range(1, 16)):
                                return None
                            continue
                        x = a or b
                        z = NULL if isinstance(x[1], Ptr) else 0
                        a = a or (x[0], z)
                        b = b or (x[0], z)
                    if a[0] != b[0]:
                        return None
                    v = self.mval(c, a[1], b[1])
                    if v is None:
                        return None
                    if isinstance(v, tuple):
                        v = ite(c, v[1], v[2], 8 * a[0])
                    cells[off] = (a[0], v)
                r.cells = cells
            upd[rid] = r
        m = s1.fork()
        m.pc = s1.pc[:k] + [z3.Or(c, c2)]
        sc = z3.simplify(m.pc[-1])
        if z3.is_true(sc):
            m.pc.pop()
        for rid, r in upd.items():
            m.mem[rid] = r
        m.covers = s1.covers | s2.covers
        # rewriting facts were established under a path condition: keep those older than the fork
        m.norm = {k: v for k, v in s1.norm.items() if s2.norm.get(k) is v}
        return m, nv

    def same_cells(self, r1, r2):
        if len(r1.cells) != len(r2.cells):
            return False
        for o, (n, v) in r1.cells.items():
            c = r2.cells.get(o)
            if c is None or c[0] != n:
                return False
            if not same_val(v, c[1]):
                return False
        return True

    def merge_at(self, f, blk, group):
        """merge states arriving at one block (phis evaluated per incoming edge first)"""
        pre = []
        phis = [i for i in f.blocks[blk] if i.op == 'phi']
        if phis:
            return group     # phi blocks are merged after the phi by 'return' merging only
        out = []
        for prev, env, st in group:
            for g in out:
                m = self.try_merge_env(g, (prev, env, st))
                if m is not None:
                    g[0], g[1], g[2] = m
                    break
            else:
                out.append([prev, env, st])
        return [tuple(g) for g in out]

    def try_merge_env(self, a, b):
        return None


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r == b.r and same_val(a.off, b.off)
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if z3.is_expr(a) and z3.is_expr(b):
        return a.sort() == b.sort() and a.eq(b)
    return False
