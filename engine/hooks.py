"""Built-in models: specification intrinsics, C library block operations, allocation, libstdc++ leaf functions that have
no body in the IR.  Every model that stands for code outside /repo carries a label and is reported as an assumption."""
import re, z3
from sym import (Ptr, FnPtr, NULL, Opaque, Unsupported, Infeasible, Chain, chain_read, simp, is_int, bv_bin, bv_cmp,
                 bv_ext, bv_trunc, tobv, tobool, ite, concat_bytes, byte_of, same_val)

H = []


def hook(pat, label=None):
    def deco(fn):
        H.append((re.compile(pat), fn, label))
        return fn
    return deco


def install(E):
    E.hooks = list(H)


def one(st, v=None):
    return [(st, v)]


# ------------------------------------------------------------------ specification intrinsics
def _nm(E, st, p):
    return E.cstring(st, p) or '?'


def _any(w):
    def fn(E, st, a, dem, rt):
        nm = _nm(E, st, a[0])
        v = E.fresh(nm, w)
        st.trace = st.trace + (('int', nm, v, w),)
        return one(st, v)
    return fn


for _w, _s in ((64, '64'), (32, '32'), (16, '16'), (8, '8'), (1, 'b')):
    H.append((re.compile(r'^v_any%s$' % _s), _any(_w), None))


@hook(r'^v_range$')
def _(E, st, a, dem, rt):
    nm = _nm(E, st, a[0])
    lo, hi = simp(a[1]), simp(a[2])
    if is_int(lo) and is_int(hi) and lo == hi:
        st.trace = st.trace + (('int', nm, lo, 64),)
        return one(st, lo)
    v = E.fresh(nm, 64)
    st.trace = st.trace + (('int', nm, v, 64),)
    if is_int(lo) and is_int(hi) and hi < (1 << 63):
        # keep the value syntactically narrow
        w = max(1, hi.bit_length())
        x = z3.BitVec(nm + '!r%d' % E.fresh_n, w + 1)
        v = z3.ZeroExt(63 - w, x)
        st.trace = st.trace[:-1] + (('int', nm, v, 64),)
    if not (is_int(lo) and lo == 0):
        st.pc.append(z3.ULE(tobv(lo, 64), v))
    st.pc.append(z3.ULE(v, tobv(hi, 64)))
    if E.check(st.pc) == z3.unsat:
        raise Infeasible()
    return one(st, v)


@hook(r'^v_hv64$')
def _(E, st, a, dem, rt):
    return one(st, E.fresh('ret_' + _nm(E, st, a[0]), 64))


@hook(r'^v_buf$')
def _(E, st, a, dem, rt):
    nm = _nm(E, st, a[0])
    p = E.new_region(st, nm, simp(a[1]), 'buf', 'undef')
    st.trace = st.trace + (('buf', nm, simp(a[1]), st.mem[p.r].chain),)
    return one(st, p)


@hook(r'^v_obj$')
def _(E, st, a, dem, rt):
    """object storage with arbitrary initial bytes (not part of the replayed input)"""
    nm = _nm(E, st, a[0])
    return one(st, E.new_region(st, nm, simp(a[1]), 'obj', 'undef'))


@hook(r'^v_fill$')
def _(E, st, a, dem, rt):
    nm = _nm(E, st, a[0])
    p, n = a[1], simp(a[2])
    if is_int(n) and n == 0:
        st.trace = st.trace + (('fill', nm, 0, Chain('const', None, 0)),)
        return one(st)
    ch = E.fresh_arr(nm)
    E.region_for(st, p, n, 'store')
    r = E.wr(st, p.r)
    if r.kind == 'obj' and is_int(n) and is_int(p.off):
        E.obj_clear(r, p.off, n)
        for i in range(n):
            r.cells[p.off + i] = (1, chain_read(ch, i))
    else:
        if r.kind == 'obj':
            r = E.to_buf(st, r)
        r.chain = Chain('copy', r.chain, p.off, n, ch, 0)
    st.trace = st.trace + (('fill', nm, n, ch),)
    return one(st)


def _assume(E, st, c):
    c = simp(c)
    if is_int(c):
        if not c:
            raise Infeasible()
        return
    st.pc.append(tobool(c))
    if E.check(st.pc) == z3.unsat:
        raise Infeasible()


@hook(r'^v_assume$')
def _(E, st, a, dem, rt):
    _assume(E, st, a[0])
    return one(st)


@hook(r'^v_assert$')
def _(E, st, a, dem, rt):
    E.oblige(st, 'assert', _nm(E, st, a[1]), tobool(a[0]))
    return one(st)


@hook(r'^v_requires$')
def _(E, st, a, dem, rt):
    if st.cstack and st.cstack[-1]['apply']:
        E.oblige(st, 'requires', '%s.%s' % (st.cstack[-1]['name'], _nm(E, st, a[1])), tobool(a[0]))
    else:
        _assume(E, st, a[0])
    return one(st)


@hook(r'^v_ensures$')
def _(E, st, a, dem, rt):
    if st.cstack and st.cstack[-1]['apply']:
        _assume(E, st, a[0])
    else:
        E.oblige(st, 'ensures', '%s.%s' % (st.cstack[-1]['name'] if st.cstack else '', _nm(E, st, a[1])), tobool(a[0]))
    return one(st)


@hook(r'^v_enforce$')
def _(E, st, a, dem, rt):
    return one(st, 0 if (st.cstack and st.cstack[-1]['apply']) else 1)


def _setc(st, **kw):
    c = dict(st.cstack[-1])
    c.update(kw)
    st.cstack = st.cstack[:-1] + (c,)


@hook(r'^v_assigns$')
def _(E, st, a, dem, rt):
    _setc(st, assigns=st.cstack[-1]['assigns'] + ((a[0], simp(a[1])),))
    return one(st)


@hook(r'^v_frame_begin$')
def _(E, st, a, dem, rt):
    _setc(st, snap=dict(st.mem))
    st.own = set()
    return one(st)


@hook(r'^v_frame_end$')
def _(E, st, a, dem, rt):
    if st.cstack:
        frame_check(E, st, st.cstack[-1]['snap'], st.cstack[-1]['assigns'], st.cstack[-1]['name'])
    return one(st)


def frame_check(E, st, snap, assigns, cname):
    for rid, r0 in snap.items():
        r1 = st.mem.get(rid)
        if r1 is None or r1 is r0:
            continue
        rng = [(p.off, n) for p, n in assigns if isinstance(p, Ptr) and p.r == rid]
        if r1.kind == 'obj' and r0.kind == 'obj':
            for off, (n, v) in list(r1.cells.items()):
                c0 = r0.cells.get(off)
                if c0 is not None and c0[0] == n and same_val(c0[1], v):
                    continue
                if any(is_int(o) and is_int(k) and o <= off and off + n <= o + k for o, k in rng):
                    continue
                if c0 is None and r0.base == 'undef' and not isinstance(v, (Ptr, FnPtr)) and z3.is_expr(v) and \
                        z3.is_const(v) and v.decl().name().startswith('undef_'):
                    continue     # first read of an unspecified value, not a write
                if isinstance(v, Opaque):
                    continue
                try:
                    rr = r0.clone()
                    old = concat_bytes([E.obj_byte(rr, off + i) for i in range(n)])
                except Unsupported:
                    old = None
                if old is None:
                    E.oblige(st, 'frame', cname, False)
                    continue
                vv = E.p2i(v) if isinstance(v, (Ptr, FnPtr)) else v
                E.oblige(st, 'frame', '%s:%s+%d' % (cname, r1.name, off), bv_cmp('eq', old, vv, 8 * n))
        elif r1.kind == 'buf':
            if r0.kind == 'buf' and r0.chain is r1.chain:
                continue
            k = E.fresh('frame_k', 64)
            cond = [z3.ULT(k, tobv(r1.size, 64))]
            for o, n in rng:
                cond.append(z3.UGE(k - tobv(o, 64), tobv(n, 64)))
            new = chain_read(r1.chain, k)
            if r0.kind == 'buf':
                old = chain_read(r0.chain, k)
            else:
                continue
            E.oblige(st, 'frame', '%s:%s' % (cname, r1.name), z3.Implies(z3.And(*cond), tobv(old, 8) == tobv(new, 8)))


@hook(r'^v_havoc_assigns$')
def _(E, st, a, dem, rt):
    for p, n in st.cstack[-1]['assigns']:
        if is_int(n) and n == 0:
            continue
        E.havoc_range(st, p, n)
    return one(st)


@hook(r'^v_cover$')
def _(E, st, a, dem, rt):
    nm = _nm(E, st, a[0])
    if not E.quiet and nm not in E.covered:
        if E.check(st.pc) == z3.sat:
            E.covered[nm] = True
    return one(st)


@hook(r'^v_valid$')
def _(E, st, a, dem, rt):
    """v_valid(p, n): n bytes at p lie inside one live object"""
    p, n = a[0], simp(a[1])
    if not isinstance(p, Ptr) or p.r == 0 or p.r not in st.mem or not st.mem[p.r].live:
        return one(st, bv_cmp('eq', n, 0, 64))
    r = st.mem[p.r]
    o, nn, s = tobv(p.off, 64), tobv(n, 64), tobv(r.size, 64)
    return one(st, simp(z3.And(z3.ULE(nn, s), z3.ULE(o, s - nn))))


@hook(r'^v_peek$')
def _(E, st, a, dem, rt):
    """v_peek(p, i, n): i < n ? p[i] : 0xff for a ghost read of a buffer of n bytes (no case split)"""
    p, i, n = a[0], simp(a[1]), simp(a[2])
    inside = bv_cmp('ult', i, n, 64)
    if is_int(inside) and not inside:
        return one(st, 255)
    r = st.mem[p.r]
    off = simp(bv_bin('add', p.off, i, 64))
    if r.kind == 'buf':
        v = chain_read(r.chain, off)
    elif is_int(off):
        v = E.obj_byte(E.wr(st, p.r), off)
    else:
        raise Unsupported('v_peek of an object')
    if is_int(inside):
        return one(st, v)
    return one(st, simp(ite(inside, v, 255, 8)))


@hook(r'^v_same_obj$')
def _(E, st, a, dem, rt):
    return one(st, int(isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].r == a[1].r))


@hook(r'^v_split$')
def _(E, st, a, dem, rt):
    """case split on the value of an expression (at most 300 feasible values): returns a concrete value per path"""
    v = simp(a[0])
    if is_int(v):
        return one(st, v)
    out = []
    cur = st
    for _i in range(300):
        if E.check(cur.pc) != z3.sat:
            return out
        x = E.model().eval(v, model_completion=True).as_long()
        s2 = cur.fork()
        s2.pc.append(v == x)
        if E.o['bmc']:
            s2.g['split'] = s2.g.get('split', ()) + (x,)     # keeps the cases apart
        out.append((s2, x))
        cur.pc.append(v != x)
    raise Unsupported('v_split: too many values')


@hook(r'^v_shard$')
def _(E, st, a, dem, rt):
    n = simp(a[0])
    if E.shard is not None:
        v = E.shard
    else:
        raise Unsupported('v_shard without shards=')
    st.trace = st.trace + (('int', 'shard', v, 64),)
    return one(st, v)


@hook(r'^v_symbolic$')
def _(E, st, a, dem, rt):
    return one(st, 1)


@hook(r'^v_bounded$')
def _(E, st, a, dem, rt):
    return one(st, 1 if E.o['bmc'] else 0)


# ------------------------------------------------------------------ allocation
@hook(r'^operator new\(unsigned long\)$', 'operator new never fails')
def _(E, st, a, dem, rt):
    n = simp(a[0])
    if is_int(n):
        return one(st, E.new_region(st, 'heap', n, 'obj' if n <= 65536 else 'buf', 'undef'))
    return one(st, E.new_region(st, 'heap', n, 'buf', 'undef'))


@hook(r'^operator new\[\]\(unsigned long\)$', 'operator new never fails')
def _(E, st, a, dem, rt):
    return one(st, E.new_region(st, 'heap', simp(a[0]), 'buf', 'undef'))


@hook(r'^malloc$', 'malloc never fails')
def _(E, st, a, dem, rt):
    n = simp(a[0])
    return one(st, E.new_region(st, 'heap', n, 'buf' if not is_int(n) or n > 4096 else 'obj', 'undef'))


@hook(r'^calloc$', 'malloc never fails')
def _(E, st, a, dem, rt):
    n = simp(bv_bin('mul', a[0], a[1], 64))
    return one(st, E.new_region(st, 'heap', n, 'buf' if not is_int(n) or n > 4096 else 'obj', 'zero'))


@hook(r'^(free|operator delete(\[\])?)(\(.*\))?$', None)
def _(E, st, a, dem, rt):
    p = a[0]
    if isinstance(p, Ptr) and p.r == 0:
        return one(st)
    if isinstance(p, Ptr):
        r = E.wr(st, p.r)
        E.oblige(st, 'mem', 'free-valid', int(r.live and not r.stack and is_int(p.off) and p.off == 0))
        r.live = False
    return one(st)


# ------------------------------------------------------------------ C library
def _is_null(p):
    return isinstance(p, Ptr) and p.r == 0


def _copy(E, st, a, move):
    n = simp(a[2])
    if _is_null(a[0]) or _is_null(a[1]):
        # copying nothing is harmless whatever the pointers
        E.oblige(st, 'mem', 'null-copy', tobool(bv_cmp('eq', n, 0, 64)))
        return one(st, a[0])
    if not is_int(n) and isinstance(a[0], Ptr) and is_int(a[0].off):
        r = st.mem.get(a[0].r)
        if r is not None and r.kind == 'obj' and any(isinstance(v, (Ptr, FnPtr)) for k, v in r.cells.values()) \
                and E.check(st.pc, z3.UGT(n, 24)) == z3.unsat:
            # short copy into an object that also holds pointers (short strings): one case per length
            out, cur = [], st
            for _i in range(26):
                if E.check(cur.pc) != z3.sat:
                    return out
                x = E.model().eval(n, model_completion=True).as_long()
                s2 = cur.fork()
                s2.pc.append(n == x)
                E.memcpy(s2, a[0], a[1], x, move=move)
                out.append((s2, a[0]))
                cur.pc.append(n != x)
            raise Unsupported('short copy: too many lengths')
    E.memcpy(st, a[0], a[1], n, move=move)
    return one(st, a[0])


@hook(r'^(llvm\.memcpy\..*|memcpy)$')
def _(E, st, a, dem, rt):
    return _copy(E, st, a, False)


@hook(r'^(llvm\.memmove\..*|memmove)$')
def _(E, st, a, dem, rt):
    return _copy(E, st, a, True)


@hook(r'^(llvm\.memset\..*|memset)$')
def _(E, st, a, dem, rt):
    b = a[1]
    if dem == 'memset':
        b = bv_trunc(b, 32, 8)
    E.memset(st, a[0], b, a[2])
    return one(st, a[0])


@hook(r'^llvm\.(lifetime|dbg|experimental\.noalias|assume|prefetch|stackrestore|invariant|donothing).*$')
def _(E, st, a, dem, rt):
    return one(st)


@hook(r'^llvm\.(umin|umax|smin|smax)\.i(\d+)$')
def _(E, st, a, dem, rt):
    m = re.match(r'^llvm\.(umin|umax|smin|smax)\.i(\d+)$', dem)
    w = int(m.group(2))
    p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)]
    c = bv_cmp(p, a[0], a[1], w)
    return one(st, ite(tobool(c) if not is_int(c) else c, a[0], a[1], w))


@hook(r'^llvm\.bswap\.i(\d+)$')
def _(E, st, a, dem, rt):
    w = int(dem.rsplit('i', 1)[1])
    n = w // 8
    return one(st, concat_bytes([byte_of(a[0], n - 1 - i, n) for i in range(n)]))


@hook(r'^(htons|ntohs)$')
def _(E, st, a, dem, rt):
    return one(st, concat_bytes([byte_of(a[0], 1 - i, 2) for i in range(2)]))


@hook(r'^(htonl|ntohl)$')
def _(E, st, a, dem, rt):
    return one(st, concat_bytes([byte_of(a[0], 3 - i, 4) for i in range(4)]))


@hook(r'^llvm\.expect\..*$')
def _(E, st, a, dem, rt):
    return one(st, a[0])


@hook(r'^llvm\.(trap|debugtrap)$')
def _(E, st, a, dem, rt):
    E.oblige(st, 'assert', 'trap', False)
    return []


@hook(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$')
def _(E, st, a, dem, rt):
    m = re.match(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', dem)
    w = int(m.group(3))
    sg = m.group(1) == 's'
    A, B = bv_ext(a[0], w, 2 * w, sg), bv_ext(a[1], w, 2 * w, sg)
    r = bv_bin(m.group(2), A, B, 2 * w)
    lo = bv_trunc(r, 2 * w, w)
    ov = bv_cmp('ne', bv_ext(lo, w, 2 * w, sg), r, 2 * w)
    return one(st, [simp(lo), simp(ov)])


@hook(r'^llvm\.(va_start|va_end|va_copy)(\..*)?$')
def _(E, st, a, dem, rt):
    return one(st)


@hook(r'^strrchr$', 'C string functions')
def _(E, st, a, dem, rt):
    s = E.cstring(st, a[0])
    if s is None or not is_int(a[1]):
        raise Unsupported('strrchr on symbolic string')
    i = s.rfind(chr(a[1] & 255))
    return one(st, NULL if i < 0 else E.padd(a[0], i))


@hook(r'^strlen$', 'C string functions')
def _(E, st, a, dem, rt):
    s = E.cstring(st, a[0])
    if s is None:
        raise Unsupported('strlen on symbolic string')
    return one(st, len(s))


@hook(r'^strchr$', 'C string functions')
def _(E, st, a, dem, rt):
    s = E.cstring(st, a[0])
    if s is None or not is_int(a[1]):
        raise Unsupported('strchr on symbolic string')
    i = s.find(chr(a[1] & 255))
    return one(st, NULL if i < 0 else E.padd(a[0], i))


@hook(r'^(strcmp|strncmp|memcmp|bcmp|strcasecmp|strncasecmp)$', 'C string functions')
def _(E, st, a, dem, rt):
    x, y = E.cstring(st, a[0]), E.cstring(st, a[1])
    n = simp(a[2]) if len(a) > 2 else None
    if dem.startswith('str') and x is not None and y is not None and (n is None or is_int(n)):
        if 'case' in dem:
            x, y = x.lower(), y.lower()
        if n is not None:
            x, y = x[:n], y[:n]
        return one(st, 0 if x == y else (1 if x > y else 0xffffffff))
    if not dem.startswith('str') and is_int(n) and n <= 64:
        if n == 0:
            return one(st, 0)
        r1 = E.region_for(st, a[0], n, 'load')
        r2 = E.region_for(st, a[1], n, 'load')

        def rb(p, i):
            return E.load_int(st, E.padd(p, i), 1)
        eq = []
        lt = 0
        r = 0
        for i in reversed(range(n)):
            p, q = rb(a[0], i), rb(a[1], i)
            c = bv_cmp('eq', p, q, 8)
            d = bv_bin('sub', bv_ext(p, 8, 32, False), bv_ext(q, 8, 32, False), 32)
            r = ite(c if is_int(c) else tobool(c), r, d, 32)
        return one(st, r)
    if not dem.startswith('str'):
        # unbounded memcmp: result 0 iff all bytes equal; skolem witness for the unequal case
        n = a[2]
        E.region_for(st, a[0], n, 'load')
        E.region_for(st, a[1], n, 'load')
    raise Unsupported('%s on symbolic data' % dem)


@hook(r'^(memchr)$', 'C string functions')
def _(E, st, a, dem, rt):
    raise Unsupported('memchr')


@hook(r'^__errno_location$', 'errno')
def _(E, st, a, dem, rt):
    if 'errno' not in st.g:
        p = E.new_region(st, 'errno', 4, 'obj', 'undef')
        st.g['errno'] = p
    return one(st, st.g['errno'])


@hook(r'^strerror$', 'strerror')
def _(E, st, a, dem, rt):
    if 'strerror' not in st.g:
        st.g['strerror'] = E.new_region(st, 'strerror', 8, 'buf', 'zero')
    return one(st, st.g['strerror'])


@hook(r'^sps::get_context_id\(\)$', 'logging context id')
def _(E, st, a, dem, rt):
    return one(st, E.fresh('cid', 32))


@hook(r'^(printf|fprintf|puts|putchar|fputs|fflush|fputc|fwrite)$', 'stdio output')
def _(E, st, a, dem, rt):
    return one(st, E.fresh('stdio', 64 if dem == 'fwrite' else 32))


@hook(r'^llvm\.threadlocal\.address\..*$')
def _(E, st, a, dem, rt):
    return one(st, a[0])


@hook(r'^snprintf$', 'snprintf: result bounded by the format, arbitrary text')
def _(E, st, a, dem, rt):
    fmt = E.cstring(st, a[2])
    if fmt is None:
        raise Unsupported('snprintf with a symbolic format')
    n, hi = 0, 0
    for m in re.finditer(r'%(?:(%)|[-+ #0]*\d*(l?l?|z|h|hh)([diuxXc]))|%.|.', fmt, re.S):
        if m.group(0)[0] != '%' or m.group(1):
            hi += 1
        elif m.group(3):
            hi += {'c': 1, 'x': 16, 'X': 16}.get(m.group(3), 20) if m.group(2) in ('l', 'll', 'z') else \
                {'c': 1, 'x': 8, 'X': 8}.get(m.group(3), 11)
        else:
            hi = 1 << 30
            break
    v = E.fresh('snprintf', 32)
    st.pc.append(z3.ULE(v, hi))
    size = simp(a[1])
    if is_int(size) and size:
        r = E.region_for(st, a[0], size, 'store')
        ch = E.fresh_arr('text')
        r = E.wr(st, a[0].r)
        if r.kind == 'obj':
            r = E.to_buf(st, r)
        r.chain = Chain('copy', r.chain, a[0].off, size, ch, 0)
    return one(st, v)


@hook(r'^gettimeofday$', 'gettimeofday: succeeds, any time before 2^40 s')
def _(E, st, a, dem, rt):
    s, u = E.fresh('tv_sec', 64), E.fresh('tv_usec', 64)
    st.pc += [z3.ULT(s, 1 << 40), z3.ULT(u, 1000000)]
    E.store_int(st, a[0], 8, s)
    E.store_int(st, E.padd(a[0], 8), 8, u)
    return one(st, 0)


@hook(r'^rand$', 'rand')
def _(E, st, a, dem, rt):
    v = E.fresh('rand', 32)
    st.pc.append(v >= 0)
    return one(st, v)


@hook(r'^__assert_fail$')
def _(E, st, a, dem, rt):
    E.oblige(st, 'assert', 'assertion "%s"' % _nm(E, st, a[0])[:80], False)
    return []


@hook(r'^(__cxa_throw|__cxa_rethrow|_Unwind_Resume|std::terminate\(\)|abort|__cxa_pure_virtual|std::__throw_.*|'
      r'__cxa_bad_cast|__cxa_throw_bad_array_new_length|exit|_exit|__clang_call_terminate|std::__glibcxx_assert_fail.*)$')
def _(E, st, a, dem, rt):
    E.oblige(st, 'assert', 'no-exception-or-abort(%s)' % dem.split('(')[0], False)
    return []


@hook(r'^__cxa_allocate_exception$')
def _(E, st, a, dem, rt):
    return one(st, E.new_region(st, 'exc', 64, 'obj', 'undef'))


@hook(r'^(__cxa_guard_acquire)$')
def _(E, st, a, dem, rt):
    return one(st, 1)


@hook(r'^(__cxa_guard_release)$')
def _(E, st, a, dem, rt):
    E.store_int(st, a[0], 1, 1)
    return one(st)


@hook(r'^(__cxa_atexit|__cxa_begin_catch|__cxa_end_catch|__cxa_free_exception)$')
def _(E, st, a, dem, rt):
    return one(st, 0)


# ------------------------------------------------------------------ libstdc++ leaves
@hook(r'^std::_Sp_counted_base<.*>::(_M_release|_M_weak_release|_M_add_ref_copy|_M_weak_add_ref|_M_release_last_use|'
      r'_M_release_last_use_cold|_M_destroy)\(\)$',
      'shared_ptr reference counts are not modelled: a shared object lives at least as long as the verified call')
def _(E, st, a, dem, rt):
    return one(st)


@hook(r'^(__gnu_cxx::)?__is_single_threaded\(\)$', 'single-threaded refcount path')
def _(E, st, a, dem, rt):
    return one(st, 1)


@hook(r'^std::__detail::_List_node_base::_M_hook\(', 'libstdc++ list node linking')
def _(E, st, a, dem, rt):
    this, pos = a[0], a[1]
    prev = E.load(st, E.padd(pos, 8), ('p',))
    E.store(st, this, ('p',), pos)
    E.store(st, E.padd(this, 8), ('p',), prev)
    E.store(st, prev, ('p',), this)
    E.store(st, E.padd(pos, 8), ('p',), this)
    return one(st)


@hook(r'^std::__detail::_List_node_base::_M_unhook\(\)', 'libstdc++ list node linking')
def _(E, st, a, dem, rt):
    this = a[0]
    nx = E.load(st, this, ('p',))
    pv = E.load(st, E.padd(this, 8), ('p',))
    E.store(st, pv, ('p',), nx)
    E.store(st, E.padd(nx, 8), ('p',), pv)
    return one(st)


@hook(r'^std::__detail::_List_node_base::_M_transfer\(', 'libstdc++ list node linking')
def _(E, st, a, dem, rt):
    this, first, last = a[0], a[1], a[2]
    if same_val(this, last):
        return one(st)
    P = ('p',)
    L, S = E.load, E.store
    # last->prev->next = this; first->prev->next = last; this->prev->next = first;
    lp, fp, tp = L(st, E.padd(last, 8), P), L(st, E.padd(first, 8), P), L(st, E.padd(this, 8), P)
    S(st, lp, P, this)
    S(st, fp, P, last)
    S(st, tp, P, first)
    S(st, E.padd(this, 8), P, lp)
    S(st, E.padd(last, 8), P, fp)
    S(st, E.padd(first, 8), P, tp)
    return one(st)


@hook(r'^__dynamic_cast$')
def _(E, st, a, dem, rt):
    """dynamic_cast through the object's own vtable/typeinfo (both are in the IR)"""
    p, src, dst = a[0], a[1], a[2]
    vp = E.load(st, p, ('p',))
    top = E.load(st, E.padd(vp, -16 & (2**64 - 1)), ('i', 64))
    ti = E.load(st, E.padd(vp, -8 & (2**64 - 1)), ('p',))
    if not is_int(top):
        raise Unsupported('dynamic_cast')
    full = E.padd(p, top)

    def search(t, off):
        if t.r == dst.r:
            return off
        nm = st.mem[t.r].name
        vt = E.load(st, t, ('p',))
        vname = st.mem[vt.r].name
        if 'si_class' in vname:
            return search(E.load(st, E.padd(t, 16), ('p',)), off)
        if 'vmi_class' in vname:
            cnt = E.load(st, E.padd(t, 20), ('i', 32))
            for i in range(cnt):
                b = E.load(st, E.padd(t, 24 + 16 * i), ('p',))
                fl = E.load(st, E.padd(t, 32 + 16 * i), ('i', 64))
                r = search(b, off + (fl >> 8))
                if r is not None:
                    return r
        return None
    o = search(ti, 0)
    return one(st, NULL if o is None else E.padd(full, o))


# ------------------------------------------------------------------ state threads
@hook(r'^st_cond_new$', 'state-threads condition variables')
def _(E, st, a, dem, rt):
    return one(st, E.new_region(st, 'st_cond', 16, 'obj', 'undef'))


@hook(r'^st_cond_(destroy|signal|broadcast)$', 'state-threads condition variables')
def _(E, st, a, dem, rt):
    return one(st, 0)


# ------------------------------------------------------------------ libstdc++ red-black tree leaves (shape is not observable)
@hook(r'^std::_Rb_tree_insert_and_rebalance\(', 'libstdc++ tree linking (without rebalancing)')
def _(E, st, a, dem, rt):
    left, x, p, hd = a
    P = ('p',)
    left = simp(left)
    if not is_int(left):
        c = tobool(left)
        left = 1 if E.check(st.pc, z3.Not(c)) == z3.unsat else (0 if E.check(st.pc, c) == z3.unsat else None)
        if left is None:
            s2 = st.fork()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            return _tree_link(E, st, 1, x, p, hd) + _tree_link(E, s2, 0, x, p, hd)
    return _tree_link(E, st, left, x, p, hd)


def _tree_link(E, st, left, x, p, hd):
    P = ('p',)
    E.store(st, E.padd(x, 8), P, p)
    E.store(st, E.padd(x, 16), P, NULL)
    E.store(st, E.padd(x, 24), P, NULL)
    E.store(st, x, ('i', 32), 1)
    if left:
        E.store(st, E.padd(p, 16), P, x)
        if same_val(p, hd):
            E.store(st, E.padd(hd, 8), P, x)
            E.store(st, E.padd(hd, 24), P, x)
        elif same_val(p, E.load(st, E.padd(hd, 16), P)):
            E.store(st, E.padd(hd, 16), P, x)
    else:
        E.store(st, E.padd(p, 24), P, x)
        if same_val(p, E.load(st, E.padd(hd, 24), P)):
            E.store(st, E.padd(hd, 24), P, x)
    return one(st)


def _isnull(p):
    return isinstance(p, Ptr) and p.r == 0


def _tree_next(E, st, x):
    P = ('p',)
    r = E.load(st, E.padd(x, 24), P)
    if not _isnull(r):
        x = r
        while True:
            l = E.load(st, E.padd(x, 16), P)
            if _isnull(l):
                return x
            x = l
    y = E.load(st, E.padd(x, 8), P)
    while same_val(x, E.load(st, E.padd(y, 24), P)):
        x = y
        y = E.load(st, E.padd(y, 8), P)
    if not same_val(E.load(st, E.padd(x, 24), P), y):
        x = y
    return x


def _tree_prev(E, st, x):
    P = ('p',)
    par = E.load(st, E.padd(x, 8), P)
    col = E.load(st, x, ('i', 32))
    if is_int(col) and col == 0 and same_val(E.load(st, E.padd(par, 8), P), x):
        return E.load(st, E.padd(x, 24), P)      # header: rightmost
    l = E.load(st, E.padd(x, 16), P)
    if not _isnull(l):
        x = l
        while True:
            r = E.load(st, E.padd(x, 24), P)
            if _isnull(r):
                return x
            x = r
    y = par
    while same_val(x, E.load(st, E.padd(y, 16), P)):
        x = y
        y = E.load(st, E.padd(y, 8), P)
    return y


@hook(r'^std::_Rb_tree_increment\(', 'libstdc++ tree traversal')
def _(E, st, a, dem, rt):
    return one(st, _tree_next(E, st, a[0]))


@hook(r'^std::_Rb_tree_decrement\(', 'libstdc++ tree traversal')
def _(E, st, a, dem, rt):
    return one(st, _tree_prev(E, st, a[0]))


@hook(r'^std::_Rb_tree_rebalance_for_erase\(', 'libstdc++ tree unlinking (without rebalancing)')
def _(E, st, a, dem, rt):
    z, hd = a[0], a[1]
    P = ('p',)
    L, S = E.load, E.store
    nxt, prv = _tree_next(E, st, z), _tree_prev(E, st, z)
    lf, rg, par = L(st, E.padd(z, 16), P), L(st, E.padd(z, 24), P), L(st, E.padd(z, 8), P)

    def replace(old, new, par):
        if same_val(par, hd):
            S(st, E.padd(hd, 8), P, new)
        elif same_val(L(st, E.padd(par, 16), P), old):
            S(st, E.padd(par, 16), P, new)
        else:
            S(st, E.padd(par, 24), P, new)
        if not _isnull(new):
            S(st, E.padd(new, 8), P, par)
    if _isnull(lf) or _isnull(rg):
        replace(z, rg if _isnull(lf) else lf, par)
    else:
        y = nxt                       # successor: no left child
        yp, yr = L(st, E.padd(y, 8), P), L(st, E.padd(y, 24), P)
        if not same_val(yp, z):
            replace(y, yr, yp)
            S(st, E.padd(y, 24), P, rg)
            S(st, E.padd(rg, 8), P, y)
        S(st, E.padd(y, 16), P, lf)
        S(st, E.padd(lf, 8), P, y)
        replace(z, y, par)
    if same_val(L(st, E.padd(hd, 16), P), z):
        S(st, E.padd(hd, 16), P, nxt)
    if same_val(L(st, E.padd(hd, 24), P), z):
        S(st, E.padd(hd, 24), P, prv)
    return one(st, z)


@hook(r'^std::_Sp_counted_base<.*>::_M_add_ref_lock_nothrow\(\)$', 'weak_ptr::lock succeeds iff the use count is not zero')
def _(E, st, a, dem, rt):
    n = E.load(st, E.padd(a[0], 8), ('i', 32))
    return one(st, simp(bv_cmp('ne', n, 0, 32)))


@hook(r'^std::_Sp_counted_base<.*>::_M_get_use_count\(\) const$', 'shared_ptr reference counts are not modelled')
def _(E, st, a, dem, rt):
    return one(st, simp(bv_ext(E.load(st, E.padd(a[0], 8), ('i', 32)), 32, 64, True)))
