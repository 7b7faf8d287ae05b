"""Sequence theory for std::list<std::shared_ptr<sps::AVPacket>> (proof mode only).

The methods of the standard list are replaced by their mathematical contracts: a list is a finite sequence, written as a
concatenation of single elements and of slices S[lo..hi) of ghost streams S.  A ghost stream is an arbitrary infinite
sequence of packets of which one index k (arbitrary) is tracked: S[k] is the tracked packet, S[i] for i != k is the
`other` packet.  Nothing is assumed about list lengths.  The bounded fallback and the native replay use real lists."""
import re, z3
from sym import (Ptr, NULL, Unsupported, Infeasible, Chain, simp, is_int, bv_bin, bv_cmp, tobv, tobool, same_val)
import hooks
from hooks import hook, one, _nm

ELT = r'std::shared_ptr<sps::AVPacket>'
LIST = r'std::__cxx11::list<std::shared_ptr<sps::AVPacket>, std::allocator<std::shared_ptr<sps::AVPacket>\s?> >'
ITER = r'std::_List_(?:const_)?iterator<std::shared_ptr<sps::AVPacket>\s?>'
LABEL = 'std::list<PAVPacket> methods by their sequence contract'


class Items:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def key(p):
    if not isinstance(p, Ptr) or not is_int(p.off):
        raise Unsupported('list at a symbolic address')
    return ('seq', p.r, p.off)


def get(E, st, p):
    it = st.g.get(key(p))
    if it is None:
        raise Unsupported('list of unknown content')
    if not st.mem[p.r].live:
        E.oblige(st, 'mem', 'use-after-free-list', False)
    return it


def put(E, st, p, items):
    k = key(p)
    drop_iters(st, k)
    st.g[k] = Items(items)


def drop_iters(st, k):
    st.g.pop(('it',) + k, None)


def add(a, b):
    return simp(bv_bin('add', a, b, 64))


def sub(a, b):
    return simp(bv_bin('sub', a, b, 64))


def length(items):
    n = 0
    for x in items.v:
        n = add(n, 1 if x[0] == 'el' else sub(x[3], x[2]))
    return n


def spv(E, st, p):
    """value of a shared_ptr object: (pointer, control block)"""
    return E.load(st, p, ('p',)), E.load(st, E.padd(p, 8), ('p',))


def mkel(E, st, v):
    c = E.new_region(st, 'list_node', 16, 'obj', 'undef')
    E.store(st, c, ('p',), v[0])
    E.store(st, E.padd(c, 8), ('p',), v[1])
    return ('el', c, v[0], v[1])


def itreg(E, st, p):
    k = ('it',) + key(p)
    b = st.g.get(k)
    items = get(E, st, p)
    if b is None or b.v[0] is not items:
        r = E.new_region(st, 'list_iterators', 1 << 62, 'buf', 'undef', chain=Chain('seqit', None), tag=('seq', key(p), items))
        b = Box((items, r))
        st.g[k] = b
    return b.v[1]


def iter_of(E, st, p):
    """iterator value -> (region tag, index) or None when it points into a real list"""
    if isinstance(p, Ptr) and p.r in st.mem and st.mem[p.r].tag and st.mem[p.r].tag[0] == 'seq':
        tag = st.mem[p.r].tag
        cur = st.g.get(tag[1])
        if cur is not tag[2]:
            raise Unsupported('iterator used after its list was modified')
        return tag, p.off
    return None


def known(E, st, c):
    """True/False/None: condition decided under the path condition"""
    c = simp(c) if not isinstance(c, bool) else c
    if isinstance(c, (bool, int)):
        return bool(c)
    c = tobool(c)
    if E.check(st.pc, z3.Not(c)) == z3.unsat:
        return True
    if E.check(st.pc, c) == z3.unsat:
        return False
    return None


def stream(st, S):
    return st.g[('gs', S)].v


def norm(E, st, items):
    """drop empty slices, turn tracked elements into slices, merge adjacent slices"""
    out = []
    for x in items:
        if x[0] == 'el':
            for kk in [kk for kk in st.g if kk[0] == 'gs']:
                k, tr, ot = st.g[kk].v
                tv = spv(E, st, tr)
                if same_val(tv[0], x[2]) and isinstance(tv[0], Ptr) and tv[0].r:
                    x = ('sl', kk[1], k, add(k, 1))
                    break
        if x[0] == 'el' and out and out[-1][0] == 'sl' and is_other(E, st, out[-1][1], x) \
                and known(E, st, bv_cmp('ne', out[-1][3], stream(st, out[-1][1])[0], 64)) is True:
            # S[i] for an untracked i
            out[-1] = ('sl', out[-1][1], out[-1][2], add(out[-1][3], 1))
            continue
        if x[0] == 'sl':
            if known(E, st, bv_cmp('eq', x[2], x[3], 64)) is True:
                continue
            if out and out[-1][0] == 'sl' and out[-1][1] == x[1] and known(E, st, bv_cmp('eq', out[-1][3], x[2], 64)) is True:
                out[-1] = ('sl', x[1], out[-1][2], x[3])
                continue
            if out and out[-1][0] == 'sl' and out[-1][1] == x[1]:
                # adjacent unless one of them is empty
                _, S, l, h = out[-1]
                e1, e2 = zb(bv_cmp('eq', l, h, 64)), zb(bv_cmp('eq', x[2], x[3], 64))
                if known(E, st, z3.Or(e1, e2, zb(bv_cmp('eq', h, x[2], 64)))) is True:
                    out[-1] = ('sl', S, simp(z3.If(e1, tobv(x[2], 64), tobv(l, 64))), simp(z3.If(z3.And(e2, z3.Not(e1)), tobv(h, 64), tobv(x[3], 64))))
                    continue
        out.append(x)
    return out


def is_other(E, st, S, x):
    tv = spv(E, st, stream(st, S)[2])
    return same_val(tv[0], x[2]) and isinstance(tv[0], Ptr) and tv[0].r


def zb(c):
    c = tobool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def walk(E, st, a, y):
    """the items a form the slice y (exact), or None"""
    _, S, lo, hi = y
    k, tr, ot = stream(st, S)
    tv, ov = spv(E, st, tr), spv(E, st, ot)
    pos, cs = lo, []
    for x in a:
        if x[0] == 'sl':
            if x[1] != S:
                return None
            cs.append(z3.Or(zb(bv_cmp('eq', x[2], x[3], 64)), zb(bv_cmp('eq', x[2], pos, 64))))
            pos = add(pos, sub(x[3], x[2]))
        else:
            if same_val(tv[0], x[2]):
                cs.append(zb(bv_cmp('eq', pos, k, 64)))
            elif same_val(ov[0], x[2]):
                cs.append(zb(bv_cmp('ne', pos, k, 64)))
            else:
                return None
            pos = add(pos, 1)
    cs.append(zb(bv_cmp('eq', pos, hi, 64)))
    return simp(z3.And(*cs))


def equal(E, st, a, b):
    for x, y in ((a, b), (b, a)):
        if len(y) == 1 and y[0][0] == 'sl':
            r = walk(E, st, x, y[0])
            if r is not None:
                return r
    a, b = norm(E, st, a), norm(E, st, b)
    if max(len(a), len(b)) == 1 and all(x[0] == 'sl' for x in a + b) and len({x[1] for x in a + b}) == 1:
        # slices may be empty: exact
        def empty(v):
            return z3.And([z3.BoolVal(True)] + [zb(bv_cmp('eq', x[2], x[3], 64)) for x in v])
        c = z3.And(empty(a), empty(b))
        if a and b:
            c = z3.Or(c, z3.And(zb(bv_cmp('eq', a[0][2], b[0][2], 64)), zb(bv_cmp('eq', a[0][3], b[0][3], 64))))
        return simp(c)
    if len(a) != len(b):
        # the remaining slices may still be empty: equal only if all surplus is empty -- not decided here
        return False
    cs = []
    for x, y in zip(a, b):
        if x[0] == 'sl' and y[0] == 'el':
            x, y = y, x
        if x[0] == 'el' and y[0] == 'sl' and is_other(E, st, y[1], x):
            cs.append(zb(bv_cmp('eq', add(y[2], 1), y[3], 64)))
            cs.append(zb(bv_cmp('ne', y[2], stream(st, y[1])[0], 64)))
            continue
        if x[0] != y[0]:
            return False
        if x[0] == 'el':
            if not same_val(x[2], y[2]):
                return False
        else:
            if x[1] != y[1]:
                return False
            cs.append(tobool(bv_cmp('eq', x[2], y[2], 64)))
            cs.append(tobool(bv_cmp('eq', x[3], y[3], 64)))
    cs = [z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]
    return simp(z3.And(*cs)) if cs else True


def elem_at(E, st, items, idx):
    """cases of the element at index idx < length: [(state, pointer to the shared_ptr)]"""
    res = []
    base = 0
    rest = st
    for x in items.v:
        n = 1 if x[0] == 'el' else sub(x[3], x[2])
        d = sub(idx, base)
        c = simp(bv_cmp('ult', d, n, 64))
        b = known(E, rest, c)
        if b is not False:
            s = rest.fork() if b is None else rest
            if b is None:
                s.pc.append(tobool(c))
            if x[0] == 'el':
                res.append((s, x[1]))
            else:
                k, tr, ot = stream(s, x[1])
                e = simp(bv_cmp('eq', add(x[2], d), k, 64))
                eb = known(E, s, e)
                if eb is None:
                    s2 = s.fork()
                    s.pc.append(tobool(e))
                    s2.pc.append(z3.Not(tobool(e)))
                    res += [(s, tr), (s2, ot)]
                else:
                    res.append((s, tr if eb else ot))
            if b is True:
                return res
            rest.pc.append(z3.Not(tobool(c)))
        base = add(base, n)
    return res


def L(pat):
    """hook on a method of the list; active in proof mode only"""
    def deco(fn):
        def run(E, st, a, dem, rt):
            if E.o['bmc']:
                return NotImplemented
            return fn(E, st, a, dem, rt)
        hooks.H.append((re.compile(pat), run, LABEL))
        return fn
    return deco


# ---- construction / destruction
@L(r'^%s::list\(\)$' % LIST)
def _(E, st, a, dem, rt):
    put(E, st, a[0], ())
    return one(st)


@L(r'^%s::~list\(\)$' % LIST)
def _(E, st, a, dem, rt):
    drop_iters(st, key(a[0]))
    st.g.pop(key(a[0]), None)
    return one(st)


@L(r'^%s::list\(%s const&\)$' % (LIST, LIST))
def _(E, st, a, dem, rt):
    put(E, st, a[0], get(E, st, a[1]).v)
    return one(st)


@L(r'^%s::(list|operator=)\(%s&&\)$' % (LIST, LIST))
def _(E, st, a, dem, rt):
    v = get(E, st, a[1]).v
    put(E, st, a[1], ())
    put(E, st, a[0], v)
    return one(st, a[0])


@L(r'^%s::operator=\(%s const&\)$' % (LIST, LIST))
def _(E, st, a, dem, rt):
    put(E, st, a[0], get(E, st, a[1]).v)
    return one(st, a[0])


@L(r'^%s::swap\(%s&\)$' % (LIST, LIST))
def _(E, st, a, dem, rt):
    v, w = get(E, st, a[0]).v, get(E, st, a[1]).v
    put(E, st, a[0], w)
    put(E, st, a[1], v)
    return one(st)


# ---- observers
@L(r'^%s::empty\(\) const$' % LIST)
def _(E, st, a, dem, rt):
    return one(st, simp(bv_cmp('eq', length(get(E, st, a[0])), 0, 64)))


@L(r'^%s::(size|_M_node_count)\(\) const$' % LIST)
def _(E, st, a, dem, rt):
    return one(st, length(get(E, st, a[0])))


@L(r'^%s::c?begin\(\)( const)?$' % LIST)
def _(E, st, a, dem, rt):
    return one(st, itreg(E, st, a[0]))


@L(r'^%s::c?end\(\)( const)?$' % LIST)
def _(E, st, a, dem, rt):
    r = itreg(E, st, a[0])
    return one(st, Ptr(r.r, length(get(E, st, a[0]))))


def _acc(E, st, p, last):
    items = get(E, st, p)
    n = length(items)
    E.oblige(st, 'mem', '%s() of an empty list' % ('back' if last else 'front'), tobool(bv_cmp('ne', n, 0, 64)))
    return elem_at(E, st, items, sub(n, 1) if last else 0)


@L(r'^%s::front\(\)( const)?$' % LIST)
def _(E, st, a, dem, rt):
    return _acc(E, st, a[0], False)


@L(r'^%s::back\(\)( const)?$' % LIST)
def _(E, st, a, dem, rt):
    return _acc(E, st, a[0], True)


# ---- modifiers
@L(r'^%s::push_(back|front)\(%s const&\)$' % (LIST, ELT))
def _(E, st, a, dem, rt):
    e = mkel(E, st, spv(E, st, a[1]))
    v = get(E, st, a[0]).v
    put(E, st, a[0], v + (e,) if '::push_back' in dem else (e,) + v)
    return one(st)


@L(r'^%s::push_(back|front)\(%s&&\)$' % (LIST, ELT))
def _(E, st, a, dem, rt):
    e = mkel(E, st, spv(E, st, a[1]))
    E.store(st, a[1], ('p',), NULL)
    E.store(st, E.padd(a[1], 8), ('p',), NULL)
    v = get(E, st, a[0]).v
    put(E, st, a[0], v + (e,) if '::push_back' in dem else (e,) + v)
    return one(st)


@L(r'^.*%s::emplace_back<%s( const)?&>\(%s( const)?&\)$' % (LIST, ELT, ELT))
def _(E, st, a, dem, rt):
    e = mkel(E, st, spv(E, st, a[1]))
    put(E, st, a[0], get(E, st, a[0]).v + (e,))
    return one(st, e[1])


@L(r'^%s::clear\(\)$' % LIST)
def _(E, st, a, dem, rt):
    get(E, st, a[0])
    put(E, st, a[0], ())
    return one(st)


def _pop(E, st, p, front):
    """remove the first/last element -> states"""
    items = get(E, st, p)
    E.oblige(st, 'mem', 'pop of an empty list', tobool(bv_cmp('ne', length(items), 0, 64)))
    res = []
    seq = list(items.v if front else reversed(items.v))
    rest = st
    while seq:
        x = seq[0]
        if x[0] == 'el':
            left = seq[1:]
            put(E, rest, p, left if front else reversed(left))
            return res + [rest]
        c = simp(bv_cmp('ne', x[2], x[3], 64))
        b = known(E, rest, c)
        if b is not False:
            s = rest.fork() if b is None else rest
            if b is None:
                s.pc.append(tobool(c))
            y = ('sl', x[1], add(x[2], 1), x[3]) if front else ('sl', x[1], x[2], sub(x[3], 1))
            left = [y] + seq[1:]
            put(E, s, p, left if front else reversed(left))
            res.append(s)
            if b is True:
                return res
            rest.pc.append(z3.Not(tobool(c)))
        seq = seq[1:]
    return res


@L(r'^%s::pop_(front|back)\(\)$' % LIST)
def _(E, st, a, dem, rt):
    return [(s, None) for s in _pop(E, st, a[0], 'pop_front' in dem)]


@L(r'^%s::erase\(%s\)$' % (LIST, ITER))
def _(E, st, a, dem, rt):
    t = iter_of(E, st, a[1])
    if t is None or t[0][1] != key(a[0]):
        raise Unsupported('foreign list iterator')
    n = length(get(E, st, a[0]))
    E.oblige(st, 'mem', 'erase of the end iterator', tobool(bv_cmp('ult', t[1], n, 64)))
    out = []
    if known(E, st, bv_cmp('eq', t[1], 0, 64)) is True:
        for s in _pop(E, st, a[0], True):
            out.append((s, itreg(E, s, a[0])))
        return out
    if known(E, st, bv_cmp('eq', add(t[1], 1), n, 64)) is True:
        for s in _pop(E, st, a[0], False):
            r = itreg(E, s, a[0])
            out.append((s, Ptr(r.r, length(get(E, s, a[0])))))
        return out
    raise Unsupported('erase in the middle of a list')


def _pos(E, st, lst, it):
    """position of an iterator of lst: 'begin' | 'end'"""
    t = iter_of(E, st, it)
    if t is None or t[0][1] != key(lst):
        raise Unsupported('foreign list iterator')
    if known(E, st, bv_cmp('eq', t[1], length(get(E, st, lst)), 64)) is True:
        return 'end'
    if known(E, st, bv_cmp('eq', t[1], 0, 64)) is True:
        return 'begin'
    raise Unsupported('list insertion in the middle')


@L(r'^(?:%s )?%s::insert<%s, void>\(.*\)$' % (ITER, LIST, ITER))
def _(E, st, a, dem, rt):
    pos = _pos(E, st, a[0], a[1])
    f, l = iter_of(E, st, a[2]), iter_of(E, st, a[3])
    if f is None or l is None or f[0] is not l[0]:
        raise Unsupported('insert of a foreign range')
    src = f[0][2]
    if known(E, st, bv_cmp('eq', f[1], 0, 64)) is not True or known(E, st, bv_cmp('eq', l[1], length(src), 64)) is not True:
        raise Unsupported('insert of a partial range')
    v = get(E, st, a[0]).v
    put(E, st, a[0], v + src.v if pos == 'end' else src.v + v)
    return one(st, itreg(E, st, a[0]))


@L(r'^%s::insert\(%s, %s const&\)$' % (LIST, ITER, ELT))
def _(E, st, a, dem, rt):
    pos = _pos(E, st, a[0], a[1])
    e = mkel(E, st, spv(E, st, a[2]))
    v = get(E, st, a[0]).v
    put(E, st, a[0], v + (e,) if pos == 'end' else (e,) + v)
    return one(st, itreg(E, st, a[0]))


@L(r'^%s::splice\(%s, %s&&?\)$' % (LIST, ITER, LIST))
def _(E, st, a, dem, rt):
    pos = _pos(E, st, a[0], a[1])
    src = get(E, st, a[2]).v
    v = get(E, st, a[0]).v
    put(E, st, a[2], ())
    put(E, st, a[0], v + src if pos == 'end' else src + v)
    return one(st)


# ---- iterators
@L(r'^%s::operator\+\+\((int)?\)$' % ITER)
def _(E, st, a, dem, rt):
    p = E.load(st, a[0], ('p',))
    t = iter_of(E, st, p)
    if t is None:
        return NotImplemented
    E.oblige(st, 'mem', 'increment of the end iterator', tobool(bv_cmp('ult', t[1], length(t[0][2]), 64)))
    E.store(st, a[0], ('p',), Ptr(p.r, add(p.off, 1)))
    return one(st, p if dem.endswith('(int)') else a[0])


@L(r'^%s::operator--\((int)?\)$' % ITER)
def _(E, st, a, dem, rt):
    p = E.load(st, a[0], ('p',))
    t = iter_of(E, st, p)
    if t is None:
        return NotImplemented
    E.oblige(st, 'mem', 'decrement of the begin iterator', tobool(bv_cmp('ne', t[1], 0, 64)))
    E.store(st, a[0], ('p',), Ptr(p.r, sub(p.off, 1)))
    return one(st, p if dem.endswith('(int)') else a[0])


@L(r'^%s::operator(\*|->)\(\) const$' % ITER)
def _(E, st, a, dem, rt):
    p = E.load(st, a[0], ('p',))
    t = iter_of(E, st, p)
    if t is None:
        return NotImplemented
    E.oblige(st, 'mem', 'dereference of the end iterator', tobool(bv_cmp('ult', t[1], length(t[0][2]), 64)))
    return elem_at(E, st, t[0][2], t[1])


@L(r'^(?:\S.* )?%s::(?!get_allocator)(?!max_size)\w.*$' % LIST)
def _(E, st, a, dem, rt):
    raise Unsupported('list operation without a sequence contract: ' + dem.split('(')[0][-60:])


# ---- specification intrinsics
@hook(r'^v_seq_stream$')
def _(E, st, a, dem, rt):
    """v_seq_stream(id, k, &tracked, &other): declares the ghost stream"""
    S = simp(a[0])
    st.g[('gs', S)] = Box((simp(a[1]), a[2], a[3]))
    return one(st)


@hook(r'^v_seq_set$')
def _(E, st, a, dem, rt):
    """v_seq_set(list, id, lo, hi): list := S[lo..hi)"""
    put(E, st, a[0], (('sl', simp(a[1]), simp(a[2]), simp(a[3])),))
    return one(st)


@hook(r'^v_seq_append$')
def _(E, st, a, dem, rt):
    put(E, st, a[0], get(E, st, a[0]).v + (('sl', simp(a[1]), simp(a[2]), simp(a[3])),))
    return one(st)


@hook(r'^v_seq_nil$')
def _(E, st, a, dem, rt):
    st.g['seqval'] = Box(())
    return one(st)


@hook(r'^v_seq_add$')
def _(E, st, a, dem, rt):
    v = spv(E, st, a[0])
    st.g['seqval'] = Box(st.g['seqval'].v + (('el', None, v[0], v[1]),))
    return one(st)


@hook(r'^v_seq_cat$')
def _(E, st, a, dem, rt):
    st.g['seqval'] = Box(st.g['seqval'].v + (('sl', simp(a[0]), simp(a[1]), simp(a[2])),))
    return one(st)


@hook(r'^v_seq_is$')
def _(E, st, a, dem, rt):
    """list == the value built with v_seq_nil/add/cat"""
    return one(st, equal(E, st, get(E, st, a[0]).v, st.g['seqval'].v))


# ---- loops
def changed(s0, s1):
    """lists that exist in s0 and have another content in s1"""
    for k, v in s0.g.items():
        if k[0] == 'seq' and k in s1.g and s1.g[k] is not v:
            if len(v.v) == len(s1.g[k].v) == 0:
                continue
            yield k


def havoc(E, st, keys):
    for k in sorted(keys):
        ss = {x[1] for x in st.g[k].v if x[0] == 'sl'} or {kk[1] for kk in st.g if kk[0] == 'gs'}
        if len(ss) != 1:
            raise Unsupported('list changed in a loop is not a slice of one stream')
        lo, hi = E.fresh('seq_lo', 64), E.fresh('seq_hi', 64)
        st.pc.append(z3.ULE(lo, hi))
        st.pc.append(z3.ULE(hi, 1 << 40))
        drop_iters(st, k)
        st.g[k] = Items((('sl', ss.pop(), lo, hi),))


# ------------------------------------------------------------------ std::set of weak subscribers: iteration and erasure
SET = r'std::set<std::weak_ptr<sps::Subscriber<.*> >, sps::WeakPtrLessThan<.*> >'
SIT = r'std::_Rb_tree_const_iterator<std::weak_ptr<sps::Subscriber<.*> > >'
SLABEL = 'iteration over and erasure from std::set<weak_ptr<Subscriber>> by contract (every element visited once, erasing one element keeps the others)'


def SL(pat):
    def deco(fn):
        def run(E, st, a, dem, rt):
            if E.o['bmc']:
                return NotImplemented
            return fn(E, st, a, dem, rt)
        hooks.H.append((re.compile(pat), run, SLABEL))
        return fn
    return deco


@hook(r'^v_set_slots$')
def _(E, st, a, dem, rt):
    """v_set_slots(set, n, k, &tracked weak_ptr, &other weak_ptr, &use count of other, uint64_t ghost[2]):
    the set has n elements in iteration order, element k is the tracked one, the others are alive or expired arbitrarily;
    ghost[0] = tracked element still present, ghost[1] = 1 + index erased last"""
    s, n, k, tw, ow, oc, gh = a
    kk = ('set', s.r, s.off)
    r = E.new_region(st, 'set_iterators', 1 << 62, 'buf', 'undef', chain=Chain('setit', None), tag=('set', kk))
    st.g[kk] = Box((r, simp(n), simp(k), tw, ow, oc, gh))
    E.store(st, gh, ('i', 64), 1)
    E.store(st, E.padd(gh, 8), ('i', 64), 0)
    return one(st)


def sget(st, p):
    if not isinstance(p, Ptr) or not is_int(p.off):
        return None
    b = st.g.get(('set', p.r, p.off))
    return b.v if b else None


def siter(st, p):
    if isinstance(p, Ptr) and p.r in st.mem and st.mem[p.r].tag and st.mem[p.r].tag[0] == 'set':
        return st.g[st.mem[p.r].tag[1]].v
    return None


@SL(r'^%s::c?begin\(\) const$' % SET)
def _(E, st, a, dem, rt):
    m = sget(st, a[0])
    return NotImplemented if m is None else one(st, m[0])


@SL(r'^%s::c?end\(\) const$' % SET)
def _(E, st, a, dem, rt):
    m = sget(st, a[0])
    return NotImplemented if m is None else one(st, Ptr(m[0].r, m[1]))


@SL(r'^%s::~set\(\)$' % SET)
def _(E, st, a, dem, rt):
    m = sget(st, a[0])
    if m is None:
        return NotImplemented
    del st.g[('set', a[0].r, a[0].off)]
    return one(st)


def _fresh_use(E, st, m, idx):
    erased = E.load(st, E.padd(m[6], 8), ('i', 64))
    E.oblige(st, 'mem', 'use of an erased or end iterator', z3.And(z3.ULT(tobv(idx, 64), tobv(m[1], 64)), tobv(add(idx, 1), 64) != tobv(erased, 64)))


@SL(r'^%s::operator\*\(\) const$' % SIT)
def _(E, st, a, dem, rt):
    p = E.load(st, a[0], ('p',))
    m = siter(st, p)
    if m is None:
        return NotImplemented
    _fresh_use(E, st, m, p.off)
    c = simp(bv_cmp('eq', p.off, m[2], 64))
    b = known(E, st, c)
    out = []
    if b is not False:
        s = st.fork() if b is None else st
        if b is None:
            s.pc.append(tobool(c))
        E.oblige(s, 'mem', 'use of an erased element', tobool(bv_cmp('ne', E.load(s, m[6], ('i', 64)), 0, 64)))
        out.append((s, m[3]))
        if b is True:
            return out
        st.pc.append(z3.Not(tobool(c)))
    v = E.fresh('other_use_count', 32)
    st.pc.append(z3.And(v >= 0, v <= 1000))
    E.store(st, m[5], ('i', 32), v)
    out.append((st, m[4]))
    return out


@SL(r'^%s::operator\+\+\((int)?\)$' % SIT)
def _(E, st, a, dem, rt):
    p = E.load(st, a[0], ('p',))
    m = siter(st, p)
    if m is None:
        return NotImplemented
    _fresh_use(E, st, m, p.off)
    E.store(st, a[0], ('p',), Ptr(p.r, add(p.off, 1)))
    return one(st, p if dem.endswith('(int)') else a[0])


@SL(r'^(?:\S+ )?%s::erase(\[abi:cxx11\])?\(%s\)$' % (SET, SIT))
def _(E, st, a, dem, rt):
    m = sget(st, a[0])
    if m is None:
        return NotImplemented
    p = a[1]
    if siter(st, p) is not m:
        raise Unsupported('erase with a foreign iterator')
    _fresh_use(E, st, m, p.off)
    c = bv_cmp('eq', p.off, m[2], 64)
    old = E.load(st, m[6], ('i', 64))
    from sym import ite
    c = simp(c)
    E.store(st, m[6], ('i', 64), (0 if c else old) if is_int(c) else ite(tobool(c), 0, old, 64))
    E.store(st, E.padd(m[6], 8), ('i', 64), add(p.off, 1))
    return one(st, Ptr(p.r, add(p.off, 1)))


@SL(r'^(?:\S.* )?%s::\w.*$' % SET)
def _(E, st, a, dem, rt):
    if a and isinstance(a[0], Ptr) and sget(st, a[0]) is not None:
        raise Unsupported('set operation without a contract: ' + dem[-80:])
    return NotImplemented
