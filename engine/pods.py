"""std::list<T> for plain data T as an array of its elements (proof mode only).

A list object holds a pointer to its elements (an array) in its first cell and its length in its size cell; an iterator is
a pointer to an element.  push_back copies the element behind the last one.  Assumed library contracts of std::list."""
import re
from sym import Ptr, NULL, Unsupported, Infeasible, simp, is_int, bv_bin, bv_cmp, tobool
import hooks
from hooks import one

PODS = ('sps::RtpAacAu',)
T = r'(?P<T>%s)' % '|'.join(re.escape(x) for x in PODS)
LIST = r'std::__cxx11::list<%s, std::allocator<(?:%s)> >' % (T, '|'.join(re.escape(x) for x in PODS))
ITER = r'std::_List_(?:const_)?iterator<%s>' % T
LABEL = 'std::list of plain data as an array'


def L(pat):
    rx = re.compile(pat)

    def deco(fn):
        def run(E, st, a, dem, rt):
            if E.o['bmc']:
                return NotImplemented
            name = rx.search(dem).group('T')
            k = [k for k in ('%struct.' + name, '%class.' + name) if k in E.m.types]
            if not k:
                raise Unsupported('size of ' + name)
            sz = E.m.size(('n', k[0]))
            return fn(E, st, a, sz)
        hooks.H.append((rx, run, LABEL))
        return fn
    return deco


def data(E, st, l):
    p = E.load(st, l, ('p',))
    if not isinstance(p, Ptr) or st.mem[p.r].name != 'elements':
        raise Unsupported('list of unknown content')
    return p


def length(E, st, l):
    return E.load_int(st, E.padd(l, 16), 8)


def inside(E, st, p, sz, what):
    l = st.g.get(('podlist', p.r)) if isinstance(p, Ptr) else None
    if l is None:
        raise Unsupported('iterator of an unknown list')
    if not st.mem[p.r].live:
        E.oblige(st, 'mem', 'use-after-free-list', False)
    E.oblige(st, 'mem', what, tobool(bv_cmp('ult', p.off, simp(bv_bin('mul', length(E, st, l), sz, 64)), 64)))


@L(r'^%s::list\(\)$' % LIST)
def _(E, st, a, sz):
    p = E.new_region(st, 'elements', sz << 32, 'buf', 'undef')
    st.g[('podlist', p.r)] = a[0]
    E.store(st, a[0], ('p',), p)
    E.store_int(st, E.padd(a[0], 16), 8, 0)
    return one(st)


@L(r'^%s::~list\(\)$' % LIST)
def _(E, st, a, sz):
    E.wr(st, data(E, st, a[0]).r).live = False
    return one(st)


@L(r'^%s::push_back\((?P=T)( const&|&&)\)$' % LIST)
def _(E, st, a, sz):
    d, n = data(E, st, a[0]), length(E, st, a[0])
    E.memcpy(st, E.padd(d, simp(bv_bin('mul', n, sz, 64))), a[1], sz)
    E.store_int(st, E.padd(a[0], 16), 8, simp(bv_bin('add', n, 1, 64)))
    return one(st)


@L(r'^%s::clear\(\)$' % LIST)
def _(E, st, a, sz):
    E.store_int(st, E.padd(a[0], 16), 8, 0)
    return one(st)


@L(r'^%s::(size|_M_node_count)\(\) const$' % LIST)
def _(E, st, a, sz):
    return one(st, length(E, st, a[0]))


@L(r'^%s::empty\(\) const$' % LIST)
def _(E, st, a, sz):
    return one(st, simp(bv_cmp('eq', length(E, st, a[0]), 0, 64)))


@L(r'^%s::c?begin\(\)( const)?$' % LIST)
def _(E, st, a, sz):
    return one(st, data(E, st, a[0]))


@L(r'^%s::c?end\(\)( const)?$' % LIST)
def _(E, st, a, sz):
    return one(st, E.padd(data(E, st, a[0]), simp(bv_bin('mul', length(E, st, a[0]), sz, 64))))


@L(r'^%s::operator(\*|->)\(\) const$' % ITER)
def _(E, st, a, sz):
    p = E.load(st, a[0], ('p',))
    inside(E, st, p, sz, 'dereference of the end iterator')
    return one(st, p)


@L(r'^%s::operator\+\+\(\)$' % ITER)
def _(E, st, a, sz):
    p = E.load(st, a[0], ('p',))
    inside(E, st, p, sz, 'increment of the end iterator')
    E.store(st, a[0], ('p',), E.padd(p, sz))
    return one(st, a[0])
