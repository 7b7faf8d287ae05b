"""Loop cutting with inductive invariants (Houdini).

Invariant candidates come from the specification (nullary predicates over the heap and ghost state; unary predicates
over a loop variable, tried on every loop variable) and from fixed arithmetic templates over whatever variables the loop
modifies; nothing refers to names of locals.  A candidate is kept only if it holds on entry and is preserved by an
arbitrary iteration started from all kept candidates, so what is kept is an inductive invariant of the real loop."""
import z3
from sym import (Ptr, FnPtr, NULL, Opaque, Unsupported, Infeasible, Chain, chain_read, simp, is_int, bv_bin, bv_cmp,
                 bv_ext, bv_trunc, tobv, tobool, ite, concat_bytes, byte_of, same_val, Deadline)
import seqs


def scalar64(v, w):
    return bv_ext(v, w, 64, True) if w < 64 else v


class Cand:
    __slots__ = ('name', 'fn', 'user', 'fix')

    def __init__(self, name, fn, user=False):
        self.name, self.fn, self.user, self.fix = name, fn, user, None


def eval_pred(E, st, fname, args):
    """call a boolean spec function on a scratch copy of the state -> z3 Bool / bool"""
    s = st.fork()
    base = len(s.pc)
    E.quiet += 1
    try:
        res = E.call(s, '@' + fname, args)
    except Infeasible:
        return False
    finally:
        E.quiet -= 1
    parts = []
    for s2, r in res:
        d = s2.pc[base:]
        rb = tobool(r)
        if rb is True:
            continue
        if rb is False:
            rb = z3.BoolVal(False)
        parts.append(z3.Implies(z3.And(*d), rb) if d else rb)
    if not parts:
        return True
    return z3.And(*parts) if len(parts) > 1 else parts[0]


def cut_loop(E, f, hdr, prev, env, st, iters, outer_stop):
    loops, rpo, nest = f.loops
    body = loops[hdr]
    phis = []
    for ins in f.blocks[hdr]:
        if ins.op != 'phi':
            break
        phis.append(ins)
    init = {}
    for ins in phis:
        init[ins.res] = E.val(st, env, ins.ty, ins.a[prev])
    entry_rids = set(st.mem)
    mods = {}          # (rid, off, n) int cell  /  (rid, None, None) whole buffer
    same_phi = set()   # pointer phis that keep their value are handled by templates

    # integer-typed view of cells
    def havoc(s):
        ph = {}
        for ins in phis:
            ty = E.m.res(ins.ty)
            v0 = init[ins.res]
            if ty[0] == 'i':
                ph[ins.res] = E.fresh('lv' + ins.res, ty[1])
            elif ty[0] == 'p':
                if ins.res in poisonphi:
                    # changes its object: usable only as a value that is overwritten, compared or released
                    ph[ins.res] = E.fresh('lpoison' + ins.res, 64)
                elif isinstance(v0, Ptr):
                    if ins.res in vary:
                        ph[ins.res] = Ptr(v0.r, E.fresh('lp' + ins.res, 64))
                    else:
                        ph[ins.res] = v0
                else:
                    if ins.res in vary:
                        raise Unsupported('loop-carried opaque pointer')
                    ph[ins.res] = v0
            else:
                raise Unsupported('loop-carried %r' % (ty,))
        for (rid, off, n) in mods:
            r = E.wr(s, rid)
            if off is None:
                if r.kind == 'obj':
                    r = E.to_buf(s, r)
                r.chain = E.fresh_arr('loopbuf_' + r.name)
            elif (rid, off) in poison:
                E.obj_put(r, off, n, E.fresh('lpoison', 64))
            else:
                c = r.cells.get(off)
                if c is not None and isinstance(c[1], Ptr):
                    if (rid, off) in ptrvary:
                        r.cells[off] = (n, Ptr(c[1].r, E.fresh('lpc', 64)))
                    continue
                E.obj_put(r, off, n, E.fresh('lc_%s_%d' % (r.name, off), 8 * n))
        seqs.havoc(E, s, seqmods)
        return ph

    vary = set()
    ptrvary = set()
    poison = set()
    poisonphi = set()
    seqmods = set()

    def run_body(s, ph):
        stop = {'hdr': hdr, 'body': body, 'phis': ph, 'back': [], 'exits': [], 'prev': '#cut'}
        rets = E.explore(f, [(hdr, '#cut', 0, dict(env), s, dict(iters))], stop)
        return stop['back'], stop['exits'], rets

    def diff(s0mem, s1):
        """locations of entry regions that differ"""
        new = set()
        for rid in entry_rids:
            r0, r1 = s0mem.get(rid), s1.mem.get(rid)
            if r0 is r1 or r1 is None or r0 is None:
                continue
            if not r1.live and r0.live:
                raise Unsupported('loop frees an object')
            if r1.kind == 'buf' or r0.kind == 'buf':
                if r1.kind != r0.kind or r1.chain is not r0.chain:
                    new.add((rid, None, None))
                continue
            for off, (n, v) in r1.cells.items():
                c0 = r0.cells.get(off)
                if c0 is not None and c0[0] == n and same_val(c0[1], v):
                    continue
                if c0 is None and r0.base == 'undef' and z3.is_expr(v) and z3.is_const(v) and \
                        v.decl().name().startswith('undef_'):
                    continue
                new.add((rid, off, n))
        return new

    # ---- 1. discover what the loop modifies
    E.quiet += 1
    try:
        for rounds in range(12):
            s = st.fork()
            ph = havoc(s)
            before = dict(s.mem)
            s.own = set()
            back, exits, rets = run_body(s, ph)
            grow = False
            for (b, pv, e2, s2) in back:
                for sk in seqs.changed(s, s2):
                    if sk not in seqmods:
                        seqmods.add(sk)
                        grow = True
                for loc in diff(before, s2):
                    rid, off, n = loc
                    if off is not None and (rid, off) not in poison:
                        v = s2.mem[rid].cells[off][1]
                        c0 = before[rid].cells.get(off)
                        if isinstance(v, (Ptr, FnPtr)) or (c0 and isinstance(c0[1], (Ptr, FnPtr))):
                            if isinstance(v, Ptr) and c0 and isinstance(c0[1], Ptr) and v.r == c0[1].r:
                                if (rid, off) not in ptrvary:
                                    ptrvary.add((rid, off))
                                    grow = True
                            else:
                                if n != 8:
                                    raise Unsupported('loop modifies pointer cell of %s' % s2.mem[rid].name)
                                poison.add((rid, off))
                                ptrvary.discard((rid, off))
                                grow = True
                    if loc not in mods:
                        mods[loc] = True
                        grow = True
                for ins in phis:
                    v = E.val(s2, e2, ins.ty, ins.a[pv])
                    cur = ph[ins.res]
                    if E.m.res(ins.ty)[0] == 'p' and not same_val(v, cur):
                        if isinstance(v, Ptr) and isinstance(cur, Ptr) and v.r == cur.r:
                            if ins.res not in vary:
                                vary.add(ins.res)
                                grow = True
                        elif ins.res not in poisonphi:
                            poisonphi.add(ins.res)
                            vary.discard(ins.res)
                            grow = True
            if not grow:
                break
        else:
            raise Unsupported('loop modification set does not stabilise')
    finally:
        E.quiet -= 1

    # overlapping cells: fall back to Unsupported
    # ---- 2. candidates
    setter = {}
    vars_ = []   # (name, getter(state, phimap)->value, width, init, isptr)
    for ins in phis:
        ty = E.m.res(ins.ty)
        if ty[0] == 'i' and ty[1] > 1:
            vars_.append((ins.res, (lambda s, p, k=ins.res: p[k]), ty[1], init[ins.res], False))
            setter[vars_[-1][1]] = lambda s, p, t, k=ins.res: p.__setitem__(k, t)
        elif ty[0] == 'p' and ins.res in vary and ins.res not in poisonphi:
            vars_.append((ins.res, (lambda s, p, k=ins.res: p[k].off), 64, init[ins.res].off, True))
    for (rid, off, n) in sorted(k for k in mods if k[1] is not None):
        c = st.mem[rid].cells.get(off)
        if (rid, off) in ptrvary:
            vars_.append(('%s+%d' % (st.mem[rid].name, off), (lambda s, p, r=rid, o=off: s.mem[r].cells[o][1].off), 64,
                          c[1].off, True))
            continue
        if (rid, off) in poison:
            continue
        v0 = c[1] if c is not None and c[0] == n else None
        if v0 is not None and isinstance(v0, (Ptr, FnPtr, Opaque)):
            v0 = None

        def get(s, p, r=rid, o=off, n=n):
            c = s.mem[r].cells.get(o)
            if c is not None and c[0] == n and not isinstance(c[1], (Ptr, FnPtr, Opaque)):
                return tobv(c[1], 8 * n)
            rr = s.mem[r].clone()
            return concat_bytes([E.obj_byte(rr, o + i) for i in range(n)])
        if n in (1, 2, 4, 8):
            vars_.append(('%s+%d' % (st.mem[rid].name, off), get, 8 * n, v0, False))
            setter[get] = lambda s, p, t, r=rid, o=off, n=n: E.obj_put(E.wr(s, r), o, n, t)
    # loop-invariant terms by width
    terms = {}

    def add_term(w, v):
        L = terms.setdefault(w, [])
        for x in L:
            if same_val(x, v):
                return
        if len(L) < 24:
            L.append(v)
    for b in body:
        for ins in f.blocks[b]:
            if ins.op in ('icmp', 'bin'):
                ty = E.m.res(ins.ty)
                if ty[0] != 'i' or ty[1] == 1:
                    if ty[0] == 'p':
                        for o in ins.a[1:]:
                            if o[0] == 'l' and o[1] in env and isinstance(env[o[1]], Ptr):
                                add_term(64, env[o[1]].off)
                    continue
                for o in ins.a[1:]:
                    if o[0] == 'c':
                        add_term(ty[1], o[1])
                    elif o[0] == 'l' and o[1] in env and not isinstance(env[o[1]], (Ptr, FnPtr, list, Opaque)):
                        add_term(ty[1], env[o[1]])
    for rid in entry_rids:
        r = st.mem[rid]
        if r.kind != 'obj' or r.ro:
            continue
        if any(m[0] == rid for m in mods):
            for off, (n, v) in r.cells.items():
                if (rid, off, n) not in mods and n in (4, 8) and not isinstance(v, (Ptr, FnPtr, Opaque)):
                    add_term(8 * n, v)
    for (rid, off, n) in mods:
        if off is None:
            add_term(64, st.mem[rid].size)
    cands = []
    for nm, g, w, v0, isp in vars_:
        ts = [0] + ([v0] if v0 is not None else []) + [t for t in terms.get(w, [])]
        if w == 64:
            ts += [simp(bv_ext(t, 32, 64, True)) for t in terms.get(32, []) if not is_int(t)]
        seen = []
        for t in ts:
            if any(same_val(t, x) for x in seen):
                continue
            seen.append(t)
            for pred in ('ule', 'uge', 'sle', 'sge', 'ne', 'eq'):
                cands.append(Cand('%s %s %s' % (nm, pred, t), (lambda s, p, g=g, t=t, w=w, pr=pred: bv_cmp(pr, tobv(g(s, p), w), t, w))))
                if pred == 'eq' and is_int(t) and not isp and g in setter:
                    cands[-1].fix = (setter[g], t)
    for i in range(len(vars_)):
        for j in range(len(vars_)):
            if i == j:
                continue
            a, b = vars_[i], vars_[j]
            if a[3] is not None and b[3] is not None and i < j:
                def dl(s, p, v):
                    return scalar64(bv_bin('sub', tobv(v[1](s, p), v[2]), tobv(v[3], v[2]), v[2]), v[2])
                cands.append(Cand('d%s==d%s' % (a[0], b[0]), lambda s, p, a=a, b=b: tobv(dl(s, p, a), 64) == tobv(dl(s, p, b), 64)))
                cands.append(Cand('d%s==-d%s' % (a[0], b[0]), lambda s, p, a=a, b=b: tobv(dl(s, p, a), 64) == -tobv(dl(s, p, b), 64)))
            if a[2] == b[2]:
                cands.append(Cand('%s<=%s' % (a[0], b[0]), lambda s, p, a=a, b=b: z3.ULE(tobv(a[1](s, p), a[2]), tobv(b[1](s, p), b[2]))))
    # pairwise sums against terms (e.g. pos + left == total): covered by difference equalities
    for inv in E.inv_nullary:
        cands.append(Cand(inv, (lambda s, p, inv=inv: eval_pred(E, s, inv, [])), True))
    for inv in E.inv_unary:
        fn = E.m.func('@' + inv)
        pt = E.m.res(fn.params[0][0])
        for nm, g, w, v0, isp in vars_:
            if pt[0] == 'p':
                continue
            if isp:
                cands.append(Cand('%s(%s)' % (inv, nm), (lambda s, p, inv=inv, g=g: eval_pred(E, s, inv, [g(s, p)])), True))
                continue
            cands.append(Cand('%s(sext %s)' % (inv, nm), (lambda s, p, inv=inv, g=g, w=w: eval_pred(E, s, inv, [scalar64(g(s, p), w)])), True))
        if pt[0] == 'p':
            for ins in phis:
                if E.m.res(ins.ty)[0] == 'p':
                    cands.append(Cand('%s(%s)' % (inv, ins.res), (lambda s, p, inv=inv, k=ins.res: eval_pred(E, s, inv, [p[k]])), True))

    def tob(x):
        if isinstance(x, (int, bool)):
            return z3.BoolVal(bool(x))
        return x

    def filter_valid(s, ph, cs):
        """keep the candidates valid in state s; returns (kept list)"""
        ev = []
        for c in cs:
            try:
                ev.append((c, tob(c.fn(s, ph))))
            except (Unsupported, KeyError, AttributeError):
                pass
        ev = [(c, z3.simplify(x)) for c, x in ev]
        keep = [(c, x) for c, x in ev if not z3.is_false(x)]
        # cheap rounds with the integer abstraction: suspects are the candidates its model falsifies
        for _ in range(200):
            nt = [x for c, x in keep if not z3.is_true(x)]
            if not nt:
                return [c for c, x in keep]
            m = E.lia_model(s.pc, z3.Not(z3.And(*nt)))
            if m is None:
                return [c for c, x in keep]
            sus = [(c, x) for c, x in keep if not z3.is_true(x) and m(x)]
            if not sus:
                sus = [(c, x) for c, x in keep if not z3.is_true(x)]
            sid = {id(c) for c, x in sus}
            bad = {id(c) for c, x in sus if not valid(s, x, c.user)}
            keep = [(c, x if id(c) not in sid else z3.BoolVal(True)) for c, x in keep if id(c) not in bad]
        raise Unsupported('invariant filtering does not converge')

    def valid(s, x, user):
        r = E.check(s.pc, z3.Not(x), quick=not user, ms=15000 if user and E.o['tmpl'] == 'eq' else None if user else 1500)
        return r == z3.unsat

    def fix(s, p):
        for c in cands:       # a cell known to equal a constant is that constant
            if c.fix:
                c.fix[0](s, p, c.fix[1])

    if E.o['tmpl'] == 'eq':
        cands = [c for c in cands if c.user or c.fix]
    s_in = st.fork()
    cands = filter_valid(s_in, init, cands)
    E.quiet += 1
    try:
        while True:
            s = st.fork()
            ph = havoc(s)
            fix(s, ph)
            assume(E, s, [tob(c.fn(s, ph)) for c in cands])
            s.own = set()
            try:
                back, exits, rets = run_body(s, ph)
            except Infeasible:
                back = []
            n0 = len(cands)
            for (b, pv, e2, s2) in back:
                ph2 = {ins.res: E.val(s2, e2, ins.ty, ins.a[pv]) for ins in phis}
                cands = filter_valid(s2, ph2, cands)
            if len(cands) == n0:
                break
    finally:
        E.quiet -= 1
    # ---- 3. final pass with obligations on
    rep = E.loop_report.setdefault((f.demangled.split('(')[0], hdr), {'kept': set(), 'modifies': len(mods) + len(phis)})
    rep['kept'] = sorted(c.name for c in cands if c.user)
    rep['templates'] = sum(1 for c in cands if not c.user)
    if not E.quiet:
        for c in cands:
            if c.user:
                for k in ('init', 'preserved'):
                    E.obl += 1
                    E.discharged += 1
                    E.obl_kinds['invariant'] = E.obl_kinds.get('invariant', 0) + 1
                    nm = 'invariant:%s.%s' % (c.name.split('(')[0], k)
                    E.obl_names[nm] = E.obl_names.get(nm, 0) + 1
    s = st.fork()
    ph = havoc(s)
    fix(s, ph)
    assume(E, s, [tob(c.fn(s, ph)) for c in cands])
    s.own = set()
    s.trace = s.trace + (('cut', f.demangled, 0, None),)
    back, exits, rets = run_body(s, ph)
    out = []
    for (b2, pv, e2, s2) in exits:
        if outer_stop is not None and b2 not in outer_stop['body']:
            out.append(('exit', b2, pv, e2, s2))
        else:
            out.append(('item', (b2, pv, 0, e2, s2, iters)))
    for s2, v in rets:
        out.append(('ret', s2, v))
    return out


def assume(E, s, fs):
    fs = [z3.simplify(x) for x in fs]
    fs = [x for x in fs if not z3.is_true(x)]
    for x in fs:
        s.pc.append(x)
    if fs and E.check(s.pc) == z3.unsat:
        raise Infeasible()
