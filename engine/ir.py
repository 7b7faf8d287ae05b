"""Textual LLVM-18 IR reader (lazy: a function body is parsed when it is first executed)."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
    (?P<str>c"(?:[^"\\]|\\.)*")
  | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[\w.$-]*))
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+)(?![\w.])
  | (?P<q>"(?:[^"\\]|\\.)*")
  | (?P<word>[A-Za-z_$.][\w.$-]*)
  | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('tokenize: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name

VOID = ('v',)
PTR = ('p',)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'returned', 'nest', 'swiftself', 'immarg', 'writeonly', 'nofree', 'noreturn', 'inrange', 'writable',
               'dead_on_unwind', 'nounwind', 'allocptr', 'allocalign'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                   'preallocated', 'inalloca', 'alignstack'}
CC = {'fastcc', 'ccc', 'coldcc', 'tailcc'}
FAST = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res, ty, a, line=None):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line

    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)


class Function:
    __slots__ = ('name', 'ret', 'params', 'body_text', 'mod', '_blocks', 'entry', '_loops', 'demangled', 'vararg',
                 'sub', 'allocas')

    def __init__(self, name, ret, params, body_text, mod, vararg, sub):
        self.name, self.ret, self.params, self.body_text, self.mod = name, ret, params, body_text, mod
        self._blocks = None
        self._loops = None
        self.entry = None
        self.vararg = vararg
        self.sub = sub

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        cur = None
        lines = self.body_text
        i = 0
        nparams_unnamed = 0
        for (t, nme) in self.params:
            pass
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):', ln)
                if not m:
                    raise SyntaxError(ln)
                nme = m.group(1)
                if nme[0] == '"':
                    nme = nme[1:-1]
                cur = []
                blocks[nme] = cur
                if self.entry is None:
                    self.entry = nme
                continue
            if cur is None:
                # implicit entry label: number after unnamed params
                k = sum(1 for (_, p) in self.params if re.match(r'^%\d+$', p or ''))
                cur = []
                blocks[str(k)] = cur
                self.entry = str(k)
            if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s:
                while ']' not in lines[i - 1].split('!dbg')[0] or lines[i - 1].strip().startswith('switch'):
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            elif (s.startswith('invoke ') or ' = invoke ' in s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            elif s.startswith('landingpad') or ' = landingpad' in s:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            cur.append(self.mod.parse_inst(s))
        self._blocks = blocks
        self.allocas = [i.res for b in blocks.values() for i in b if i.op == 'alloca']

    # ---- CFG / natural loops -------------------------------------------------
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal']]
        return []

    @property
    def loops(self):
        """header -> set(body blocks); rpo index dict"""
        if self._loops is not None:
            return self._loops
        order = []
        seen = set()
        self.blocks
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators (iterative)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if rpo[s] <= rpo[b] and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # make loop nest keys: chain of headers for each block (outermost first)
        nest = {}
        for b in order:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: -len(loops[h]))
            nest[b] = hs
        self._loops = (loops, rpo, nest)
        return self._loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.fn_text = {}
        self.functions = {}
        self.globals = {}
        self.global_text = {}
        self.aliases = {}
        self.decls = {}
        self.lines = {}
        self._szcache = {}
        self._scan(text)
        self._demangle()

    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == 'd' and ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = self._fname(ln)
                self.fn_text[name] = (ln, i + 1, j)
                i = j + 1
                continue
            if c == 'd' and ln.startswith('declare '):
                self.decls[self._fname(ln)] = ln
            elif c == '%':
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)) = type (.*)$', ln)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)) = (.*)$', ln)
                self.global_text[unq(m.group(1))] = m.group(2)
            elif c == '!':
                m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    self.lines[m.group(1)] = int(m.group(2))
            i += 1
        self._lines = lines
        self._types = {}

    @staticmethod
    def _fname(ln):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', ln)
        nme = m.group(1)
        return '@' + (nme[1:-1] if nme[0] == '"' else nme)

    def _demangle(self):
        names = [x[1:] for x in list(self.fn_text) + list(self.decls)]
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        dem = p.stdout.split('\n')
        self.dem = {'@' + a: b for a, b in zip(names, dem)}
        self.by_dem = {}
        for a, b in self.dem.items():
            if a in self.fn_text or b not in self.by_dem:
                self.by_dem[b] = a

    def func(self, name):
        f = self.functions.get(name)
        if f is None:
            if name not in self.fn_text:
                if name in self.aliases_():
                    return self.func(self.aliases_()[name])
                return None
            hdr, a, b = self.fn_text[name]
            f = self._parse_header(name, hdr, self._lines[a:b])
            f.demangled = self.dem.get(name, name)
            self.functions[name] = f
        return f

    def aliases_(self):
        if not self.aliases:
            self.aliases = {'': ''}
            for g, t in self.global_text.items():
                m = re.search(r'\balias [^@]*@("(?:[^"\\]|\\.)*"|[\w.$-]+)\s*$', t)
                if m:
                    self.aliases[g] = '@' + m.group(1).strip('"')
        return self.aliases

    def _parse_header(self, name, hdr, body):
        i = hdr.index('@' + name[1:] + '(') if ('@' + name[1:] + '(') in hdr else hdr.index('@"' + name[1:] + '"(')
        pre = hdr[:i]
        rest = hdr[hdr.index('(', i):]
        toks = tokenize(pre)
        P = Parser(self, toks)
        P.i = 0
        rt = None
        # return type = last type in prefix
        while P.i < len(P.t):
            k, v = P.t[P.i]
            if P.at_type() and v not in ('dso_local',):
                rt = P.type()
            else:
                P.i += 1
                if P.peek('('):
                    P.skip_parens()
        # params
        depth = 0
        for j, ch in enumerate(rest):
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0:
                    break
        P = Parser(self, tokenize(rest[1:j]))
        params = []
        vararg = False
        cnt = 0
        while P.i < len(P.t):
            if P.peek('...'):
                vararg = True
                P.i += 1
                break
            ty = P.type()
            P.attrs()
            nm = None
            if P.i < len(P.t) and P.t[P.i][0] == 'id':
                nm = unq(P.t[P.i][1])
                P.i += 1
            else:
                nm = '%' + str(cnt)
            cnt += 1
            params.append((ty, nm))
            if P.peek(','):
                P.i += 1
        return Function(name, rt, params, body, self, vararg, None)

    # ---- types ---------------------------------------------------------------
    def named(self, name):
        t = self._types.get(name)
        if t is None:
            txt = self.types.get(name, 'opaque')
            if txt == 'opaque':
                t = ('x',)
            else:
                t = Parser(self, tokenize(txt)).type()
            self._types[name] = t
        return t

    def res(self, t):
        while t[0] == 'n':
            t = self.named(t[1])
        return t

    def size(self, t):
        return self.szal(t)[0]

    def szal(self, t):
        r = self._szcache.get(t)
        if r is None:
            r = self._szal(t)
            self._szcache[t] = r
        return r

    def _szal(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'p':
            return (8, 8)
        if k == 'f':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        if k == 'a':
            s, a = self.szal(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.szal(t[2])
            return (s * t[1], s * t[1])
        if k == 's':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.szal(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'v':
            return (0, 1)
        raise SyntaxError('size of %r' % (t,))

    def field_off(self, t, idx):
        t = self.res(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.szal(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, e
            off += s
        raise IndexError

    # ---- globals -------------------------------------------------------------
    def global_def(self, name):
        """-> (type, init_const|None, is_const) or None for functions/unknown"""
        g = self.globals.get(name)
        if g is not None:
            return g
        txt = self.global_text.get(name)
        if txt is None:
            return None
        toks = tokenize(txt)
        P = Parser(self, toks)
        const = False
        ext = False
        while True:
            k, v = P.t[P.i]
            if v == 'global' or v == 'constant':
                const = (v == 'constant')
                P.i += 1
                break
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'alias':
                self.globals[name] = ('alias', txt)
                return self.globals[name]
            P.i += 1
            if P.peek('('):
                P.skip_parens()
        ty = P.type()
        init = None
        if not ext and P.i < len(P.t) and not P.peek(','):
            init = P.const(ty)
        g = (ty, init, const)
        self.globals[name] = g
        return g

    # ---- instructions --------------------------------------------------------
    def parse_inst(self, s):
        line = None
        k = s.find(', !')
        if k >= 0 and not s.startswith('call') or (k >= 0 and 'metadata' not in s):
            m = re.search(r', !dbg !(\d+)', s)
            if m:
                line = self.lines.get(m.group(1))
            s2 = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
            s2 = re.sub(r'(, ![\w.]+ !\d+)+', '', s2)
            s = s2
        P = Parser(self, tokenize(s))
        res = None
        if P.t[0][0] == 'id' and len(P.t) > 1 and P.t[1][1] == '=':
            res = unq(P.t[0][1])
            P.i = 2
        op = P.word()
        if op in ('tail', 'musttail', 'notail'):
            op = P.word()
        f = getattr(P, 'i_' + op, None)
        if f is None:
            if op in BINOPS:
                return P.binop(op, res, line)
            if op in CASTS:
                return P.cast(op, res, line)
            raise SyntaxError('inst: ' + s)
        ins = f(res)
        ins.line = line
        return ins


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
          'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'addrspacecast'}


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'word')

    def word(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def expect(self, v):
        if self.t[self.i][1] != v:
            raise SyntaxError('expected %s got %r in %r' % (v, self.t[self.i], self.t))
        self.i += 1

    def skip_parens(self):
        d = 0
        while True:
            v = self.t[self.i][1]
            self.i += 1
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def at_type(self):
        k, v = self.t[self.i]
        if k == 'word':
            return bool(re.match(r'^i\d+$', v)) or v in ('ptr', 'void', 'float', 'double', 'x86_fp80', 'label', 'token',
                                                         'metadata', 'half', 'fp128', 'opaque')
        if k == 'id':
            return v[0] == '%'
        return k == 'p' and v in '[{<'

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'ptr':
                if self.peek('addrspace'):
                    self.i += 1
                    self.skip_parens()
                t = PTR
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = ('f', 32)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v in ('label', 'token', 'metadata', 'opaque'):
                t = ('x',)
            else:
                m = re.match(r'^i(\d+)$', v)
                if not m:
                    raise SyntaxError('type %r' % (self.t[self.i - 1:],))
                t = ('i', int(m.group(1)))
        elif k == 'id':
            t = ('n', unq(v))
        elif v == '[':
            n = int(self.word())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            es = []
            while not self.peek('}'):
                es.append(self.type())
                if self.peek(','):
                    self.i += 1
            self.i += 1
            t = ('s', tuple(es), False)
        elif v == '<':
            if self.peek('{'):
                self.i += 1
                es = []
                while not self.peek('}'):
                    es.append(self.type())
                    if self.peek(','):
                        self.i += 1
                self.i += 1
                self.expect('>')
                t = ('s', tuple(es), True)
            else:
                n = int(self.word())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise SyntaxError('type at %r in %r' % (self.t[self.i - 1], self.t[:12]))
        # function type
        if self.peek('(') and t is not None and self._fn_type_ahead():
            ps = []
            self.i += 1
            while not self.peek(')'):
                if self.peek('...'):
                    self.i += 1
                else:
                    ps.append(self.type())
                    self.attrs()
                if self.peek(','):
                    self.i += 1
            self.i += 1
            return ('fn', t, tuple(ps))
        return t

    def _fn_type_ahead(self):
        # "(" directly after a type only occurs for function types (call void (ptr, ...) @f(...))
        return True

    def attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
                if v == 'inrange' and self.peek('('):
                    self.skip_parens()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.i += 1
                if self.peek('('):
                    self.skip_parens()
                else:
                    self.i += 1
            elif k in ('attr', 'q'):
                self.i += 1
            else:
                return

    # operand: ('c',int) ('l',name) ('g',name) ('null',) ('undef',) ('ce',op,...) ('agg',[..]) ('zero',) ('str',bytes)
    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'id' and v[0] == '%':
            self.i += 1
            return ('l', unq(v))
        return self.const(ty)

    def const(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            return ('g', unq(v))
        if k == 'num':
            rt = self.m.res(ty)
            if rt[0] == 'i':
                return ('c', int(v) & ((1 << rt[1]) - 1))
            if rt[0] == 'f':
                return ('fc', v)
            return ('c', int(v))
        if k == 'str':
            return ('str', self._cstr(v))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if v == '[' or v == '{' or v == '<':
            packed = False
            if v == '<' and self.peek('{'):
                packed = True
                self.i += 1
            els = []
            close = {'[': ']', '{': '}', '<': '}' if packed else '>'}[v]
            while not self.peek(close):
                t = self.type()
                els.append((t, self.const(t)))
                if self.peek(','):
                    self.i += 1
            self.i += 1
            if packed:
                self.expect('>')
            return ('agg', els)
        if v == 'getelementptr':
            while self.t[self.i][0] == 'word' and self.t[self.i][1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.i += 1
                if self.peek('('):
                    if self.t[self.i - 1][1] == 'inrange':
                        self.skip_parens()
            self.expect('(')
            t = self.type()
            self.expect(',')
            bt = self.type()
            b = self.const(bt)
            idx = []
            while self.peek(','):
                self.i += 1
                if self.peek('inrange'):
                    self.i += 1
                it = self.type()
                idx.append((it, self.const(it)))
            self.expect(')')
            return ('ce', 'gep', t, b, idx)
        if v in CASTS:
            self.expect('(')
            t = self.type()
            c = self.const(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', 'cast', v, t, c, t2)
        if v in BINOPS:
            while self.t[self.i][1] in ('nuw', 'nsw', 'exact'):
                self.i += 1
            self.expect('(')
            t = self.type()
            a = self.const(t)
            self.expect(',')
            t2 = self.type()
            b = self.const(t2)
            self.expect(')')
            return ('ce', 'bin', v, t, a, b)
        if v == 'icmp':
            pred = self.word()
            self.expect('(')
            t = self.type()
            a = self.const(t)
            self.expect(',')
            t2 = self.type()
            b = self.const(t2)
            self.expect(')')
            return ('ce', 'icmp', pred, t, a, b)
        if k == 'num' or re.match(r'^0x', v):
            return ('fc', v)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.const(ty)
        raise SyntaxError('const %r in %r' % ((k, v), self.t))

    @staticmethod
    def _cstr(v):
        s = v[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    def binop(self, op, res, line):
        flags = []
        while self.t[self.i][0] == 'word' and self.t[self.i][1] in ('nuw', 'nsw', 'exact', 'disjoint') or \
                self.t[self.i][1] in FAST:
            flags.append(self.word())
        t = self.type()
        a = self.value(t)
        self.expect(',')
        b = self.value(t)
        return Inst('bin', res, t, (op, a, b), line)

    def cast(self, op, res, line):
        while self.t[self.i][1] in ('nneg', 'nuw', 'nsw'):
            self.i += 1
        t, v = self.tv()
        self.expect('to')
        t2 = self.type()
        return Inst('cast', res, t2, (op, t, v), line)

    def i_icmp(self, res):
        p = self.word()
        t = self.type()
        a = self.value(t)
        self.expect(',')
        b = self.value(t)
        return Inst('icmp', res, t, (p, a, b))

    def i_fcmp(self, res):
        while self.t[self.i][1] in FAST:
            self.i += 1
        p = self.word()
        t = self.type()
        a = self.value(t)
        self.expect(',')
        b = self.value(t)
        return Inst('fcmp', res, t, (p, a, b))

    def i_fneg(self, res):
        t, v = self.tv()
        return Inst('fneg', res, t, (v,))

    def i_select(self, res):
        while self.t[self.i][1] in FAST:
            self.i += 1
        ct, c = self.tv()
        self.expect(',')
        t, a = self.tv()
        self.expect(',')
        t2, b = self.tv()
        return Inst('select', res, t, (c, a, b))

    def i_phi(self, res):
        while self.t[self.i][1] in FAST:
            self.i += 1
        t = self.type()
        inc = {}
        while True:
            self.expect('[')
            v = self.value(t)
            self.expect(',')
            b = unq(self.word())[1:]
            self.expect(']')
            inc[b] = v
            if self.peek(','):
                self.i += 1
            else:
                break
        return Inst('phi', res, t, inc)

    def i_br(self, res):
        if self.peek('label'):
            self.i += 1
            return Inst('br', None, None, (unq(self.word())[1:],))
        t = self.type()
        c = self.value(t)
        self.expect(',')
        self.expect('label')
        a = unq(self.word())[1:]
        self.expect(',')
        self.expect('label')
        b = unq(self.word())[1:]
        return Inst('br', None, None, (c, a, b))

    def i_switch(self, res):
        t = self.type()
        v = self.value(t)
        self.expect(',')
        self.expect('label')
        d = unq(self.word())[1:]
        self.expect('[')
        cs = []
        while not self.peek(']'):
            ct = self.type()
            c = self.const(ct)
            self.expect(',')
            self.expect('label')
            cs.append((c[1], unq(self.word())[1:]))
        return Inst('switch', None, t, (v, d, cs))

    def i_ret(self, res):
        t = self.type()
        if t == VOID:
            return Inst('ret', None, t, None)
        return Inst('ret', None, t, self.value(t))

    def i_unreachable(self, res):
        return Inst('unreachable', None, None, None)

    def i_resume(self, res):
        return Inst('unreachable', None, None, None)

    def i_landingpad(self, res):
        return Inst('landingpad', res, None, None)

    def i_alloca(self, res):
        if self.peek('inalloca'):
            self.i += 1
        t = self.type()
        n = ('c', 1)
        if self.peek(','):
            self.i += 1
            if not self.peek('align'):
                nt = self.type()
                n = self.value(nt)
        return Inst('alloca', res, t, n)

    def i_load(self, res):
        while self.t[self.i][1] in ('volatile', 'atomic'):
            self.i += 1
        t = self.type()
        self.expect(',')
        pt, p = self.tv()
        return Inst('load', res, t, p)

    def i_store(self, res):
        while self.t[self.i][1] in ('volatile', 'atomic'):
            self.i += 1
        t, v = self.tv()
        self.expect(',')
        pt, p = self.tv()
        return Inst('store', None, t, (v, p))

    def i_getelementptr(self, res):
        while self.t[self.i][1] in ('inbounds', 'nuw', 'nusw'):
            self.i += 1
        t = self.type()
        self.expect(',')
        bt, b = self.tv()
        idx = []
        while self.peek(','):
            self.i += 1
            idx.append(self.tv())
        return Inst('gep', res, t, (b, idx))

    def i_extractvalue(self, res):
        t, v = self.tv()
        idx = []
        while self.peek(','):
            self.i += 1
            idx.append(int(self.word()))
        return Inst('extractvalue', res, t, (v, idx))

    def i_insertvalue(self, res):
        t, v = self.tv()
        self.expect(',')
        t2, v2 = self.tv()
        idx = []
        while self.peek(','):
            self.i += 1
            idx.append(int(self.word()))
        return Inst('insertvalue', res, t, (v, t2, v2, idx))

    def i_freeze(self, res):
        t, v = self.tv()
        return Inst('freeze', res, t, v)

    def i_fence(self, res):
        return Inst('nop', None, None, None)

    def i_atomicrmw(self, res):
        if self.peek('volatile'):
            self.i += 1
        op = self.word()
        pt, p = self.tv()
        self.expect(',')
        t, v = self.tv()
        return Inst('atomicrmw', res, t, (op, p, v))

    def i_cmpxchg(self, res):
        while self.t[self.i][1] in ('weak', 'volatile'):
            self.i += 1
        pt, p = self.tv()
        self.expect(',')
        t, c = self.tv()
        self.expect(',')
        t2, n = self.tv()
        return Inst('cmpxchg', res, t, (p, c, n))

    def i_va_arg(self, res):
        return Inst('unsupported', res, None, 'va_arg')

    def _call(self, res, op):
        while self.t[self.i][0] == 'word' and (self.t[self.i][1] in FAST or self.t[self.i][1] in CC):
            self.i += 1
        self.attrs()
        t = self.type()
        rt = t[1] if t[0] == 'fn' else t
        k, v = self.t[self.i]
        if k == 'word' and v == 'asm':
            return Inst('asm', res, rt, None)
        callee = self.value(PTR)
        self.expect('(')
        args = []
        while not self.peek(')'):
            at = self.type()
            self.attrs()
            if at == ('x',):
                # metadata argument
                while not (self.peek(',') or self.peek(')')):
                    if self.peek('('):
                        self.skip_parens()
                    else:
                        self.i += 1
                args.append((at, ('undef',)))
            else:
                args.append((at, self.value(at)))
            if self.peek(','):
                self.i += 1
        self.i += 1
        return rt, callee, args

    def i_call(self, res):
        r = self._call(res, 'call')
        if isinstance(r, Inst):
            return r
        rt, callee, args = r
        return Inst('call', res, rt, {'callee': callee, 'args': args, 'normal': None})

    def i_invoke(self, res):
        rt, callee, args = self._call(res, 'invoke')
        while not self.peek('to'):
            self.i += 1
        self.i += 1
        self.expect('label')
        n = unq(self.word())[1:]
        return Inst('invoke', res, rt, {'callee': callee, 'args': args, 'normal': n})
