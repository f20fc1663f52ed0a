"""LLVM IR (textual, LLVM 18, opaque pointers) reader.

Only the subset clang emits for the library under verification is read; anything
else raises ParseError, which the check reports as a tool limit, never as a violation.
"""
import re
import struct
from fractions import Fraction


class ParseError(Exception):
    pass


TOK = re.compile(r'''
    \s+ | ;[^\n]* |
    (?P<str>c?"(?:[^"\\]|\\.)*") |
    (?P<lid>%(?:"[^"]*"|[-\w.$]+)) |
    (?P<gid>@(?:"[^"]*"|[-\w.$]+)) |
    (?P<md>!(?:"[^"]*"|[-\w.$]*)) |
    (?P<attr>\#\d+) |
    (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+) |
    (?P<dots>\.\.\.) |
    (?P<word>[A-Za-z_$.][-\w.$]*) |
    (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token at: ' + s[pos:pos + 60])
        pos = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# ---- types: ('i',n) ('f',bits) ('ptr',) ('void',) ('arr',n,T) ('st',[T],packed) ('vec',n,T) ('named',name) ('label',) ('fn',)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (type, init or None, is_const)
        self.functions = {}    # name -> Function
        self.decls = {}        # name -> attrs string
        self.aliases = {}
        self.md = {}           # id -> raw string
        self.attrs = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8)
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise ParseError('align of %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1]) or (t[1] + 7) // 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr' or k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'st':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise ParseError('size of %r' % (t,))

    def field_offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for n, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if n == i:
                return o
            o += self.size(x)
        raise ParseError('field')


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'dbg')

    def __init__(self, op, res=None, ty=None, args=(), extra=None, dbg=None):
        self.op, self.res, self.ty, self.args, self.extra, self.dbg = op, res, ty, args, extra, dbg

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.extra)


class Block:
    __slots__ = ('name', 'phis', 'instrs')

    def __init__(self, name):
        self.name, self.phis, self.instrs = name, [], []


class Function:
    def __init__(self, name, retty, params):
        self.name, self.retty, self.params = name, retty, params
        self.blocks = {}
        self.entry = None
        self.dbg = None
        self._loops = None
        self._must_throw = None

    # --- CFG ---
    def succs(self, b, unwind=False):
        t = self.blocks[b].instrs[-1]
        if t.op == 'br':
            return list(t.args)
        if t.op == 'condbr':
            return [t.args[1], t.args[2]]
        if t.op == 'switch':
            return [t.args[1]] + [x[1] for x in t.args[2]]
        if t.op == 'invoke':
            return [t.extra['normal']] + ([t.extra['unwind']] if unwind else [])
        return []

    def reachable(self):
        seen = {self.entry}
        st = [self.entry]
        order = []
        while st:
            b = st.pop()
            order.append(b)
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def loops(self):
        """header -> set of blocks of the natural loop (normal edges only)."""
        if self._loops is not None:
            return self._loops
        reach = self.reachable()
        preds = {b: [] for b in reach}
        for b in reach:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators (iterative)
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            seen.add(b)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo:
                if b == self.entry:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in reach:
            for s in self.succs(b):
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif num[s] <= num[b]:
                    raise ParseError('irreducible control flow in ' + self.name)
        self._loops = loops
        return loops


def parse_float(tok, bits):
    if tok.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    else:
        v = float(tok)
    if v != v:
        return ('fconst', 'nan')
    if v in (float('inf'), float('-inf')):
        return ('fconst', '+inf' if v > 0 else '-inf')
    return ('fconst', Fraction(v))


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('end', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('word', 'punct', 'dots'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t[:40])))

    def skip_balanced(self, o, c):
        self.expect(o)
        d = 1
        while d:
            k, v = self.next()
            if k == 'end':
                raise ParseError('unbalanced')
            if k == 'punct':
                if v == o:
                    d += 1
                elif v == c:
                    d -= 1

    # --- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                t = ('i', int(m.group(1)))
            elif v == 'ptr':
                t = ('ptr',)
                if self.accept('addrspace'):
                    self.skip_balanced('(', ')')
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'void':
                t = ('void',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('md',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('st', [], False)
            else:
                raise ParseError('type ' + v)
        elif k == 'lid':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('st', self._types('}'), True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('st', self._types('}'), False)
        else:
            raise ParseError('type tok %r' % v)
        # function type
        while self.peek() == ('punct', '(') and t[0] != 'fn' and self._is_fnty():
            self.skip_balanced('(', ')')
            t = ('fn', t)
        return t

    def _is_fnty(self):
        # a type followed by '(' is a function type only when the closing paren is followed by a callee
        d, j = 0, self.i
        while j < len(self.t):
            v = self.t[j][1]
            if self.t[j][0] == 'punct' and v == '(':
                d += 1
            elif self.t[j][0] == 'punct' and v == ')':
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ('lid', 'gid')
            j += 1
        return False

    def _types(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    # --- values (constants / operands)
    def value(self, ty):
        k, v = self.next()
        if k == 'lid':
            return ('reg', v)
        if k == 'gid':
            return ('glob', v)
        if k == 'num':
            if ty[0] == 'f':
                return parse_float(v, ty[1])
            return ('int', int(v, 0) if not v.startswith('-') else int(v))
        if k == 'str':
            return ('bytes', decode_cstr(v))
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    if self.peek() == ('punct', '('):
                        self.skip_balanced('(', ')')
                    t = self.type()
                    self.accept('inrange')
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('cgep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cbin', v, t, a, b)
            if v == 'blockaddress' or v == 'asm':
                raise ParseError(v)
        if k == 'punct' and v in '[{<':
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            out = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', out)
        raise ParseError('value %r %r' % (k, v))


def decode_cstr(v):
    v = v[1:] if v[0] == 'c' else v
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            out.append(int(v[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(v[i]))
            i += 1
    return bytes(out)


PARAM_ATTR = {'noundef', 'nonnull', 'nocapture', 'noalias', 'readonly', 'readnone', 'writeonly', 'returned', 'signext',
              'zeroext', 'immarg', 'inreg', 'nest', 'swiftself', 'noreturn', 'dead_on_unwind', 'writable', 'allocalign',
              'allocptr', 'nofree', 'noinline', 'nobuiltin', 'range', 'initializes', 'captures', 'inrange'}
PARAM_ATTR_ARG = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'nofpclass', 'elementtype',
                  'memory', 'range', 'preallocated', 'inalloca', 'byref'}


def skip_param_attrs(p, got=None):
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTR_ARG:
            p.next()
            if got is not None:
                got.append(v)
            if p.peek() == ('punct', '('):
                p.skip_balanced('(', ')')
            elif v == 'align':
                p.next()
        elif k == 'word' and v in PARAM_ATTR:
            p.next()
            if p.peek() == ('punct', '('):
                p.skip_balanced('(', ')')
        elif k == 'str':
            p.next()
            if p.accept('='):
                p.next()
        else:
            return


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
CC = {'fastcc', 'coldcc', 'ccc', 'tailcc'}

DBG = re.compile(r', !dbg !(\d+)')


def parse_instr(line):
    m = DBG.search(line)
    dbg = m.group(1) if m else None
    toks = tokenize(line)
    # drop trailing metadata
    d = 0
    for j, (k, v) in enumerate(toks):
        if k == 'punct' and v in '([{':
            d += 1
        elif k == 'punct' and v in ')]}':
            d -= 1
        if d == 0 and k == 'md' and j > 0 and toks[j - 1][1] == ',':
            toks = toks[:j - 1]
            break
    p = P(toks)
    res = None
    if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    flags = set()
    k, op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        k, op = p.next()

    def getflags():
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
    I = lambda *a, **kw: Instr(*a, dbg=dbg, **kw)
    if op in BIN:
        getflags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(op, res, t, (a, b), extra=flags)
    if op == 'fneg':
        getflags()
        t = p.type()
        return I(op, res, t, (p.value(t),), extra=flags)
    if op in CAST:
        getflags()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return I(op, res, t2, (a,), extra=(t, flags))
    if op in ('icmp', 'fcmp'):
        getflags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(op, res, t, (a, b), extra=pred)
    if op == 'load':
        getflags()
        if p.peek()[1] == 'atomic':
            p.next()
            flags.add('atomic')
        t = p.type()
        p.expect(',')
        pt = p.type()
        return I('load', res, t, (p.value(pt),), extra=flags)
    if op == 'store':
        getflags()
        if p.peek()[1] == 'atomic':
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return I('store', None, t, (v, p.value(pt)), extra=flags)
    if op == 'getelementptr':
        getflags()
        bt = p.type()
        ops = []
        while p.accept(','):
            t = p.type()
            ops.append((t, p.value(t)))
        return I('gep', res, bt, ops, extra=flags)
    if op == 'alloca':
        t = p.type()
        n = ('int', 1)
        while p.accept(','):
            if p.accept('align'):
                p.next()
            elif p.accept('addrspace'):
                p.skip_balanced('(', ')')
            else:
                tt = p.type()
                n = p.value(tt)
        return I('alloca', res, t, (n,))
    if op == 'select':
        getflags()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return I('select', res, t, (c, a, b), extra=ct)
    if op == 'phi':
        getflags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return I('phi', res, t, inc)
    if op == 'br':
        t = p.type()
        if t[0] == 'label':
            return I('br', None, None, (p.next()[1],))
        c = p.value(t)
        p.expect(',')
        p.type()
        a = p.next()[1]
        p.expect(',')
        p.type()
        b = p.next()[1]
        return I('condbr', None, None, (c, a, b))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        d = p.next()[1]
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.type()
            cs.append((cv, p.next()[1]))
        return I('switch', None, t, (v, d, cs))
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return I('ret', None, t, ())
        return I('ret', None, t, (p.value(t),))
    if op in ('call', 'invoke'):
        getflags()
        while p.peek()[1] in CC:
            p.next()
        skip_param_attrs(p)
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        k, callee = p.next()
        if k == 'word' and callee == 'asm':
            raise ParseError('inline asm')
        if k not in ('gid', 'lid'):
            raise ParseError('callee %r' % callee)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at[0] == 'md':
                    # metadata operand
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v in '([{':
                            d += 1
                        elif v in ')]}':
                            d -= 1
                    args.append((at, ('undef',)))
                else:
                    got = []
                    skip_param_attrs(p, got)
                    args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        extra = {'callee': (k, callee)}
        while p.peek()[0] == 'attr' or (p.peek()[0] == 'word' and p.peek()[1] not in ('to', 'unwind')):
            if p.peek()[0] == 'attr':
                extra['attr'] = p.peek()[1]
            else:
                extra.setdefault('attrs', []).append(p.peek()[1])
            p.next()
            if p.peek() == ('punct', '('):
                p.skip_balanced('(', ')')
        if p.peek() == ('punct', '['):
            p.skip_balanced('[', ']')
        if op == 'invoke':
            p.expect('to')
            p.type()
            extra['normal'] = p.next()[1]
            p.expect('unwind')
            p.type()
            extra['unwind'] = p.next()[1]
        return I(op, res, t, args, extra=extra)
    if op == 'unreachable':
        return I(op)
    if op == 'landingpad':
        return I(op, res, None, (), extra=('catch' in [x[1] for x in toks]))
    if op == 'resume':
        return I(op)
    if op in ('extractvalue',):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return I(op, res, t, (v,), extra=idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        w = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return I(op, res, t, (v, w), extra=(t2, idx))
    if op == 'freeze':
        t = p.type()
        return I(op, res, t, (p.value(t),))
    return I('unsupported', res, None, (), extra=line.strip())


GLOB = re.compile(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$')
DEFN = re.compile(r'^define .*?(@(?:"[^"]*"|[-\w.$]+))\(')


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            p = P(tokenize(rest))
            m.types[name.strip()] = p.type()
        elif l.startswith('@'):
            g = GLOB.match(l)
            name, rest = g.group(1), g.group(2)
            try:
                parse_global(m, name, rest)
            except ParseError:
                m.globals[name] = (None, None, False)
        elif l.startswith('declare'):
            d = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
            m.decls[d.group(1)] = l
        elif l.startswith('define'):
            f = parse_define(l)
            j = i + 1
            cur = None
            while lines[j] != '}':
                s = lines[j]
                j += 1
                if not s.strip() or s.lstrip().startswith(';'):
                    continue
                lm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
                if lm and not s.startswith(' '):
                    cur = Block('%' + lm.group(1))
                    f.blocks[cur.name] = cur
                    if f.entry is None:
                        f.entry = cur.name
                    continue
                if cur is None:
                    nm = sum(1 for t, _, _ in f.params)
                    cur = Block('%' + str(f.first_unnamed))
                    f.blocks[cur.name] = cur
                    f.entry = cur.name
                if s.strip().startswith('switch') and s.rstrip().endswith('['):
                    while not lines[j].strip().startswith(']'):
                        s += ' ' + lines[j]
                        j += 1
                    s += ' ' + lines[j]
                    j += 1
                while re.match(r'^\s+(to label|catch|cleanup|filter)', lines[j]):
                    s += ' ' + lines[j].strip()
                    j += 1
                try:
                    ins = parse_instr(s)
                except ParseError as e:
                    ins = Instr('unsupported', None, None, (), extra='%s: %s' % (e, s.strip()))
                    mm = re.match(r'\s*(%(?:"[^"]*"|[-\w.$]+)) =', s)
                    if mm:
                        ins.res = mm.group(1)
                (cur.phis if ins.op == 'phi' else cur.instrs).append(ins)
            m.functions[f.name] = f
            i = j
        elif l.startswith('!'):
            k = l.find(' = ')
            m.md[l[1:k]] = l[k + 3:]
        elif l.startswith('attributes '):
            k = l.split(' ', 2)
            m.attrs[k[1]] = k[2]
        i += 1
    return m


def parse_global(m, name, rest):
    p = P(tokenize(rest))
    const = False
    ext = False
    while True:
        k, v = p.peek()
        if k != 'word':
            if k == 'punct' and v == '(':
                p.skip_balanced('(', ')')
                continue
            break
        if v in ('constant', 'global'):
            const = v == 'constant'
            p.next()
            break
        if v == 'alias':
            p.next()
            p.type()
            p.expect(',')
            p.type()
            m.aliases[name] = p.next()[1]
            return
        if v in ('external', 'extern_weak', 'available_externally'):
            ext = True
        p.next()
    t = p.type()
    init = None
    if not ext or p.peek()[0] not in ('end',) and p.peek()[1] != ',':
        if p.peek()[1] != ',' and p.peek()[0] != 'end':
            init = p.value(t)
    m.globals[name] = (t, init, const)


def parse_define(l):
    dm = DEFN.match(l)
    name = dm.group(1)
    p = P(tokenize(l[l.index(name + '('):]))
    p.next()
    p.expect('(')
    params = []
    num = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            t = p.type()
            got = []
            skip_param_attrs(p, got)
            if p.peek()[0] == 'lid':
                nm = p.next()[1]
            else:
                nm = '%%%d' % num
            if re.fullmatch(r'%\d+', nm):
                num = int(nm[1:]) + 1
            params.append((t, nm, got))
            if p.accept(')'):
                break
            p.expect(',')
    f = Function(name, None, params)
    f.first_unnamed = num
    mm = re.search(r'!dbg !(\d+)', l)
    f.dbg = mm.group(1) if mm else None
    f.header = l
    return f


if __name__ == '__main__':
    import sys
    mod = parse_module(open(sys.argv[1]).read())
    print(len(mod.functions), len(mod.globals))
    for f in mod.functions.values():
        for b in f.blocks.values():
            for x in b.phis + b.instrs:
                if x.op == 'unsupported':
                    print(f.name[:60], x.extra[:200])
        f.loops()
