"""Verification-condition generator over LLVM IR (see DESIGN.md, section Engine).

Integers are mathematical integers holding the signed value of the machine word, floating point
numbers are reals; both choices are assumptions reported in the evidence.
"""
import os
import itertools
import re
import subprocess
import time
from fractions import Fraction

import z3

import algebra
import ir


class Unsupported(Exception):
    """A construct or a loop the engine cannot handle: a tool limit, never a violation."""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """Path ends (assume false, expected throw...)."""


class OutOfTime(Unsupported):
    pass


# ------------------------------------------------------------------ terms

def is_z(x):
    return isinstance(x, z3.ExprRef)


def iv(x):
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if is_z(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def rv(x):
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
    return x


def bv(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def limit(solver, ms):
    """bound the resources of a solver: about ms on an idle core, whatever the load"""
    solver.set('rlimit', int(ms * 6000))
    solver.set('timeout', int(ms * 6))


def sorted_value(nth, i, old):
    """the value at index i of the outcome of std::sort (nth = -1) or std::nth_element on given values"""
    so = old[0].sort()
    f = z3.Function('sorted_%d_%d_%d_%s' % (nth, len(old), i, so), *([so] * (len(old) + 1)))
    return f(*old)


def sorted_kind(x):
    return int(x.decl().name().split('_')[1])


def tell(solver, fs):
    """solver.add(*fs) for Boolean terms, without the conversions"""
    c, q = solver.ctx.ref(), solver.solver
    for f in fs:
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        z3.Z3_solver_assert(c, q, plain(f).as_ast())


PLAIN, DIGITS = {}, {}


def plain(f):
    """f with a constant in place of each digit (whose axioms determine it): the solvers do better without functions"""
    i = f.get_id()
    if i not in PLAIN:
        m = []
        for x in apps_of(f, lambda n: n in ('quo!', 'mod!')).values():
            j = x.get_id()
            if j not in DIGITS:
                DIGITS[j] = (z3.Int('digit!%d' % len(DIGITS)), x)
            m.append((x, DIGITS[j][0]))
        PLAIN[i] = (z3.substitute(f, *m) if m else f, f)
    return PLAIN[i][0]


def zv(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return rv(x)
    return x


def S(x):
    """simplified term, python constant where possible"""
    if not is_z(x):
        return x
    if z3.is_bool(x):
        y = z3.simplify(x)
        if z3.is_true(y):
            return True
        if z3.is_false(y):
            return False
        return y
    if z3.is_int(x):
        y = z3.simplify(x, som=True)
        if z3.is_int_value(y):
            return y.as_long()
        return y
    y = z3.simplify(x)
    if z3.is_rational_value(y):
        return Fraction(y.numerator_as_long(), y.denominator_as_long())
    return y


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return S(iv(a) + iv(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return S(iv(a) - iv(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return S(iv(a) * iv(b))


def bnot(a):
    if isinstance(a, bool):
        return not a
    return S(z3.Not(a))


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def same(a, b):
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        return type(a) is type(b) and a == b
    if is_z(a) and is_z(b):
        return a.eq(b) if a.sort() == b.sort() else False
    if is_z(a) != is_z(b):
        return False
    return a == b and type(a) == type(b)


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    return S(iv(d) == 0)


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return S(iv(isub(b, a)) >= 0)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return S(iv(isub(b, a)) > 0)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and same(self.off, o.off)

    def __hash__(self):
        return hash(self.obj)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Poison(Fn):
    """content of a pointer cell which the current iteration of a loop has not written"""
    __slots__ = ()

    def __init__(self):
        self.name = '!poison'


NULL = Ptr(None, 0)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off))
        raise Fork(c)
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    a, b = zv(a), zv(b)
    if a.sort() != b.sort():
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        elif z3.is_real(b) and z3.is_int(a):
            a = z3.ToReal(a)
        else:
            raise Unsupported('ite on mixed sorts')
    return S(z3.If(c, a, b))


def consts_of(t, acc=None, seen=None):
    """0-ary uninterpreted constants of a term"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(t, Ptr):
        return consts_of(t.off, acc, seen)
    if isinstance(t, tuple):
        for x in t:
            consts_of(x, acc, seen)
        return acc
    if not is_z(t):
        return acc
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[x.decl().name()] = x
            else:
                st.extend(x.children())
    return acc


def apps_of(t, pred, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if not is_z(t):
        return acc
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
                acc[i] = x
            st.extend(x.children())
    return acc


# ---- polynomials over opaque atoms (for exact division and coefficient matching)

def poly(t):
    """dict monomial(tuple of sorted atom ids) -> int coefficient, plus atom table"""
    atoms = {}

    def rec(x):
        if isinstance(x, int):
            return {(): x} if x else {}
        if z3.is_int_value(x):
            v = x.as_long()
            return {(): v} if v else {}
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in x.children():
                for m, v in rec(c).items():
                    r[m] = r.get(m, 0) + v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_SUB:
            cs = x.children()
            r = dict(rec(cs[0]))
            for c in cs[1:]:
                for m, v in rec(c).items():
                    r[m] = r.get(m, 0) - v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in rec(x.children()[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in x.children():
                p = rec(c)
                n = {}
                for m1, v1 in r.items():
                    for m2, v2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + v1 * v2
                r = {m: v for m, v in n.items() if v}
            return r
        i = x.get_id()
        atoms[i] = x
        return {(i,): 1}
    return rec(t), atoms


def unpoly(p, atoms):
    r = 0
    for m, v in p.items():
        t = v
        for a in m:
            t = atoms[a] * t
        r = t if isinstance(r, int) and r == 0 else r + t
    return S(r) if is_z(r) else r


def mono_divide(m, d):
    m = list(m)
    for a in d:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def exact_div(t, c):
    """t / c when it divides exactly as polynomials (c integer or monomial term), else None"""
    if isinstance(c, int):
        if c == 0:
            return None
        if isinstance(t, int):
            return t // c if t % c == 0 else None
        p, at = poly(t)
        if any(v % c for v in p.values()):
            return None
        return unpoly({m: v // c for m, v in p.items()}, at)
    pc, ac = poly(c)
    pt, at = poly(t)
    if len(pc) != 1:
        # single quotient multiple?
        return None
    (dm, dv), = pc.items()
    out = {}
    for m, v in pt.items():
        q = mono_divide(m, dm)
        if q is None or v % dv:
            return None
        out[q] = v // dv
    at.update(ac)
    return unpoly(out, at)


def divide_part(t, c):
    """(q, r) with t = c*q + r, q collecting the monomials divisible by c"""
    pc, ac = poly(c)
    pt, at = poly(t)
    at.update(ac)
    if len(pc) != 1:
        return None
    (dm, dv), = pc.items()
    q, r = {}, {}
    for m, v in pt.items():
        x = mono_divide(m, dm)
        if x is None or v % dv:
            r[m] = v
        else:
            q[x] = v // dv
    return unpoly(q, at), unpoly(r, at)


def linear_in(t, k):
    """(a, c) with t = a + c*k, c free of k; None if not linear"""
    if not is_z(t):
        return t, 0
    p, at = poly(t)
    kid = k.get_id()
    at.setdefault(kid, k)
    a, c = {}, {}
    for m, v in p.items():
        n = m.count(kid)
        if n == 0:
            a[m] = v
        elif n == 1:
            c[mono_divide(m, (kid,))] = v
        else:
            return None
    kn = k.decl().name()
    for m in list(a) + list(c):
        for x in m:
            if x != kid and kn in consts_of(at[x]):
                return None
    return unpoly(a, at), unpoly(c, at)


# ------------------------------------------------------------------ memory

class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'layers', 'base', 'name', 'const', 'align', 'elem', 'addr', 'esize')

    def __init__(self, id, size, kind, name, base=None, const=False, align=1, elem=None):
        self.id, self.size, self.kind, self.name = id, size, kind, name
        self.alive = True
        self.layers = []       # bottom to top
        self.base = base or ('uf', 'M%d_%s' % (id, re.sub(r'\W', '_', name)[:20]))
        self.const = const
        self.align = align
        self.elem = elem
        self.addr = None
        self.esize = None  # size of the elements, if known

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.layers = list(self.layers)
        return o


class Cells:
    """layer of concrete-offset stores; immutable once another layer covers it"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}


class Store:
    __slots__ = ('off', 'size', 'val')

    def __init__(self, off, size, val):
        self.off, self.size, self.val = off, size, val


class Fill:
    __slots__ = ('off', 'len', 'byte')

    def __init__(self, off, len, byte):
        self.off, self.len, self.byte = off, len, byte


class Copy:
    __slots__ = ('off', 'len', 'src', 'srcoff')

    def __init__(self, off, len, src, srcoff):
        self.off, self.len, self.src, self.srcoff = off, len, src, srcoff


QUO = z3.Function('quo!', *[z3.IntSort()] * 4)
MOD = z3.Function('mod!', *[z3.IntSort()] * 4)


class FStore:
    """family of stores: for all vars in range (and guard), [off..off+size) := val"""
    __slots__ = ('vars', 'guard', 'off', 'size', 'val', 'real')

    def __init__(self, vars, guard, off, size, val):
        self.vars, self.guard, self.off, self.size, self.val = vars, guard, off, size, val


class FBlock:
    """family of block writes (fill or copy): for k in range, [off, off+len) := byte / source"""
    __slots__ = ('vars', 'guard', 'off', 'len', 'byte', 'src', 'srcoff')

    def __init__(self, vars, guard, off, len, byte=None, src=None, srcoff=None):
        self.vars, self.guard, self.off, self.len = vars, guard, off, len
        self.byte, self.src, self.srcoff = byte, src, srcoff


class Loop:
    """writes of all the completed iterations of a loop; entries never overlap (proved when built)"""
    __slots__ = ('entries',)

    def __init__(self, entries):
        self.entries = entries


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'env', 'ret_to', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.idx = 0
        self.env = {}
        self.ret_to = None
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.ret_to = self.fn, self.block, self.prev, self.idx, self.ret_to
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        return f


class Mem(dict):
    """Objects by identifier; globals may be reached through other constants before they are named"""
    GLOBALS = {}

    def __missing__(self, k):
        return self.GLOBALS[k]


class State:
    __slots__ = ('frames', 'mem', 'pc', 'expect', 'inputs', 'names', 'wlog', 'inv_mode', 'flags')

    def __init__(self):
        self.frames, self.mem, self.pc = [], Mem(), []
        self.expect = None
        self.inputs = []
        self.names = {}
        self.wlog = None      # list of writes when recording
        self.inv_mode = None  # None | 'assume' | 'check'
        self.flags = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = Mem(self.mem)
        s.pc = list(self.pc)
        s.expect = self.expect
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.wlog = list(self.wlog) if self.wlog is not None else None
        s.inv_mode = self.inv_mode
        s.flags = dict(self.flags)
        return s

    def wobj(self, oid):
        o = self.mem[oid].copy()
        self.mem[oid] = o
        return o

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Dead('assume false')
        for x in self.pc[-40:]:
            if x.eq(c):
                return
        self.pc.append(c)


class Fold:
    """recursively defined sequence F(params, k): F(0)=init, F(k+1)=step(k, F(k))"""

    def __init__(self, name, params, kvar, init, step, group, sort):
        self.name, self.params, self.kvar, self.init, self.step = name, params, kvar, init, step
        self.group = group   # list of Fold sharing kvar (simultaneous recursion); self.sym names
        self.sort = sort
        self.sym = None
        self.decl = z3.Function(name, *([p.sort() for p in params] + [z3.IntSort(), sort]))

    def app(self, args, k):
        return self.decl(*(list(args) + [iv(k)]))


class Hist:
    """for all vars in range such that cond: body (the path of the completed iterations of a loop)"""
    __slots__ = ('vars', 'cond', 'body', 'fronts')

    def __init__(self, vars, cond, body, fronts=None):
        self.vars, self.cond, self.body = vars, cond, body
        self.fronts = fronts or [0] * len(vars)     # values of the counters at var = 0


class Hint:
    """values of the counters at which the facts about completed iterations are used"""
    __slots__ = ('at',)

    def __init__(self, at):
        self.at = at


AUDIT = bool(os.environ.get('VC_AUDIT'))


class Obligation:
    def __init__(self, label, where, pc, goal, state):
        self.label, self.where, self.pc, self.goal = label, where, pc, goal
        self.inputs = list(state.inputs)
        self.mem = state.mem
        self.status = None
        self.detail = ''
        self.model = None
        self.time = 0.
        self.backend = None
        self.loops = state.flags.get('cut', 0)
        self.approx = bool(state.flags.get('approx'))
        self.pc_hist = list(state.flags.get('hist', ()))


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.fresh_n = 0
        self.obj_n = 0
        self.pending = []
        self.folds = {}
        self.arrays_real = {}
        self.globals = {}
        self.stats = {'paths': 0, 'queries': 0, 'qtime': 0., 'cuts': 0, 'instrs': 0, 'throws': 0}
        self.deadline = time.time() + self.opts.get('time', 300)
        self.uflib = {}
        self.uf_sizes = {}
        self.assumptions = set()
        self.called = set()
        self.covers = []
        self.stubs = {}
        self.mt_cache = {}
        self.qcache = {}
        self.trace = self.opts.get('trace')
        self.side = []      # side axioms (skolem reads), valid globally
        self.digits = {}    # axioms of the digits of offsets
        self.digitcache = {}
        self.lincache = {}
        self.namecache = {}

    # -------------------------------------------------------------- solver
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def check(self, pc, extra, ms=300):
        """sat / unsat / unknown of pc + side axioms + extra"""
        if time.time() > self.deadline:
            raise OutOfTime('time budget of the proof exhausted')
        key = (tuple(x.get_id() for x in pc), tuple(x.get_id() for x in extra), len(self.side))
        if key in self.qcache:
            return self.qcache[key][0]
        t0 = time.time()
        side = self.relevant_side(list(pc) + list(extra))
        fs = list(pc) + side + list(extra)
        lin = [f for f in fs if self.linear(f)]
        r = None
        if len(lin) < len(fs) and all(self.linear(f) for f in extra):
            # the linear part first: it decides most of the questions on indices
            s = z3.SimpleSolver()
            limit(s, ms)
            tell(s, lin)
            r = s.check()
            self.stats['queries'] += 1
        if r != z3.unsat:
            s = z3.SimpleSolver()
            limit(s, ms)
            tell(s, fs)
            r = s.check()
        self.stats['queries'] += 1
        self.stats['qtime'] += time.time() - t0
        r = str(r)
        self.qcache[key] = (r, list(pc), list(extra))
        return r

    def linear(self, f):
        """no product, quotient or power of unknowns"""
        if isinstance(f, bool):
            return True
        i = f.get_id()
        if i not in self.lincache:
            self.lincache[i] = (self.linear_(f), f)
        return self.lincache[i][0]

    def linear_(self, f):
        if not z3.is_app(f):
            return False
        k = f.decl().kind()
        if k == z3.Z3_OP_MUL:
            if sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in f.children()) > 1:
                return False
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM):
            if not (z3.is_int_value(f.arg(1)) or z3.is_rational_value(f.arg(1))):
                return False
        elif k == z3.Z3_OP_POWER:
            return False
        return all(self.linear(c) for c in f.children())

    def relevant_side(self, fs):
        names = set()
        done = set()
        out = []

        def note(f):
            """the names in a formula, and the axioms of its digits"""
            names.update(self.names_of(f))
            new = [f]
            while new:
                for x in self.digits_of(new.pop()):
                    if x.get_id() not in done:
                        done.add(x.get_id())
                        ax = self.digit_axioms(x) if x.decl().eq(QUO) else self.sorted_axioms(x)
                        out.extend(ax)
                        new.extend(ax)
        for f in fs:
            note(f)
        if not self.side:
            return out
        todo = list(self.side)
        changed = True
        while changed:
            changed = False
            rest = []
            for key, ax in todo:
                if key in names:
                    out.extend(ax)
                    for a in ax:
                        note(a)
                    changed = True
                else:
                    rest.append((key, ax))
            todo = rest
        return out

    def digits_of(self, f):
        if not is_z(f):
            return ()
        i = f.get_id()
        if i not in self.digitcache:
            xs = apps_of(f, lambda n: n in ('quo!', 'mod!')).values()
            ys = apps_of(f, lambda n: n.startswith('sorted_')).values()
            self.digitcache[i] = ([QUO(*x.children()) for x in xs] + [sorted_value(sorted_kind(y), 0, y.children()) for y in ys], f)
        return self.digitcache[i][0]

    def names_of(self, f):
        """the names of the constants of a formula"""
        if not is_z(f):
            return frozenset()
        i = f.get_id()
        if i not in self.namecache:
            self.namecache[i] = (frozenset(consts_of(f)), f)
        return self.namecache[i][0]

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        return self.check(st.pc, [c]) != 'unsat'

    def implied(self, st, c, ms=300):
        if c is True:
            return True
        if c is False:
            return False
        return self.check(st.pc, [z3.Not(c)], ms) == 'unsat'

    def decide(self, st, c):
        """True/False when the path decides c, else None"""
        if isinstance(c, bool):
            return c
        if self.implied(st, c):
            return True
        if self.implied(st, z3.Not(c)):
            return False
        return None

    def oblige(self, st, label, goal, where=None):
        if goal is True:
            self.pending.append(Obligation(label, where, list(st.pc) if AUDIT else None, True, st))
            return
        self.pending.append(Obligation(label, where, list(st.pc), goal, st))

    # -------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, name, **kw):
        self.obj_n += 1
        o = Obj(self.obj_n, size, kind, name, **kw)
        st.mem[o.id] = o
        return o

    def uf(self, name, sort):
        key = (name, str(sort))
        f = self.uflib.get(key)
        if f is None:
            f = z3.Function('%s.%s' % (name, {'Int': 'i', 'Real': 'r', 'Bool': 'b'}[str(sort)]), z3.IntSort(), sort)
            self.uflib[key] = f
        return f

    def zero_of(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            return False if ty[1] == 1 else 0
        if ty[0] == 'f':
            return Fraction(0)
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'st':
            return tuple(self.zero_of(x) for x in ty[1])
        if ty[0] in ('arr', 'vec'):
            return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero of %r' % (ty,))

    def conv(self, v, ty):
        """value v (as stored) seen through type ty"""
        if isinstance(v, Poison):
            raise Unsupported('pointer of another iteration')
        k = ty[0]
        if k == 'ptr':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            if is_z(v) and z3.is_int(v):
                cs = consts_of(v)
                found = [n for n in cs if n.startswith('addr_')]
                if len(found) == 1:
                    return Ptr(int(found[0][5:]), isub(v, cs[found[0]]))
            raise Unsupported('pointer loaded from non-pointer bytes')
        if k == 'i':
            if ty[1] == 1 or (ty[1] == 8 and (isinstance(v, bool) or (is_z(v) and z3.is_bool(v)))):
                if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
                    return v
                if isinstance(v, int):
                    return bool(v & 1)
                return S(v != 0)
            return v      # may also be a Ptr or a real travelling through an integer copy
        if k == 'f':
            if isinstance(v, bool):
                raise Unsupported('float from bool bytes')
            if isinstance(v, int):
                if v == 0:
                    return Fraction(0)
                raise Unsupported('float loaded from integer bytes')
            if is_z(v) and z3.is_int(v):
                raise Unsupported('float loaded from integer bytes')
            return v
        return v

    def base_read(self, st, o, off, size, ty):
        if o.base[0] == 'zero':
            return self.zero_of(ty)
        if o.base[0] == 'init':
            return self.init_read(o, off, ty)
        name = o.base[1]
        if ty[0] == 'ptr' or o.elem == 'ptr':
            raise Unsupported('pointer read from unknown memory (%s)' % o.name)
        real = ty[0] == 'f'
        if o.elem == 'r':
            real = True
        elif o.elem == 'i':
            if real:
                raise Unsupported('float read from integer memory')
        if real:
            return self.uf(name, z3.RealSort())(iv(off))
        if ty == ('i', 1) or o.elem == 'b':
            return self.uf(name, z3.BoolSort())(iv(off))
        f = self.uf(name, z3.IntSort())
        if o.esize is not None and o.esize != size:
            if o.esize < size or exact_div(off, o.esize) is None:
                raise Unsupported('sub-word read of an array')
            return self.wrap(st, f(iv(off)), 8 * size)
        if o.esize is None:
            # the sizes at which unknown memory is read
            known = self.uf_sizes.setdefault((name, off if isinstance(off, int) else None), size)
            if known != size:
                raise Unsupported('unknown memory read as values of several sizes')
        return f(iv(off))

    def init_read(self, o, off, ty):
        if not isinstance(off, int):
            raise Unsupported('symbolic read of a constant table')
        gty, init = o.base[1], o.base[2]

        def rec(t, v, off):
            t = self.m.resolve(t)
            if t[0] == 'arr':
                es = self.m.size(t[2])
                i = off // es
                if v[0] == 'zero':
                    return rec(t[2], v, off - i * es)
                if v[0] == 'bytes':
                    return ('i', 8), ('int', v[1][i])
                return rec(t[2], v[1][i][1], off - i * es)
            if t[0] == 'st':
                for i in range(len(t[1])):
                    fo = self.m.field_offset(t, i)
                    if fo <= off < fo + max(1, self.m.size(t[1][i])):
                        return rec(t[1][i], v if v[0] == 'zero' else v[1][i][1], off - fo)
                raise Unsupported('padding read')
            if off != 0:
                raise Unsupported('sub-word read of a constant')
            return t, v
        t, v = rec(gty, init, off)
        if t == ('i', 8) and ty[0] == 'i' and ty[1] > 8:
            n = ty[1] // 8
            val = 0
            for i in range(n):
                _, b = rec(gty, init, off + i)
                val |= (b[1] & 255) << (8 * i)
            if val >= 1 << (ty[1] - 1):
                val -= 1 << ty[1]
            return val
        return self.conv(self.operand(None, t, v), ty)

    def read(self, st, o, off, size, ty, upto=None):
        layers = o.layers
        n = len(layers) if upto is None else upto
        for li in range(n - 1, -1, -1):
            L = layers[li]
            rest = lambda li=li: self.read(st, o, off, size, ty, li)
            if isinstance(L, Cells):
                if isinstance(off, int):
                    c = L.d.get(off)
                    if c is not None and c[0] == size:
                        return self.conv(c[1], ty)
                    if c is not None and c[0] != size or any(
                            x < off + size and off < x + s for x, (s, _) in L.d.items()):
                        return self.partial(st, o, off, size, ty, L, rest)
                    continue
                val = None
                hits = []
                for x, (s, v) in L.d.items():
                    d = isub(off, x)
                    if isinstance(d, int):
                        if d == 0 and s == size:
                            hits = [(True, v)]
                            break
                        if d >= s or d <= -size:
                            continue
                        raise Unsupported('partial read')
                    if s == size:
                        hits.append((S(iv(d) == 0), v))
                    else:
                        if not self.implied(st, bor(bv(S(iv(d) >= s)), bv(S(iv(d) <= -size)))):
                            raise Unsupported('mixed-size read at symbolic offset')
                hits = [(c, v) for c, v in hits if c is not False]
                if not hits:
                    continue
                live = []
                for c, v in hits:
                    if c is True:
                        live = [(True, v)]
                        break
                    dd = self.decide(st, c)
                    if dd is True:
                        live = [(True, v)]
                        break
                    if dd is None:
                        if isinstance(v, (Ptr, Fn)) != (ty[0] == 'ptr') and ty[0] != 'i':
                            raise Unsupported('pointer read as a number')
                        if isinstance(v, (Ptr, Fn)) and ty[0] == 'i':
                            # a pointer cell is not part of the array which is read
                            self.oblige(st, 'memory: read within the array', bnot(c), None)
                            st.assume(bnot(c))
                            continue
                        live.append((c, v))
                if not live:
                    continue
                if live[0][0] is True:
                    return self.conv(live[0][1], ty)
                if self.implied(st, bor(*[c for c, _ in live])):
                    val = self.conv(live[-1][1], ty)
                    live = live[:-1]
                else:
                    val = rest()
                for c, v in reversed(live):
                    val = ite(c, self.conv(v, ty), val)
                return val
            if isinstance(L, Store):
                d = isub(off, L.off)
                if isinstance(d, int):
                    if d == 0 and L.size == size:
                        return self.conv(L.val, ty)
                    if d >= L.size or d <= -size:
                        continue
                    raise Unsupported('partial read over a store')
                if L.size == size:
                    c = S(iv(d) == 0)
                    dd = self.decide(st, c)
                    if dd is True:
                        return self.conv(L.val, ty)
                    if dd is False:
                        continue
                    return ite(c, self.conv(L.val, ty), rest())
                if self.implied(st, bor(bv(S(iv(d) >= L.size)), bv(S(iv(d) <= -size)))):
                    continue
                raise Unsupported('mixed-size store/read')
            if isinstance(L, (Fill, Copy)):
                d = isub(off, L.off)
                inside = band(bv(ile(0, d)), bv(ile(iadd(d, size), L.len)))
                inside = S(inside) if is_z(inside) else inside
                outside = bor(bv(ile(L.len, d)), bv(ile(iadd(d, size), 0)))
                outside = S(outside) if is_z(outside) else outside
                if outside is True:
                    continue
                if inside is not True and self.implied(st, outside):
                    continue

                def inner():
                    if isinstance(L, Fill):
                        if L.byte != 0:
                            if ty == ('i', 8):
                                return L.byte
                            if ty[0] != 'i' or ty[1] % 8:
                                raise Unsupported('memset with a non-zero byte')
                            return int.from_bytes(bytes([L.byte & 255]) * (ty[1] // 8), 'little', signed=True)
                        return self.zero_of(ty)
                    return self.read(st, L.src, iadd(L.srcoff, d), size, ty)
                if inside is True or self.implied(st, inside):
                    return inner()
                return ite(inside, inner(), rest())
            if isinstance(L, Loop):
                return self.read_loop(st, o, L, off, size, ty, rest)
            raise Unsupported('layer')
        return self.base_read(st, o, off, size, ty)

    def partial(self, st, o, off, size, ty, L, rest):
        """read overlapping cells of another size: only all-zero or byte-composed integers"""
        if ty[0] == 'i':
            # union of smaller cells
            val, x = 0, off
            while x < off + size:
                c = L.d.get(x)
                if c is None or x + c[0] > off + size or not isinstance(c[1], int):
                    break
                val |= (c[1] & ((1 << (8 * c[0])) - 1)) << (8 * (x - off))
                x += c[0]
            else:
                if val >= 1 << (8 * size - 1):
                    val -= 1 << (8 * size)
                return val
        for x, (s, v) in L.d.items():
            if x <= off and off + size <= x + s and isinstance(v, int):
                w = (v >> (8 * (off - x))) & ((1 << (8 * size)) - 1)
                if w >= 1 << (8 * size - 1):
                    w -= 1 << (8 * size)
                return self.conv(w, ty) if w == 0 or ty[0] == 'i' else self.conv(w, ty)
        raise Unsupported('partial read of %s at %s' % (o.name, off))

    def fam_instances(self, e, off, size):
        """candidate values of the family variables for which e writes offset off, or None"""
        if len(e.vars) == 1:
            k, K = e.vars[0]
            lin = linear_in(e.off, k)
            if lin is None:
                return None
            a, c = lin
            q = exact_div(isub(off, a), c)
            return [q] if q is not None else None
        t = off
        qs = {}
        rem = e.off
        coefs = []
        for k, K in e.vars:
            lin = linear_in(rem, k)
            if lin is None:
                return None
            rem, c = lin
            coefs.append((k, c))
        t = isub(off, rem)
        # outer variables have the larger coefficients: divide by the most complex first
        order = sorted(coefs, key=lambda kc: (-max([len(m) for m in poly(kc[1])[0]] or [0]),
                                              -abs(kc[1]) if isinstance(kc[1], int) else 0))
        for k, c in order[:-1]:
            dp = divide_part(t, c)
            if dp is None:
                return None
            qs[k.get_id()], t = dp
        k, c = order[-1]
        q = exact_div(t, c)
        if q is None:
            return None
        qs[k.get_id()] = q
        return [qs[k.get_id()] for k, _ in e.vars]

    def radix_instance(self, st, e, off, qs=None):
        """the only candidate for the offset, when the family writes a + u*(P*(k_0 + P_0*(k_1 + P_1*(...)))) with
        P > 0 and each P_i >= the number of values of k_i: the digits of the offset. None for other families."""
        rem, left = e.off, []
        for k, K in e.vars:
            lin = linear_in(rem, k)
            if lin is None:
                return None
            rem, c = lin
            if isinstance(c, int) and c <= 0:
                return None
            left.append((k, K, c))
        ones = [x for x in left if len(left) > 1 and self.implied(st, ile(x[1], 1))]
        left = [x for x in left if x not in ones] or left[:1]
        ones = [x for x in ones if x not in left]
        if any(set(consts_of(K)) & {k.decl().name() for k, _ in e.vars} for _, K, _ in left if is_z(K)):
            return None
        order = None
        for p in itertools.permutations(left) if len(left) <= 4 else []:
            ratios = [(q[2] // c[2] if q[2] % c[2] == 0 else None)
                      if isinstance(c[2], int) and isinstance(q[2], int) else exact_div(q[2], c[2])
                      for c, q in zip(p, p[1:])]
            if any(r is None or (isinstance(r, int) and r <= 0) for r in ratios):
                continue
            if all(same(r, K) or self.implied(st, ile(K, r)) for r, (_, K, _) in zip(ratios, p)):
                order = list(p)
                break
        if order is None:
            return None
        c = order[0][2]
        bases = list(ratios)
        if isinstance(c, int):
            u = c
        else:
            u = algebra.gcd_of(poly(c)[0])
            bases = [exact_div(c, u)] + bases
            order = [(None, 1, u)] + order
        t = exact_div(isub(off, rem), u)
        if t is None:
            return None
        for P, (k, K, _) in zip(bases, order):
            # the family is empty when a number of values is not positive
            if not (k is not None and same(P, K)) and not self.implied(st, ilt(0, P)):
                return None
        if qs is not None and not ones:
            # an instance for which the lower digits are in their ranges
            q = dict(zip([k.get_id() for k, _ in e.vars], qs))
            if all(k is None or (self.implied(st, ile(0, q[k.get_id()])) and self.implied(st, ilt(q[k.get_id()], P)))
                   for P, (k, _, _) in zip(bases, order)) \
                    and same(self.subst(e.off, [(k, iv(v)) for (k, _), v in zip(e.vars, qs)]), off):
                return qs
        digits = []
        for i, P in enumerate(bases):
            qd = self.near_multiple(st, t, P)
            if qd is None:
                R = 1
                for _, L, _ in order[i + 1:]:
                    R = imul(R, L)
                qd = QUO(iv(t), iv(P), iv(R)), MOD(iv(t), iv(P), iv(R))
            t = qd[0]
            digits.append(qd[1])
        digits.append(t)
        vals = {k.get_id(): d for (k, _, _), d in zip(order, digits) if k is not None}
        vals.update({k.get_id(): 0 for k, _, _ in ones})
        return [vals[k.get_id()] for k, _ in e.vars]

    def near_multiple(self, st, t, P):
        """quotient and remainder of t by P > 0 when t is a multiple of P plus a term in range, or a small constant"""
        if isinstance(P, int):
            return None
        dp = divide_part(t, P)
        if dp is None:
            return None
        q0, r0 = dp
        if not isinstance(r0, int):
            if self.implied(st, ile(0, r0)):
                if self.implied(st, ilt(r0, P)):
                    return dp
                n = 1
                if not (self.implied(st, ile(P, r0)) and self.implied(st, ilt(r0, imul(2, P)))):
                    return None
            elif self.implied(st, ilt(r0, 0)) and self.implied(st, ile(isub(0, P), r0)):
                n = -1
            else:
                return None
            return iadd(q0, n), isub(r0, imul(n, P))
        if abs(r0) > 16:
            return None
        if r0 >= 0:
            return (q0, r0) if self.implied(st, ilt(r0, P)) else None
        return (isub(q0, 1), iadd(P, r0)) if self.implied(st, ile(-r0, P)) else None

    def digit_axioms(self, x):
        """what the digits of a number are; x = QUO(t, P, R), R being such that the quotient is in 0..R-1 when t is
        in 0..P*R-1"""
        i = x.get_id()
        if i not in self.digits:
            t, P, R = x.children()
            q, d = QUO(t, P, R), MOD(t, P, R)
            pos = P > 0
            self.digits[i] = ([z3.Implies(pos, t == P * q + d), z3.Implies(pos, z3.And(d >= 0, d < P)),
                               z3.Implies(z3.And(pos, t >= 0), q >= 0),
                               z3.Implies(z3.And(pos, t < P * R), q < R)], x)
        return self.digits[i][0]

    def sorted_axioms(self, x):
        """what the outcome of std::sort (kind -1) or std::nth_element (kind n) is"""
        i = x.get_id()
        if i not in self.digits:
            old, nth = x.children(), sorted_kind(x)
            new = [sorted_value(nth, j, old) for j in range(len(old))]

            def count(vs, f):
                return z3.Sum([z3.If(f(v), 1, 0) for v in vs])
            ax = [z3.Or([b == a for a in old]) for b in new] + [z3.Or([a == b for b in new]) for a in old]
            for b in old + new:
                ax.append(count(old, lambda v: v < b) == count(new, lambda v: v < b))
                ax.append(count(old, lambda v: v <= b) == count(new, lambda v: v <= b))
            ax.append(z3.Sum(old) == z3.Sum(new))
            for j in range(len(new)):
                if nth < 0 and j + 1 < len(new):
                    ax.append(new[j] <= new[j + 1])
                elif 0 <= nth < len(new) and j != nth:
                    ax.append(new[j] <= new[nth] if j < nth else new[j] >= new[nth])
            self.digits[i] = (ax, x)
        return self.digits[i][0]

    def fam_cond(self, e, vals, off):
        m = [(k, iv(v)) for (k, _), v in zip(e.vars, vals)]
        cs = []
        for (k, K), v in zip(e.vars, vals):
            cs.append(bv(ile(0, v)))
            cs.append(bv(ilt(v, self.subst(K, m))))
        g = self.subst(e.guard, m)
        if g is not True:
            cs.append(bv(g))
        eq = ieq(self.subst(e.off, m), off)
        cs.append(bv(eq))
        r = band(*[c for c in cs])
        return S(r) if is_z(r) else r

    def read_loop(self, st, o, L, off, size, ty, rest):
        fams = []
        for e in L.entries:
            if isinstance(e, FBlock):
                fams.append(self.read_fblock(st, e, off, size, ty))
                continue
            if e.guard is False:
                continue
            if e.size != size:
                raise Unsupported('loop wrote elements of another size')
            qs = self.fam_instances(e, off, size)
            if len(e.vars) == 1:
                k, K = e.vars[0]
                if qs is None:
                    lin = linear_in(e.off, k)
                    if lin is not None and isinstance(lin[1], int) and lin[1] != 0:
                        d = isub(off, lin[0])
                        c = lin[1]
                        q = S((iv(d) if c > 0 else -iv(d)) / abs(c))
                        qs = [q]
                if qs is not None:
                    cond = self.fam_cond(e, qs, off)
                    dd = self.decide(st, cond)
                    if dd is False:
                        continue
                    fams.append((True if dd else cond, lambda e=e, qs=qs: self.subst_val(e.val, e.vars, qs), None))
                    continue
            # several variables: skolem witness, see DESIGN (reads through nested loop summaries)
            if qs is not None:
                cond = self.fam_cond(e, qs, off)
                if self.decide(st, cond) is True:
                    # written by iteration qs; families are injective (proved when built)
                    fams.append((True, lambda e=e, qs=qs: self.subst_val(e.val, e.vars, qs), None))
                    continue
            ds = self.radix_instance(st, e, off, qs)
            if ds is not None:
                cond = self.fam_cond(e, ds, off)
                dd = self.decide(st, cond)
                if dd is not False:
                    fams.append((True if dd else cond, lambda e=e, ds=ds: self.subst_val(e.val, e.vars, ds), None))
                continue
            ws = [self.fresh('w', z3.IntSort()) for _ in e.vars]
            b = self.fresh('wr', z3.BoolSort())
            wc = self.fam_cond(e, ws, off)
            ax = [z3.Implies(b, bv(wc))]
            if qs is not None:
                ax.append(z3.Implies(z3.Not(b), z3.Not(bv(cond))))
            self.side.append((b.decl().name(), ax))
            for w in ws:
                self.side.append((w.decl().name(), ax))
            fams.append((b, lambda e=e, ws=ws: self.subst_val(e.val, e.vars, ws), None))
        if not fams:
            return rest()
        out = None
        for c, v, _ in fams:
            if c is True:
                return self.conv(v(), ty)
        if self.implied(st, bor(*[c for c, _, _ in fams])):
            out = self.conv(fams[-1][1](), ty)
            fams = fams[:-1]
        else:
            out = rest()
        for c, v, _ in fams:
            out = ite(c, self.conv(v(), ty), out)
        return out

    def read_fblock(self, st, e, off, size, ty):
        raise Unsupported('block write in a loop')

    def subst_val(self, v, vars, vals):
        return self.subst(v, [(k, iv(x)) for (k, _), x in zip(vars, vals)])

    def write(self, st, o, off, size, val):
        """o is already a private copy"""
        if isinstance(off, int):
            if o.layers and isinstance(o.layers[-1], Cells):
                d = dict(o.layers[-1].d)
            else:
                d = {}
                o.layers.append(None)
            for x in [x for x, (s, _) in d.items() if x < off + size and off < x + s]:
                s, v = d[x]
                if x >= off and x + s <= off + size:
                    del d[x]
                elif isinstance(v, int):
                    # split integer cell in bytes
                    del d[x]
                    for i in range(s):
                        if not (off <= x + i < off + size):
                            d[x + i] = (1, (v >> (8 * i)) & 255)
                else:
                    raise Unsupported('partial overwrite')
            d[off] = (size, val)
            o.layers[-1] = Cells(d)
        else:
            if o.layers and isinstance(o.layers[-1], Store) and same(o.layers[-1].off, off) \
                    and o.layers[-1].size == size:
                o.layers[-1] = Store(off, size, val)
            else:
                o.layers.append(Store(off, size, val))

    def access(self, st, p, size, what, where, write=False):
        if isinstance(p, Fn):
            raise Unsupported('memory access to a function')
        if p.obj is None:
            self.oblige(st, 'memory: %s through a null or invalid pointer' % what, False, where)
            raise Dead('null')
        o = st.mem[p.obj]
        if not o.alive:
            self.oblige(st, 'memory: %s after release of %s' % (what, o.name), False, where)
            raise Dead('freed')
        if write and o.const:
            self.oblige(st, 'memory: write to read-only %s' % o.name, False, where)
            raise Dead('const')
        c = band(bv(ile(0, p.off)), bv(ile(iadd(p.off, size), o.size)))
        c = S(c) if is_z(c) else c
        if c is not True:
            if c is False:
                self.oblige(st, 'memory: %s out of the bounds of %s' % (what, o.name), False, where)
                raise Dead('oob')
            self.oblige(st, 'memory: %s within the bounds of %s' % (what, o.name), c, where)
            st.assume(c)
        return o

    def load(self, st, p, ty, where):
        ty = self.m.resolve(ty)
        if ty[0] == 'st':
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, self.m.field_offset(ty, i))), t, where)
                         for i, t in enumerate(ty[1]))
        if ty[0] in ('arr', 'vec'):
            es = self.m.size(ty[2])
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, es * i)), ty[2], where) for i in range(ty[1]))
        size = self.m.size(ty)
        o = self.access(st, p, size, 'read', where)
        return self.read(st, o, p.off, size, ty)

    def store(self, st, p, ty, v, where):
        ty = self.m.resolve(ty)
        if ty[0] == 'st':
            for i, t in enumerate(ty[1]):
                self.store(st, Ptr(p.obj, iadd(p.off, self.m.field_offset(ty, i))), t, v[i], where)
            return
        if ty[0] in ('arr', 'vec'):
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.obj, iadd(p.off, es * i)), ty[2], v[i], where)
            return
        size = self.m.size(ty)
        self.access(st, p, size, 'write', where, True)
        o = st.wobj(p.obj)
        self.write(st, o, p.off, size, v)
        if st.wlog is not None:
            st.wlog.append((p.obj, p.off, size))

    # -------------------------------------------------------------- substitution
    def subst(self, t, m, hmap=None):
        """substitute constants (list of pairs), and optionally reads of havoced arrays (hmap: name -> fn(off, sort))"""
        if isinstance(t, Ptr):
            return Ptr(t.obj, self.subst(t.off, m, hmap))
        if isinstance(t, tuple):
            return tuple(self.subst(x, m, hmap) for x in t)
        if not is_z(t):
            return t
        if m:
            t = z3.substitute(t, *[(a, zv(b)) for a, b in m])
        if hmap:
            t = self.rewrite_h(t, hmap)
        return S(t)

    def rewrite_h(self, t, hmap):
        cache = {}

        def rec(x):
            i = x.get_id()
            if i in cache:
                return cache[i][1]
            if not z3.is_app(x) or x.num_args() == 0:
                r = x
            else:
                ch = [rec(c) for c in x.children()]
                d = x.decl()
                nm = d.name()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and nm[:-2] in hmap:
                    r = zv(hmap[nm[:-2]](S(ch[0]), d.range()))
                elif d.kind() == z3.Z3_OP_UNINTERPRETED and nm in self.folds:
                    r = self.rewrite_fold(nm, ch, hmap)
                elif all(a.eq(b) for a, b in zip(ch, x.children())):
                    r = x
                else:
                    r = d(*ch)
            cache[i] = (x, r)
            return r
        return rec(t)

    def rewrite_fold(self, nm, ch, hmap):
        f = self.folds[nm]
        hs = set()

        def scan(g, seen):
            for h in g.group:
                if h.name in seen:
                    continue
                seen.add(h.name)
                for t in (h.init, h.step):
                    if not is_z(t):
                        continue
                    for a in apps_of(t, lambda n: True).values():
                        an = a.decl().name()
                        if an in self.folds:
                            scan(self.folds[an], seen)
                        elif an[:-2] in hmap:
                            hs.add(an[:-2])
        scan(f, set())
        if not hs:
            return f.decl(*ch)
        raise Unsupported('accumulator over memory written by an enclosing loop')

    # -------------------------------------------------------------- operands
    def glob(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.functions or name in self.m.decls:
            return Fn(name)
        g = self.globals.get(name)
        if g is None:
            gd = self.m.globals.get(name)
            self.obj_n += 1
            if gd is None or gd[0] is None:
                o = Obj(self.obj_n, 8, 'global', name)
            else:
                t, init, const = gd
                o = Obj(self.obj_n, self.m.size(t), 'global', name, const=const)
                if init is not None:
                    o.base = ('init', t, init)
            self.globals[name] = o
            Mem.GLOBALS[o.id] = o
            g = o
        if st is not None and g.id not in st.mem:
            st.mem[g.id] = g
        return Ptr(g.id, 0)

    def operand(self, st, ty, v, env=None):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            if ty == ('i', 1):
                return bool(v[1])
            return v[1]
        if k == 'fconst':
            if isinstance(v[1], str):
                c = z3.Real('const_' + v[1])
                self.assumptions.add('infinities and NaN are opaque real constants')
                return c
            return v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'undef':
            ty = self.m.resolve(ty)
            if ty[0] == 'i':
                return self.fresh('undef', z3.BoolSort() if ty[1] == 1 else z3.IntSort())
            if ty[0] == 'f':
                return self.fresh('undef', z3.RealSort())
            if ty[0] == 'st':
                return tuple(self.operand(st, x, v) for x in ty[1])
            if ty[0] in ('arr', 'vec'):
                return tuple(self.operand(st, ty[2], v) for _ in range(ty[1]))
            if ty[0] == 'md':
                return None
            return NULL
        if k == 'agg':
            return tuple(self.operand(st, t, x, env) for t, x in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'cgep':
            b = self.operand(st, v[2][0][0], v[2][0][1], env)
            return self.gep(st, v[1], b, [(t, self.operand(st, t, x, env)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = self.operand(st, v[2], v[3], env)
            if v[1] in ('ptrtoint', 'inttoptr'):
                return self.cast(st, v[1], x, v[2], v[4])
            return x
        if k == 'cbin':
            a = self.operand(st, v[2], v[3], env)
            b = self.operand(st, v[2], v[4], env)
            return self.binop(st, v[1], v[2], a, b, set())
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, bt, base, idx):
        if isinstance(base, Fn):
            raise Unsupported('gep on function')
        off = base.off
        t = bt
        for n, (it, i) in enumerate(idx):
            if n == 0:
                off = iadd(off, imul(self.m.size(t), i))
            else:
                t = self.m.resolve(t)
                if t[0] == 'st':
                    off = iadd(off, self.m.field_offset(t, i))
                    t = t[1][i]
                else:
                    t = t[2]
                    off = iadd(off, imul(self.m.size(t), i))
        return Ptr(base.obj, off)

    # -------------------------------------------------------------- arithmetic
    def uns(self, a, bits):
        if isinstance(a, int):
            return a if a >= 0 else a + (1 << bits)
        return S(z3.If(a >= 0, a, a + (1 << bits)))

    def nonneg(self, st, a):
        if isinstance(a, int):
            return a >= 0
        return st is not None and self.implied(st, S(a >= 0))

    def wrap(self, st, a, bits):
        h = 1 << (bits - 1)
        if isinstance(a, int):
            return ((a + h) & ((1 << bits) - 1)) - h
        c = S(z3.And(a >= -h, a < h))
        if self.implied(st, c):
            return a
        return S((a + h) % (2 * h) - h)

    def binop(self, st, op, ty, a, b, flags):
        ty = self.m.resolve(ty)
        if ty[0] == 'vec':
            return tuple(self.binop(st, op, ty[2], x, y, flags) for x, y in zip(a, b))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if op == 'fmul' and not is_z(a) and not is_z(b):
                return a * b
            if not is_z(a) and not is_z(b):
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fdiv' and b != 0:
                    return a / b
            if op == 'fadd':
                if not is_z(a) and a == 0:
                    return b
                if not is_z(b) and b == 0:
                    return a
            x, y = rv(a), rv(b)
            if op == 'fadd':
                return S(x + y)
            if op == 'fsub':
                return S(x - y)
            if op == 'fmul':
                if x.eq(y) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_true(z3.simplify(x.arg(1) + x.arg(2) == 0)):
                    x = y = x.arg(1)      # the square of an absolute value
                return S(x * y)
            if op == 'fdiv':
                return S(x / y)
            raise Unsupported(op)
        w = ty[1]
        if w == 1:
            if op in ('xor',):
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return S(z3.Xor(a, b))
            if op in ('and', 'mul'):
                return S(band(a, b)) if not isinstance(band(a, b), bool) else band(a, b)
            if op == 'or':
                r = bor(a, b)
                return S(r) if is_z(r) else r
            if op in ('add', 'sub'):
                return S(z3.Xor(bv(a), bv(b)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('integer operation on a pointer copied as integer')
        if is_z(a) and z3.is_bool(a):
            a = S(z3.If(a, 1, 0))
        if is_z(b) and z3.is_bool(b):
            b = S(z3.If(b, 1, 0))
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        conc = isinstance(a, int) and isinstance(b, int)
        if op == 'add':
            r = iadd(a, b)
            return self.wrap(st, r, w) if conc else r
        if op == 'sub':
            r = isub(a, b)
            return self.wrap(st, r, w) if conc else r
        if op == 'mul':
            r = imul(a, b)
            return self.wrap(st, r, w) if conc else r
        if op == 'shl':
            if not isinstance(b, int):
                raise Unsupported('shift by a variable')
            r = imul(a, 1 << b)
            return self.wrap(st, r, w) if conc else r
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if isinstance(b, int) and b == 0:
                self.oblige(st, 'arithmetic: division by zero', False)
                raise Dead('div0')
            if not isinstance(b, int):
                self.oblige(st, 'arithmetic: divisor is not zero', S(b != 0))
                st.assume(S(b != 0))
            if op in ('udiv', 'urem'):
                if not self.nonneg(st, a):
                    a = self.uns(a, w)
                if not self.nonneg(st, b):
                    b = self.uns(b, w)
                if isinstance(a, int) and isinstance(b, int):
                    return a // b if op == 'udiv' else a % b
                if op == 'udiv':
                    q = exact_div(a, b)
                    return q if q is not None else S(iv(a) / iv(b))
                return S(iv(a) % iv(b))
            if conc:
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == 'sdiv' else a - b * q
            if op == 'sdiv' and ('exact' in flags or True):
                q = exact_div(a, b)
                if q is not None:
                    return q
            # truncated division
            if not isinstance(b, int) and is_z(a):
                qd = self.near_multiple(st, a, b) if self.implied(st, ilt(0, b)) else None
                if qd is not None:
                    q, d = qd
                    if op == 'sdiv':
                        return ite(ile(0, a), q, ite(ieq(d, 0), q, iadd(q, 1)))
                    return ite(ile(0, a), d, ite(ieq(d, 0), 0, isub(d, b)))
            x, y = iv(a), iv(b)
            if self.nonneg(st, b) and self.nonneg(st, a):
                return S(x / y) if op == 'sdiv' else S(x % y)
            if isinstance(b, int):
                ab = abs(b)
                q = z3.If(x >= 0, x / ab, -((-x) / ab))
                if op == 'sdiv':
                    return S(q if b > 0 else -q)
                return S(z3.If(x >= 0, x % ab, -((-x) % ab)))
            ay = z3.If(y >= 0, y, -y)
            r = z3.If(x >= 0, x % ay, -((-x) % ay))
            if op == 'srem':
                return S(r)
            q = z3.If(x >= 0, x / ay, -((-x) / ay))
            return S(z3.If(y >= 0, q, -q))
        if op == 'ashr':
            if not isinstance(b, int):
                raise Unsupported('shift by a variable')
            if isinstance(a, int):
                return a >> b
            q = exact_div(a, 1 << b)
            if q is not None and w - b <= 32:
                return self.wrap(st, q, w - b)  # sign extension of the low bits
            return q if q is not None else S(a / (1 << b))
        if op == 'lshr':
            if not isinstance(b, int):
                raise Unsupported('shift by a variable')
            if not self.nonneg(st, a):
                a = self.uns(a, w)
            if isinstance(a, int):
                return a >> b
            q = exact_div(a, 1 << b)
            return q if q is not None else S(a / (1 << b))
        if op == 'and':
            if conc:
                return a & b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b >= 0 and (b & (b + 1)) == 0:
                    return S(a % (b + 1))
                if b < 0 and ((-b) & (-b - 1)) == 0:
                    return S(a - a % (-b))
                if b >= 0:
                    # contiguous mask 2^h - 2^l
                    l = (b & -b)
                    h = b + l
                    if (h & (h - 1)) == 0:
                        return S(a % h - a % l)
            return self.bitop('and', st, a, b)
        if op == 'or':
            if conc:
                return a | b
            if 'disjoint' in flags:
                return iadd(a, b)
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
            return self.bitop('or', st, a, b)
        if op == 'xor':
            if conc:
                return a ^ b
            if isinstance(b, int) and b == -1:
                return isub(-1, a)
            if isinstance(a, int) and a == -1:
                return isub(-1, b)
            return self.bitop('xor', st, a, b)
        raise Unsupported(op)

    def bitop(self, op, st, a, b):
        """a symbolic bit operation: power-of-two masks known from the path, else uninterpreted"""
        if op == 'and':
            # x & (2^n - 1) or x & -(2^n) with 2^n symbolic: recognise b+1 or -b among registered powers of two
            for p in st.flags.get('pow2', ()):
                for x, y in ((a, b), (b, a)):
                    if ieq(iadd(y, 1), p) is True:
                        return S(iv(x) % iv(p))
                    if ieq(iadd(y, p), 0) is True:
                        return S(iv(x) - iv(x) % iv(p))
        f = self.uflib.setdefault('bit' + op, z3.Function('bit' + op, z3.IntSort(), z3.IntSort(), z3.IntSort()))
        x, y = iv(a), iv(b)
        r = f(x, y)
        if op == 'or':
            st.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y)))
            st.assume((r == 0) == z3.And(x == 0, y == 0))
            st.assume((r < 0) == z3.Or(x < 0, y < 0))
        elif op == 'and':
            st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)))
            st.assume(z3.Implies(y >= 0, z3.And(r >= 0, r <= y)))
        elif op == 'xor':
            st.assume((r == 0) == (x == y))
            st.assume((r < 0) == z3.Xor(x < 0, y < 0))
        return r

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.resolve(ty)
        if ty[0] == 'vec':
            return tuple(self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b))
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = a == b
            return r if pred == 'eq' else not r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = NULL if isinstance(a, int) and a == 0 else a
            b = NULL if isinstance(b, int) and b == 0 else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported('pointer/integer comparison')
            if a.obj == b.obj:
                a, b = a.off, b.off
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
            elif pred in ('eq', 'ne'):
                return pred == 'ne'
            else:
                a, b = self.addr(st, a), self.addr(st, b)
            return self.icmp(st, pred, ('i', 64), a, b)
        if ty == ('i', 1) or (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)):
            def tb(x):
                if isinstance(x, bool):
                    return x
                if isinstance(x, int):
                    return bool(x & 1)
                return x if z3.is_bool(x) else x != 0
            a, b = tb(a), tb(b)
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(b, bool):
                r = a if b else bnot(a)
            elif isinstance(a, bool):
                r = b if a else bnot(b)
            else:
                r = S(a == b)
            if pred == 'eq':
                return r
            if pred == 'ne':
                return bnot(r)
            a = S(z3.If(bv(a), 1, 0))
            b = S(z3.If(bv(b), 1, 0))
        w = ty[1] if ty[0] == 'i' else 64
        if pred == 'eq':
            return ieq(a, b)
        if pred == 'ne':
            return bnot(ieq(a, b))
        if pred in ('sgt', 'sge', 'ugt', 'uge'):
            return self.icmp(st, {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[pred], ty, b, a)
        if pred == 'slt':
            return ilt(a, b)
        if pred == 'sle':
            return ile(a, b)
        f = ilt if pred == 'ult' else ile
        if isinstance(a, int) and isinstance(b, int):
            return f(self.uns(a, w), self.uns(b, w))
        if isinstance(b, int) and b >= 0:
            r = band(bv(ile(0, a)), bv(f(a, b)))
            return S(r) if is_z(r) else r
        if isinstance(a, int) and a >= 0:
            r = bor(bv(ilt(b, 0)), bv(f(a, b)))
            return S(r) if is_z(r) else r
        if self.nonneg(st, a) and self.nonneg(st, b):
            return f(a, b)
        x, y = iv(self.uns(a, w)), iv(self.uns(b, w))
        return S(x < y if pred == 'ult' else x <= y)

    def addr(self, st, p):
        if p.obj is None:
            return p.off
        o = st.mem[p.obj]
        if o.addr is None:
            o = st.wobj(p.obj)
            o.addr = z3.Int('addr_%d' % o.id)
        base = o.addr
        st.assume(base > 0)
        if o.align > 1:
            st.assume(base % o.align == 0)
        return iadd(base, p.off)

    def cast(self, st, op, a, t1, t2):
        t1, t2 = self.m.resolve(t1), self.m.resolve(t2)
        if t1[0] == 'vec':
            return tuple(self.cast(st, op, x, t1[2], t2[2]) for x in a)
        if op == 'trunc':
            if isinstance(a, Ptr):
                raise Unsupported('trunc of pointer')
            if t2[1] == 1:
                if is_z(a) and z3.is_bool(a) or isinstance(a, bool):
                    return a
                if isinstance(a, int):
                    return bool(a & 1)
                if t1 == ('i', 8):
                    return S(a % 2 != 0)
                return S(a % 2 != 0)
            if isinstance(a, bool) or (is_z(a) and z3.is_bool(a)):
                return a
            return self.wrap(st, a, t2[1])
        if op in ('zext', 'sext'):
            if t1[1] == 1 or isinstance(a, bool) or (is_z(a) and z3.is_bool(a)):
                one = 1 if op == 'zext' else -1
                if isinstance(a, bool):
                    if t2[1] == 8:
                        return a if op == 'zext' else (one if a else 0)
                    return one if a else 0
                if t2[1] == 8 and op == 'zext':
                    return a     # booleans stored in bytes stay booleans
                return S(z3.If(a, one, 0))
            if op == 'sext' or self.nonneg(st, a):
                return a
            return self.uns(a, t1[1])
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, bool):
                return Fraction(int(a) if op == 'uitofp' else -int(a))
            if is_z(a) and z3.is_bool(a):
                return S(z3.If(a, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0)))
            if op == 'uitofp' and not self.nonneg(st, a):
                a = self.uns(a, t1[1])
            if isinstance(a, int):
                return Fraction(a)
            return S(z3.ToReal(a))
        if op in ('fptosi', 'fptoui'):
            if isinstance(a, Fraction):
                return int(a)
            self.assumptions.add('float-to-integer conversions are in the range of the integer type')
            return S(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
        if op in ('fpext', 'fptrunc'):
            return a
        if op == 'bitcast':
            return a
        if op == 'ptrtoint':
            if isinstance(a, Fn):
                raise Unsupported('ptrtoint of function')
            return self.addr(st, a)
        if op == 'inttoptr':
            if isinstance(a, Ptr):
                return a
            if isinstance(a, int):
                return Ptr(None, a)
            cs = consts_of(a)
            found = [n for n in cs if n.startswith('addr_')]
            if len(found) == 1:
                oid = int(found[0][5:])
                return Ptr(oid, isub(a, cs[found[0]]))
            raise Unsupported('inttoptr')
        raise Unsupported(op)

    # -------------------------------------------------------------- control
    def must_throw(self, fn):
        """blocks from which no return is reachable on normal edges, but a throw is"""
        if fn._must_throw is not None:
            return fn._must_throw
        reach = fn.reachable()
        ok = set()
        thr = set()
        for b in reach:
            for ins in fn.blocks[b].instrs:
                if ins.op == 'ret' or ins.op in ('call', 'invoke') and ins.extra['callee'][0] == 'gid' \
                        and ins.extra['callee'][1].startswith('@vc_'):
                    ok.add(b)
                if ins.op in ('call', 'invoke') and self.is_throw(ins):
                    thr.add(b)
                if ins.op == 'resume':
                    thr.add(b)
        preds = {b: [] for b in reach}
        for b in reach:
            for s in fn.succs(b):
                preds[s].append(b)

        def back(seed):
            seen = set(seed)
            st = list(seed)
            while st:
                x = st.pop()
                for p in preds[x]:
                    if p not in seen:
                        seen.add(p)
                        st.append(p)
            return seen
        # a block which itself returns after a throwing call cannot exist; a thr block ends in unreachable
        ok = back(ok)
        thr = back(thr)
        fn._must_throw = {b for b in reach if b not in ok and b in thr}
        return fn._must_throw

    def is_throw(self, ins):
        k, c = ins.extra['callee']
        return k == 'gid' and (c in ('@__cxa_throw', '@__cxa_rethrow', '@_ZSt9terminatev', '@__clang_call_terminate')
                               or c.startswith('@_ZSt') and '__throw_' in c or self.always_throws(c))

    def always_throws(self, c):
        f = self.m.functions.get(c)
        if f is None:
            return False
        r = self.mt_cache.get(c)
        if r is None:
            self.mt_cache[c] = False
            r = f.entry in self.must_throw(f)
            self.mt_cache[c] = r
        return r

    def where(self, st, ins):
        f = st.frames[-1].fn if st.frames else None
        loc = self.loc(ins.dbg) if ins is not None and ins.dbg else None
        return loc or (f.name if f else None)

    def loc(self, dbg):
        md = self.m.md
        s = md.get(dbg, '')
        mm = re.search(r'line: (\d+)', s)
        line = mm.group(1) if mm else '?'
        sc = re.search(r'scope: !(\d+)', s)
        seen = 0
        file = name = None
        cur = sc.group(1) if sc else None
        while cur and seen < 20:
            seen += 1
            x = md.get(cur, '')
            fm = re.search(r'file: !(\d+)', x)
            if fm and file is None:
                fx = md.get(fm.group(1), '')
                y = re.search(r'filename: "([^"]*)"', fx)
                file = y.group(1) if y else None
            nm = re.search(r'name: "([^"]*)"', x)
            if 'DISubprogram' in x:
                name = nm.group(1) if nm else None
                break
            p = re.search(r'scope: !(\d+)', x)
            cur = p.group(1) if p else None
        return '%s:%s (%s)' % (file, line, name)

    def throw(self, st, where, what='exception'):
        self.stats['throws'] += 1
        if self.in_catch(st):
            raise Unsupported('exception handler in the verified code')
        if st.expect is None:
            self.oblige(st, 'exception: no exception is raised', False, where)
        else:
            self.oblige(st, 'contract: raises only when specified (%s)' % st.expect[1], st.expect[0], where)
        raise Dead('throw')

    def in_catch(self, st):
        return False

    def goto(self, st, target, ins=None):
        """transfer to block; returns list of states to continue (loop handling included)"""
        f = st.frames[-1]
        fn = f.fn
        prev = f.block
        blk = fn.blocks[target]
        vals = []
        for phi in blk.phis:
            for v, b in phi.args:
                if b == prev:
                    vals.append((phi.res, self.operand(st, phi.ty, v, f.env)))
                    break
            else:
                raise Unsupported('phi')
        for r, v in vals:
            f.env[r] = v
        f.prev, f.block, f.idx = prev, target, 0

    def run(self, st0, region=None):
        """explore from st0; region = (depth, header, body): returns (latches, exits).
        Without region explores to the end of the proof function."""
        import merge
        work = merge.Worklist(self)
        work.push(st0)
        latches, exits = [], []
        while len(work):
            st = work.pop()
            if time.time() > self.deadline:
                raise OutOfTime('time budget of the proof exhausted')
            if len(work) > 4000:
                raise Unsupported('too many paths')
            try:
                r = self.step_block(st, region, False)
            except Dead as e:
                self.stats['paths'] += 1
                continue
            for kind, s in r:
                if kind == 'go':
                    work.push(s)
                elif kind == 'fork':
                    work.push(s, True)
                elif kind == 'latch':
                    latches.append(s)
                elif kind == 'exit':
                    exits.append(s)
                elif kind == 'done':
                    self.stats['paths'] += 1
                    self.finish(s)
        return latches, exits

    def finish(self, st):
        pass

    def transfer(self, st, target, region):
        """branch of the top frame to block target; classify"""
        f = st.frames[-1]
        depth = len(st.frames)
        if region is not None and depth == region[0]:
            if target == region[1]:
                self.goto(st, target)
                return [('latch', st)]
            if target not in region[2]:
                # leaving the loop: keep prev for phi evaluation
                self.goto(st, target)
                return [('exit', st)]
        if target in self.must_throw(f.fn):
            self.throw(st, self.where(st, f.fn.blocks[target].instrs[-1]) or f.fn.name)
        loops = f.fn.loops()
        if target in loops and f.block not in loops[target]:
            self.goto(st, target)
            return [('go', s) for s in self.enter_loop(st, target, loops[target])]
        self.goto(st, target)
        return [('go', st)]

    def after_exit(self, st):
        """states that left a loop arrive here positioned at the exit block; the exit block may itself be a
        throw region, a loop header, or leave the enclosing region"""
        return st

    def step_block(self, st, region, entered):
        f = st.frames[-1]
        fn = f.fn
        if f.idx == 0 and f.block in self.must_throw(fn):
            self.throw(st, fn.name)
        blk = fn.blocks[f.block]
        n = len(blk.instrs)
        while True:
            ins = blk.instrs[f.idx]
            self.stats['instrs'] += 1
            op = ins.op
            if op == 'br':
                return self.transfer(st, ins.args[0], region)
            if op == 'condbr':
                c = self.operand(st, ('i', 1), ins.args[0], f.env)
                if is_z(c) and not z3.is_bool(c):
                    c = S(c != 0)
                return self.branch(st, [(c, ins.args[1]), (bnot(c), ins.args[2])], region)
            if op == 'switch':
                v = self.operand(st, ins.ty, ins.args[0], f.env)
                if is_z(v) and z3.is_bool(v):
                    v = S(z3.If(v, 1, 0))
                conds = []
                other = True
                for cv, tgt in ins.args[2]:
                    cval = self.operand(st, ins.ty, cv, f.env)
                    e = ieq(int(v) if isinstance(v, bool) else v, int(cval))
                    conds.append((e, tgt))
                    other = band(other, bnot(e)) if other is not False else False
                other = S(other) if is_z(other) else other
                conds.append((other, ins.args[1]))
                return self.branch(st, conds, region)
            if op == 'ret':
                v = None
                if ins.args:
                    v = self.operand(st, ins.ty, ins.args[0], f.env)
                for a in f.allocas:
                    o = st.wobj(a)
                    o.alive = False
                st.frames.pop()
                if not st.frames:
                    return [('done', st)]
                if region is not None and len(st.frames) < region[0]:
                    return [('exit', st)]
                g = st.frames[-1]
                call = f.ret_to
                if call.res is not None:
                    g.env[call.res] = v
                if call.op == 'invoke':
                    return self.transfer(st, call.extra['normal'], region)
                g.idx += 1
                return [('go', st)]
            if op == 'unreachable':
                self.oblige(st, 'undefined behaviour: end of the path is unreachable', False, self.where(st, ins))
                raise Dead('unreachable')
            try:
                r = self.exec(st, ins)
            except Fork as fk:
                out = []
                c = fk.cond
                for cc in (c, bnot(c)):
                    if self.feasible(st, cc):
                        s2 = st.copy()
                        s2.assume(cc)
                        out.append(('fork', s2))
                return out
            if r == 'call':
                return [('go', st)]
            if isinstance(r, list):
                return r
            if op == 'invoke':
                return self.transfer(st, ins.extra['normal'], region)
            f.idx += 1

    def branch(self, st, conds, region):
        live = []
        concrete = any(c is True for c, _ in conds)
        for c, t in conds:
            if c is False:
                continue
            if c is True or self.feasible(st, c):
                live.append((c, t))
        # exit-test bookkeeping of the innermost region
        if region is not None and len(st.frames) == region[0] and len(conds) == 2:
            ins_out = [t not in region[2] for _, t in conds]
            if any(ins_out) and not all(ins_out):
                mt = self.must_throw(st.frames[-1].fn)
                if not any(t in mt for _, t in conds):
                    region[3]['concrete' if concrete or len(live) < 2 else 'symbolic'] += 1
                    ways = region[3].setdefault('ways', {}).setdefault(id(st.frames[-1].fn.blocks[st.frames[-1].block]), set())
                    ways |= {t in region[2] for _, t in live}
        out = []
        for i, (c, t) in enumerate(live):
            s2 = st if i == len(live) - 1 else st.copy()
            try:
                s2.assume(c)
                out += self.transfer(s2, t, region)
            except Dead:
                self.stats['paths'] += 1
        return out

    # loop handling is in loops.py
    def enter_loop(self, st, header, body):
        import loops
        return loops.enter(self, st, header, body)

    # -------------------------------------------------------------- instructions
    def exec(self, st, ins):
        f = st.frames[-1]
        env = f.env
        op = ins.op
        V = lambda t, v: self.operand(st, t, v, env)
        if op in ir.BIN:
            env[ins.res] = self.binop(st, op, ins.ty, V(ins.ty, ins.args[0]), V(ins.ty, ins.args[1]), ins.extra)
        elif op == 'fneg':
            a = V(ins.ty, ins.args[0])
            env[ins.res] = -a if isinstance(a, Fraction) else S(-a)
        elif op in ir.CAST:
            env[ins.res] = self.cast(st, op, V(ins.extra[0], ins.args[0]), ins.extra[0], ins.ty)
        elif op == 'icmp':
            env[ins.res] = self.icmp(st, ins.extra, ins.ty, V(ins.ty, ins.args[0]), V(ins.ty, ins.args[1]))
        elif op == 'fcmp':
            a, b = V(ins.ty, ins.args[0]), V(ins.ty, ins.args[1])
            p = ins.extra
            self.assumptions.add('floating point numbers are real numbers: no NaN, no rounding')
            if p == 'ord':
                r = True
            elif p == 'uno':
                r = False
            elif p in ('true', 'false'):
                r = p == 'true'
            else:
                p = p[1:]
                if not is_z(a) and not is_z(b):
                    r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
                else:
                    a, b = rv(a), rv(b)
                    r = S({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                           'gt': lambda: a > b, 'ge': lambda: a >= b}[p]())
            env[ins.res] = r
        elif op == 'load':
            p = V(('ptr',), ins.args[0])
            env[ins.res] = self.load(st, p, ins.ty, self.where(st, ins))
        elif op == 'store':
            v = V(ins.ty, ins.args[0])
            p = V(('ptr',), ins.args[1])
            self.store(st, p, ins.ty, v, self.where(st, ins))
        elif op == 'gep':
            b = V(*ins.args[0])
            env[ins.res] = self.gep(st, ins.ty, b, [(t, V(t, x)) for t, x in ins.args[1:]])
        elif op == 'alloca':
            n = V(('i', 64), ins.args[0])
            o = self.new_obj(st, imul(n, self.m.size(ins.ty)), 'stack', ins.res.strip('%"'), align=16)
            f.allocas.append(o.id)
            env[ins.res] = Ptr(o.id, 0)
        elif op == 'select':
            c = V(ins.extra, ins.args[0])
            if isinstance(c, tuple):
                raise Unsupported('vector select')
            a, b = V(ins.ty, ins.args[1]), V(ins.ty, ins.args[2])
            if is_z(c) and isinstance(a, (Ptr, Fn)) and not (isinstance(b, Ptr) and isinstance(a, Ptr) and a.obj == b.obj):
                raise Fork(c)
            env[ins.res] = ite(c, a, b)
        elif op in ('call', 'invoke'):
            return self.call(st, ins)
        elif op == 'extractvalue':
            v = V(ins.ty, ins.args[0])
            for i in ins.extra:
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = V(ins.ty, ins.args[0])
            w = V(ins.extra[0], ins.args[1])

            def ins_rec(v, idx):
                v = list(v)
                v[idx[0]] = w if len(idx) == 1 else ins_rec(v[idx[0]], idx[1:])
                return tuple(v)
            env[ins.res] = ins_rec(v, ins.extra[1])
        elif op == 'freeze':
            env[ins.res] = V(ins.ty, ins.args[0])
        else:
            raise Unsupported('instruction: %s' % (ins.extra or op))
        return None

    def cstr(self, st, p):
        o = st.mem[p.obj]
        if o.base[0] == 'init' and o.base[2][0] == 'bytes':
            return o.base[2][1][p.off:].split(b'\0')[0].decode()
        return '?'

    def call(self, st, ins):
        f = st.frames[-1]
        k, c = ins.extra['callee']
        if k == 'lid':
            v = f.env[c]
            if not isinstance(v, Fn):
                raise Unsupported('indirect call')
            c = v.name
        c = self.m.aliases.get(c, c)
        args = None
        name = c[1:]
        import models
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental'):
            return None
        args = [self.operand(st, t, v, f.env) for t, v in ins.args]
        m = models.lookup(self, name)
        if m is not None:
            r = m(self, st, ins, args)
            if isinstance(r, models.Result):
                if ins.res is not None:
                    f.env[ins.res] = r.value
                return None
            if r == 'call':
                return 'call'
            return r
        fn = self.m.functions.get(c)
        if fn is None:
            raise Unsupported('call to external ' + name)
        return self.enter_call(st, ins, fn, args)

    def enter_call(self, st, ins, fn, args):
        self.called.add(fn.name)
        if len(st.frames) > 60:
            raise Unsupported('recursion')
        if fn.entry in self.must_throw(fn):
            self.throw(st, fn.name)
        g = Frame(fn)
        for (t, nm, got), a in zip(fn.params, args):
            g.env[nm] = a
        g.ret_to = ins
        st.frames.append(g)
        return 'call'

    # -------------------------------------------------------------- proofs
    def prove_function(self, name):
        fn = self.m.functions['@' + name]
        st = State()
        st.frames.append(Frame(fn))
        self.run(st)
        return self.pending
