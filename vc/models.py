"""Contracts of the verification primitives (vc_*) and of the external functions (trusted)."""
import re
from fractions import Fraction

import z3

from engine import (FStore, sorted_value, Cells, Store, Loop, Copy, Hist, Hint, zv, exact_div, consts_of, Ptr, Fn, NULL, Unsupported, Dead, Fork, S, iv, rv, bv, is_z, iadd, isub, imul, ile, ilt, ieq, ite,
                    band, bor, bnot, Cells, Fill, Copy, Store)


class Result:
    __slots__ = ('value',)

    def __init__(self, value=None):
        self.value = value


MODELS = {}
PREFIX = []


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def prefix(*pats):
    def d(fn):
        for p in pats:
            PREFIX.append((re.compile(p), fn))
        return fn
    return d


_cache = {}


def lookup(eng, name):
    if name in MODELS:
        return MODELS[name]
    if name in eng.stubs:
        return eng.stubs[name]
    if name in _cache:
        return _cache[name]
    r = None
    for p, fn in PREFIX:
        if p.match(name):
            r = fn
            break
    _cache[name] = r
    return r


def sym(st, name, sort):
    n = st.names.get(name, 0)
    st.names[name] = n + 1
    return z3.Const(name if n == 0 else '%s#%d' % (name, n), sort)


# ---------------------------------------------------------------- verification primitives

@model('vc_long', 'vc_int')
def vc_long(e, st, ins, a):
    nm = e.cstr(st, a[0])
    x = sym(st, nm, z3.IntSort())
    st.inputs.append((nm, 'int', x, a[1], a[2]))
    lim = z3.IntVal(1 << 62)
    st.assume(z3.And(x < lim, x > -lim))
    return Result(x)


@model('vc_bool')
def vc_bool(e, st, ins, a):
    nm = e.cstr(st, a[0])
    x = sym(st, nm, z3.BoolSort())
    st.inputs.append((nm, 'bool', x, 0, 1))
    return Result(x)


@model('vc_double')
def vc_double(e, st, ins, a):
    nm = e.cstr(st, a[0])
    x = sym(st, nm, z3.RealSort())
    st.inputs.append((nm, 'real', x, None, None))
    return Result(x)


def _array(kind, es):
    def f(e, st, ins, a):
        nm = e.cstr(st, a[0])
        n = a[1]
        e.covers.append((list(st.pc), 'array size'))
        o = e.new_obj(st, imul(n, es), 'arg', nm, align=16, elem=kind)
        o.base = ('uf', 'A_' + nm)
        o.esize = es
        cnt = st.names.get('A_' + nm, 0)
        st.names['A_' + nm] = cnt + 1
        if cnt:
            o.base = ('uf', 'A_%s#%d' % (nm, cnt))
        st.inputs.append((nm, 'array', (o.base[1], kind, es, n), None, None))
        if is_z(n):
            st.assume(S(n >= 0))
        return Result(Ptr(o.id, 0))
    return f


MODELS['vc_array_int'] = _array('i', 4)
MODELS['vc_array_long'] = _array('i', 8)
MODELS['vc_array_double'] = _array('r', 8)
MODELS['vc_array_float'] = _array('r', 4)


@model('vc_assume')
def vc_assume(e, st, ins, a):
    c = a[0]
    if is_z(c) and not e.feasible(st, c):
        raise Dead('assume')
    st.assume(c)
    return Result()


@model('vc_split')
def vc_split(e, st, ins, a):
    """a case analysis in the proof: no meaning; the paths of the two cases are not joined"""
    d = e.decide(st, a[0])
    if d is None:
        raise Fork(a[0])
    st.flags = dict(st.flags, split=2 * st.flags.get('split', 1) + int(d))
    return Result()


@model('vc_assert')
def vc_assert(e, st, ins, a):
    label = 'contract: ' + e.cstr(st, a[1])
    e.oblige(st, label, a[0], e.where(st, ins))
    if a[0] is False:
        raise Dead('assert')
    st.assume(a[0])
    return Result()


@model('vc_invariant')
def vc_invariant(e, st, ins, a):
    if st.inv_mode == 'check':
        e.oblige(st, 'invariant: ' + e.cstr(st, a[1]), a[0], e.where(st, ins))
        raise Dead('inv-checked')
    st.flags['inv_seen'] = True
    if st.inv_mode == 'assume':
        st.assume(a[0])
        if is_z(a[0]) and e.check(st.pc, []) == 'unsat':
            raise Dead('inv')
    return Result()


@model('vc_expect_throw')
def vc_expect(e, st, ins, a):
    st.expect = (a[0], e.cstr(st, a[1]))
    return Result()


@model('vc_expect_end')
def vc_expect_end(e, st, ins, a):
    c, label = st.expect
    st.expect = None
    g = bnot(c)
    e.oblige(st, 'contract: raises when specified (%s)' % label, g, e.where(st, ins))
    if g is False:
        raise Dead('expect')
    st.assume(g)
    return Result()


@model('vc_cover')
def vc_cover(e, st, ins, a):
    e.covers.append((list(st.pc), e.cstr(st, a[0])))
    return Result()


@model('vc_live_allocs')
def vc_live(e, st, ins, a):
    return Result(sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive))


@model('vc_iteration_1', 'vc_iteration_2', 'vc_iteration_3', 'vc_iteration_4')
def vc_iteration(e, st, ins, a):
    """a hint: use the facts about this completed iteration of the nested counters (values, fastest first)"""
    st.flags['hist'] = tuple(st.flags.get('hist', ())) + (Hint(tuple(a)),)
    return Result()


@model('vc_pow2')
def vc_pow2(e, st, ins, a):
    st.flags['pow2'] = tuple(st.flags.get('pow2', ())) + (a[0],)
    return Result()


@model('vc_symbolic')
def vc_symbolic(e, st, ins, a):
    return Result(True)


# ---------------------------------------------------------------- memory

def alloc(e, st, n, align=16, name='heap'):
    o = e.new_obj(st, n, 'heap', name, align=align)
    st.flags['allocs'] = st.flags.get('allocs', 0) + 1
    return Ptr(o.id, 0)


@model('_Znwm', '_Znam', 'malloc')
def m_new(e, st, ins, a):
    e.assumptions.add('allocation succeeds and returns fresh 16-byte aligned memory')
    return Result(alloc(e, st, a[0]))


@model('_ZNSt15__new_allocatorIcE8allocateEmPKv', '_ZN9__gnu_cxx13new_allocatorIcE8allocateEmPKv')
def m_allocate_char(e, st, ins, a):
    return Result(alloc(e, st, a[1]))


@model('_ZNSt15__new_allocatorIcE10deallocateEPcm', '_ZN9__gnu_cxx13new_allocatorIcE10deallocateEPcm')
def m_deallocate_char(e, st, ins, a):
    return m_free(e, st, ins, a[1:])


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def m_new_al(e, st, ins, a):
    return Result(alloc(e, st, a[0], a[1] if isinstance(a[1], int) else 16))


@model('aligned_alloc', 'memalign')
def m_aligned(e, st, ins, a):
    e.assumptions.add('aligned_alloc succeeds and returns memory aligned as requested')
    p = alloc(e, st, a[1], a[0] if isinstance(a[0], int) else 1)
    if is_z(a[0]):
        base = e.addr(st, p)
        st.assume(iv(base) % a[0] == 0)
    return Result(p)


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def m_free(e, st, ins, a):
    p = a[0]
    if p.obj is None:
        if p.off == 0:
            return Result()
        e.oblige(st, 'memory: release of a valid pointer', False, e.where(st, ins))
        raise Dead('free')
    o = st.mem[p.obj]
    ok = o.alive and o.kind == 'heap'
    if ok:
        ok = ieq(p.off, 0)
    e.oblige(st, 'memory: release exactly once of an owned allocation', ok, e.where(st, ins))
    if ok is False:
        raise Dead('free')
    st.assume(ok)
    o = st.wobj(p.obj)
    o.alive = False
    return Result()


def copy_mem(e, st, ins, a):
    d, s, n = a[0], a[1], a[2]
    if isinstance(n, int) and n == 0:
        return Result(d)
    if is_z(n):
        r = e.decide(st, ieq(n, 0))
        if r is True:
            return Result(d)
        if r is None:
            raise Fork(ieq(n, 0))
    w = e.where(st, ins)
    so = e.access(st, s, n, 'read', w)
    e.access(st, d, n, 'write', w, True)
    if isinstance(n, int) and n <= 512 and isinstance(s.off, int):
        # copy cell by cell when the source is made of cells
        cells = source_cells(e, st, so, s.off, n)
        if cells is not None:
            o = st.wobj(d.obj)
            for off, size, v in cells:
                e.write(st, o, iadd(d.off, off - s.off), size, v)
                if st.wlog is not None:
                    st.wlog.append((d.obj, iadd(d.off, off - s.off), size))
            return Result(d)
    o = st.wobj(d.obj)
    snap = so.copy()
    o.layers.append(Copy(d.off, n, snap, s.off))
    if st.wlog is not None:
        st.wlog.append((d.obj, d.off, None))
    return Result(d)


def source_cells(e, st, so, off, n):
    """list of (off,size,val) exactly covering [off, off+n), unset bytes skipped as base reads of 8/4 bytes"""
    out = []
    x = off
    tops = [l for l in so.layers]
    merged, fills = {}, []
    for l in tops:
        if isinstance(l, Fill) and isinstance(l.off, int) and isinstance(l.len, int):
            for k, (sz, _) in list(merged.items()):
                if k < l.off + l.len and l.off < k + sz:
                    if k < l.off or l.off + l.len < k + sz:
                        return None
                    del merged[k]
            fills.append(l)
            continue
        if not isinstance(l, Cells):
            return None
        for k, v in l.d.items():
            merged[k] = v
    while x < off + n:
        c = merged.get(x)
        if c is not None:
            if x + c[0] > off + n:
                return None
            out.append((x, c[0], c[1]))
            x += c[0]
        else:
            if any(k < x < k + s for k, (s, _) in merged.items()):
                return None
            fill = [l for l in fills if l.off <= x < l.off + l.len][-1:]
            if fill:
                l = fill[0]
                nxt = min([k for k in merged if k > x] + [off + n, l.off + l.len]
                          + [y for m in fills for y in (m.off, m.off + m.len) if y > x])
                sz = 8 if x % 8 == 0 and nxt - x >= 8 else 4 if x % 4 == 0 and nxt - x >= 4 else 1
                if sz == 1 and l.byte:
                    return None
                out.append((x, sz, int.from_bytes(bytes([l.byte]) * sz, 'little', signed=True)))
                x += sz
                continue
            if so.base[0] == 'init':
                sz = 8 if x % 8 == 0 and x + 8 <= off + n else 4 if x % 4 == 0 and x + 4 <= off + n else 1
                try:
                    v = e.init_read(so, x, ('i', 8 * sz)) if True else None
                except Unsupported:
                    return None
                out.append((x, sz, v))
                x += sz
                continue
            if so.base[0] == 'zero':
                out.append((x, 1, 0))
                x += 1
                continue
            if so.kind in ('stack', 'heap') and so.elem is None:
                nxt = min([k for k in merged if k > x] + [off + n])
                # uninitialised or padding bytes: leave the destination arbitrary
                sz = 8 if x % 8 == 0 and nxt - x >= 8 else 4 if x % 4 == 0 and nxt - x >= 4 else 1
                if sz < 4:
                    x += 1
                    continue
                v = e.uf(so.base[1], z3.IntSort())(iv(x))
                out.append((x, sz, v))
                x += sz
                continue
            return None
    return out


prefix(r'llvm\.memcpy\.', r'llvm\.memmove\.')(copy_mem)
MODELS['memcpy'] = MODELS['memmove'] = copy_mem


@prefix(r'llvm\.memset\.')
def m_memset(e, st, ins, a):
    d, b, n = a[0], a[1], a[2]
    if isinstance(n, int) and n == 0:
        return Result(d)
    if is_z(n):
        r = e.decide(st, ieq(n, 0))
        if r is True:
            return Result(d)
        if r is None:
            raise Fork(ieq(n, 0))
    if not isinstance(b, int):
        raise Unsupported('memset with symbolic byte')
    e.access(st, d, n, 'write', e.where(st, ins), True)
    o = st.wobj(d.obj)
    if isinstance(n, int) and n <= 512 and isinstance(d.off, int) and b == 0:
        x = d.off
        while x < d.off + n:
            s = 8 if (x % 8 == 0 and d.off + n - x >= 8) else 4 if (x % 4 == 0 and d.off + n - x >= 4) else 1
            e.write(st, o, x, s, 0)
            if st.wlog is not None:
                st.wlog.append((d.obj, x, s))
            x += s
        # zero integer cells read as any type
        return Result(d)
    o.layers.append(Fill(d.off, n, b & 255))
    if st.wlog is not None:
        st.wlog.append((d.obj, d.off, None))
    return Result(d)


MODELS['memset'] = m_memset


def element_size(st, o):
    """of the array in the object, or None"""
    sizes = set()
    for L in o.layers:
        if isinstance(L, Cells):
            sizes |= {s for s, _ in L.d.values()}
        elif isinstance(L, Store):
            sizes.add(L.size)
        elif isinstance(L, Loop):
            sizes |= {getattr(x, 'size', None) for x in L.entries}
        elif isinstance(L, Copy):
            sizes.add(element_size(st, L.src))
    for nm, kind, x, lo, hi in st.inputs:
        if kind == 'array' and o.base == ('uf', x[0]):
            sizes.add(x[2])
    return sizes.pop() if len(sizes) == 1 else None


def compare_arrays(e, st, p, q, n):
    """the arrays are equal, for each element; or there is a different one"""
    s, t = element_size(st, st.mem[p.obj]), element_size(st, st.mem[q.obj])
    count = exact_div(n, s) if s else None
    if count is None or s != t:
        raise Unsupported('memcmp of symbolic length %s' % (n,))

    def elements(st, j):
        u, v = [e.read(st, st.mem[x.obj], iadd(x.off, imul(s, j)), s, ('i', 8 * s)) for x in (p, q)]
        if isinstance(u, (Ptr, Fn, Fraction)) or isinstance(v, (Ptr, Fn, Fraction)) or zv(u).sort() != zv(v).sort():
            raise Unsupported('memcmp of arrays of different types')
        if not z3.is_int(zv(u)):
            raise Unsupported('memcmp of floating point arrays')   # the representation, and not the value
        return bv(ieq(u, v))
    first = e.fresh_n
    j = e.fresh('j', z3.IntSort())
    inner = st.copy()
    inner.pc = inner.pc + [j >= 0, j < iv(count)]
    alike = elements(inner, j)
    if z3.is_true(alike):
        return Result(0)
    if any('!' in c and int(c[c.rindex('!') + 1:]) > first and c != j.decl().name() for c in consts_of(alike)):
        raise Unsupported('memcmp: elements without a closed form')
    eq, d = e.fresh('eq', z3.BoolSort()), e.fresh('cmp', z3.IntSort())
    inner = st.copy()
    inner.pc = inner.pc + [z3.Not(eq), d >= 0, d < iv(count)]
    st.assume(z3.Or(eq, z3.And(d >= 0, d < iv(count), z3.Not(elements(inner, d)))))
    st.flags['hist'] = tuple(st.flags.get('hist', ())) + (Hist([(j, count)], eq, alike),)
    return Result(S(z3.If(eq, 0, 1)))


@model('bcmp', 'memcmp')
def m_bcmp(e, st, ins, a):
    p, q, n = a
    w = e.where(st, ins)
    e.access(st, p, n, 'read', w)
    e.access(st, q, n, 'read', w)
    if not isinstance(n, int) or n > 256:
        return compare_arrays(e, st, p, q, n)
    if ins.extra['callee'][1] == '@memcmp':
        raise Unsupported('memcmp')
    eq = True
    x = 0
    while x < n:
        s = 8
        while x + s > n:
            s //= 2
        while True:
            try:
                u = e.read(st, st.mem[p.obj], iadd(p.off, x), s, ('i', 8 * s))
                v = e.read(st, st.mem[q.obj], iadd(q.off, x), s, ('i', 8 * s))
                break
            except Unsupported:
                if s <= 1:
                    raise
                s //= 2
        if is_z(u) and z3.is_real(u) or is_z(v) and z3.is_real(v) or isinstance(u, Fraction) or isinstance(v, Fraction):
            eq = band(eq, S(rv(u) == rv(v)))
        elif isinstance(u, Ptr) or isinstance(v, Ptr):
            eq = band(eq, e.icmp(st, 'eq', ('ptr',), u, v))
        else:
            eq = band(eq, ieq(u, v))
        x += s
    eq = S(eq) if is_z(eq) else eq
    if eq is True:
        return Result(0)
    if eq is False:
        return Result(1)
    return Result(S(z3.If(eq, 0, 1)))


# ---------------------------------------------------------------- arithmetic intrinsics

def _minmax(kind):
    def f(e, st, ins, a):
        t = e.m.resolve(ins.ty)
        x, y = a
        pred = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[kind]
        return Result(ite(e.icmp(st, pred, t, x, y), x, y))
    return f


for _k in ('smax', 'smin', 'umax', 'umin'):
    prefix(r'llvm\.%s\.' % _k)(_minmax(_k))


@prefix(r'llvm\.abs\.')
def m_abs(e, st, ins, a):
    return Result(ite(ile(0, a[0]), a[0], isub(0, a[0])))


@prefix(r'llvm\.fabs\.')
def m_fabs(e, st, ins, a):
    x = a[0]
    if isinstance(x, Fraction):
        return Result(abs(x))
    return Result(S(z3.If(x >= 0, x, -x)))


MODELS['fabs'] = m_fabs


@prefix(r'llvm\.floor\.')
def m_floor(e, st, ins, a):
    x = a[0]
    if isinstance(x, Fraction):
        return Result(Fraction(x.numerator // x.denominator))
    return Result(S(z3.ToReal(z3.ToInt(x))))


MODELS['floor'] = m_floor


@prefix(r'llvm\.ceil\.')
def m_ceil(e, st, ins, a):
    x = rv(a[0])
    return Result(S(-z3.ToReal(z3.ToInt(-x))))


MODELS['ceil'] = m_ceil


@model('lround', 'llround')
def m_lround(e, st, ins, a):
    x = rv(a[0])
    h = z3.RealVal('1/2')
    return Result(S(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))))


@prefix(r'llvm\.l?lround\.')
def m_lround2(e, st, ins, a):
    return m_lround(e, st, ins, a)


@prefix(r'llvm\.round\.')
def m_round(e, st, ins, a):
    x = rv(a[0])
    h = z3.RealVal('1/2')
    return Result(S(z3.ToReal(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h)))))


MODELS['round'] = m_round


@prefix(r'llvm\.trunc\.')
def m_trunc(e, st, ins, a):
    x = rv(a[0])
    return Result(S(z3.ToReal(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))))


MODELS['trunc'] = m_trunc


@prefix(r'llvm\.fmuladd\.', r'llvm\.fma\.')
def m_fma(e, st, ins, a):
    return Result(e.binop(st, 'fadd', ('f', 64), e.binop(st, 'fmul', ('f', 64), a[0], a[1], set()), a[2], set()))


@prefix(r'llvm\.(min|max)num\.')
def m_fminmax(e, st, ins, a):
    x, y = rv(a[0]), rv(a[1])
    return Result(S(z3.If(x < y, x, y) if 'minnum' in ins.extra['callee'][1] else z3.If(x < y, y, x)))


@prefix(r'(llvm\.)?(sqrt|exp|log|sin|cos|pow|exp2|log2|log10|tan|atan2?)(\.f64)?$')
def m_ufmath(e, st, ins, a):
    nm = ins.extra['callee'][1].strip('@')
    f = z3.Function('math_' + nm.replace('.', '_'), *([z3.RealSort()] * (len(a) + 1)))
    e.assumptions.add('libm functions are uninterpreted (assumed contract: deterministic)')
    return Result(S(f(*[rv(x) for x in a])))


@prefix(r'llvm\.assume$')
def m_assume(e, st, ins, a):
    # a fact the compiler derived from undefined behaviour: must hold
    c = a[0]
    e.oblige(st, 'undefined behaviour: compiler assumption holds', c, e.where(st, ins))
    st.assume(c)
    return Result()


@prefix(r'llvm\.expect\.', r'llvm\.is\.constant\.')
def m_expect(e, st, ins, a):
    return Result(a[0] if 'expect' in ins.extra['callee'][1] else False)


@prefix(r'llvm\.(stacksave|stackrestore|donothing|prefetch|var\.annotation|invariant)')
def m_nop(e, st, ins, a):
    return Result(NULL)


@prefix(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)')
def m_ovf(e, st, ins, a):
    nm = ins.extra['callee'][1]
    import re as _re
    g = _re.search(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', nm)
    w = int(g.group(3))
    x, y = a
    if g.group(1) == 'u':
        x, y = e.uns(x, w), e.uns(y, w)
    r = {'add': iadd, 'sub': isub, 'mul': imul}[g.group(2)](x, y)
    lo, hi = (0, (1 << w) - 1) if g.group(1) == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    o = bor(bv(ilt(r, lo)), bv(ilt(hi, r)))
    o = S(o) if is_z(o) else o
    return Result((e.wrap(st, r, w), o))


@prefix(r'llvm\.(u|s)(sub|add)\.sat\.i(\d+)')
def m_sat(e, st, ins, a):
    nm = ins.extra['callee'][1]
    if 'usub' in nm:
        x, y = a
        return Result(ite(e.icmp(st, 'ugt', ('i', 64), x, y), isub(x, y), 0))
    raise Unsupported(nm)


# ---------------------------------------------------------------- strings (messages only), i/o

@prefix(r'_ZNK?St7__cxx1112basic_string', r'_ZNSt7__cxx119to_string', r'_ZNSt7__cxx11.*to_string', r'_ZStpl.*basic_string',
        r'_ZSt.*basic_string', r'_ZNSs', r'_ZNSt8__detail14__to_chars', r'_ZNSaIcE', r'_ZNKSs', r'vc_opaque',
        r'_ZN9__gnu_cxx12__to_xstring', r'_ZNSt15__new_allocatorIcE[CD]', r'_ZN9__gnu_cxx13new_allocatorIcE[CD]')
def m_string(e, st, ins, a):
    e.assumptions.add('std::string operations (exception messages) return normally and touch only the string')
    t = ins.ty
    if t is not None and t[0] == 'ptr':
        return Result(a[0] if a and isinstance(a[0], Ptr) else NULL)
    if t is not None and t[0] == 'i':
        return Result(e.fresh('str', z3.BoolSort() if t[1] == 1 else z3.IntSort()))
    return Result(None)


# ---------------------------------------------------------------- FFTW (assumed contracts, from its documentation)

def havoc(e, st, p):
    o = st.wobj(p.obj)
    o.layers = []
    e.havocs = getattr(e, 'havocs', 0) + 1
    o.base = ('uf', 'H%d_%d' % (o.id, e.havocs))


def fftw_dims(e, st, a, w):
    n = a[0]
    if not isinstance(n, int):
        raise Unsupported('symbolic rank')
    return [e.load(st, Ptr(a[1].obj, iadd(a[1].off, 4 * i)), ('i', 32), w) for i in range(n)]


def fftw_plan(e, st, ins, a, insize, outsize, kind=None):
    w = e.where(st, ins)
    dims = fftw_dims(e, st, a, w)
    for d in dims:
        e.oblige(st, 'fftw: positive lengths', ilt(0, d), w)
    for p, size in ((a[2], insize(dims)), (a[3], outsize(dims))):
        if p.obj is None:
            e.oblige(st, 'fftw: valid buffer', False, w)
            raise Dead('fftw')
        o = st.mem[p.obj]
        e.oblige(st, 'fftw: the buffer is large enough for the transform', band(o.alive, ile(0, p.off), ile(iadd(p.off, size), o.size)), w)
        havoc(e, st, p)
    e.assumptions.add('contract of fftw_plan_*: returns a plan on the given buffers, and overwrites them')
    q = e.new_obj(st, 64, 'heap', 'fftw_plan', align=16)
    if kind is None:
        kind = {-1: 'forward', (1 << 32) - 1: 'forward', 1: 'backward'}.get(a[4] if isinstance(a[4], int) else None)
        if kind is None:
            raise Unsupported('direction of a transform')
    st.flags['fftw:%d' % q.id] = (a[2], a[3], kind, tuple(dims))
    return Result(Ptr(q.id, 0))


def _prod(xs):
    out = 1
    for x in xs:
        out = imul(out, x)
    return out


def _half(dims):
    n = dims[-1]
    h = n // 2 + 1 if isinstance(n, int) else S(n / 2 + 1)
    return imul(16, _prod(list(dims[:-1]) + [h]))


@model('fftw_plan_dft_r2c')
def m_r2c(e, st, ins, a):
    return fftw_plan(e, st, ins, a, lambda d: imul(8, _prod(d)), _half, 'r2c')


@model('fftw_plan_dft_c2r')
def m_c2r(e, st, ins, a):
    return fftw_plan(e, st, ins, a, _half, lambda d: imul(8, _prod(d)), 'c2r')


@model('fftw_plan_dft')
def m_c2c(e, st, ins, a):
    f = lambda d: imul(16, _prod(d))
    return fftw_plan(e, st, ins, a, f, f)


def fftw_live(e, st, ins, p, what):
    ok = p.obj is not None and st.mem[p.obj].alive and ('fftw:%d' % p.obj) in st.flags
    e.oblige(st, 'fftw: %s a plan which was created and not destroyed' % what, ok, e.where(st, ins))
    if not ok:
        raise Dead('fftw')


@model('fftw_execute')
def m_execute(e, st, ins, a):
    fftw_live(e, st, ins, a[0], 'execute')
    e.assumptions.add('contract of fftw_execute: overwrites the buffers of the plan only, and the inverse transform of '
                      'the transform of values is these values times the number of elements')
    pin, pout, kind, dims = st.flags['fftw:%d' % a[0].obj]
    for p in (pin, pout):
        ok = st.mem[p.obj].alive
        e.oblige(st, 'fftw: the buffers outlive the plan', ok, e.where(st, ins))
    before = st.mem[pin.obj]
    source = inverse_of(e, st, pin, kind, dims)
    havoc(e, st, pin)
    havoc(e, st, pout)
    if source is not None:
        # the transform of these values was the input
        o, off = source
        n = _prod(dims)
        count = n if kind == 'c2r' else imul(2, n)
        j = e.fresh('j', z3.IntSort())
        v = e.read(ranged(st, j, count), o, iadd(off, imul(8, j)), 8, ('f', 64))
        entry = FStore([(j, count)], True, iadd(pout.off, imul(8, j)), 8, S(rv(v) * z3.ToReal(iv(n))))
        st.wobj(pout.obj).layers.append(Loop([entry]))
    elif pin.obj != pout.obj:
        st.flags['dft'] = tuple(st.flags.get('dft', ())) + ((kind, dims, before, pin.off, st.mem[pout.obj], pout.off),)
    return Result()


INVERSE = {'r2c': 'c2r', 'forward': 'backward', 'backward': 'forward'}


def ranged(st, j, n):
    s = st.copy()
    s.pc = s.pc + [j >= 0, j < iv(n)]
    return s


def inverse_of(e, st, pin, kind, dims):
    """the values (object and offset) whose transform is the input, if known"""
    n = _half(dims) if kind == 'c2r' else imul(16, _prod(dims))
    for k, ds, o, off, to, toff in st.flags.get('dft', ())[::-1]:
        if INVERSE.get(k) != kind or len(ds) != len(dims):
            continue
        if not all(e.implied(st, ieq(x, y)) for x, y in zip(ds, dims)):
            continue
        j = e.fresh('j', z3.IntSort())
        s = ranged(st, j, n // 8 if isinstance(n, int) else exact_div(n, 8))
        try:
            x = e.read(s, st.mem[pin.obj], iadd(pin.off, imul(8, j)), 8, ('f', 64))
            y = e.read(s, to, iadd(toff, imul(8, j)), 8, ('f', 64))
        except Unsupported:
            continue
        if e.implied(s, S(rv(x) == rv(y)), 2000):
            return o, off
    return None


@model('fftw_destroy_plan')
def m_destroy(e, st, ins, a):
    fftw_live(e, st, ins, a[0], 'destroy')
    st.wobj(a[0].obj).alive = False
    return Result()


@model('fftw_cleanup', '_ZN4Litl13FftwAllocatorD2Ev', '_ZN4Litl13FftwAllocatorD1Ev')
def m_cleanup(e, st, ins, a):
    return Result()


# ---------------------------------------------------------------- sorting (contracts of the standard)

ELEM = {'d': (8, ('f', 64)), 'f': (4, ('f', 32)), 'i': (4, ('i', 32)), 'j': (4, ('i', 32)), 'l': (8, ('i', 64)),
        's': (2, ('i', 16)), 'h': (1, ('i', 8)), 'x': (8, ('i', 64))}


def permute(e, st, ins, first, last, what):
    """Replace [first, last) with a permutation: returns the values before and after, in order"""
    es, ty = ELEM[re.search(r'I(?:N9__gnu_cxx17__normal_iteratorI)?P([a-z])', what).group(1)]
    if first.obj != last.obj:
        raise Unsupported('ranges of different objects')
    if what.find('h') >= 0 and ty == ('i', 8) or 'IPj' in what:
        raise Unsupported('sort of unsigned elements')
    n = isub(last.off, first.off)
    if is_z(n):
        n = S(n)
    if is_z(n) and z3.is_int_value(n):
        n = n.as_long()
    if not isinstance(n, int) or n > 16 * es:
        raise Unsupported('sort of a symbolic number of elements')
    w = e.where(st, ins)
    e.access(st, first, n, 'write', w, True)
    k = n // es
    ps = [Ptr(first.obj, iadd(first.off, es * i)) for i in range(k)]
    old = [e.load(st, p, ty, w) for p in ps]
    conv = rv if ty[0] == 'f' else iv
    old = [conv(v) for v in old]
    return k, es, ps, ty, old, w


def arranged(e, st, ps, ty, old, nth, w):
    """Store the outcome of the algorithm, which is a function of the values (its axioms: Engine.sorted_axioms)"""
    k = len(ps)
    for i, p in enumerate(ps):
        e.store(st, p, ty, old[0] if k == 1 else sorted_value(nth, i, old), w)


@prefix(r'_ZSt11nth_elementI(N9__gnu_cxx17__normal_iteratorI)?P[a-z](St|E?v)')
def m_nth(e, st, ins, a):
    if len(a) != 3:
        raise Unsupported('nth_element with a comparator')
    e.assumptions.add('contract of std::nth_element: a permutation, partitioned by the n-th element')
    first, nth, last = a
    nm = ins.extra['callee'][1]
    n = isub(nth.off, first.off)
    k, es, ps, ty, old, w = permute(e, st, ins, first, last, nm)
    if is_z(n):
        n = S(n)
        if z3.is_int_value(n):
            n = n.as_long()
        else:
            e.oblige(st, 'memory: n-th element inside the range', z3.And(n >= 0, n <= k * es), e.where(st, ins))
            for i in range(k + 1):
                r = e.decide(st, n == i * es)
                if r is True:
                    n = i * es
                    break
                if r is None:
                    raise Fork(n == i * es)
            else:
                raise Dead('nth')
    i = n // es
    if i < 0 or i > k:
        e.oblige(st, 'memory: n-th element inside the range', False, e.where(st, ins))
        raise Dead('nth')
    arranged(e, st, ps, ty, old, i, w)
    return Result()


@prefix(r'_ZSt4sortI(N9__gnu_cxx17__normal_iteratorI)?P[a-z](St|E?v)')
def m_sort(e, st, ins, a):
    if len(a) != 2:
        raise Unsupported('sort with a comparator')
    e.assumptions.add('contract of std::sort: an increasing permutation')
    k, es, ps, ty, old, w = permute(e, st, ins, a[0], a[1], ins.extra['callee'][1])
    arranged(e, st, ps, ty, old, -1, w)
    return Result()


@model('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def m_clock(e, st, ins, a):
    e.assumptions.add('clocks return an arbitrary time, not decreasing from one call to the next one')
    t = e.fresh('clock', z3.IntSort())
    last = st.flags.get('clock')
    st.assume(z3.And(t >= 0, t < (1 << 62)))
    if last is not None:
        st.assume(t >= last)
    st.flags['clock'] = t
    return Result(t)


# ---------------------------------------------------------------- random numbers (contracts of the standard)
# The state of an engine is a term, held by the first word of its memory; draws are functions of the state, of the
# parameters and of the state of the distribution.

I64, F64, PTR = ('i', 64), ('f', 64), ('ptr',)


def elem_of(ins):
    return re.search(r'(?:distribution|canonical)I([a-z])', ins.extra['callee'][1]).group(1)


def draw_fn(name, sort, args):
    args = [zv(a) for a in args]
    f = z3.Function(name, *([a.sort() for a in args] + [sort]))
    return f(*args)


def engine_state(e, st, p, w):
    return iv(e.load(st, p, I64, w))


def advance(e, st, p, name, args, w):
    e.store(st, p, I64, draw_fn(name + '_next', z3.IntSort(), args), w)


@prefix(r'_ZNSt23mersenne_twister_engineI.*(C[12]Em|E4seedEm)$')
def m_mt_seed(e, st, ins, a):
    w = e.where(st, ins)
    e.assumptions.add('contract of std::mt19937: its state is a function of the seed, and a draw of the state')
    e.store(st, a[0], I64, draw_fn('mt_seed', z3.IntSort(), [S(iv(a[1]) % (1 << 32))]), w)
    return Result()


@prefix(r'_ZNSt23mersenne_twister_engineI.*EclEv$')
def m_mt_draw(e, st, ins, a):
    w = e.where(st, ins)
    s = engine_state(e, st, a[0], w)
    v = draw_fn('mt', z3.IntSort(), [s])
    st.assume(z3.And(v >= 0, v < 1 << 32))
    advance(e, st, a[0], 'mt', [s], w)
    return Result(v)


@prefix(r'_ZSt18generate_canonicalI([df])L.*mersenne')
def m_canonical(e, st, ins, a):
    w = e.where(st, ins)
    t = elem_of(ins)
    e.assumptions.add('contract of std::generate_canonical: in [0, 1), a function of the state of the engine')
    s = engine_state(e, st, a[0], w)
    v = draw_fn('canonical_' + t, z3.RealSort(), [s])
    st.assume(z3.And(v >= 0, v < 1))
    advance(e, st, a[0], 'canonical_' + t, [s], w)
    return Result(v)


@prefix(r'_ZNSt24uniform_int_distributionI[a-z]EclISt23mersenne.*10param_typeE$')
def m_uniform_int(e, st, ins, a):
    w = e.where(st, ins)
    t = elem_of(ins)
    es, ty = ELEM[t]
    lo, hi = (iv(e.load(st, Ptr(a[2].obj, iadd(a[2].off, es * i)), ty, w)) for i in range(2))
    e.oblige(st, 'random: the lower bound is not greater than the upper one', lo <= hi, w)
    e.assumptions.add('contract of std::uniform_int_distribution: in [a, b], a function of the state of the engine and of the parameters')
    s = engine_state(e, st, a[1], w)
    v = draw_fn('uniform_' + t, z3.IntSort(), [lo, hi, s])
    st.assume(z3.And(v >= lo, v <= hi))
    advance(e, st, a[1], 'uniform_' + t, [lo, hi, s], w)
    return Result(v)


def saved_normal(e, st, p, es, w):
    """the spare value of a normal distribution: (value, whether there is one)"""
    av = e.load(st, Ptr(p.obj, iadd(p.off, es)), ('i', 8), w)
    if not isinstance(av, int):
        av = S(iv(av))
        if z3.is_int_value(av):
            av = av.as_long()
        else:
            return av, S(z3.If(av != 0, rv(e.load(st, p, ('f', 8 * es), w)), z3.RealVal(0)))
    return z3.IntVal(av), rv(e.load(st, p, ('f', 8 * es), w)) if av else z3.RealVal(0)


def spare(e, st, p, es, name, args, w):
    ty = ('f', 8 * es)
    e.store(st, p, ty, draw_fn(name + '_spare', z3.RealSort(), args), w)
    b = draw_fn(name + '_has', z3.IntSort(), args)
    st.assume(z3.And(b >= 0, b <= 1))
    e.store(st, Ptr(p.obj, iadd(p.off, es)), ('i', 8), b, w)


@prefix(r'_ZNSt19normal_distributionI[df]EclISt23mersenne.*10param_typeE$')
def m_normal(e, st, ins, a):
    w = e.where(st, ins)
    t = elem_of(ins)
    es, ty = ELEM[t]
    e.assumptions.add('contract of std::normal_distribution: a function of the states and of the parameters')
    mean, stdev = (rv(e.load(st, Ptr(a[2].obj, iadd(a[2].off, es * i)), ty, w)) for i in range(2))
    s = engine_state(e, st, a[1], w)
    state = Ptr(a[0].obj, iadd(a[0].off, 2 * es))
    args = [mean, stdev, s] + list(saved_normal(e, st, state, es, w))
    v = draw_fn('normal_' + t, z3.RealSort(), args)
    spare(e, st, state, es, 'normal_' + t, args[2:], w)
    advance(e, st, a[1], 'normal_' + t, args[2:], w)
    return Result(v)


@prefix(r'_ZNSt20poisson_distributionI[a-z]E10param_type13_M_initializeEv$')
def m_poisson_init(e, st, ins, a):
    return Result()  # other functions of the mean


@prefix(r'_ZNSt20poisson_distributionI[a-z]EclISt23mersenne.*10param_typeE$')
def m_poisson(e, st, ins, a):
    w = e.where(st, ins)
    t = elem_of(ins)
    e.assumptions.add('contract of std::poisson_distribution: non-negative, a function of the states and of the mean')
    mean = rv(e.load(st, a[2], F64, w))
    s = engine_state(e, st, a[1], w)
    state = Ptr(a[0].obj, iadd(a[0].off, 72 + 16))
    args = [mean, s] + list(saved_normal(e, st, state, 8, w))
    v = draw_fn('poisson_' + t, z3.IntSort(), args)
    st.assume(z3.And(v >= 0, v < 1 << 31))
    spare(e, st, state, 8, 'poisson_' + t, args, w)
    advance(e, st, a[1], 'poisson_' + t, args, w)
    return Result(v)


# ---------------------------------------------------------------- CFITSIO (assumed contracts, from its documentation)
# The file system holds at most one file in the proofs. A function does nothing if the status is not 0.

FITS_SIZE = {11: 1, 12: 1, 20: 2, 21: 2, 30: 4, 31: 4, 40: 8, 41: 8, 42: 4, 80: 8, 81: 8, 82: 8}
# the types of values which are exact in images of each type
FITS_EXACT = {8: (11,), 10: (12,), 16: (21,), 20: (20,), 32: (31,), 40: (30,), 64: (41, 81), 80: (40, 80), -32: (42,),
              -64: (82,)}
FITS_SAME = {81: 41, 80: 40}


def fits_call(e, st, ins, a, handle=True):
    """(file, status is fine); the status is the last argument"""
    w = e.where(st, ins)
    e.assumptions.add('contracts of CFITSIO: an image reads back as it was written with the same type')
    status = e.load(st, a[-1], ('i', 32), w)
    if not isinstance(status, int):
        raise Unsupported('symbolic status of CFITSIO')
    if status != 0:
        return None, status, w
    if not handle:
        return None, 0, w
    p = a[0]
    ok = p.obj is not None and st.flags.get('fits:open') == p.obj
    e.oblige(st, 'fits: the file is open', ok, w)
    if not ok:
        raise Dead('fits')
    return dict(st.flags['fits']), 0, w


def fits_fail(e, st, a, code, w):
    e.store(st, a[-1], ('i', 32), code, w)
    return Result(code)


def fits_handle(e, st, a, w):
    if 'fits:open' in st.flags:
        raise Unsupported('two open files of CFITSIO')
    q = e.new_obj(st, 64, 'heap', 'fitsfile', align=16)
    st.flags['fits:open'] = q.id
    e.store(st, a[0], PTR, Ptr(q.id, 0), w)
    return Result(0)


@model('ffinit')
def m_ffinit(e, st, ins, a):
    _, status, w = fits_call(e, st, ins, a, False)
    if status:
        return Result(status)
    if 'fits' in st.flags:
        return fits_fail(e, st, a, 105, w)
    st.flags['fits'] = ()
    return fits_handle(e, st, a, w)


@model('ffopentest')
def m_ffopen(e, st, ins, a):
    a = a[1:]
    _, status, w = fits_call(e, st, ins, a, False)
    if status:
        return Result(status)
    if 'fits' not in st.flags:
        return fits_fail(e, st, a, 104, w)
    st.flags['fits:mode'] = a[2]
    return fits_handle(e, st, a, w)


@model('ffcrim')
def m_ffcrim(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    bitpix, n = a[1], a[2]
    if isinstance(bitpix, int) and bitpix >= 1 << 31:
        bitpix -= 1 << 32
    if not isinstance(n, int) or not isinstance(bitpix, int) or bitpix not in FITS_EXACT or 'dims' in f:
        raise Unsupported('image of CFITSIO')
    dims = tuple(e.load(st, Ptr(a[3].obj, iadd(a[3].off, 8 * i)), I64, w) for i in range(n))
    for d in dims:
        e.oblige(st, 'fits: non-negative lengths', ile(0, d), w)
    f.update(bitpix=bitpix, dims=dims)
    st.flags['fits'] = tuple(f.items())
    return Result(0)


def fits_range(e, st, f, a, w):
    if 'dims' not in f:
        raise Unsupported('image of CFITSIO')
    t, first, n = a[1], a[2], a[3]
    if t not in FITS_SIZE:
        raise Unsupported('type of CFITSIO')
    e.oblige(st, 'fits: elements of the image', band(ile(1, first), ile(0, n), ile(iadd(isub(first, 1), n), _prod(f['dims']))), w)
    return t, first, n, FITS_SIZE[t]


@model('ffppr')
def m_ffppr(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    t, first, n, es = fits_range(e, st, f, a, w)
    if st.flags.get('fits:mode') == 0:
        return fits_fail(e, st, a, 112, w)
    so = e.access(st, a[4], imul(n, es), 'read', w)
    f['data'] = f.get('data', ()) + ((t, first, n, so.copy(), a[4].off),)
    st.flags['fits'] = tuple(f.items())
    return Result(0)


@model('ffgpv')
def m_ffgpv(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    t, first, n, es = fits_range(e, st, f, a, w)
    p = a[5]
    if not (isinstance(a[4], Ptr) and a[4].obj is None):
        raise Unsupported('null values of CFITSIO')
    e.access(st, p, imul(n, es), 'write', w, True)
    o = st.wobj(p.obj)
    if st.wlog is not None:
        st.wlog.append((p.obj, p.off, None))
    # unknown values, unless they were written with this type, which is exact in the image
    e.havocs = getattr(e, 'havocs', 0) + 1
    j = e.fresh('j', z3.IntSort())
    sort = z3.RealSort() if t in (42, 82) else z3.IntSort()
    g = z3.Function('fits_%d' % e.havocs, z3.IntSort(), sort)
    if t in (42, 82):
        o.layers.append(Loop([FStore([(j, n)], True, iadd(p.off, imul(es, j)), es, g(j))]))
    else:
        lo, hi = (0, 256) if es == 1 else (-(1 << (8 * es - 1)), 1 << (8 * es - 1))
        o.layers.append(Loop([FStore([(j, n)], True, iadd(p.off, imul(es, j)), es, S(g(j) % (hi - lo) + lo))]))
    exact = FITS_EXACT[f['bitpix']]
    for wt, wfirst, wn, src, soff in f.get('data', ()):
        if wt in exact and FITS_SAME.get(wt, wt) == FITS_SAME.get(t, t):
            if not (same_number(e, st, wfirst, first) and same_number(e, st, wn, n)):
                raise Unsupported('parts of images of CFITSIO')
            o.layers.append(Copy(p.off, imul(n, es), src, soff))
    return Result(0)


def same_number(e, st, x, y):
    return e.implied(st, ieq(x, y))


@model('ffclos')
def m_ffclos(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    st.wobj(a[0].obj).alive = False
    st.flags.pop('fits:open')
    st.flags.pop('fits:mode', None)
    return Result(0)


@model('ffgidm')
def m_ffgidm(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    e.store(st, a[1], ('i', 32), len(f['dims']), w)
    return Result(0)


@model('ffgisz')
def m_ffgisz(e, st, ins, a):
    f, status, w = fits_call(e, st, ins, a)
    if status:
        return Result(status)
    if not isinstance(a[1], int):
        raise Unsupported('symbolic dimension')
    for i, d in enumerate(f['dims'][:a[1]]):
        e.store(st, Ptr(a[2].obj, iadd(a[2].off, 8 * i)), I64, d, w)
    return Result(0)


# ---------------------------------------------------------------- trees of std::map (contracts of libstdc++)



def tree_get(e, st, n, field, w):
    return e.load(st, Ptr(n.obj, iadd(n.off, {'parent': 8, 'left': 16, 'right': 24}[field])), PTR, w)


def tree_set(e, st, n, field, v, w):
    e.store(st, Ptr(n.obj, iadd(n.off, {'parent': 8, 'left': 16, 'right': 24}[field])), PTR, v, w)


def same_node(x, y):
    return x.obj == y.obj and (x.obj is None or same_off(x.off, y.off))


def same_off(x, y):
    return isinstance(x, int) and isinstance(y, int) and x == y


@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def m_tree_insert(e, st, ins, a):
    w = e.where(st, ins)
    e.assumptions.add('contract of std::_Rb_tree_insert_and_rebalance: inserts a node at its place in the order')
    left, x, p, head = a
    if is_z(left):
        left = S(left)
        if z3.is_true(left) or z3.is_false(left):
            left = z3.is_true(left)
        else:
            c = left if z3.is_bool(left) else left != 0
            r = e.decide(st, c)
            if r is None:
                raise Fork(c)
            left = r
    tree_set(e, st, x, 'parent', p, w)
    tree_set(e, st, x, 'left', NULL, w)
    tree_set(e, st, x, 'right', NULL, w)
    e.store(st, x, ('i', 32), 0, w)
    if left:
        tree_set(e, st, p, 'left', x, w)
        if same_node(p, head):
            tree_set(e, st, head, 'parent', x, w)
            tree_set(e, st, head, 'right', x, w)
        elif same_node(p, tree_get(e, st, head, 'left', w)):
            tree_set(e, st, head, 'left', x, w)
    else:
        tree_set(e, st, p, 'right', x, w)
        if same_node(p, tree_get(e, st, head, 'right', w)):
            tree_set(e, st, head, 'right', x, w)
    return Result()


@model('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base')
def m_tree_next(e, st, ins, a):
    w = e.where(st, ins)
    x = a[0]
    r = tree_get(e, st, x, 'right', w)
    if r.obj is not None:
        x = r
        while True:
            n = tree_get(e, st, x, 'left', w)
            if n.obj is None:
                return Result(x)
            x = n
    y = tree_get(e, st, x, 'parent', w)
    while same_node(x, tree_get(e, st, y, 'right', w)):
        x, y = y, tree_get(e, st, y, 'parent', w)
    r = tree_get(e, st, x, 'right', w)
    return Result(x if r.obj is not None and same_node(r, y) else y)


@model('strcmp')
def m_strcmp(e, st, ins, a):
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    return Result((x > y) - (x < y))


@model('printf', 'puts', 'putchar')
def m_printf(e, st, ins, a):
    e.assumptions.add('printf only prints')
    return Result(e.fresh('printf', z3.IntSort()))


@model('__cxa_atexit', '__cxa_guard_acquire')
def m_guard(e, st, ins, a):
    return Result(1)


@model('__cxa_guard_release')
def m_guard_rel(e, st, ins, a):
    return Result()


@model('__cxa_allocate_exception')
def m_throw(e, st, ins, a):
    # an exception object is allocated to be thrown
    e.throw(st, e.where(st, ins))
