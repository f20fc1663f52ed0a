"""Loops: complete execution of dimension loops, inductive summaries of data loops."""
import os
import time

import z3

import algebra
from engine import *
import engine as E

MAXU = 70


def region_of(e, st, header, body):
    return (len(st.frames), header, body, {'concrete': 0, 'symbolic': 0})


def enter(e, st, header, body):
    """st is positioned at header (phis set). Returns the states after the loop."""
    st0 = st.copy()
    mark = len(e.pending)
    states = [st]
    exits = []
    if st.flags.get('force_cut') != header:
        mixed = 0
        for it in range(MAXU):
            if os.environ.get('VC_DBG'):
                print('UNROLL', st0.frames[-1].fn.name[:60], header, it, len(states), mixed, flush=True)
            new = []
            n0 = len(exits)
            reg = region_of(e, st, header, body)
            try:
                for s in states:
                    la, ex = e.run(s, reg)
                    new += la
                    exits += ex
            except NeedCut:
                new = None
            if new is None:
                break
            if not new:
                return leave(e, exits)
            if reg[3]['symbolic'] and not reg[3]['concrete'] and not (it < 4 and flag_phi(st0, new, header)):
                break
            if not reg[3]['symbolic'] and not reg[3]['concrete']:
                # no exit test on the way: infinite or exits by throw only
                break
            # no test decides alike for all the paths: the number of iterations depends on the path
            mixed += all(len(w) > 1 for w in reg[3]['ways'].values())
            if len(new) > 600 or mixed > 4 or mixed and it >= 6 and len(new) > 6:
                break
            states = new
            for s in states:
                # seen invariants are for cut loops only
                s.flags.pop('inv_seen', None)
    del e.pending[mark:]
    return cut(e, st0, header, body)


def flag_phi(st0, states, header):
    """a boolean header phi which has become another constant: the loop counts with a flag"""
    f = st0.frames[-1]
    for phi in f.fn.blocks[header].phis:
        a = f.env[phi.res]
        if isinstance(a, bool) or phi.ty == ('i', 1):
            for s in states:
                b = s.frames[-1].env[phi.res]
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and a != b:
                    return True
    return False


class NeedCut(Exception):
    pass


def leave(e, exits):
    out = []
    for s in exits:
        f = s.frames[-1] if s.frames else None
        if f is not None:
            if f.block in e.must_throw(f.fn):
                try:
                    e.throw(s, f.fn.name)
                except Dead:
                    continue
            lp = f.fn.loops()
            if f.block in lp and f.idx == 0 and f.prev not in lp[f.block]:
                out += enter(e, s, f.block, lp[f.block])
                continue
        out.append(s)
    return out


def sort_of(v):
    if isinstance(v, bool):
        return z3.BoolSort()
    if isinstance(v, int):
        return z3.IntSort()
    if isinstance(v, Fraction):
        return z3.RealSort()
    return v.sort()


class Var:
    """loop-carried scalar: header phi or concrete memory cell"""

    def __init__(self, key, init, size=None):
        self.key, self.init, self.size = key, init, size
        self.sym = None       # current generic value
        self.kind = None      # 'affine', 'shift', 'fold', 'const'
        self.value = None     # term in k
        self.ptrobj = init.obj if isinstance(init, Ptr) else None

    def scalar(self, v):
        if isinstance(self.init, Ptr):
            if not isinstance(v, Ptr) or v.obj != self.init.obj:
                raise Unsupported('loop-carried pointer changes object')
            return v.off
        return v

    def wrap(self, s):
        if isinstance(self.init, Ptr):
            return Ptr(self.init.obj, s)
        return s


def settle(e, st):
    """simplify the alternatives of the known integers whose conditions the path decides"""
    known = {}

    def ites(t, acc, seen):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    acc.append(x)
                todo.extend(x.children())

    def simpler(t):
        if isinstance(t, Ptr):
            o = simpler(t.off)
            return t if o is t.off else Ptr(t.obj, o)
        if not is_z(t) or not z3.is_int(t):
            return t
        found = []
        ites(t, found, set())
        m = []
        for x in found:
            c = x.arg(0)
            i = c.get_id()
            if i not in known:
                known[i] = (e.decide(st, c), c)
            d = known[i][0]
            if d is not None:
                m.append((x, x.arg(1) if d else x.arg(2)))
        return S(z3.substitute(t, *m)) if m else t

    for f in st.frames:
        for n, v in list(f.env.items()):
            w = simpler(v)
            if w is not v:
                f.env[n] = w
    for oid, o in list(st.mem.items()):
        if not o.alive:
            continue
        new = None
        for i, L in enumerate(o.layers):
            if isinstance(L, Cells):
                d = None
                for x, (sz, v) in L.d.items():
                    w = simpler(v)
                    if w is not v:
                        d = dict(L.d) if d is None else d
                        d[x] = (sz, w)
                if d is not None:
                    new = list(o.layers) if new is None else new
                    new[i] = Cells(d)
        if new is not None:
            st.wobj(oid).layers = new


def cut(e, st, header, body):
    settle(e, st)
    mark, cov = len(e.pending), len(e.covers)
    s0 = st.copy()
    try:
        return cut_with(e, st, header, body, None)
    except Unsupported as x:
        del e.pending[mark:]
        del e.covers[cov:]
        guess = constant_phis(e, s0.copy(), header, body)
        try:
            return cut_with(e, s0, header, body, guess)
        except Unsupported:
            raise x


def constant_phis(e, st, header, body):
    """header phis which the first iteration leaves unchanged"""
    mark, cov = len(e.pending), len(e.covers)
    init = dict(st.frames[-1].env)
    try:
        la, ex = e.run(st, region_of(e, st, header, body))
    except (Unsupported, NeedCut):
        return set()
    finally:
        del e.pending[mark:]
        del e.covers[cov:]
    fn = st.frames[-1].fn
    return {('phi', phi.res) for phi in fn.blocks[header].phis
            if la and all(same(s.frames[-1].env[phi.res], init[phi.res]) for s in la)}


class Mark(int):
    """length of the path condition before a loop; constants created since are local, but for its own variables"""


def cut_with(e, st, header, body, guess):
    """guess: keys of the scalars which are taken as unchanged, as long as no iteration changes them; or None"""
    grow, guess, wrong = guess is not None, set(guess or ()), set()
    e.stats['cuts'] += 1
    depth = len(st.frames)
    f = st.frames[-1]
    fn = f.fn
    blk = fn.blocks[header]
    k = e.fresh('k', z3.IntSort())
    npc = Mark(len(st.pc))
    npc.first = e.fresh_n
    npc.own = set()
    vars = []
    for phi in blk.phis:
        v = f.env[phi.res]
        if isinstance(v, Fn) or isinstance(v, tuple):
            vars.append(Var(('opaque', phi.res), v))
        else:
            vars.append(Var(('phi', phi.res), v))
    arrs = set()
    scratch = []
    old_objs = set(st.mem)

    def head(assign, arrmode, cands, inv):
        """generic head state. assign: var -> scalar; arrmode: oid -> layers/base setter"""
        g = st.copy()
        gf = g.frames[-1]
        for v in vars:
            if v.key[0] == 'opaque':
                continue
            val = v.wrap(assign(v))
            if v.key[0] == 'phi':
                gf.env[v.key[1]] = val
            else:
                o = g.wobj(v.key[1])
                e.write(g, o, v.key[2], v.size, val)
        for oid, off, size in scratch:
            if oid not in arrs:
                e.write(g, g.wobj(oid), off, size, Poison())
        for oid in arrs:
            arrmode(g, oid)
        g.pc.append(k >= 0)
        for c in cands:
            g.pc.append(c)
        g.wlog = []
        g.flags = dict(g.flags)
        g.flags.pop('inv_seen', None)
        g.flags['cut'] = g.flags.get('cut', 0) + 1
        g.inv_mode = inv
        return g

    hnames = {}

    def havoc_arr(g, oid):
        o = g.wobj(oid)
        nm = hnames.get(oid)
        if nm is None:
            e.fresh_n += 1
            nm = hnames[oid] = 'H%d_%d' % (oid, e.fresh_n)
        o.layers = []
        o.base = ('uf', nm)

    def runquiet(g):
        mark = len(e.pending)
        cov = len(e.covers)
        reg = region_of(e, g, header, body)
        la, ex = e.run(g, reg)
        obl = e.pending[mark:]
        del e.pending[mark:]
        del e.covers[cov:]
        return la, ex, obl

    def current(s, v):
        if v.key[0] == 'phi':
            return s.frames[-1].env[v.key[1]]
        if all(isinstance(l, Cells) for l in s.mem[v.key[1]].layers):
            return last_write(e, s, v.key[1], v.key[2], v.size)
        return None

    # ---- pass 1: discover the loop-carried state
    for _ in range(16 if grow else 8):
        for v in vars:
            if v.key[0] != 'opaque' and v.sym is None:
                v.sym = e.fresh('x', sort_of(v.scalar(v.init)))
                npc.own.add(v.sym.decl().name())
        g = head(lambda v: v.scalar(v.init) if v.key in guess else v.sym, havoc_arr, [], 'assume')
        la, ex, _o = runquiet(g)
        grew = False
        if any(s.names != st.names for s in la + ex):
            raise Unsupported('contract input in a loop')
        for v in vars:
            if v.key in guess and any(not same(current(s, v), v.init) for s in la):
                guess.discard(v.key)
                wrong.add(v.key)
                grew = True
        has_inv = any(s.flags.get('inv_seen') for s in la + ex)
        for s in la + ex:
            for oid, off, size in s.wlog:
                if oid not in old_objs or oid in arrs:
                    continue
                o = st.mem[oid]
                cellish = isinstance(off, int) and size is not None and all(
                    isinstance(l, Cells) for l in o.layers) and o.kind != 'arg'
                if cellish:
                    if any(v.key == ('cell', oid, off) and v.size == size for v in vars):
                        continue
                    if any(v.key[0] == 'cell' and v.key[1] == oid and v.key[2] < off + size and off < v.key[2] + v.size
                           for v in vars):
                        raise Unsupported('loop-carried cells overlap')
                    c = None
                    for l in reversed(o.layers):
                        if off in l.d:
                            c = l.d[off]
                            break
                    if c is not None and c[0] == size:
                        init = c[1]
                    else:
                        # uninitialised before the loop: take its type from what is written
                        w = last_write(e, s, oid, off, size)
                        if w is None:
                            raise Unsupported('unknown cell first written in a loop')
                        if isinstance(w, (Ptr, Fn)):
                            # a temporary: its content does not survive the iteration
                            if (oid, off, size) not in scratch:
                                scratch.append((oid, off, size))
                                grew = True
                            continue
                        init = e.fresh('uninit', sort_of(w))
                    w = last_write(e, s, oid, off, size)
                    if isinstance(init, int) and not isinstance(init, bool) and w is not None and not isinstance(w, (Ptr, Fn)):
                        so = sort_of(w)
                        if so == z3.RealSort():
                            init = Fraction(init)
                    if isinstance(init, Fn) or isinstance(init, Ptr) and isinstance(w, Ptr) and w.obj != init.obj:
                        if (oid, off, size) not in scratch:
                            scratch.append((oid, off, size))
                            grew = True
                        continue
                    vars.append(Var(('cell', oid, off), init, size))
                    grew = True
                    if grow and ('cell', oid, off) not in wrong and la and all(
                            same(current(x, vars[-1]), init) for x in la):
                        guess.add(('cell', oid, off))
                else:
                    # drop cells of this object: handle as array
                    if any(v.key[0] == 'cell' and v.key[1] == oid for v in vars):
                        vars[:] = [v for v in vars if not (v.key[0] == 'cell' and v.key[1] == oid)]
                    arrs.add(oid)
                    grew = True
            for oid in old_objs:
                if oid in s.mem and s.mem[oid].alive != st.mem[oid].alive:
                    raise Unsupported('release of outer memory in a loop')
        if not grew:
            break
    else:
        raise Unsupported('loop-carried state does not stabilise')

    def latch_val(s, v):
        if v.key[0] == 'phi':
            return v.scalar(s.frames[-1].env[v.key[1]])
        o = s.mem[v.key[1]]
        c = None
        for l in reversed(o.layers):
            if not isinstance(l, Cells):
                raise Unsupported('cell covered')
            if v.key[2] in l.d:
                c = l.d[v.key[2]]
                break
        if c is None or c[0] != v.size:
            raise Unsupported('loop cell')
        x = c[1]
        if isinstance(x, int) and not isinstance(x, bool) and sort_of(v.scalar(v.init)) == z3.RealSort():
            x = Fraction(x)
        return v.scalar(x)

    if any(v.key[0] == 'opaque' for v in vars):
        for v in vars:
            if v.key[0] == 'opaque':
                for s in la:
                    if s.frames[-1].env[v.key[1]] != v.init:
                        raise Unsupported('loop-carried function pointer or aggregate')
        vars = [v for v in vars if v.key[0] != 'opaque']

    # ---- closed forms of the scalars
    symnames = {v.sym.decl().name(): v for v in vars}
    if la:
        for v in vars:
            lv = [latch_val(s, v) for s in la]
            s0 = v.scalar(v.init)
            if v.key in guess:
                v.kind, v.value = 'const', s0
                continue
            if z3.is_int(v.sym):
                ds = [isub(x, v.sym) for x in lv]
                if all(same(d, ds[0]) for d in ds) and not (set(consts_of(ds[0])) & set(symnames)) \
                        and not uses_h(ds[0], hnames):
                    cs = consts_of(ds[0])
                    if not internal(cs, st, e, npc):
                        v.kind = 'affine'
                        v.value = iadd(s0, imul(ds[0], k))
            if v.kind is None and all(same(x, v.sym) for x in lv):
                v.kind = 'const'
                v.value = s0
            if v.kind is None and z3.is_real(v.sym):
                ds = [S(rv(x) - v.sym) for x in lv]
                if all(same(d, ds[0]) for d in ds) and not (set(consts_of(ds[0])) & set(symnames)) \
                        and not uses_h(ds[0], hnames) and not internal(consts_of(ds[0]), st, e, npc):
                    v.kind = 'affine'
                    v.value = S(rv(s0) + z3.ToReal(k) * rv(ds[0]))
        for _ in range(3):
            sub = [(v.sym, v.value) for v in vars if v.kind]
            prog = False
            for v in vars:
                if v.kind:
                    continue
                lv = [e.subst(latch_val(s, v), sub) for s in la]
                if any(not same(x, lv[0]) for x in lv):
                    continue
                x = lv[0]
                if set(consts_of(x)) & set(symnames) or uses_h(x, hnames) or internal(consts_of(x), st, e, npc):
                    continue
                prev = e.subst(x, [(k, k - 1)])
                at0 = e.subst(prev, [(k, z3.IntVal(0))])
                s0 = v.scalar(v.init)
                eq = S(zv(at0) == zv(s0)) if sort_of(at0) == sort_of(s0) else False
                if eq is True or (eq is not False and e.implied(st, eq)):
                    v.kind, v.value = 'shift', prev
                    if k.decl().name() not in consts_of(prev):
                        v.kind = 'const'
                    prog = True
            if not prog:
                break
    else:
        # the body never completes: the loop runs at most once
        for v in vars:
            v.kind, v.value = 'const', v.scalar(v.init)

    # ---- nested counters: the cells of a position which screens a box
    odo = odometer(e, st, la, ex, vars, symnames, hnames, npc, latch_val) if la else None
    if odo is not None:
        odo.assign(e, k)
        npc.own |= {d.decl().name() for d, _ in odo.axes()}
        for v in vars:
            if v.kind == 'affine' and odo.multi:
                v.value = e.subst(v.value, [(k, odo.rank)])
            elif v.kind == 'shift' and odo.multi:
                raise Unsupported('shifted variable in a nested counter loop')

        if odo.multi:
            derive(e, odo, st, la, vars, symnames, hnames, npc, latch_val)
            # temporaries: the iteration does not use what the previous one left
            used = set()
            for x in la + ex:
                for c in x.pc[npc:]:
                    used |= set(consts_of(c))
                for v in vars:
                    if x in la:
                        used |= set(consts_of(latch_val(x, v)))
            for v in vars:
                if v.kind is None and v.sym.decl().name() not in used:
                    v.kind, v.value = 'dead', v.sym

    sub = [(v.sym, v.value) for v in vars if v.kind]
    inv_user = has_inv

    # ---- bound candidates, from the tests on the way
    if odo is not None and odo.multi:
        cands = odo.ranges()
    elif odo is not None:
        cands = odo.ranges()
        cands += [c for c in houdini(e, st, k, la, ex, sub, npc, symnames, hnames) if not any(same(c, d) for d in cands)]
    else:
        cands = houdini(e, st, k, la, ex, sub, npc, symnames, hnames)
    ks = odo.ks if odo is not None and odo.multi else [(k, None)]

    # ---- pass 2: effect of one generic iteration in terms of k
    free = [v for v in vars if v.kind is None]

    def assign2(v):
        return v.value if v.kind else v.sym
    if arrs or free:
        g = head(assign2, havoc_arr, cands, 'assume')
        la, ex, _o = runquiet(g)
    summaries = {}
    if arrs and la and odo is not None and odo.start is not None:
        raise Unsupported('arrays written by nested counters which do not start at their fronts')
    if arrs and la:
        for oid in arrs:
            summaries[oid] = summarise(e, st, oid, la, ks, npc, hnames, cands, {v.sym.decl().name() for v in vars if v.kind in (None, 'dead')})
    # ---- folds
    foldvals = {}
    if free and not inv_user and la and odo is not None and odo.multi:
        raise Unsupported('accumulator in a nested counter loop: %s' % [(v.key, v.init, [str(latch_val(s, v))[:200] for s in la]) for v in free])
    if free and not inv_user and la:
        make_folds(e, st, free, la, k, npc, hnames, summaries, latch_val, foldvals, cands)

    def assign3(v):
        if v.kind:
            return v.value
        if id(v) in foldvals:
            return foldvals[id(v)]
        return v.sym

    def arr3(g, oid):
        o = g.wobj(oid)
        sm = summaries.get(oid)
        if sm is None:
            return
        if sm == 'havoc':
            havoc_arr(g, oid)
            return
        ents = sm(k)
        if ents:
            o.layers.append(Loop(ents))

    # user invariant, base case
    if inv_user:
        b = st.copy()
        b.inv_mode = 'check'
        reg = region_of(e, b, header, body)
        e.run(b, reg)
    # ---- pass 3: obligations of the body, and exits
    g = head(assign3, arr3, cands, 'assume')
    g.wlog = None
    if any(v.kind is None for v in vars) or any(x == 'havoc' for x in summaries.values()) or \
            any(oid not in summaries for oid in arrs):
        # the head state is an over-approximation: a failed obligation is not conclusive
        g.flags['approx'] = True
    if not inv_user:
        past(e, st, g, la, k, odo, npc, sub, free, foldvals, cands, hnames)
    elif g.flags is not None:
        g.flags['approx'] = True
    reg = region_of(e, g, header, body)
    la, ex = e.run(g, reg)
    if odo is not None:
        la, more = odo.verify(e, la, latch_val, region_of(e, g, header, body))
        ex = ex + more
    if inv_user:
        for s in la:
            s.inv_mode = 'check'
            reg = region_of(e, s, header, body)
            la2, ex2 = e.run(s, reg)
    # termination: a kept candidate bounds k, or a test does
    term = la == [] or inv_user or odo is not None or bounded(e, g, k, la)
    if not term:
        g.flags['approx'] = True
        for s in ex:
            s.flags['approx'] = True
        e.oblige(g, 'termination: the loop has a decreasing measure', term_goal(k), fn.name)
    out = []
    for s in ex:
        s.inv_mode = st.inv_mode
        if st.wlog is not None:
            # report the writes of the loop to the enclosing recording
            s.wlog = list(st.wlog) + [('loop',)] if False else list(st.wlog)
            for v in vars:
                if v.key[0] == 'cell' and v.kind != 'const':
                    s.wlog.append((v.key[1], v.key[2], v.size))
            s.wlog += scratch
            for oid in arrs:
                s.wlog.append((oid, e.fresh('anyoff', z3.IntSort()), None))
            s.wlog += [x for x in exit_writes(s, g)]
        else:
            s.wlog = None
        if odo is not None:
            if odo.last(e, s):
                s = subst_state(e, s, [(d, iv(isub(n, 1))) for d, n in odo.axes()])
                odo.merge(e, s, st, summaries, hnames)
                out.append(s)
            elif odo.multi:
                s.flags['approx'] = True
                out.append(s)
            else:
                out.append(solve_k(e, s, k, npc, foldvals))
            continue
        out.append(solve_k(e, s, k, npc, foldvals))
    return leave(e, out)


class Gap:
    """A counter which the loop does not hold: the steps from v to the mark u, which is set again when v reaches it"""

    def __init__(self, v, u, gap, step):
        self.v, self.u, self.gap, self.step = v, u, gap, step

    def at(self, s, latch_val):
        return exact_div(iadd(isub(latch_val(s, self.v), latch_val(s, self.u)), self.gap), self.step)


def gap_counter(e, st, la, vars, symnames, hnames, npc, latch_val):
    """(counter, number of values) of a pair of variables"""
    cand = [v for v in vars if v.kind is None and z3.is_int(v.sym)]
    for v in cand:
        lv = [latch_val(s, v) for s in la]
        steps = [isub(x, v.sym) for x in lv]
        inc = [i for i, d in enumerate(steps) if isinstance(d, int) and d > 0]
        if not inc or len(inc) == len(la) or any(steps[i] != steps[inc[0]] for i in inc):
            continue
        c = steps[inc[0]]
        for u in cand:
            if u is v or u.ptrobj != v.ptrobj:
                continue
            gap = isub(u.scalar(u.init), v.scalar(v.init))
            n = exact_div(gap, c)
            if n is None or not all(same(latch_val(la[i], u), u.sym) for i in inc):
                continue
            if all(i in inc or same(isub(latch_val(s, u), lv[i]), gap) for i, s in enumerate(la)):
                return Gap(v, u, gap, c), n
    return None


def derive(e, odo, st, la, vars, symnames, hnames, npc, latch_val):
    """variables which are linear in the digits; verify() proves it of the next iteration"""
    sub = [(v.sym, v.value) for v in vars if v.kind]
    gaps = [v for v, _, _ in odo.vars if isinstance(v, Gap)]

    def kind(s):
        """the digit which is incremented"""
        hits = []
        for i, (v, f, n, d) in enumerate(odo.eff):
            x = v.at(s, latch_val) if isinstance(v, Gap) else e.subst(latch_val(s, v), sub)
            if isinstance(v, Gap):
                if same(latch_val(s, v.u), v.u.sym):
                    hits.append(i)
            elif same(x, iadd(f, iadd(d, 1))):
                hits.append(i)
        return hits[-1] if hits else None
    kinds = [kind(s) for s in la]

    def form_of(u):
        form = u.scalar(u.init)
        absolute = []
        for i, (_, _, _, d) in enumerate(odo.eff):
            cs = []
            for s, kd in zip(la, kinds):
                if kd != i:
                    continue
                x = e.subst(latch_val(s, u), sub)
                step = isub(x, u.sym)
                if not set(consts_of(step)) & set(symnames):
                    c = step  # moves by a step, if the lower digits do not matter
                elif set(consts_of(x)) & set(symnames):
                    return None
                else:
                    lin = linear_in(x, d) if is_z(x) else None
                    if lin is None:
                        return None
                    c = lin[1]
                    absolute.append((i, x))
                if set(consts_of(c)) & {q.decl().name() for _, _, _, q in odo.eff} or uses_h(c, hnames) \
                        or internal(consts_of(c), st, e, npc):
                    return None
                cs.append(c)
            if not cs or any(not same(c, cs[0]) for c in cs):
                return None
            form = iadd(form, imul(d, cs[0]))
        for x in [x for i, x in absolute if i == 0]:
            # a value which is set again must be the one of the next iteration
            d = odo.eff[0][3]
            eq = ieq(x, e.subst(form, [(d, iv(iadd(d, 1)))]))
            if eq is not True and not (is_z(eq) and z3.is_true(eq)):
                return None
        return form

    for _ in range(3):
        prog = False
        for u in vars:
            if u.kind is not None or not z3.is_int(u.sym) or any(u is g.v for g in gaps):
                continue
            form = form_of(u)
            if form is not None:
                prog = True
                u.kind, u.value = 'odo', form
                odo.derived.append((u, form))
        for g, _, _, d in odo.eff:
            if isinstance(g, Gap) and g.u.kind is not None and g.v.kind is None:
                prog = True
                g.v.kind, g.v.value = 'odo', iadd(isub(g.u.value, g.gap), imul(d, g.step))
                odo.derived.append((g.v, g.v.value))
        if not prog:
            break
        sub = [(v.sym, v.value) for v in vars if v.kind]


class Odometer:
    """Integer variables x_i = f_i + d_i, with d_i in [0, L_i), which take all the values of the nested counters
    (d_0 is the fastest), in lexicographic order. This form is assumed of the generic iteration, and verify() proves
    that the next one has the successor, or that it is the last one."""

    def __init__(self, axes):
        self.vars = axes      # (var, front, length), fastest first
        self.multi = False
        self.start = None     # the first digits, if they are not all 0
        self.derived = []     # other variables which are linear in the digits

    def assign(self, e, k):
        eff = [(v, f, n) for v, f, n in self.vars if not (isinstance(n, int) and n == 1)]
        self.multi = len(eff) > 1
        self.eff = []
        for v, f, n in self.vars:
            if isinstance(n, int) and n == 1 and not isinstance(v, Gap):
                v.kind, v.value = 'const', f
        self.rank, stride = 0, 1
        for v, f, n in eff:
            d = e.fresh('d', z3.IntSort()) if self.multi else k
            if not isinstance(v, Gap):
                v.kind, v.value = 'odo', iadd(f, d)
            self.eff.append((v, f, n, d))
            self.rank = iadd(self.rank, imul(d, stride))
            stride = imul(stride, n)
        if not eff:
            self.single = k
        if self.start is not None:
            if not self.multi or len(eff) != len(self.vars):
                raise Unsupported('nested counters which do not start at their fronts')
            stride = 1
            for (v, f, n, d), x in zip(self.eff, self.start):
                self.rank = isub(self.rank, imul(x, stride))
                stride = imul(stride, n)
        self.ks = [(d, n) for v, f, n, d in self.eff[::-1]]

    def axes(self):
        return [(d, n) for v, f, n, d in self.eff] or [(self.single, 1)]

    def ranges(self):
        out = []
        for d, n in self.axes():
            out += [d >= 0, d < iv(n)]
        if self.start is not None:
            # from the first digits on
            out.append(S(z3.Not(lexless([d for d, _ in self.axes()][::-1], self.start[::-1]))))
        return out

    def last(self, e, s):
        return all(e.implied(s, ieq(d, isub(n, 1)), 1000) for d, n in self.axes())

    def verify(self, e, la, latch_val, region):
        """the latch states which are not ends, and the exits of the ends"""
        out, exits = [], []
        for s in la:
            if not e.feasible(s, True):
                continue
            if self.successor(e, s, latch_val):
                out.append(s)
                continue
            if not self.last(e, s):
                if os.environ.get('VC_DBG'):
                    print('SUCC', [(v.key, f, n, d, latch_val(s, v) if not isinstance(v, Gap) else None) for v, f, n, d in self.eff], [(v.key, w, latch_val(s, v)) for v, w in self.derived], s.pc[-6:])
                raise Unsupported('the nested counters do not step to the successor')
            la2, ex2 = e.run(s, region)
            if any(e.feasible(x, True) for x in la2):
                raise Unsupported('the nested counters do not stop after the last values')
            exits += ex2
        return out, exits

    def successor(self, e, s, latch_val):
        def at(v):
            return v.at(s, latch_val) if isinstance(v, Gap) else latch_val(s, v)
        if any(isinstance(v, Gap) and at(v) is None for v, _, _ in self.vars):
            return False
        for v, f, n in self.vars:
            if isinstance(n, int) and n == 1 and not e.implied(s, ieq(at(v), f), 1000):
                return False
        for i in range(len(self.eff)):
            ok = []
            for j, (v, f, n, d) in enumerate(self.eff):
                x = at(v)
                if j < i:
                    ok += [ieq(d, isub(n, 1)), ieq(x, f)]
                elif j == i:
                    ok += [ilt(iadd(d, 1), n), ieq(x, iadd(f, iadd(d, 1)))]
                else:
                    ok += [ieq(x, iadd(f, d))]
            succ = [(d, iv(0 if j < i else iadd(d, 1) if j == i else d)) for j, (_, _, _, d) in enumerate(self.eff)]
            ok += [ieq(latch_val(s, v), e.subst(form, succ)) for v, form in self.derived]
            if all(c is True or (c is not False and e.implied(s, c, 1000)) for c in ok):
                return True
        return False

    def merge(self, e, s, st, summaries, hnames):
        """after the last iteration: replace 'all but the last' and the writes of the last one with 'all'"""
        at = [(d, iv(isub(n, 1))) for d, n in self.axes()]
        for oid, sm in summaries.items():
            if sm == 'havoc' or oid not in s.mem:
                continue
            o = s.mem[oid]
            nb = len(st.mem[oid].layers)
            tail = o.layers[nb:]
            if not tail or not isinstance(tail[0], Loop):
                continue
            ents = sm.all
            want = []
            ok = True
            nk = len(self.ks) if self.multi else 1
            for x in ents:
                g = e.subst(x.guard, at)
                if g is False or (g is not True and e.implied(s, bv(S(z3.Not(g))), 500)):
                    continue
                if len(x.vars) == nk:
                    if g is not True and not e.implied(s, g, 500):
                        ok = False
                        break
                    g = True
                want.append(FStore([(v, e.subst(n, at)) for v, n in x.vars[nk:]], g, e.subst(x.off, at), x.size,
                                   e.subst(x.val, at)))
            have = []
            for L in tail[1:]:
                if isinstance(L, Store):
                    have.append(FStore([], True, L.off, L.size, L.val))
                elif isinstance(L, Loop):
                    have += L.entries
                else:
                    ok = False
            if not ok or len(want) != len(have):
                continue
            if not all(self.alike(e, s, x, y) for x, y in zip(have, want)):
                continue
            o = s.wobj(oid)
            o.layers = o.layers[:nb] + [Loop(sm(None if self.multi else self.axes()[0][1], full=True))]


    def alike(self, e, s, x, y):
        """the two families write the same values at the same locations"""
        if not (isinstance(x, FStore) and isinstance(y, FStore)) or x.size != y.size or len(x.vars) != len(y.vars):
            return False
        m = [(b[0], a[0]) for a, b in zip(x.vars, y.vars)]
        rng = [c for v, n in x.vars for c in (v >= 0, v < iv(n))]

        def eq(a, b):
            if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
                return a is b
            b = e.subst(b, m)
            if same(a, b):
                return True
            if sort_of(a) != sort_of(b):
                return False
            return e.check(s.pc + rng, [zv(a) != zv(b)], 500) == 'unsat'
        return all(eq(a[1], b[1]) for a, b in zip(x.vars, y.vars)) and eq(x.guard, y.guard) and eq(x.off, y.off) \
            and eq(x.val, y.val)


def odometer(e, st, la, ex, vars, symnames, hnames, npc, latch_val):
    odo = odometer_from(e, st, la, ex, vars, symnames, hnames, npc, latch_val, False)
    return odo or odometer_from(e, st, la, ex, vars, symnames, hnames, npc, latch_val, True)


def odometer_from(e, st, la, ex, vars, symnames, hnames, npc, latch_val, offset):
    """offset: the counters do not start at the values at which they are reset"""
    if os.environ.get('VC_DBG'):
        print('ODO', offset, [(v.key, v.kind, str(v.init), [str(latch_val(s,v))[:300] for s in la]) for v in vars])
    gap = None if offset else gap_counter(e, st, la, vars, symnames, hnames, npc, latch_val)
    cand = [v for v in vars if v.kind is None and z3.is_int(v.sym) and v.ptrobj is None
            and (gap is None or v is not gap[0].v and v is not gap[0].u)]
    if not cand:
        return None
    pats = {}
    fronts = {}
    for v in cand:
        row = []
        fronts[id(v)] = v.scalar(v.init)
        if offset:
            # the value of the resets
            xs = [x for x in (latch_val(s, v) for s in la) if not same(x, v.sym) and not same(isub(x, v.sym), 1)]
            if xs and all(same(x, xs[0]) for x in xs) and not internal(consts_of(xs[0]), st, e, npc) \
                    and not set(consts_of(xs[0])) & set(symnames) and not uses_h(xs[0], hnames):
                if e.implied(st, ile(xs[0], fronts[id(v)]), 1000):
                    fronts[id(v)] = xs[0]
        for s in la:
            x = latch_val(s, v)
            if same(x, v.sym):
                row.append('same')
            elif same(isub(x, v.sym), 1):
                row.append('inc')
            elif set(consts_of(x)) & set(symnames) or uses_h(x, hnames) or internal(consts_of(x), st, e, npc):
                row = None
                break
            else:
                row.append('reset' if e.implied(st, ieq(x, fronts[id(v)]), 1000) else 'final')
        if row is not None:
            pats[id(v)] = row
    cand = [v for v in cand if id(v) in pats]
    # axes of one value: unchanged until the end
    used = set()
    for x in la + ex:
        for c in x.pc[npc:]:
            used |= set(consts_of(c))
    if offset and all(same(fronts[id(v)], v.scalar(v.init)) for v in cand):
        return None
    ones = [v for v in cand if 'inc' not in pats[id(v)] and v.sym.decl().name() in used
            and not any(n.startswith('uninit!') for n in consts_of(v.scalar(v.init)))]
    cand = [v for v in cand if 'inc' in pats[id(v)]]
    if not cand:
        return None
    paths = [i for i in range(len(la)) if not any(pats[id(v)][i] == 'final' for v in cand + ones)]
    rank = {}
    for v in cand:
        rank[id(v)] = len({tuple(pats[id(w)][i] for w in cand) for i in paths if pats[id(v)][i] == 'same'})
    cand.sort(key=lambda v: rank[id(v)])
    axes = []
    known = []
    for v in cand:
        f = fronts[id(v)]
        backs = []
        for s in la + ex:
            for c in s.pc[npc:]:
                acc = []
                atoms_in(c, acc)
                for a in acc:
                    if not z3.is_int(a.arg(0)) or v.sym.decl().name() not in consts_of(a):
                        continue
                    d = S(a.arg(1) - a.arg(0))
                    lin = linear_in(d, v.sym) if is_z(d) else None
                    if lin is None or lin[1] not in (1, -1) or set(consts_of(lin[0])) & set(symnames) \
                            or uses_h(lin[0], hnames) or internal(consts_of(lin[0]), st, e, npc):
                        continue
                    t = imul(lin[0], -lin[1])
                    for b in (t, isub(t, 1), iadd(t, 1)):
                        if not any(same(b, x) for x in backs):
                            backs.append(b)
        found = None
        for b in backs:
            r = known + [bv(ile(f, v.sym)), bv(ile(v.sym, b))]
            if not e.implied(st, ile(v.scalar(v.init), b), 1000):
                continue
            good = True
            for i in paths:
                p = pats[id(v)][i]
                q = st.pc + la[i].pc[npc:] + [zv(c) for c in r if c is not True]
                if p == 'inc':
                    good = e.check(q, [z3.Not(bv(ilt(v.sym, b)))], 1000) == 'unsat'
                elif p == 'reset' and not same(b, f):
                    good = e.check(q, [z3.Not(bv(ieq(v.sym, b)))], 1000) == 'unsat'
                if not good:
                    break
            for i in range(len(la)):
                if good and i not in paths:
                    q = st.pc + la[i].pc[npc:] + [zv(c) for c in r if c is not True]
                    good = e.check(q, [z3.Not(bv(ieq(v.sym, b)))], 1000) == 'unsat'
            if good:
                found = b
                break
        if os.environ.get('VC_DBG'):
            print('AXIS', v.key, pats[id(v)], f, paths, found, backs)
        if found is None:
            return None
        known = known + [bv(ile(f, v.sym)), bv(ile(v.sym, found))]
        axes.append((v, f, iadd(isub(found, f), 1)))
    if gap is not None:
        axes.insert(0, (gap[0], 0, gap[1]))
    if offset and ones:
        return None
    odo = Odometer(axes + [(v, v.scalar(v.init), 1) for v in ones])
    if offset:
        odo.start = [isub(v.scalar(v.init), f) for v, f, n in axes]
    return odo


def exit_writes(s, g):
    return []


def term_goal(k):
    return z3.Bool('loop_measure_found')


def last_write(e, s, oid, off, size):
    o = s.mem[oid]
    for l in reversed(o.layers):
        if isinstance(l, Cells) and off in l.d and l.d[off][0] == size:
            return l.d[off][1]
    return None


def internal(cs, st, e, npc, bound=()):
    """constants created inside the loop body (not known before the loop), but for its own variables and the bound
    ones"""
    for n in cs:
        if '!' in n and int(n[n.rindex('!') + 1:]) > npc.first and n not in npc.own and n not in bound:
            return True
    return False


def uses_h(t, hnames):
    if not is_z(t):
        return False
    hs = set(hnames.values())
    return bool(apps_of(t, lambda n: n[:-2] in hs))


ATOM = {z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


def atoms_in(c, acc):
    if not is_z(c) or not z3.is_app(c):
        return
    kd = c.decl().kind()
    if kd in ATOM and z3.is_int(c.arg(0)):
        acc.append(c)
        return
    if kd in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE):
        for x in c.children():
            if z3.is_bool(x):
                atoms_in(x, acc)


def houdini(e, st, k, la, ex, sub, npc, symnames, hnames):
    if not la:
        return [k <= 0]
    known = {n for n, v in symnames.items() if v.kind}
    atoms = []
    for s in la + ex:
        for c in s.pc[npc:]:
            atoms_in(c, atoms)
    cands = []
    seen = set()

    def add(c):
        c = S(c)
        if isinstance(c, bool):
            return
        if c.get_id() in seen:
            return
        seen.add(c.get_id())
        cands.append(c)
    unk = set(symnames) - known
    for a in atoms:
        if set(consts_of(a)) & unk or uses_h(a, hnames) or internal(consts_of(a), st, e, npc):
            continue
        a = z3.substitute(a, *[(x, zv(y)) for x, y in sub]) if sub else a
        d = S(a.arg(1) - a.arg(0))
        if not is_z(d):
            continue
        lin = linear_in(d, k)
        if lin is None:
            continue
        a0, c = lin
        if isinstance(c, int) and c == 0:
            continue
        # d(k) = a0 + c*k; stays on one side of zero until the loop stops
        add(d >= 0)
        add(d <= 0)
        add(d > 0)
        add(d < 0)
        d1 = S(iv(d) - iv(c))
        add(iv(d1) >= 0)
        add(iv(d1) <= 0)
        add(iv(d1) > 0)
        add(iv(d1) < 0)
        m = exact_div(a0, isub(0, c)) if not isinstance(c, int) else exact_div(a0, -c)
        if m is not None:
            add(k <= iv(m))
            add(k < iv(m))
    cands = filter_cands(e, list(st.pc), [], cands, [(k, z3.IntVal(0))], False)
    paths = []
    for s in la:
        pc = [e.subst(x, sub) for x in s.pc[npc:]]
        if any(x is False for x in pc):
            continue
        paths.append(st.pc + [zv(x) for x in pc if x is not True] + [k >= 0])
    while True:
        n = len(cands)
        for pc in paths:
            cands = filter_cands(e, pc, cands, cands, [(k, k + 1)], True)
        if len(cands) == n:
            return cands


def filter_cands(e, pc, assume, cands, at, shrink):
    """those of the candidates which pc and assume (the candidates themselves if shrink) imply after substitution;
    candidates which the models of a failure falsify are dropped together"""
    todo = []
    out = []
    for c in cands:
        c1 = S(z3.substitute(c, *at))
        if c1 is True:
            out.append(c)
        else:
            todo.append((c, c1))
    if not todo:
        return out
    s = z3.SimpleSolver()
    limit(s, 500)
    tell(s, pc)
    tell(s, e.relevant_side(list(pc) + [c for c in cands] + [c for _, c in todo]))
    dropped = {c.get_id() for c in cands} - {c.get_id() for c, _ in todo} - {c.get_id() for c in out}
    while todo:
        if time.time() > e.deadline:
            raise OutOfTime('time budget of the proof exhausted')
        s.push()
        if shrink:
            tell(s, [c for c in assume if c.get_id() not in dropped])
        tell(s, [z3.Or(*[z3.Not(zv(c1)) for _, c1 in todo])])
        e.stats['queries'] += 1
        t0 = time.time()
        r = s.check()
        e.stats['qtime'] += time.time() - t0
        if r == z3.unsat:
            s.pop()
            return [c for c in cands if c.get_id() not in dropped]
        bad = set()
        if r == z3.sat:
            m = s.model()
            bad = {c.get_id() for c, c1 in todo if z3.is_false(m.eval(zv(c1), model_completion=True))}
        s.pop()
        if not bad:
            # one at a time
            for c, c1 in todo:
                s.push()
                if shrink:
                    tell(s, [x for x in assume if x.get_id() not in dropped])
                tell(s, [z3.Not(zv(c1))])
                e.stats['queries'] += 1
                if s.check() != z3.unsat:
                    bad.add(c.get_id())
                s.pop()
            dropped |= bad
            return [c for c in cands if c.get_id() not in dropped]
        dropped |= bad
        todo = [(c, c1) for c, c1 in todo if c.get_id() not in bad]
    return [c for c in cands if c.get_id() not in dropped]


def bounded(e, g, k, la):
    """some latch path bounds k from above by a k-free term (measure), syntactically"""
    for s in la:
        found = False
        for c in s.pc:
            acc = []
            atoms_in(c, acc)
            for a in acc:
                if k.decl().name() not in consts_of(a):
                    continue
                d = S(a.arg(1) - a.arg(0))
                lin = linear_in(d, k) if is_z(d) else None
                if lin is None:
                    continue
                a0, cc = lin
                if isinstance(cc, int) and cc == 0:
                    continue
                # path implies d(k) >= 0 with c<0 or d(k) <= 0 with c>0
                for up in (True, False):
                    goal = bv(S((d >= 0) if up else (d <= 0)))
                    sg = bv(S(iv(cc) < 0)) if up else bv(S(iv(cc) > 0))
                    if e.implied(s, z3.And(goal, sg), 500):
                        found = True
                        break
                if found:
                    break
            if found:
                break
        if not found:
            return False
    return True


def solve_k(e, s, k, npc, foldvals):
    """when an exit condition determines k, substitute it everywhere in the state"""
    sol = None
    for c in s.pc[npc:]:
        if is_z(c) and z3.is_eq(c) and z3.is_int(c.arg(0)):
            d = S(c.arg(0) - c.arg(1))
            if not is_z(d):
                continue
            lin = linear_in(d, k)
            if lin is None:
                continue
            a0, cc = lin
            if isinstance(cc, int) and cc == 0:
                continue
            q = exact_div(isub(0, a0), cc)
            if q is None:
                continue
            if not isinstance(cc, int) and not e.implied(s, S(cc != 0)):
                continue
            sol = q
            break
    if sol is None:
        # squeeze: k <= m and k >= m both implied
        for c in s.pc[npc:]:
            acc = []
            atoms_in(c, acc)
            for a in acc:
                d = S(a.arg(1) - a.arg(0))
                lin = linear_in(d, k) if is_z(d) else None
                if lin is None or lin[1] not in (1, -1):
                    continue
                for delta in (0, 1, -1):
                    m = iadd(imul(lin[0], -lin[1]), delta)
                    if e.implied(s, ieq(k, m)):
                        sol = m
                        break
                if sol is not None:
                    break
            if sol is not None:
                break
    if sol is None:
        s.flags['approx'] = True
        return s
    return subst_state(e, s, [(k, iv(sol))])


def subst_state(e, s, m):
    cache = {}

    def sv(v):
        if isinstance(v, (Ptr, tuple)) or is_z(v):
            key = id(v)
            if key not in cache:
                cache[key] = (v, e.subst(v, m))
            return cache[key][1]
        return v
    pc = []
    for c in s.pc:
        c = sv(c)
        if c is True:
            continue
        if c is False:
            return s
        pc.append(c)
    s.pc = pc
    for f in s.frames:
        for r in list(f.env):
            f.env[r] = sv(f.env[r])
    for oid in list(s.mem):
        o = s.mem[oid]
        o2 = subst_obj(e, o, sv, {})
        if o2 is not o:
            s.mem[oid] = o2
    if s.expect is not None:
        s.expect = (sv(s.expect[0]), s.expect[1])
    if s.flags.get('hist'):
        s.flags['hist'] = tuple(
            Hint(tuple(sv(x) for x in h.at)) if isinstance(h, Hint) else Hist([(j, sv(K)) for j, K in h.vars], sv(h.cond), sv(h.body), [sv(f) for f in h.fronts])
            for h in s.flags['hist'])
    return s


def subst_obj(e, o, sv, memo):
    if id(o) in memo:
        return memo[id(o)][1]
    size = sv(o.size)
    layers = []
    ch = not same(size, o.size) if not isinstance(size, int) or not isinstance(o.size, int) else size != o.size
    for L in o.layers:
        if isinstance(L, Cells):
            d = {x: (s, sv(v)) for x, (s, v) in L.d.items()}
            if any(d[x][1] is not L.d[x][1] for x in d):
                L2 = Cells(d)
            else:
                L2 = L
        elif isinstance(L, Store):
            L2 = Store(sv(L.off), L.size, sv(L.val))
        elif isinstance(L, Fill):
            L2 = Fill(sv(L.off), sv(L.len), L.byte)
        elif isinstance(L, Copy):
            L2 = Copy(sv(L.off), sv(L.len), subst_obj(e, L.src, sv, memo), sv(L.srcoff))
        elif isinstance(L, Loop):
            ents = []
            for x in L.entries:
                ents.append(FStore([(kk, sv(K)) for kk, K in x.vars], sv(x.guard), sv(x.off), x.size, sv(x.val)))
            L2 = Loop(ents)
        ch = ch or L2 is not L
        layers.append(L2)
    r = o
    if ch:
        r = o.copy()
        r.size = size
        r.layers = layers
    memo[id(o)] = (o, r)
    return r


def path_guards(e, la, npc):
    deltas = [[c for c in s.pc[npc:]] for s in la]
    if len(la) == 1:
        return [True]
    common = None
    for d in deltas:
        ids = {c.get_id() for c in d}
        common = ids if common is None else common & ids
    return [band(*[c for c in d if c.get_id() not in common]) for d in deltas]


def lexless(a, b):
    """a precedes b, outer counter first"""
    out = False
    for x, y in list(zip(a, b))[::-1]:
        out = bor(bv(ilt(x, y)), band(bv(ieq(x, y)), out))
    return out


def resolve_h(e, st, ks, cands, entries_all, oid, hnames, term, guardpc):
    """replace reads of the havoced arrays by reads of their content before the loop, when no earlier
    iteration wrote the location"""
    hs = {n: o for o, n in hnames.items()}
    apps = apps_of(term, lambda n: n[:-2] in hs) if is_z(term) else {}
    if not apps:
        return term
    hmap = {}
    for nm, ho in hs.items():
        def fn(off, sort, ho=ho):
            kps = [e.fresh('kp', z3.IntSort()) for _ in ks]
            for ent in entries_all(ho):
                # some earlier iteration kp < k writes off ?
                conds = [kp >= 0 for kp in kps] + [bv(lexless(kps, [kk for kk, _ in ks]))]
                conds += [kp < iv(K) for kp, (_, K) in zip(kps, ks) if K is not None]
                m = [(kk, kp) for (kk, _), kp in zip(ks, kps)]
                for (kk, K) in ent.vars[len(ks):]:
                    w = e.fresh('kq', z3.IntSort())
                    m.append((kk, w))
                    conds += [w >= 0, w < iv(e.subst(K, m))]
                g = e.subst(ent.guard, m)
                if g is False:
                    continue
                if g is not True:
                    conds.append(g)
                o2 = e.subst(ent.off, m)
                d = isub(o2, off)
                conds.append(bv(S(z3.And(iv(d) < ent.size, iv(d) > -ent.size))))
                pre = st.pc + list(cands) + [kk >= 0 for kk, _ in ks] + guardpc
                r = e.check(pre, [zv(c) for c in conds], 1500)
                if r != 'unsat':
                    r = with_products(e, pre, [zv(c) for c in conds])
                if r != 'unsat':
                    raise Unsupported('loop reads memory written by an earlier iteration')
            ty = ('f', 64) if sort == z3.RealSort() else ('i', 1) if sort == z3.BoolSort() else ('i', 64)
            o = st.mem[ho]
            ent = entries_all(ho)
            sz = ent[0].size if ent else 8
            if ty[0] == 'f':
                ty = ('f', 8 * sz)
            elif ty != ('i', 1):
                ty = ('i', 8 * sz)
            return e.read(st2(st, cands, ks, guardpc), o, off, sz, ty)
        hmap[nm] = fn
    return e.subst(term, [], hmap)


def with_products(e, pre, conds):
    pl = algebra.product_lemmas(list(conds) + [c for c in pre if is_z(c)])
    return e.check(pre, list(conds) + pl, 4000) if pl else 'unknown'


def st2(st, cands, ks, guardpc):
    s = st.copy()
    s.pc = s.pc + [kk >= 0 for kk, _ in ks] + list(cands) + list(guardpc)
    return s


def summarise(e, st, oid, la, ks, npc, hnames, cands, freenames):
    """closed form of the writes to object oid by iterations 0..K-1, as a function of K"""
    guards = path_guards(e, la, npc)
    raw = {}

    def collect(ho):
        if ho in raw:
            return raw[ho]
        ents = []
        for s, g in zip(la, guards):
            o = s.mem[ho]
            for L in o.layers:
                if isinstance(L, Store):
                    ents.append(FStore(list(ks), g, L.off, L.size, L.val))
                elif isinstance(L, Cells):
                    for x, (sz, v) in L.d.items():
                        ents.append(FStore(list(ks), g, x, sz, v))
                elif isinstance(L, Loop):
                    for x in L.entries:
                        gg = band(g, x.guard)
                        ents.append(FStore(list(ks) + list(x.vars), gg, x.off, x.size, x.val))
                else:
                    raise Unsupported('block write to outer memory in a loop')
        raw[ho] = ents
        return ents
    ents = collect(oid)
    out = []
    for x in ents:
        if isinstance(x.val, (Ptr, Fn)):
            raise Unsupported('pointer stored through a loop')
        gpc = [] if x.guard is True else [x.guard]
        # bounds of inner variables hold where the value is used
        inner = []
        for kk, K in x.vars[len(ks):]:
            inner += [kk >= 0, kk < iv(K)]
        val = resolve_h(e, st, ks, cands, collect, oid, hnames, x.val, gpc + inner) if is_z(x.val) else x.val
        guard = resolve_h(e, st, ks, cands, collect, oid, hnames, x.guard, inner) if is_z(x.guard) else x.guard
        for t in (val, guard, x.off):
            cs = consts_of(t)
            if set(cs) & freenames:
                raise Unsupported('stored value depends on an accumulator')
            if internal(cs, st, e, npc, {kk.decl().name() for kk, _ in x.vars}):
                (print('LU', cs, t) if os.environ.get('VC_DBG') else None); raise Unsupported('stored value depends on a local unknown')
        out.append(FStore(x.vars, guard, x.off, x.size, val))
    check_injective(e, st, out, cands)

    def inst(K, full=False):
        # rename the iteration variables so that the generic ones stay free
        r = []
        for x in out:
            js = [e.fresh('j', z3.IntSort()) for _ in ks]
            m = [(kk, j) for (kk, _), j in zip(ks, js)]
            vs = [(j, K if n is None else n) for j, (_, n) in zip(js, ks)]
            for (iv_, IK) in x.vars[len(ks):]:
                ni = e.fresh('j', z3.IntSort())
                m.append((iv_, ni))
                vs.append((ni, e.subst(IK, m)))
            guard = e.subst(x.guard, m)
            if not full and ks[0][1] is not None:
                # the iterations before the current one (whose variables stay free)
                guard = band(bv(lexless(js, [kk for kk, _ in ks])), guard)
            r.append(FStore(vs, guard, e.subst(x.off, m), x.size, e.subst(x.val, m)))
        return r
    inst.all = out
    return inst


def check_injective(e, st, ents, cands):
    """no location is written twice (by two iterations, or two entries), so the order of writes is irrelevant"""
    for i, x in enumerate(ents):
        for j in range(i, len(ents)):
            y = ents[j]
            m1, m2 = [], []
            c = []
            neq = []
            for vs, m in ((x.vars, m1), (y.vars, m2)):
                for n, (kk, K) in enumerate(vs):
                    w = e.fresh('c', z3.IntSort())
                    m.append((kk, w))
                    c.append(w >= 0)
                    if K is not None:
                        c.append(w < iv(e.subst(K, m)))
            for m in (m1, m2):
                # the candidate bounds hold for both iterations
                c += [zv(e.subst(q, m)) for q in cands]
            gx, gy = e.subst(x.guard, m1), e.subst(y.guard, m2)
            if gx is False or gy is False:
                continue
            c += [zv(g) for g in (gx, gy) if g is not True]
            d = isub(e.subst(x.off, m1), e.subst(y.off, m2))
            c.append(bv(S(z3.And(iv(d) < max(x.size, y.size), iv(d) > -max(x.size, y.size)))))
            if i == j:
                c.append(z3.Or(*[a[1] != b[1] for a, b in zip(m1, m2)]))
            elif len(m1) == len(m2) and same(x.off, y.off) and guards_exclusive(e, st, x, y):
                c.append(z3.Or(*[a[1] != b[1] for a, b in zip(m1, m2)]))
            if e.check(st.pc, [zv(q) for q in c], 4000) == 'unsat':
                continue
            if with_products(e, st.pc, [zv(q) for q in c]) == 'unsat':
                continue
            raise Unsupported('loop may write the same location twice')


def guards_exclusive(e, st, x, y):
    if x.guard is True or y.guard is True:
        return False
    return e.check(st.pc, [x.guard, y.guard], 1000) == 'unsat'


def past(e, st, g, la, k, odo, npc, sub, free, foldvals, cands, hnames):
    """what the completed iterations tell: each of them ended with one of the latch paths"""
    if not la:
        return
    ks = [(k, k)] if odo is None or not odo.multi else odo.ks[::-1]
    js = [e.fresh('j', z3.IntSort()) for _ in ks]
    known = {c.get_id() for c in cands} | {S(kk >= 0).get_id() for kk, _ in ks}
    try:
        fsub = sub + [(v.sym, foldvals[id(v)]) for v in free if id(v) in foldvals]
        ways = []
        for s in la:
            cs = [e.subst(c, fsub) for c in s.pc[npc:] if c.get_id() not in known]
            ways.append(band(*[bv(c) for c in cs]))
        body = bor(*[bv(w) for w in ways]) if len(ways) > 1 else ways[0]
        body = S(body) if is_z(body) else body
        if body is True:
            return
        m = [(kk, j) for (kk, _), j in zip(ks, js)]
        fronts = None if odo is None or not odo.multi else [0 if isinstance(v, Gap) else f for v, f, n, d in odo.eff]
        prior = band(*[bv(e.subst(c, m)) for c in cands])
        if odo is not None and odo.multi:
            cond = bv(lexless(js[::-1], [kk for kk, _ in ks][::-1]))
            if odo.start is not None:
                cond = z3.And(cond, z3.Not(bv(lexless(js[::-1], odo.start[::-1]))))
            vs = [(j, n) for j, (_, n) in zip(js, ks)]
        else:
            cond = True
            vs = [(js[0], k)]
        then = e.subst(body, m)
        ranges = [j >= 0 for j in js] + [j < iv(n) for j, n in vs]
        if e.check(list(st.pc) + list(cands) + [bv(cond), bv(prior)] + ranges, [z3.Not(bv(then))], 1000) == 'unsat':
            return
        own = {kk.decl().name() for kk, _ in ks}
        cs = set(consts_of(body))
        if uses_h(body, hnames) or cs & {v.sym.decl().name() for v in free} or internal(cs - own, st, e, npc):
            if os.environ.get('VC_DBG'):
                print('PAST', body, uses_h(body, hnames), cs & {v.sym.decl().name() for v in free}, internal(cs - own, st, e, npc))
            raise Unsupported('path of an iteration')
        g.flags['hist'] = tuple(g.flags.get('hist', ())) + (Hist(vs, cond, then, fronts),)
    except Unsupported:
        g.flags['approx'] = True


def make_folds(e, st, free, la, k, npc, hnames, summaries, latch_val, foldvals, cands):
    guards = path_guards(e, la, npc)
    steps = []
    ents_cache = {}

    def collect(ho):
        if ho in ents_cache:
            return ents_cache[ho]
        ents = []
        for s, g in zip(la, guards):
            o = s.mem[ho]
            for L in o.layers:
                if isinstance(L, Store):
                    ents.append(FStore([(k, None)], g, L.off, L.size, L.val))
                elif isinstance(L, Cells):
                    for x, (sz, v) in L.d.items():
                        ents.append(FStore([(k, None)], g, x, sz, v))
                elif isinstance(L, Loop):
                    for x in L.entries:
                        ents.append(FStore([(k, None)] + list(x.vars), band(g, x.guard), x.off, x.size, x.val))
                else:
                    raise Unsupported('block write in a loop')
        ents_cache[ho] = ents
        return ents
    for v in free:
        t = latch_val(la[-1], v)
        for s, g in list(zip(la, guards))[:-1][::-1]:
            t = ite(g, latch_val(s, v), t)
        t = resolve_h(e, st, [(k, None)], cands, collect, None, hnames, t, []) if is_z(t) else t
        if is_z(t) and internal(consts_of(t), st, e, npc):
            raise Unsupported('accumulator depends on a local unknown')
        steps.append(t)
    # parameters: every constant which an enclosing loop may substitute
    params = {}
    fs = {v.sym.decl().name() for v in free}
    for t in steps + [v.scalar(v.init) for v in free]:
        for n, c in consts_of(t).items():
            if n in fs or c.eq(k):
                continue
            params[n] = c
    params = [params[n] for n in sorted(params)]
    group = []
    for v, t in zip(free, steps):
        e.fresh_n += 1
        f = Fold('F%d' % e.fresh_n, params, k, v.scalar(v.init), t, group, v.sym.sort())
        f.sym = v.sym
        group.append(f)
        e.folds[f.name] = f
    for v, f in zip(free, group):
        foldvals[id(v)] = f.app(params, k)
