"""Merging of the paths which reach one program point with the same memory and the same values,
but for truth values: the path conditions are joined, and the truth values are selected by them."""
import z3

from engine import *


def uses(x, acc):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] in ('reg', 'lid') and isinstance(x[1], str):
            acc.add(x[1])
            return
        for y in x:
            uses(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            uses(y, acc)


class Flow:
    """reverse post-order and live values at the start of each block"""

    def __init__(self, fn):
        order, seen = [], {fn.entry}
        stack = [(fn.entry, iter(fn.succs(fn.entry)))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        self.num = {b: i for i, b in enumerate(order[::-1])}
        gen, self.defs = {}, {}
        live = {b: set() for b in order}
        phiuse = {b: set() for b in order}
        for b in order:
            blk = fn.blocks[b]
            g, d = set(), set()
            for i in blk.instrs:
                u = set()
                uses(i.args, u)
                uses(i.extra, u)
                g |= u - d
                if i.res is not None:
                    d.add(i.res)
            gen[b] = g
            self.defs[b] = d
        for b in order:
            for phi in fn.blocks[b].phis:
                for v, p in phi.args:
                    u = set()
                    uses(v, u)
                    if p in phiuse:
                        phiuse[p] |= u
        phis = {b: {phi.res for phi in fn.blocks[b].phis} for b in order}
        out = {b: set() for b in order}
        changed = True
        while changed:
            changed = False
            for b in order:
                o = set(phiuse[b])
                for s in fn.succs(b):
                    if s in live:
                        o |= live[s] - phis[s]
                n = gen[b] | (o - self.defs[b])
                if n != live[b] or o != out[b]:
                    live[b], out[b] = n, o
                    changed = True
        # live after the phis of the block are set
        self.live = live
        self.out = out

    def at(self, b, idx):
        if idx == 0:
            return self.live[b]
        return self.live[b] | self.defs[b]


def flow(fn):
    f = getattr(fn, '_flow', None)
    if f is None:
        f = fn._flow = Flow(fn)
    return f


def place(st):
    """order of exploration: what comes first in the program is run first"""
    return tuple((flow(f.fn).num.get(f.block, 1 << 30), f.idx) for f in st.frames)


def at_join(st):
    f = st.frames[-1]
    return f.idx == 0 and (f.prev is not None)


def same_layers(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is not type(y):
            return False
        if isinstance(x, Cells):
            if x.d.keys() != y.d.keys():
                return False
            for k in x.d:
                p, q = x.d[k], y.d[k]
                if p is not q and (p[0] != q[0] or not alike(p[1], q[1])):
                    return False
        elif isinstance(x, Store):
            if x.size != y.size or not alike(x.off, y.off) or not alike(x.val, y.val):
                return False
        else:
            return False
    return True


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
            alike(x, y) for x, y in zip(a, b))
    return same(a, b)


def isbool(v):
    return isinstance(v, bool) or is_z(v) and z3.is_bool(v)


IGNORED = {'cut', 'approx', 'inv_seen', 'hist'}


def join(e, a, b):
    """the state which is a or b, or None"""
    if len(a.frames) != len(b.frames) or a.expect is not b.expect or a.inv_mode != b.inv_mode:
        return None
    if a.names != b.names or len(a.inputs) != len(b.inputs) or (a.wlog is None) != (b.wlog is None):
        return None
    for f, g in zip(a.frames, b.frames):
        if f.fn is not g.fn or f.block != g.block or f.idx != g.idx or f.ret_to is not g.ret_to \
                or f.allocas != g.allocas:
            return None
    fa = {k: v for k, v in a.flags.items() if k not in IGNORED}
    fb = {k: v for k, v in b.flags.items() if k not in IGNORED}
    if fa.keys() != fb.keys() or any(fa[k] is not fb[k] and not alike(fa[k], fb[k]) for k in fa):
        return None
    if any(x is not y and not (x[0] == y[0] and x[1] == y[1] and alike(x[2], y[2])) for x, y in zip(a.inputs, b.inputs)):
        return None
    if a.mem.keys() != b.mem.keys():
        return None
    for oid, o in a.mem.items():
        p = b.mem[oid]
        if o is p:
            continue
        if o.alive != p.alive or o.base is not p.base and o.base != p.base or o.addr is not p.addr \
                or not alike(o.size, p.size) or not same_layers(o.layers, p.layers):
            return None
    diff = []
    for i, (f, g) in enumerate(zip(a.frames, b.frames)):
        if f.env is g.env:
            continue
        for n in flow(f.fn).at(f.block, f.idx):
            x, y = f.env.get(n), g.env.get(n)
            if x is y or x is None or y is None or alike(x, y):
                continue
            if not isbool(x) or not isbool(y):
                return None
            diff.append((i, n, x, y))
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
        n += 1
    # conditions common to both paths, in any order
    da, db = a.pc[n:], b.pc[n:]
    ia, ib = {c.get_id() for c in da}, {c.get_id() for c in db}
    common = [c for c in da if c.get_id() in ib]
    da = [c for c in da if c.get_id() not in ib]
    db = [c for c in db if c.get_id() not in ia]
    ca, cb = band(*da) if da else True, band(*db) if db else True
    s = a.copy()
    s.pc = a.pc[:n] + common
    ha, hb = a.flags.get('hist', ()), b.flags.get('hist', ())
    h = 0
    while h < len(ha) and h < len(hb) and ha[h] is hb[h]:
        h += 1
    if (diff or len(ha) > h or len(hb) > h) and (a.flags.get('cut') or b.flags.get('cut')) and not apart(e, s, da, db):
        # the conditions of the paths (after loops) may overlap
        x = e.fresh('sel', z3.BoolSort())
        ca, cb = band(x, ca), band(z3.Not(x), cb)
    s.flags['hist'] = tuple(ha[:h]) + tuple(
        y if isinstance(y, Hint) else Hist(y.vars, band(bv(c), bv(y.cond)), y.body, y.fronts) for c, t in ((ca, ha[h:]), (cb, hb[h:])) for y in t)
    if ca is not True and cb is not True:
        c = S(z3.Or(bv(ca), bv(cb)))
        if c is False:
            return None
        if c is not True and not e.implied(s, c, 100):
            s.pc.append(c)
    for i, name, x, y in diff:
        if ca is not True:
            v = ite(ca, x, y)
        else:
            v = ite(cb, y, x) if cb is not True else None
        if v is None:
            return None
        s.frames[i].env[name] = v
    if a.wlog is not None:
        m = 0
        while m < len(a.wlog) and m < len(b.wlog) and a.wlog[m] is b.wlog[m]:
            m += 1
        s.wlog = a.wlog + b.wlog[m:]
    s.flags['cut'] = max(a.flags.get('cut', 0), b.flags.get('cut', 0))
    for k in ('approx', 'inv_seen'):
        if a.flags.get(k) or b.flags.get(k):
            s.flags[k] = True
    return s


def apart(e, s, da, db):
    """no execution satisfies both conditions"""
    na = {c.get_id() for c in da}
    if any(S(z3.Not(c)).get_id() in na for c in db):
        return True
    return e.check(s.pc, list(da) + list(db), 300) == 'unsat'


class Worklist:
    """states to run; those which meet are joined"""

    def __init__(self, e):
        self.e, self.at, self.n = e, {}, 0

    def __len__(self):
        return sum(len(v) for v in self.at.values())

    def push(self, st, alone=False):
        """alone: the paths were split on purpose, to run one instruction"""
        k = place(st)
        if alone:
            self.n += 1
            k += ((-1, self.n),)
        self.at.setdefault(k, []).append(st)

    def pop(self):
        k = min(self.at)
        sts = self.at[k]
        st = sts.pop()
        i = len(sts) - 1
        while i >= 0:
            j = join(self.e, st, sts[i])
            if j is not None:
                self.e.stats['joins'] = self.e.stats.get('joins', 0) + 1
                st = j
                sts.pop(i)
            i -= 1
        if not sts:
            del self.at[k]
        return st
