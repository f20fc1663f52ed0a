"""Non-linear helpers of the prover: instances of valid product lemmas, and equalities by ring normalisation."""
import itertools

import z3


def poly(t, limit=4000):
    """t (Int or Real) as {monomial: coefficient}, where a monomial is a sorted tuple of atom ids; and the atoms"""
    atoms = {}

    def add(a, b, c=1):
        for m, k in b.items():
            v = a.get(m, 0) + c * k
            if v == 0:
                a.pop(m, None)
            else:
                a[m] = v
        if len(a) > limit:
            raise OverflowError()
        return a

    def mul(a, b):
        out = {}
        if len(a) * len(b) > 4 * limit:
            raise OverflowError()
        for m, k in a.items():
            for n, l in b.items():
                add(out, {tuple(sorted(m + n)): k * l})
        return out

    cache = {}

    def go(x):
        i = x.get_id()
        if i not in cache:
            cache[i] = (go_(x), x)
        return cache[i][0]

    def go_(x):
        if z3.is_int_value(x):
            v = x.as_long()
            return {(): v} if v else {}
        if z3.is_rational_value(x):
            v = x.as_fraction()
            return {(): v} if v else {}
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in x.children():
                add(out, go(c))
            return out
        if k == z3.Z3_OP_SUB:
            out = dict(go(x.arg(0)))
            for c in x.children()[1:]:
                add(out, go(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return add({}, go(x.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            out = {(): 1}
            for c in x.children():
                out = mul(out, go(c))
            return out
        if k == z3.Z3_OP_POWER and z3.is_rational_value(z3.simplify(x.arg(1))):
            e = z3.simplify(x.arg(1)).as_fraction()
            if e.denominator == 1 and 0 <= e <= 8:
                out = {(): 1}
                for _ in range(int(e)):
                    out = mul(out, go(x.arg(0)))
                return out
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(x.arg(0)):
            v = x.arg(0).as_long()
            return {(): v} if v else {}
        atoms[x.get_id()] = x
        return {(x.get_id(),): 1}

    return go(t), atoms


def arith_atoms(terms):
    """the arithmetic comparisons which occur in the terms"""
    out, seen, todo = {}, set(), list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (
                    k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.num_args() == 2 and z3.is_int(t.arg(0))):
                out[t.get_id()] = t
            todo.extend(t.children())
    return list(out.values())


def from_poly(p, atoms):
    ts = []
    for m, k in p.items():
        t = z3.IntVal(k)
        for a in m:
            t = t * atoms[a]
        ts.append(t)
    return z3.Sum(ts) if ts else z3.IntVal(0)


def gcd_of(p):
    import math
    g = 0
    for k in p.values():
        g = math.gcd(g, abs(int(k)))
    return g or 1


def product_lemmas(terms, limit=160):
    """for comparisons of s*Q + R, with s a factor: s > 0 and Q >= 1 imply s*Q >= s, and so on (valid for integers)"""
    out, done = [], set()
    qs = []
    for t in arith_atoms(terms):
        if t.arg(0).sort() != z3.IntSort():
            continue
        try:
            p, atoms = poly(t.arg(0) - t.arg(1))
        except OverflowError:
            continue
        work = [p]
        for _ in range(3):
            nxt = []
            for q in work:
                deg = [m for m in q if len(m) > 1]
                if not deg:
                    continue
                for s in sorted({a for m in deg for a in m}):
                    co = {}
                    for m, k in q.items():
                        if s in m:
                            l = list(m)
                            l.remove(s)
                            co[tuple(l)] = co.get(tuple(l), 0) + k
                    if not co or (len(co) == 1 and () in co):
                        continue
                    g = gcd_of(co)
                    co = {m: k // g for m, k in co.items()}
                    nxt.append(co)
                    key = (s, tuple(sorted(co.items())))
                    neg = (s, tuple(sorted((m, -k) for m, k in co.items())))
                    if key in done or neg in done:
                        continue
                    done.add(key)
                    qs.append((s, co, atoms))
            work = nxt
    for s, co, atoms in qs[:limit]:
        x = atoms[s]
        sq = {}
        for m, k in co.items():
            sq[tuple(sorted(m + (s,)))] = k
        q, sq = from_poly(co, atoms), from_poly(sq, atoms)
        out.append(z3.Implies(x > 0, z3.And(
            z3.Implies(q >= 1, sq >= x), z3.Implies(q <= -1, sq <= -x), z3.Implies(q == 0, sq == 0))))
    return out


def ring_equal(prover, pc, lhs, rhs, budget=400):
    """lhs == rhs on the path: atoms proved equal (up to an integer constant) are merged, then the rings are compared"""
    diff = lhs - rhs
    atoms = collect_atoms(diff)
    ids = set(atoms)
    if len(ids) > 300:
        return False
    ms = models(pc, 6)
    if not ms:
        return False
    reps = []   # (term, values)
    sub = {}
    queries = 0
    for i in sorted(ids, key=lambda i: (z3.is_app(atoms[i]) and atoms[i].decl().kind() == z3.Z3_OP_UNINTERPRETED,
                                        len(atoms[i].sexpr()), i)):
        a = atoms[i]
        vals = [evaluate(m, a.arg(0) if is_read(a) else a) for m in ms]
        if any(v is None for v in vals):
            continue
        found = None
        for cand in candidates(a, vals, reps):
            queries += 1
            if queries > budget:
                return False
            if app_equal(prover, pc, a, cand) or prover.solve(pc + [a != cand], 1500)[0] == 'unsat':
                found = cand
                break
        if found is not None:
            sub[i] = found
        else:
            reps.append((a, vals))
    pairs = [(atoms[i], r) for i, r in sub.items()]
    try:
        q, _ = poly(z3.substitute(diff, *pairs) if pairs else diff, 40000)
    except OverflowError:
        return False
    return not q


def collect_atoms(t):
    arith = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_POWER)
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x) or z3.is_rational_value(x):
            continue
        if x.decl().kind() in arith:
            todo.extend(x.children())
        else:
            out[x.get_id()] = x
    return out


def is_read(a):
    return z3.is_app(a) and a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED


def whole(a):
    if is_read(a):
        return False
    if z3.is_to_real(a):
        return True
    return a.sort() == z3.IntSort() or a.decl().kind() == z3.Z3_OP_TO_REAL


def candidates(a, vals, reps):
    def const(off):
        return z3.RealVal(str(off)) if a.sort() == z3.RealSort() else z3.IntVal(int(off))
    same = [(r, rv) for r, rv in reps if r.sort() == a.sort() and is_read(r) == is_read(a)
            and (not is_read(a) or r.decl().eq(a.decl()))]
    if whole(a) and len(set(vals)) == 1:
        yield const(vals[0])
    for r, rv in same:
        offs = {x - y for x, y in zip(vals, rv)}
        if len(offs) == 1:
            off = offs.pop()
            if not off:
                yield r
            elif whole(a) and whole(r):
                yield r + const(off)
    if whole(a):
        w = [(r, rv) for r, rv in same if whole(r)]
        for (r, rv), (q, qv) in itertools.permutations(w, 2):
            for sr, sq in ((1, -1), (1, 1)):
                if sq == 1 and r.get_id() > q.get_id():
                    continue
                offs = {x - sr * y - sq * z for x, y, z in zip(vals, rv, qv)}
                if len(offs) == 1:
                    yield (r - q if sq < 0 else r + q) + const(offs.pop())


def app_equal(prover, pc, a, b):
    """f(x) == f(y) from x == y"""
    if not z3.is_app(a) or not z3.is_app(b) or not a.decl().eq(b.decl()) or a.num_args() != 1 \
            or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    x, y = a.arg(0), b.arg(0)
    if x.eq(y):
        return True
    if x.sort() == z3.IntSort() and ring_equal(prover, pc, x, y, 60):
        return True
    return prover.solve(pc + [x != y], 3000)[0] == 'unsat'


def models(pc, n):
    """a few diverse models of the path condition, to filter the candidate equalities"""
    import random
    rnd = random.Random(1)
    s = z3.SimpleSolver()
    s.set('rlimit', 9000000)
    s.set('timeout', 6000)
    s.add(*pc)
    if s.check() != z3.sat:
        return []
    out = [s.model()]
    cs = [d() for d in out[0].decls() if d.arity() == 0 and d.range() in (z3.IntSort(), z3.RealSort())][:10]
    s.set('rlimit', 1800000)
    s.set('timeout', 1500)
    for _ in range(n - 1):
        s.push()
        best = None
        for c in rnd.sample(cs, len(cs)):
            v = rnd.randint(-6, 9)
            x = c == v if c.sort() == z3.IntSort() else c == z3.RealVal(str(v)) + z3.RealVal(rnd.choice(['0.25', '0.5', '0.75']))
            s.push()
            s.add(x)
            if s.check() == z3.sat:
                best = s.model()
            else:
                s.pop()
        if best is not None:
            out.append(best)
        while s.num_scopes():
            s.pop()
    return out


def evaluate(m, a):
    v = m.eval(a, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    return None


def equalities(goal):
    """the goal as a conjunction of equalities, or None"""
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            e = equalities(c)
            if e is None:
                return None
            out += e
        return out
    if z3.is_eq(goal) and goal.arg(0).sort() in (z3.IntSort(), z3.RealSort()):
        return [(goal.arg(0), goal.arg(1))]
    return None
