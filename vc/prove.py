"""Discharge of the obligations of one proof function; run in a worker process."""
import itertools
import json
import os
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

import z3

import algebra

import engine as E
from engine import limit, tell, S, consts_of, apps_of, zv, bv, iv, linear_in, exact_div, isub


def fold_axioms(eng, terms, rounds=2):
    """instances of the defining equations for the fold applications which occur"""
    out = []
    done = set()
    todo = list(terms)
    for _ in range(rounds):
        apps = {}
        seen = set()
        for t in todo:
            apps_of(t, lambda n: n in eng.folds, apps, seen)
        todo = []
        for i, a in apps.items():
            if i in done:
                continue
            done.add(i)
            f = eng.folds[a.decl().name()]
            ch = a.children()
            args, k = ch[:-1], ch[-1]
            ax = unfold(eng, f, args, k, a)
            out += ax
            todo += ax
        if not todo:
            break
    return out


def unfold(eng, f, args, k, a):
    m = list(zip(f.params, args))
    init = zv(eng.subst(zv(f.init), m))
    km = S(iv(k) - 1)
    step = step_at(eng, f, args, km)
    out = []
    k = iv(k)
    out.append(z3.Implies(k <= 0, a == init))
    out.append(z3.Implies(k > 0, a == step))
    return out


def step_at(eng, f, args, k):
    m = list(zip(f.params, args)) + [(f.kvar, iv(k))]
    for g in f.group:
        m.append((g.sym, g.app(args, k)))
    return zv(eng.subst(zv(f.step), m))


class Prover:
    def __init__(self, eng, timeout_ms=8000):
        self.eng = eng
        self.timeout = timeout_ms
        self.backends = {}
        self.lemmas = 0
        self.solver_time = 0.
        self.lemma_cache = {}

    def base(self, pc, goal_terms):
        fs = list(pc) + [g for g in goal_terms if E.is_z(g)]
        side = self.eng.relevant_side(fs)
        return list(pc) + side

    def solve(self, fs, timeout=None, want_model=False):
        t0 = time.time()
        to = timeout or self.timeout
        r, m, be = 'unknown', None, None
        for be, mk, share in (('z3-smt', z3.SimpleSolver, 0.35), ('z3-default', z3.Solver, 0.65)):
            s = mk()
            limit(s, max(100, int(to * share)))
            tell(s, fs)
            r = str(s.check())
            if r == 'sat':
                m = s.model()
            if r != 'unknown':
                break
        if r == 'unknown':
            r2 = self.cvc5(fs, to)
            if r2 == 'unsat':
                r, be = r2, 'cvc5'
        self.solver_time += time.time() - t0
        return r, m, be

    def cvc5(self, fs, ms):
        s = z3.Solver()
        E.tell(s, fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            # cvc5's resource units, not its clock, decide when it gives up: the verdict must not depend on the load
            p = subprocess.run(['cvc5', '--rlimit=%d' % (80 * ms), '--tlimit=%d' % (12 * ms), f.name],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ms / 80. + 10)
            return p.stdout.decode().strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def discharge(self, o):
        t0 = time.time()
        try:
            self.discharge_(o)
        finally:
            o.time = time.time() - t0

    def discharge_(self, o):
        if o.goal is True:
            o.status, o.backend = 'proved', 'simplifier'
            return
        goal = bv(o.goal)
        pc = self.base(o.pc, [goal])
        ng = z3.Not(goal)
        r, m, be = self.solve(pc + [ng], 2500)
        if r == 'unsat':
            o.status, o.backend = 'proved', be
            return
        if r == 'unknown':
            eqs = algebra.equalities(goal)
            if eqs and all(algebra.ring_equal(self, pc, x, y) for x, y in eqs):
                o.status, o.backend = 'proved', 'ring+' + be
                return
            pl = algebra.product_lemmas([ng] + pc)
            if pl:
                r2, _, be2 = self.solve(pc + [ng] + pl, 5000)
                if r2 == 'unsat':
                    o.status, o.backend = 'proved', be2 + '+products'
                    return
        extra = hist_instances(self.eng, o.pc_hist, pc + [ng], o.pc)
        ax = fold_axioms(self.eng, pc + [ng] + extra)
        if extra or ax:
            side = self.eng.relevant_side(pc + [ng] + ax + extra)
            r, m, be = self.solve(pc + side + [ng] + ax + extra)
            if r == 'unsat':
                o.status, o.backend = 'proved', be
                return
            lem = self.fold_lemmas(pc + extra, [ng] + ax)
            if lem:
                r, m, be = self.solve(pc + side + [ng] + ax + extra + lem)
                if r == 'unsat':
                    o.status, o.backend = 'proved', be + '+induction'
                    return
            if self.induct(pc + extra, goal):
                o.status, o.backend = 'proved', 'z3+induction'
                return
            # short folds: all their steps
            ax6 = fold_axioms(self.eng, pc + [ng] + extra, 6) if ax else []
            if len(ax6) > len(ax):
                side = self.eng.relevant_side(pc + [ng] + ax6 + extra)
                if self.solve(pc + side + [ng] + ax6 + extra, 4000)[0] == 'unsat':
                    o.status, o.backend = 'proved', 'z3+unfolding'
                    return
        else:
            r, m, be = self.solve(pc + [ng]) if r == 'unknown' else (r, m, be)
        if r == 'unsat':
            o.status, o.backend = 'proved', be
            return
        o.status = 'failed' if r == 'sat' else 'unknown'
        # the axioms of folds and of witnesses are instantiated, not complete
        o.approx = bool(ax or extra or o.pc_hist) or o.approx or any(n.startswith(('wr!', 'x!')) for f in pc + [ng] for n in consts_of(f))
        if r == 'sat':
            # prefer a counterexample within the native bounds
            small = []
            for nm, kind, x, lo, hi in o.inputs:
                if kind == 'int' and isinstance(lo, int) and isinstance(hi, int):
                    small += [x >= lo, x <= hi]
                elif kind == 'real':
                    small += [x >= -64, x <= 64, z3.IsInt(x * 4)]
            if small:
                r2, m2, _ = self.solve(pc + [ng] + ax + extra + small, 3000)
                if r2 == 'sat':
                    m = m2
            o.model = model_inputs(m, o)

    # -------------------------------------------------------- properties of folds by induction
    def induct(self, pc, goal):
        """goal(F(K)) by induction on the iteration number: P(k) := bound(i, k) => goal(F(k)), where i is a constant of
        the goal such that bound(i, K) holds on the path"""
        eng = self.eng
        # the last iteration, when it is executed apart: step(F(K)) = F(K+1)
        for a in list(apps_of(goal, lambda n: n in eng.folds).values()):
            f = eng.folds[a.decl().name()]
            args, K = a.children()[:-1], a.children()[-1]
            for g in f.group:
                t = S(step_at(eng, g, args, K))
                if E.is_z(t) and not z3.is_const(t):
                    goal = z3.substitute(goal, (t, g.app(args, S(K + 1))))
        apps = list(apps_of(goal, lambda n: n in eng.folds).values())
        Ks = {}
        for a in apps:
            K = a.children()[-1]
            if not z3.is_int_value(K):
                Ks[K.get_id()] = K
        for K in Ks.values():
            sub = [a for a in apps if a.children()[-1].eq(K)]

            def at(x):
                return z3.substitute(goal, *[(a, a.decl()(*(a.children()[:-1] + [x]))) for a in sub])
            j = eng.fresh('ind', z3.IntSort())
            if self.solve(pc + [K < 0], 1000)[0] != 'unsat':
                continue
            cands = [lambda x: z3.BoolVal(True)]
            for nm, c in consts_of(goal).items():
                if c.sort() == z3.IntSort() and not c.eq(j):
                    cands.append(lambda x, c=c: c < x)
                    cands.append(lambda x, c=c: c <= x)
            for b in cands:
                if not z3.is_true(b(K)) and self.solve(pc + [z3.Not(b(K))], 1000)[0] != 'unsat':
                    continue
                g0 = at(z3.IntVal(0))
                base = pc + [b(z3.IntVal(0)), z3.Not(g0)]
                base += fold_axioms(eng, [g0], 1)
                if self.solve(base + eng.relevant_side(base), 2000)[0] != 'unsat':
                    continue
                g1 = at(j + 1)
                st = pc + [j >= 0, j < K, z3.Implies(b(j), at(j)), b(j + 1), z3.Not(g1)]
                ax = fold_axioms(eng, [g1], 1)
                if self.solve(st + ax + eng.relevant_side(st + ax), 4000)[0] == 'unsat':
                    self.lemmas += 1
                    return True
        return False

    # -------------------------------------------------------- equality of folds by induction
    def fold_lemmas(self, pc, terms, depth=0):
        if depth > 3:
            return []
        apps = {}
        seen = set()
        for t in terms:
            apps_of(t, lambda n: n in self.eng.folds, apps, seen)
        apps = list(apps.values())
        out = []
        for a, b in itertools.combinations(apps, 2):
            if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children(), b.children())):
                continue
            if a.sort() != b.sort():
                continue
            r = self.fold_equal(pc, a, b, depth)
            if r is not None:
                out.append(r)
        return out

    def fold_equal(self, pc, a, b, depth):
        """lemma F(x,n) == G(y,n) when the counts are equal on this path, proved by induction"""
        eng = self.eng
        key = (a.get_id(), b.get_id(), tuple(x.get_id() for x in pc))
        if key in self.lemma_cache:
            return self.lemma_cache[key][0]
        self.lemma_cache[key] = (None, a, b, list(pc))
        f, g = eng.folds[a.decl().name()], eng.folds[b.decl().name()]
        ka, kb = a.children()[-1], b.children()[-1]
        if not ka.eq(kb):
            r, _, _ = self.solve(pc + [ka != kb], 1500)
            if r != 'unsat':
                return None
        aa, ba = a.children()[:-1], b.children()[:-1]
        i0 = zv(eng.subst(zv(f.init), list(zip(f.params, aa))))
        j0 = zv(eng.subst(zv(g.init), list(zip(g.params, ba))))
        if not i0.eq(j0):
            r, _, _ = self.solve(pc + [i0 != j0], 1500)
            if r != 'unsat':
                return None
        j = eng.fresh('ind', z3.IntSort())
        sa, sb = step_at(eng, f, aa, j), step_at(eng, g, ba, j)
        hyp = [j >= 0, j < ka]
        fa, gb = f.app(aa, j), g.app(ba, j)
        hyp.append(fa == gb)
        goal = [sa != sb]
        side = eng.relevant_side(pc + hyp + goal)
        r, _, _ = self.solve(pc + side + hyp + goal, 3000)
        if r != 'unsat':
            inner = self.fold_lemmas(pc + side + hyp, goal, depth + 1)
            ax = fold_axioms(eng, goal, 1)
            r, _, _ = self.solve(pc + side + hyp + goal + inner + ax, 4000)
            if r != 'unsat':
                return None
        self.lemmas += 1
        res = a == b
        self.lemma_cache[key] = (res, a, b, list(pc))
        return res


def hist_instances(eng, hists, terms, pc=()):
    """instances of 'all completed iterations' facts at the indices of the memory reads which occur"""
    if not hists:
        return []
    out = []
    done = set()
    st = E.State()
    st.pc = list(pc)
    for rnd in range(2):
        apps = {}
        seen = set()
        for t in terms:
            apps_of(t, lambda n: True, apps, seen)
        ground = {}
        for a in apps.values():
            if a.num_args() == 1:
                ground.setdefault(a.decl().name(), []).append(a.arg(0))
        new = []
        for h in hists:
            if isinstance(h, E.Hint):
                continue
            for x in hists if rnd == 0 else ():
                # indices given by the harness, fastest first
                if isinstance(x, E.Hint) and len(x.at) == len(h.vars):
                    at = [iv(q) - iv(f) for q, f in zip(x.at, h.fronts)]
                    m = [(j, S(q)) for (j, _), q in zip(h.vars, at)]
                    cs = [bv(eng.subst(h.cond, m))]
                    for (j, K), q in zip(h.vars, at):
                        cs += [iv(q) >= 0, iv(q) < iv(K)]
                    new.append(z3.Implies(z3.And(*cs), bv(eng.subst(h.body, m))))
            names = {j.decl().name() for j, _ in h.vars}
            for p in apps_of(h.body, lambda n: True).values():
                if p.num_args() != 1 or not names <= set(consts_of(p)):
                    continue
                for t in ground.get(p.decl().name(), []):
                    if len(h.vars) == 1:
                        lin = linear_in(p.arg(0), h.vars[0][0])
                        q = exact_div(isub(S(t), lin[0]), lin[1]) if lin is not None else None
                        qs = None if q is None else [q]
                    else:
                        qs = eng.radix_instance(st, E.FStore(h.vars, True, p.arg(0), 1, 0), S(t))
                    if qs is None:
                        continue
                    key = (id(h), str(qs))
                    if key in done:
                        continue
                    done.add(key)
                    m = [(j, iv(q)) for (j, _), q in zip(h.vars, qs)]
                    cs = [bv(eng.subst(h.cond, m))]
                    for (j, K), q in zip(h.vars, qs):
                        cs += [iv(q) >= 0, iv(q) < iv(K)]
                    new.append(z3.Implies(z3.And(*cs), bv(eng.subst(h.body, m))))
        out += new
        if not new:
            break
        terms = new
    return out


def model_inputs(m, o):
    out = []
    for nm, kind, x, lo, hi in o.inputs:
        if kind in ('int', 'bool', 'real'):
            v = m.eval(x, model_completion=True)
            if kind == 'int':
                out.append((x.decl().name(), str(v.as_long())))
            elif kind == 'bool':
                out.append((x.decl().name(), '1' if z3.is_true(v) else '0'))
            else:
                try:
                    out.append((x.decl().name(), '%.17g' % float(v.as_fraction())))
                except Exception:
                    pass
        elif kind == 'array':
            uf, k, es, n = x
            nn = m.eval(zv(n), model_completion=True)
            nn = nn.as_long() if z3.is_int_value(nn) else 0
            f = z3.Function('%s.%s' % (uf, 'r' if k == 'r' else 'i'), z3.IntSort(),
                            z3.RealSort() if k == 'r' else z3.IntSort())
            for i in range(min(nn, 64)):
                v = m.eval(f(z3.IntVal(i * es)), model_completion=True)
                try:
                    out.append(('%s[%d]' % (uf[2:], i), '%.17g' % float(v.as_fraction()) if k == 'r'
                                else str(v.as_long())))
                except Exception:
                    pass
    return out


def audit(eng, obs):
    """labels of the obligations which no feasible path reaches"""
    reached = {}
    for pc, label, hist, goal in [(p, '@' + l, [], []) for p, l in eng.covers] + [
            (o.pc, '%s %s' % (o.label, o.where), o.pc_hist, [bv(o.goal)]) for o in obs if o.pc is not None]:
        if reached.get(label):
            continue
        fs = list(pc) + eng.relevant_side(list(pc) + goal)
        fs += hist_instances(eng, hist, fs + goal, pc)
        fs += fold_axioms(eng, fs + goal)
        s = z3.Solver()
        limit(s, 2000)
        tell(s, fs)
        reached[label] = str(s.check()) != 'unsat'
    return sorted(l for l, r in reached.items() if not r)


def prove(module, name, budget, stubs=None):
    """returns a JSON-able record"""
    t0 = time.time()
    rec = {'proof': name, 'status': 'proved', 'obligations': [], 'time': 0., 'functions': [], 'assumptions': [],
           'stats': {}, 'reason': ''}
    eng = E.Engine(module, {'time': budget})
    if stubs:
        eng.stubs = stubs
    try:
        obs = eng.prove_function('proof_' + name)
        pr = Prover(eng)
        vac = True
        for pc, label in eng.covers:
            if eng.check(pc + eng.relevant_side(pc), [], 2000) != 'unsat':
                vac = False
        worst = 'proved'
        for o in obs:
            if time.time() > t0 + budget:
                raise E.OutOfTime('time budget of the proof exhausted')
            pr.discharge(o)
            r = {'label': o.label, 'where': o.where, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3)}
            if o.status != 'proved':
                r['goal'] = str(o.goal)[:2000]
                r['model'] = o.model
                r['approx'] = o.approx
                if o.status == 'failed' and not o.approx:
                    worst = 'failed'
                elif worst != 'failed':
                    worst = 'undecided'
            rec['obligations'].append(r)
        rec['status'] = worst
        if worst == 'undecided':
            rec['reason'] = 'open obligations'
        if not obs:
            rec['status'], rec['reason'] = 'undecided', 'no obligation generated'
        if eng.covers and vac:
            rec['status'], rec['reason'] = 'undecided', 'preconditions unsatisfiable'
        if os.environ.get('VC_AUDIT'):
            rec['vacuous'] = audit(eng, obs)
        rec['lemmas'] = pr.lemmas
        rec['solver_time'] = round(pr.solver_time + eng.stats['qtime'], 3)
    except E.Unsupported as e:
        rec['status'], rec['reason'] = 'undecided', '%s' % e
        rec['trace'] = traceback.format_exc(limit=-4)
    except RecursionError:
        rec['status'], rec['reason'] = 'undecided', 'recursion limit of the tool'
    except z3.Z3Exception as e:
        rec['status'], rec['reason'] = 'undecided', 'solver error: %s' % e
        rec['trace'] = traceback.format_exc(limit=-14)
    except Exception as e:   # a defect of the tool is never a violation
        rec['status'], rec['reason'] = 'undecided', 'tool error: %s: %s' % (type(e).__name__, e)
        rec['trace'] = traceback.format_exc(limit=-8)
    rec['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in eng.stats.items()}
    rec['functions'] = sorted(eng.called)
    rec['assumptions'] = sorted(eng.assumptions)
    rec['time'] = round(time.time() - t0, 2)
    return rec


if __name__ == '__main__':
    import sys
    import ir
    sys.setrecursionlimit(20000)
    m = ir.parse_module(open(sys.argv[1]).read())
    names = sys.argv[2:] or [f[7:] for f in m.functions if f.startswith('@proof_')]
    for n in names:
        r = prove(m, n, 200)
        print(n, r['status'], r['reason'], '%d/%d' % (sum(o['status'] == 'proved' for o in r['obligations']),
                                                     len(r['obligations'])), r['time'], r['stats'])
        if r.get('trace'):
            print(r['trace'])
        for o in r['obligations']:
            if o['status'] != 'proved':
                print('   ', o['status'], o['label'], o['where'], o['goal'][:300], o.get('model'), 'approx' if o['approx'] else '')
