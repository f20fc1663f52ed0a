#!/usr/bin/env python3-vt
"""Check one property: extract the code under contract from /repo, discharge every obligation, run the bounded
stand-in and replays natively, write evidence/<id>.json."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

REPO = os.environ.get('VC_REPO', '/repo')
EVIDENCE = os.environ.get('VC_EVIDENCE', os.path.join(ROOT, 'evidence'))

TRUSTED = [
    'clang 18 front end and opt -O1 pipeline preserve the semantics of the source (the verified text is their output)',
    'vc/ir.py, vc/engine.py, vc/loops.py, vc/models.py, vc/prove.py: the VC generator of this repository',
    'z3 4.x (python bindings), cvc5 1.1.2',
    'machine integers are treated as mathematical integers (no overflow of index arithmetic)',
    'floating point numbers are treated as reals (no rounding, NaN or infinity)',
    'contracts of external functions in vc/models.py (allocation, memcpy/memset, libm, std::string messages)',
]


def log(*a):
    print(*a, flush=True)


def worker(ir_path, name, budget, conn):
    os.setpgrp()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import ir
    import prove
    try:
        sub = ir.parse_module(open(ir_path).read())
        r = prove.prove(sub, name, budget)
    except BaseException as e:
        r = {'proof': name, 'status': 'undecided', 'reason': 'tool error: %s %s' % (type(e).__name__, e),
             'obligations': [], 'time': 0, 'functions': [], 'assumptions': [], 'stats': {}}
    conn.send(json.dumps(r))
    conn.close()


def prove_all(ir_path, names, budget, jobs, deadline):
    ctx = mp.get_context('fork')
    todo = list(names)
    running = {}
    out = {}
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(ir_path, n, budget, b))
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        done = []
        for n, (p, a, t) in running.items():
            if a.poll(0.02):
                try:
                    out[n] = json.loads(a.recv())
                except EOFError:
                    out[n] = None
                done.append(n)
            elif not p.is_alive():
                out[n] = None
                done.append(n)
            elif time.time() - t > budget * 1.25 + 15 or time.time() > deadline:
                out[n] = None
                done.append(n)
        for n in done:
            p, a, t = running.pop(n)
            if p.is_alive():
                p.join(1)
            if p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
            p.join()
            if out[n] is None:
                out[n] = {'proof': n, 'status': 'undecided', 'reason': 'time or memory limit', 'obligations': [],
                          'time': round(time.time() - t, 1), 'functions': [], 'assumptions': [], 'stats': {}}
    return out


CXX = ['g++-9', '-std=c++14', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-fno-sanitize=vptr']


def compile_native(src, work):
    import extract
    exe = os.path.join(work, 'native')
    hdr = ['-I' + os.path.join(ROOT, 'harness')]
    rt = os.path.join(work, 'rt.o')
    cmds = [CXX + hdr + ['-c', os.path.join(ROOT, 'native', 'vc_native.cpp'), '-o', rt],
            CXX + extract.includes(REPO) + hdr + ['-c', src, '-o', os.path.join(work, 'h.o')]]
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
    outs = [p.communicate(timeout=400)[0].decode(errors='replace') for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            return None, o[-3000:]
    p = subprocess.run(CXX + [rt, os.path.join(work, 'h.o'), '-o', exe] + LIBS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=200)
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[-3000:]
    return exe, ''


LIBS = []
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1:abort_on_error=0',
           UBSAN_OPTIONS='print_stacktrace=1')


def native(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return []
    out = []
    for l in p.stdout.decode(errors='replace').split('\n'):
        if l.startswith('RESULT '):
            try:
                out.append(json.loads(l[7:]))
            except ValueError:
                pass
    return out


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.strip('@"') for n in names).encode(), stdout=subprocess.PIPE)
        return p.stdout.decode().strip().split('\n')
    except Exception:
        return list(names)


def repo_functions(ir_text):
    """functions of /repo whose code is in the extracted module, inlined or not (from the debug info)"""
    files = dict(re.findall(r'^!(\d+) = (?:distinct )?!DIFile\(filename: "([^"]*)"', ir_text, re.M))
    out = set()
    for name, link, f in re.findall(
            r'!DISubprogram\(name: "([^"]*)"(?:, linkageName: "([^"]*)")?(?:, scope: !\d+)?, file: !(\d+)', ir_text):
        fn = files.get(f, '')
        if fn.startswith(REPO + '/'):
            out.add('%s: %s' % (fn[len(REPO) + 1:], name))
    return sorted(out)


def load_findings():
    p = os.path.join(ROOT, 'known-findings.json')
    try:
        return json.load(open(p))
    except Exception:
        return {'findings': [], 'fixed': []}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if ('--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    if '--quick' in sys.argv:
        tier = 'quick'
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    src = os.path.join(ROOT, 'harness', pid + '.cpp')
    work = os.path.join(ROOT, 'build', '%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(ROOT, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        rc = check(pid, tier, seed, src, work, rdir, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, src, work, rdir, t0, only):
    import extract
    quick = tier == 'quick'
    limit = 560 if quick else 3000
    proof_budget = 240 if quick else 1200
    jobs = 7
    text = open(src).read()
    LIBS[:] = re.findall(r'^// LIBS: (.*)$', text, re.M)[0].split() if re.search(r'^// LIBS:', text, re.M) else []
    ex = cf.ThreadPoolExecutor(2)
    nat_future = ex.submit(compile_native, src, work)
    ir_path = os.path.join(work, 'm.ll')
    err = ''
    ir_text = ''
    names = []
    try:
        ir_text = extract.extract(src, REPO, [os.path.join(ROOT, 'harness')], ir_path)
        names = re.findall(r'^define[^@]*@proof_(\w+)\(', ir_text, re.M)
    except Exception as e:
        err = 'extraction failed: %s' % e
    declared = re.findall(r'^VC_PROOF\((\w+)\)', text, re.M)
    if only:
        names = [n for n in names if n in only]
    deadline = t0 + limit
    recs = prove_all(ir_path, names, proof_budget, jobs, deadline) if names else {}
    exe, cerr = nat_future.result()
    results = []
    if exe:
        lst = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, env=ENV).stdout.decode().split('\n')
        lst = [l.split() for l in lst if l.strip()]
        lst = [l for l in lst if not only or l[0] in only]
        total = (60. if quick else 900.) * 7
        per = max(1.5, min(8. if quick else 120., total / max(1, len(lst))))
        with cf.ThreadPoolExecutor(jobs) as pool:
            fs = [pool.submit(native, exe, ['--run', n, '--budget', str(per), '--seed', str(seed)], per + 90)
                  for n, k in lst]
            for (n, k), f in zip(lst, fs):
                r = f.result()
                results += r or [{'proof': n, 'kind': k, 'ok': True, 'runs': 0, 'kept': 0, 'distinct': 0,
                                  'exhaustive': False, 'label': '', 'inputs': '', 'stderr': 'no result'}]
    known = [f for f in load_findings()['findings'] if f['property'] == pid]
    violations = []
    notes = []

    def replay_file(name, label, inputs, extra):
        h = hashlib.sha1((name + label).encode()).hexdigest()[:8]
        p = os.path.join(rdir, '%s-%s-%s.txt' % (pid, name, h))
        with open(p, 'w') as f:
            f.write('# property %s\n# failed obligation: %s\n' % (pid, label))
            f.write('# replay: build harness/%s.cpp with native/vc_native.cpp, then ./native --replay THIS_FILE\n' % pid)
            f.write('proof=%s\n%s\n' % (name, inputs))
            for l in extra.split('\n'):
                f.write('# %s\n' % l)
        return p
    # -- native failures
    failed_native = {}
    for r in results:
        if not r['ok']:
            failed_native[r['proof']] = r
    # -- failed obligations
    for n, rec in recs.items():
        for o in rec['obligations']:
            if o['status'] != 'failed':
                continue
            inputs = '\n'.join('%s=%s' % tuple(kv) for kv in (o.get('model') or []))
            detail = 'where: %s\ngoal: %s\nverifier: %s' % (o['where'], o['goal'], 'counterexample found')
            if n in failed_native:
                continue
            confirmed = None
            if exe:
                p = replay_file(n, o['label'], inputs, detail)
                rr = native(exe, ['--replay', p], 60)
                if rr and not rr[0]['ok'] and 'integer overflow' not in rr[0]['stderr']:
                    confirmed = rr[0]  # overflows are out of the assumptions
            if confirmed:
                failed_native[n] = confirmed
            elif not o['approx']:
                violations.append((n, o['label'], replay_file(n, o['label'], inputs, detail), False))
            else:
                notes.append('%s: %s: no proof within the abstraction, and no failing input' % (n, o['label']))
    for n, r in failed_native.items():
        rec = recs.get(n)
        ob = [o for o in (rec or {}).get('obligations', []) if o['status'] != 'proved']
        extra = 'native label: %s\n%s' % (r['label'], r['stderr'])
        if ob:
            extra += '\nfailed obligation: %s at %s\ngoal: %s' % (ob[0]['label'], ob[0]['where'], ob[0]['goal'])
        violations.append((n, r['label'], replay_file(n, r['label'], r['inputs'], extra), True))
    # -- known findings
    final = []
    hit = set()
    for v in violations:
        k = [f for f in known if f['proof'] == v[0]]
        if k:
            hit.add(id(k[0]))
            continue
        final.append(v)
    for f in known:
        if id(f) in hit:
            log('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        else:
            notes.append('known finding not reproduced: %s' % f['what'])
    kproofs = {f['proof'] for f in known}
    seen = set()
    uniq = []
    for v in sorted(final, key=lambda v: not v[3]):
        if v[0] in seen:
            continue
        seen.add(v[0])
        uniq.append(v)
    # -- evidence
    nob = sum(len(r['obligations']) for n, r in recs.items() if n not in kproofs)
    ndis = sum(o['status'] == 'proved' for n, r in recs.items() if n not in kproofs for o in r['obligations'])
    backends = {}
    for r in recs.values():
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    proved = sorted(n for n, r in recs.items() if r['status'] == 'proved')
    undecided = {n: r['reason'] for n, r in recs.items() if r['status'] != 'proved' and n not in kproofs}
    for n in declared:
        if n not in recs and (not only or n in only):
            undecided[n] = err or 'not extracted'
    called = sorted({f for r in recs.values() for f in r['functions']})
    samples = [r['inputs'].strip().replace('\n', ' ')[:300] for r in results if r.get('kept')][:4]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': LEVEL(pid),
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': './check %s' % pid,
            'trusted_base': TRUSTED,
            'proofs': {n: {'status': r['status'], 'obligations': len(r['obligations']),
                           'discharged': sum(o['status'] == 'proved' for o in r['obligations']),
                           'seconds': r['time'], 'paths': r['stats'].get('paths'), 'loops_cut': r['stats'].get('cuts'),
                           'induction_lemmas': r.get('lemmas', 0)} for n, r in sorted(recs.items())},
            'proved': proved,
            'undecided_bounded_only': undecided,
            'backends': backends,
            'solver_time_s': round(sum(r.get('solver_time', 0) for r in recs.values()), 2),
            'functions_under_contract': repo_functions(ir_text),
            'functions_called_out_of_line': demangle(called),
            'bounded_standin': {r['proof']: {'kind': r['kind'], 'runs': r['runs'], 'kept': r['kept'],
                                             'distinct': r['distinct'], 'exhaustive_within_bounds': r['exhaustive']}
                                for r in results},
            'evaluations': sum(r['runs'] for r in results),
            'distinct_nontrivial': sum(r['distinct'] for r in results),
            'rule': 'bounded stand-in: enumeration (then random sampling) of the inputs of each contract within the '
                    'bounds written in harness/%s.cpp; non-trivial: satisfies the precondition' % pid,
            'samples': samples or ['none'],
            'notes': notes,
        },
        'assumptions': sorted({a for r in recs.values() for a in r['assumptions']}),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(uniq),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if not only:
        with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if err or cerr:
        log((err or cerr)[-2500:])
    for n, r in sorted(recs.items()):
        log('%-28s %-10s %3d/%-3d %6.1fs %s' % (n, r['status'], sum(o['status'] == 'proved' for o in r['obligations']),
                                               len(r['obligations']), r['time'], r['reason'][:110]))
        if r.get('vacuous'):
            log('    unreached: %s' % '; '.join(r['vacuous']))
        if os.environ.get('VC_TRACE'):
            if r.get('trace'):
                log(r['trace'])
            for o in r['obligations']:
                if o['status'] != 'proved':
                    log('    ', o['status'], o['label'], o['where'], o['goal'][:400], o.get('model'), 'approx' if o['approx'] else '')
    for r in results:
        log('  native %-24s %-7s %s runs=%d kept=%d distinct=%d %s %s' % (
            r['proof'], r['kind'], 'ok' if r['ok'] else 'FAIL', r['runs'], r['kept'], r['distinct'],
            'exhaustive' if r['exhaustive'] else '', r['label']))
        if not r['ok'] and os.environ.get('VC_TRACE'):
            log(r['inputs'], r['stderr'][:3000])
    log('%s: %d obligations, %d discharged, %d proofs complete, %d bounded only; %d native runs; %.1f s' % (
        pid, nob, ndis, len(proved), len(undecided), ev['coverage']['evaluations'], time.time() - t0))
    for n, label, path, confirmed in uniq:
        log('failed obligation: %s: %s' % (n, label))
        log('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
    if uniq:
        return 1
    if not exe and not recs:
        # the harness does not even compile: nothing was decided
        log('nothing could be decided: the contracts do not compile against the current sources')
        return 2
    return 0


def LEVEL(pid):
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    main()
