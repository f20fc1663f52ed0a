#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): mutates each line of the library reached by the bounded execution of
the contracts, and lists the mutants which no contract detects natively.

usage: mutate.py COVDIR OUT [FILE-REGEX] (COVDIR/Cxx/*.gcov: line coverage of each harness)"""
import collections
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MAXH = 3
OPS = [
    (r'(?<![<\-=!>])<(?![<=])(?= )', '<='), (r'(?<![>\-=])>(?![>=])(?= )', '>='), (r'<=', '<'), (r'>=', '>'),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\bnot ', ''), (r'(?<=if \()(?!not)', 'not '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
    (r'\+\+', '--'), (r'--', '++'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '+='),
    (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r'\b2\b', '1'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'm_front', 'm_back'), (r'm_back', 'm_front'),
    (r'\bfront\b', 'back'), (r'\bback\b', 'front'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bbegin\b', 'end'),
    (r'\.5', '.25'), (r'floor', 'ceil'), (r'\brhs\b', 'lhs'), (r' - 1\b', ''), (r' \+ 1\b', ''), (r'\bi\b', '0'),
]


def code_part(l):
    return l.split('//')[0].rstrip()


def mutants(text):
    seen = set()
    c = code_part(text)
    for pat, rep in OPS:
        for m in re.finditer(pat, c):
            t = c[:m.start()] + rep + c[m.end():]
            if t != c and t not in seen:
                seen.add(t)
                yield t
    s = c.strip()
    if s.endswith(';') and not re.match(r'(return|const|auto|using|typedef|\}|static|throw|break|case)\b', s) and re.match(
            r'[\w:*(\[]', s) and ('=' in s or '(' in s or '++' in s or '--' in s) and not re.match(r'^[\w:<>, ]+ \w+( =|;| \{|\()', s):
        yield c[:len(c) - len(c.lstrip())] + ';'


def coverage(cov):
    hit = collections.defaultdict(dict)
    for f in glob.glob(cov + '/C*/*.gcov'):
        pid = f.split('/')[-2]
        name = None
        for l in open(f, errors='replace'):
            m = re.match(r'\s*([^:]+):\s*(\d+):(.*)$', l)
            if not m:
                continue
            c, n, t = m.group(1).strip(), int(m.group(2)), m.group(3)
            if n == 0:
                if t.startswith('Source:'):
                    name = t[7:].replace(REPO + '/', '')
                continue
            if name and name.startswith('Litl') and re.match(r'\d', c):
                hit[(name, n)][pid] = int(re.match(r'\d+', c).group(0))
    return hit


def main():
    cov, out = sys.argv[1:3]
    flt = sys.argv[3] if len(sys.argv) > 3 else '.'
    anchors = collections.defaultdict(list)
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']:
            anchors[f].append(p['id'])
    hit = coverage(cov)
    todo = []
    for (f, n), pids in sorted(hit.items()):
        if not re.search(flt, f):
            continue
        line = open(os.path.join(REPO, f)).read().split('\n')[n - 1]
        hs = [p for p in anchors.get(f, []) if p in pids] or sorted(pids, key=lambda p: -pids[p])[:MAXH]
        for t in mutants(line):
            todo.append((f, n, line, t, hs))
    random.Random(int(os.environ.get('SEED', 1))).shuffle(todo)
    limit = int(os.environ.get('LIMIT', 100000))
    todo = todo[:limit]
    print(len(todo), 'mutants', flush=True)
    o = open(out, 'a')
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 5))) as ex:
        for r in ex.map(lambda t: one(*t), todo):
            o.write(json.dumps(r) + '\n')
            o.flush()


def sh(cmd, timeout, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **k)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


RT = '/tmp/mut_rt.o'


def one(f, n, line, t, hs):
    res = {'file': f, 'line': n, 'old': line.strip(), 'new': t.strip(), 'harness': hs, 'killed': {}}
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        for x in glob.glob(REPO + '/Litl*'):
            shutil.copytree(x, os.path.join(d, os.path.basename(x)), ignore=lambda p, ns: [y for y in ns if y in ('tests', 'doc')])
        ls = open(os.path.join(d, f)).read().split('\n')
        ls[n - 1] = t
        open(os.path.join(d, f), 'w').write('\n'.join(ls))
        inc = ['-I' + x for x in glob.glob(d + '/Litl*')] + ['-I' + ROOT + '/harness']
        san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
        for pid in hs:
            src = os.path.join(ROOT, 'harness', pid + '.cpp')
            m = re.search(r'^// LIBS: (.*)$', open(src).read(), re.M)
            rc, log = sh(['g++-9', '-std=c++14', '-O0', '-w'] + san + inc + ['-c', src, '-o', d + '/h.o'], 300)
            if rc:
                res['killed'][pid] = 'compile'
                break
            rc, log = sh(['g++-9'] + san + [d + '/h.o', RT, '-o', d + '/n'] + (m.group(1).split() if m else []), 100)
            if rc:
                res['killed'][pid] = 'link ' + log[-200:]
                break
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1')
            rc, lst = sh([d + '/n', '--list'], 10, env=env)
            for e in lst.split('\n'):
                if not e.strip():
                    continue
                rc, log = sh([d + '/n', '--run', e.split()[0], '--budget', '1.5', '--seed', '1'], 90, env=env)
                if '"ok": false' in log or rc == 124:
                    res['killed'][pid] = e
                    break
            if pid in res['killed']:
                break
    except Exception as e:
        res['error'] = str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


main()
