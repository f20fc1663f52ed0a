#!/usr/bin/env python3-vt
"""Test the VC generator on contracts whose verdict is known: selftest/selftest.cpp."""
import os
import re
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    import extract
    import run
    src = os.path.join(ROOT, 'selftest', 'selftest.cpp')
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        ll = os.path.join(d, 'm.ll')
        text = extract.extract(src, run.REPO, [os.path.join(ROOT, 'harness')], ll)
        names = re.findall(r'^define[^@]*@proof_(\w+)\(', text, re.M)
        if sys.argv[1:]:
            names = [n for n in names if n in sys.argv[1:]]
        recs = run.prove_all(ll, names, 240, 7, 1e18)
    src = open(src).read()
    for n in names:
        r = recs[n]
        body = re.search(r'VC_PROOF\(%s\) \{\n(.*?)^\}' % n, src, re.S | re.M).group(1)
        false = set(re.findall(r'"(false[^"]*)"', body))
        isfalse = lambda o: any(f in o['label'] for f in false) or (any('false-memory' in f for f in false) and
                                                                    not o['label'].startswith('contract'))
        res = []
        # a false label is refuted (or at least open) on one of its paths
        for f in false:
            os_ = [o for o in r['obligations'] if f in o['label'] or ('false-memory' in f and isfalse(o))]
            if r['reason'] not in ('', 'open obligations'):
                res.append('UNDECIDED ' + r['reason'])
            elif not os_ or all(o['status'] == 'proved' for o in os_):
                res.append('UNSOUND "%s"' % f)
        for o in r['obligations']:
            if o['status'] != 'proved' and not isfalse(o):
                res.append('%s "%s"' % ('WRONG' if o['status'] == 'failed' and not o['approx'] else 'open', o['label']))
        exact = all(o['status'] == 'failed' for o in r['obligations'] if isfalse(o) and o['status'] != 'proved')
        print('%-24s %-9s %5.1fs %s' % (n, 'refuted' if exact else 'open', r['time'], '; '.join(res) or 'ok'), flush=True)
        bad += any(x.startswith(('UNSOUND', 'WRONG')) for x in res)
    print('%d contracts, %d wrong verdicts' % (len(names), bad))
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
