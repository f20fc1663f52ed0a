"""Mechanical extraction: harness + /repo headers -> LLVM IR (clang, opt) -> parsed module.

Dropped by the extraction: the bodies of std::string/std::to_string/iostream functions (exception messages), which
become external functions with an assumed contract, and the bodies of std::nth_element and std::sort for arithmetic
elements with the default comparison, of the Mersenne twister engine, and of the draws of the uniform, normal and
Poisson distributions, replaced with the contracts of the standard; nothing else."""
import os
import re
import subprocess
import sys

import ir

OPAQUE = re.compile(
    r'^(_ZNK?St7__cxx1112basic_string|_ZNSt7__cxx119to_string|_ZNSt7__cxx11.*to_string|_ZStpl.*basic_string|'
    r'_ZSt.*basic_string|_ZNSt8__detail(14__to_chars|.*to_chars)|_ZNSt8__detail18__to_chars|_ZNSaIcE|_ZNKSaIcE|'
    r'_ZN9__gnu_cxx12__to_xstring|_ZNSt15__new_allocatorIcE|_ZN9__gnu_cxx13new_allocatorIcE|'
    r'_ZSt11nth_elementI(N9__gnu_cxx17__normal_iteratorI)?P[a-z]|'
    r'_ZSt4sortI(N9__gnu_cxx17__normal_iteratorI)?P[a-z]|'
    r'_ZNSt23mersenne_twister_engineI|_ZSt18generate_canonicalI[df]L|'
    r'_ZNSt\d+(uniform_int|normal|poisson)_distributionI[a-z]EclISt23mersenne.*10param_typeE$|'
    r'_ZNSt20poisson_distributionI[a-z]E10param_type13_M_initializeEv$|'
    r'_ZNSolsE|_ZStlsI|_ZN4Litl13Exception|_ZN4Litl9Exception|_ZN4Litl9ExceptionC)')


class ExtractError(Exception):
    pass


def includes(repo):
    out = []
    for d in sorted(os.listdir(repo)):
        p = os.path.join(repo, d)
        if d.startswith('Litl') and os.path.isdir(p):
            out.append('-I' + p)
    return out


FLAGS = ['-std=c++14', '-Wno-c++11-narrowing', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only',
         '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-DVC_SYMBOLIC', '-w',
         '-fno-builtin-malloc', '-fno-builtin-free', '-fno-builtin-calloc', '-fno-builtin-aligned_alloc']
OPT = ['-S', '-passes=default<O1>', '-inline-threshold=100000', '--vectorize-slp=false', '--vectorize-loops=false',
       '-disable-loop-unrolling']


def stub_bodies(text):
    out = []
    skip = False
    n = 0
    for line in text.split('\n'):
        if skip:
            if line == '}':
                skip = False
            continue
        if line.startswith('define '):
            m = re.search(r'@("?)([^"(]+)\1\(', line)
            if m and OPAQUE.match(m.group(2)):
                line = re.sub(r'^define ((linkonce_odr|available_externally|internal|weak_odr|linkonce|weak|hidden|dso_local) )*',
                              'declare ', line)
                line = re.sub(r' comdat(\([^)]*\))?', '', line)
                line = re.sub(r' personality .*$', '', line)
                line = re.sub(r' align \d+( !dbg.*)?( \{)?$', '', line)
                line = re.sub(r' !dbg !\d+', '', line)
                line = re.sub(r'\s*\{\s*$', '', line)
                skip = True
                n += 1
        out.append(line)
    return '\n'.join(out), n


def run(cmd, timeout, data=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=data)
    if p.returncode:
        raise ExtractError('%s failed: %s' % (cmd[0], p.stderr.decode(errors='replace')[-2000:]))
    return p.stdout


def extract(src, repo, incs=(), keep=None, timeout=240):
    cmd = ['clang++-18'] + FLAGS + includes(repo) + ['-I' + i for i in incs] + ['-S', '-emit-llvm', '-o', '-', src]
    raw = run(cmd, timeout).decode()
    text, n = stub_bodies(raw)
    opt = run(['opt-18'] + OPT + ['-o', '-'], timeout, text.encode()).decode()
    if keep:
        open(keep, 'w').write(opt)
    return opt


def module(src, repo, incs=(), keep=None):
    return ir.parse_module(extract(src, repo, incs, keep))


if __name__ == '__main__':
    extract(sys.argv[1], '/repo', ['/verif/harness'], sys.argv[2])
