#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current tree.  Exit 0 held, 1 violated, 2 no answer."""
import json
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from vf.front import Broken, REPO       # noqa: E402


def registry():
    from vf.rules import ALL
    return ALL


def known_findings(pid):
    """identifiers of recorded, unrepaired findings of this property"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                ident, _, text = rest.partition(' :: ')
                out[ident] = text
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    C, broken = None, False
    try:
        from vf.rules import common
        C = common.Check(pid)
        registry()[pid](C, tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        for d, l in (common._meta or {}).get('failed', {}).items():
            print('  uses of the library that do not compile: %s: %s' % (d, l))
        broken = True
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % pid)
        broken = True
    if broken:
        # what was established before stands
        if C is None or common._module is None:
            return 2
        C.viol = [v for v in C.viol if v.rule in C.need]
        C.notes.append('the analysis broke before it was complete')
    known = known_findings(pid)
    fresh, listed = [], []
    for v in C.viol:
        (listed if v.ident() in known else fresh).append(v)
    if broken and not fresh:
        return 2
    short = [n for n, m in C.need.items() if C.rules[n][0] < m]
    if short and not fresh:
        print('ANALYSIS-BROKEN property=%s: rules without their subject: %s' % (
            pid, ', '.join('%s (%d of at least %d)' % (n, C.rules[n][0], C.need[n]) for n in short)))
        return 2
    try:
        m = common.meta()
    except Broken as e:
        if not C.scans and not fresh:
            print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
            return 2
        m = {'units': [], 'flags': []}
    fns = sorted(common.module().fns[f].short() for f in C.functions) if C.functions else []
    lib = [f for f in fns if not f.startswith(('std::', 'vf_', '__gnu', 'vfu'))]
    cov = {
        'explanation': C.explanation or 'Path-sensitive static analysis of the resolved program (LLVM IR of the library, built from the current tree with the '
                       'project\'s own flags): every path of every listed entry point, callees followed in context, loops to a fixpoint. '
                       'Each rule is an obligation checked at every construct it applies to.',
        'rules': {n: {'obligations': r[0], 'rule': r[1]} for n, r in sorted(C.rules.items())},
        'entry_points': {k: {'runs': v[0], 'paths': v[1]} for k, v in sorted(C.entries.items())},
        'paths': C.paths, 'instructions_interpreted': C.instructions,
        'library_functions_analysed': lib, 'library_functions_count': len(lib), 'functions_count': len(fns),
        'translation_units': m['units'], 'flags': m['flags'],
        'unmodelled_externals': sorted(C.unknown),
        'notes': C.notes + ['does not compile: ' + d for d in m.get('failed', {})], 'scans': C.scans,
        'findings_known': [v.ident() for v in listed],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVELS.get(pid, 'other'),
          'coverage': cov, 'assumptions': ASSUME + C.assumed, 'wall_s': round(time.time() - t0, 3),
          'result': 'violation' if fresh else 'held', 'violations': [
              {'rule': v.rule, 'entry': v.entry, 'where': list(v.where), 'detail': v.detail, 'path': v.path, 'ident': v.ident()} for v in fresh]}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(d, pid + '.json'))
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v.ident()]))
    if fresh:
        rp = os.path.join(d, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('rule %s: %s\n  entry: %s\n  at: %s\n  detail: %s\n  path:\n%s\n\n' % (
                    v.rule, C.rules[v.rule][1], v.entry, ' <- '.join(v.where) or '-', v.detail, ''.join('    %s\n' % s for s in v.path)))
        for v in fresh[:12]:
            print('%s: [%s] %s | entry %s | at %s' % (pid, v.rule, v.detail, v.entry, ' <- '.join(v.where[:3]) or '-'))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: held; %d obligations under %d rules, %d paths, %d library functions, %.1f s' % (
        pid, sum(r[0] for r in C.rules.values()), len(C.rules), C.paths, len(lib), time.time() - t0))
    return 0


LEVELS = {}
ASSUME = ['The table of externals in vf/models.py (pthread primitives, heap, exception runtime) describes them correctly.',
          'Memory is sequentially consistent for atomics; fields no operation stores to do not change after construction.',
          'Distinct pointer fields of one object do not alias.']

if __name__ == '__main__':
    sys.exit(main())
