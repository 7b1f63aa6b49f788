#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property from /repo's current source.  Exit 0: holds on everything analysed; 1: violated;
2: the analysis itself is broken (does not compile, an anchor vanished, a rule has no instances)."""
import argparse
import json
import os
import re
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))


def known(path):
    """entries of the known-findings file: (property, text)"""
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m:
                out.append((m.group(1), m.group(2).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    t0 = time.time()
    import build
    import props
    import refs
    import rules
    import vk
    p = props.P[a.prop]
    P = refs.program(a.repo)
    ref = refs.load()
    bad, und, broken = [], [], []
    fns = rows = nins = 0
    analysed = []
    gone = []
    for b, sel in props.functions(a.prop, ref):
        if b not in P.bases():
            # merged into its callers, which are compared with its effects in place of the call
            gone.append(b)
            und.append('%s: does not exist any more' % b)
            continue
        v, u, n = refs.compare(P, b, ref[b], sel, ref)
        bad += [(l, 'effects', m) for l, m in v]
        und += u
        rows += n
        fns += 1
        f = P.fns(b)
        nins += sum(1 for g in f for _ in g.insts())
        analysed.append('%s (%s, %d instances, %d effects)' % (b, f[0].loc() if f else '?', len(f), n))
    if len(gone) * 3 > fns:
        broken.append('functions the property is decided on do not exist: %s' % ', '.join(gone))
    rl = []
    for r in rules.FOR.get(a.prop, []):
        R = rules.Result()
        r(P, R)
        rl.append({'rule': r.__name__, 'states': ' '.join((r.__doc__ or '').split()), 'instances': R.n, 'sites': R.sites[:60]})
        bad += [(l, r.__name__, m) for l, m in R.bad]
        und += ['%s: %s' % (r.__name__, m) for m in R.und]
        if R.n < rules.MIN.get(r.__name__, 1) and not R.bad:
            broken.append('rule %s has %d instances, at least %d are needed' % (r.__name__, R.n, rules.MIN.get(r.__name__, 1)))
    kn = [t for q, t in known(os.path.join(V, 'known_findings.txt')) if q == a.prop]
    found, new = [], []
    for l, r, m in bad:
        k = next((t for t in kn if t.split(' :: ')[0] in '%s: %s' % (r, m)), None)
        (found if k else new).append((l, r, m, k))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Decided from the LLVM bitcode of every source file of the working tree, nothing is run. (1) Effects: each listed '
                           'function (all its template instances, helpers inlined) is reduced to the set of its effects (stores to fields and tables, '
                           'calls with effects, results), each with its operands and its path condition in a normal form that is the same for equivalent '
                           'ways of writing them; every effect must be one the property requires, under the required condition, and none may be missing. '
                           '(2) Rules: relations between sites, listed below with the sites they were evaluated on.',
            'functions_analysed': fns, 'effects_compared': rows, 'instructions': nins, 'rules': rl, 'functions': analysed,
            'rule_instances': sum(x['instances'] for x in rl), 'undecided': und},
        'assumptions': ['library functions behave as specified', 'the build uses the same sources and language options as the analysis',
                        'the required effects were reviewed against the documentation and the property once, on the tree they are recorded from'],
        'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', a.prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s: %s' % (a.prop, p['title']))
    print('analysed: %d functions, %d instructions; %d effects compared; %d rules on %d sites; %.1f s' % (
        fns, nins, rows, len(rl), ev['coverage']['rule_instances'], ev['wall_s']))
    for x in rl:
        print('  rule %s: %d sites' % (x['rule'], x['instances']))
    for u in und:
        print('  undecided: ' + u)
    for l, r, m, k in found:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    if new:
        rp = os.path.join(V, 'evidence', a.prop + '.violations.txt')
        with open(rp, 'w') as o:
            for l, r, m, _ in new:
                o.write('%s: [%s] %s\n' % (l, r, m))
        for l, r, m, _ in new[:20]:
            print('  %s: [%s] %s' % (l, r, m[:1500]))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS BROKEN: ' + b)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ANALYSIS BROKEN')
        sys.exit(2)
