#!/usr/bin/env python3
"""Decide one property from the current source of /repo.

usage: check.py ID [--tier quick|thorough]
exit 0 holds, 1 violation (line VIOLATION property=<id> replay=<path>), 2 the analysis itself could not give an answer
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import facts                    # noqa: E402
import props                    # noqa: E402
from base import Rep            # noqa: E402
from facts import Broken        # noqa: E402


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    spec = props.PROPS[pid]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    if tier == 'thorough':
        os.environ['SA_DEEP'] = '1'
    rep = Rep(pid)
    prog = None
    try:
        fx = facts.extract(spec['groups'])
        prog = facts.Program(fx)
        for r in spec['rules']:
            r(prog, rep)
        if not rep.obs:
            raise Broken('no obligation was generated')
        for (n, what) in spec.get('floors', ()):
            got = rep.count(what)
            if got < n:
                raise Broken('only %d obligations of kind %s, %d confirmed by hand' % (got, what, n))
    except Exception as x:
        traceback.print_exc()
        kn = {k['obligation'] for k in known_findings(pid)}
        bad = [o for o in rep.obs if not o[1] and o[0] not in kn]
        if bad:
            # the analysis stopped early, but what it decided before stands
            return finish(pid, tier, seed, t0, spec, rep, prog)
        print('BROKEN property=%s %s: %s' % (pid, type(x).__name__, x))
        return 2
    return finish(pid, tier, seed, t0, spec, rep, prog)


def finish(pid, tier, seed, t0, spec, rep, prog):
    ev = os.path.join(VERIF, 'evidence')
    bad = [o for o in rep.obs if not o[1]]
    known = known_findings(pid)
    viol, seenk = [], {}
    for o in bad:
        k = [x for x in known if x['obligation'] == o[0]]
        if k:
            seenk.setdefault(k[0]['obligation'], (k[0], o))
        else:
            viol.append(o)
    for k, o in seenk.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    distinct = sorted({o[0] for o in rep.obs})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the sources that make up the current /repo build: path-sensitive abstract '
                           'interpretation / type-resolved queries over every function listed; no code of the repository is run. '
                           'Each obligation is one rule instance at one path, call site or member.',
            'rules': rep.rules,
            'translation_units': prog.ntu,
            'functions_in_program': len(prog.funcs),
            'functions_analysed': len(rep.functions),
            'functions': sorted(rep.functions),
            'paths': rep.paths,
            'sites': rep.sites,
            'obligations': len(rep.obs),
            'obligations_discharged': len(rep.obs) - len(bad),
            'distinct_obligations': len(distinct),
            'obligation_ids': distinct[:400],
            'known_findings': sorted(seenk),
        },
        'assumptions': spec.get('assumptions', []) + rep.notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if viol:
        path = os.path.join(ev, '%s.violations.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (pid, spec['title']))
            for r in rep.rules:
                f.write('rule: %s\n' % r)
            for o in viol:
                f.write('\nobligation %s\n  required: %s\n  at: %s\n  found: %s\n' % (o[0], o[2], o[3], o[4]))
        shown = {}
        for o in viol:
            if (o[0], o[3]) in shown:
                continue
            shown[(o[0], o[3])] = 1
            print('%s | required: %s | at %s | found: %s' % (o[0], o[2], o[3], o[4][:400]))
            if len(shown) > 20:
                break
        evidence['violation_list'] = [{'obligation': o[0], 'required': o[2], 'where': o[3], 'found': o[4][:500]} for o in viol[:50]]
    with open(os.path.join(ev, '%s.json' % pid), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' % (pid, len(rep.obs), len(rep.functions), rep.paths, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
