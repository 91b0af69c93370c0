#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root /repo]

Decides one property by static analysis of the source under --root, writes
evidence/PROPERTY.json, prints what it analysed.  Exit 0: it holds (known
findings are printed, not counted).  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from asn1lint import checks                                # noqa: E402
from asn1lint.context import Broken, Context               # noqa: E402


def known(pid):
    """{finding key: description} the known-findings file lists."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding: property=%s ' % pid):
                continue
            key, _, text = line.split('key=', 1)[1].partition(' :: ')
            out[key.strip()] = text.strip()
    return out


def titles():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        return dict((p['id'], p['title']) for p in map(json.loads, f))


def selftest():
    from asn1lint.context import examples
    from asn1lint.spec import Library
    lib = Library(os.path.join(HERE, 'spec'))
    seen = examples(os.path.join(HERE, 'examples'))
    print('%d modules of the reference, %d properties, %d rules see their example' % (
        len(lib.modules), len(titles()), len(seen)))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='read the tables, try every rule on its example')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--root', default=os.environ.get('VERIF_REPO') or '/repo')
    ap.add_argument('--out', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    pid = a.property
    if pid not in checks.CHECKS:
        print('no check decides %s' % pid)
        return 2
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t = time.time()
    try:
        ctx = Context(a.root, a.tier, seed)
        r = checks.CHECKS[pid](ctx)
        r.coverage['rules_armed'] = ctx.armed([x for x in r.rules if x.split(' ')[0] not in checks.UNARMED])
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    wall = time.time() - t
    listed = known(pid)
    fresh = [f for f in r.findings if f.key not in listed]
    old = [f for f in r.findings if f.key in listed]
    os.makedirs(a.out, exist_ok=True)
    report = os.path.join(a.out, '%s.report.txt' % pid)
    lines = ['property %s: %s' % (pid, titles().get(pid, '')),
             'source: %s' % a.root, 'rules: %s' % ', '.join(r.rules), '']
    for f in fresh:
        lines.append('VIOLATION %s' % f)
        lines.append('  rule %s, construct %s' % (f.rule, f.where))
        lines.extend('  ' + x for x in f.trace)
    for f in old:
        lines.append('KNOWN %s -- %s' % (f, listed[f.key]))
    for k in sorted(listed):
        if k not in [f.key for f in old]:
            lines.append('note: known finding not present in this tree: %s' % k)
    lines.append('unresolved aspects: %d' % len(r.unresolved))
    lines.extend('  ' + u for u in r.unresolved[:50])
    with open(report, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    cov = dict(r.coverage)
    rule = cov.pop('rule', '')
    cov['rules'] = r.rules
    cov['known_findings_present'] = len(old)
    cov['explanation'] = ('Static analysis of the current source of %s: %s.  The counts are of this run.'
                          % (a.root, rule))
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(wall, 3), 'violations': len(fresh),
          'assumptions': checks.ASSUMPTIONS + r.assumptions}
    with open(os.path.join(a.out, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s (%s) %s' % (pid, a.tier, ', '.join('%s=%s' % (k, v) for k, v in sorted(cov.items())
                                                 if isinstance(v, int))))
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, f.key, listed[f.key]))
    for f in fresh[:40]:
        print('  %s' % f)
    if len(fresh) > 40:
        print('  ... and %d more in %s' % (len(fresh) - 40, report))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, report))
        return 1
    print('held: %s' % rule)
    return 0


if __name__ == '__main__':
    sys.exit(main())
