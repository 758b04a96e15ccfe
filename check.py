#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Analyses /repo's current source for one property.  Exit 0: every obligation was discharged or is
undecided (printed as UNDECIDED, counted in the evidence); exit 1 with a VIOLATION line when an
obligation is refuted and the refutation is not a listed known finding."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from sa import build, product                                      # noqa: E402
from sa.obligations import Report                         # noqa: E402
from checks.common import Missing                         # noqa: E402


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line.split()[1:3])
                if d.get('property') == prop:
                    out[d['key']] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ''
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + a.property.lower())
    product.tier(a.tier)
    rep = Report(a.property, a.tier)
    broken = None
    try:
        mod.run(rep)
    except Missing as e:
        rep.undecided('reference', str(e))
    except build.BuildError as e:
        broken = str(e)
    except Exception as e:
        traceback.print_exc()
        rep.undecided('analysis', 'internal error: %r' % e)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    kn = known(a.property)
    new = []
    for o in rep.obligations:
        if o.status != 'violated':
            continue
        if o.key in kn:
            o.known = True
        else:
            new.append(o)
    ev = rep.evidence(seed, time.time() - t0, getattr(mod, 'RULE', ''), getattr(mod, 'ASSUME', []))
    ev['violations'] = len(new)
    if broken:
        ev['coverage']['error'] = broken[-2000:]
    with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, ensure_ascii=False, indent=1)
    if broken:
        print(broken[-3000:])
        print('ERROR: the tree under analysis or the reference crate does not build')
        return 2
    for o in rep.obligations:
        if o.status == 'undecided':
            print('UNDECIDED property=%s obligation=%s %s' % (a.property, o.key, o.detail[:300]))
        elif o.status == 'violated' and o.known:
            print('KNOWN-FINDING: property=%s %s: %s' % (a.property, o.key, kn[o.key]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %.1fs' % (
        a.property, len(rep.obligations), rep.count('ok'), rep.count('undecided'), rep.count('violated'),
        rep.count('violated') - len(new), time.time() - t0))
    if new:
        path = os.path.join(VERIF, 'evidence', a.property + '.violation.json')
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump([o.to_json() for o in new], fh, ensure_ascii=False, indent=1)
        for o in new:
            print('  %s: %s' % (o.key, o.detail))
            if o.where:
                print('    at %s' % o.where)
            for h in o.path[-12:]:
                print('      | %s' % (h,))
        print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
