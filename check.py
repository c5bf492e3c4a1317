#!/usr/bin/env python3
"""Decide one property:  python3-vt check.py <property> [quick|thorough]

Exit 0 when every obligation of the property is discharged on the current
source of /repo, 1 with a VIOLATION line when one is refuted, 2 when the
analysis itself is broken (a public entry point vanished, for instance).
"""

import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import registry
from sa import driver


BUDGET = 780
START = time.time()


class OutOfTime(BaseException):
    pass


def out_of_time(*args):
    raise OutOfTime('no verdict within the time limit')


def decide(job):
    """One obligation or rule, in a process of its own."""
    prop, k, tier = job
    item = registry.PROPERTIES[prop][k]
    t = time.time()
    left = int(START + BUDGET * (1 if tier == 'quick' else 4) - t)
    signal.signal(signal.SIGALRM, out_of_time)
    try:
        signal.alarm(max(1, left))
        r = item.run(tier)
        signal.alarm(0)
    except (Exception, OutOfTime) as e:
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)
        r = {'name': item.name, 'status': 'broken' if isinstance(e, registry.Vanished) else 'crashed', 'detail': '%s: %s' % (type(e).__name__, e),
             'where': ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb[-4:]]}
    r['wall_s'] = round(time.time() - t, 2)
    return r


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                key, _, text = line[len('known: property=%s ' % prop):].partition(' ')
                out.append((key, text))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    items = registry.PROPERTIES[prop]
    jobs = [(prop, k, tier) for k, it in enumerate(items) if tier == 'thorough' or not it.thorough_only]
    # the most expensive ones first
    jobs.sort(key=lambda j: -items[j[1]].cost)
    nproc = max(1, min(len(jobs), int(os.environ.get('VERIF_JOBS', '8'))))
    if nproc == 1:
        results = [decide(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
            results = pool.map(decide, jobs, chunksize=1)
    known = known_findings(prop)
    bad, broken = [], []
    for r in results:
        if r['status'] == 'different':
            hit = [k for k in known if k[0] == r['name']]
            if hit:
                r['status'] = 'known'
                print('KNOWN-FINDING: property=%s %s %s' % (prop, r['name'], hit[0][1]))
            else:
                bad.append(r)
        elif r['status'] == 'broken':
            broken.append(r)
    functions = sorted({f for r in results for f in r.get('functions', [])})
    count = {}
    for r in results:
        count[r['status']] = count.get(r['status'], 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Each obligation compares the value graph that the abstract interpreter of /verif/sa computes from the '
                           'current source of the package with the value graph of a reference definition, or applies a rule to every '
                           'instance found in the source. "proved": same normal form; "equal": the normal forms differ and random '
                           'interpretation of the two graphs finds no difference; "holds": every instance of a rule is satisfied; '
                           '"undecided" or "crashed": no verdict, not counted as discharged.',
            'obligations': len(results),
            'discharged': sum(count.get(k, 0) for k in ('proved', 'equal', 'holds')),
            'by_status': count,
            'functions_analysed': functions,
            'call_sites': sum(r.get('callsites', 0) for r in results),
            'rule_instances': sum(r.get('instances', 0) for r in results),
            'details': [{k: v for k, v in r.items() if k not in ('functions',)} for r in results],
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for r in results:
        print('%-9s %-40s %6.1fs %s' % (r['status'], r['name'], r['wall_s'], r.get('detail', '') if r['status'] not in ('proved', 'equal', 'holds') else ''))
    if bad:
        path = os.path.join(HERE, 'evidence', prop + '.violation.txt')
        with open(path, 'w') as fh:
            for r in bad:
                fh.write('%s: %s\n' % (r['name'], r.get('detail')))
                for w in r.get('where', []):
                    fh.write('    %s\n' % w)
        for r in bad:
            for w in r.get('where', [])[:6]:
                print('    at ' + str(w))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken:
        for r in broken:
            print('ANALYSIS BROKEN: %s %s' % (r['name'], r['detail']))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
