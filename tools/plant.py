#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a definition and confirm it (run by hand, never by a check).

  plant.py FILE.py [id ...]     FILE.py defines PLANTS, a list of dict(id, property, edits, needs, breaks, demo)
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '390ebe4'
HELP = '''import warnings
warnings.filterwarnings('ignore')
import sys
import numpy
from atooms.trajectory.ram import TrajectoryRam
from atooms.system import System, Particle, Cell


def trajectory(nframes=6, npart=8, steps=None, side=4.0, seed=1, species=('A', 'B'), dt=1.0, step_size=0.3, ndim=3):
    """Random walk in a periodic box (positions folded), kept in memory."""
    rng = numpy.random.RandomState(seed)
    t = TrajectoryRam()
    pos = (rng.rand(npart, ndim) - 0.5) * side
    vel = rng.randn(npart, ndim)
    for i in range(nframes):
        s = System()
        fold = pos - numpy.rint(pos / side) * side
        s.particle = [Particle(position=fold[j].copy(), velocity=vel[j].copy(), species=species[j % len(species)]) for j in range(npart)]
        for j, p in enumerate(s.particle):
            p.radius = 0.3 + 0.1 * (j % 3)
            p.mass = 1.0 + (j % 2)
        s.cell = Cell(numpy.ones(ndim) * side)
        t.write(s, i if steps is None else steps[i])
        pos = pos + step_size * (rng.rand(npart, ndim) - 0.5)
        vel = vel * 0.8 + 0.3 * rng.randn(npart, ndim)
    t.timestep = dt
    return t


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)


def close(x, y, tol=1e-6):
    x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
    return x.shape == y.shape and numpy.allclose(x, y, rtol=tol, atol=tol)

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def original(patch):
    """Every line removed or changed by the patch belongs to the original repository."""
    bad = []
    f, n = None, 0
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            n = int(line.split()[1].lstrip('-').split(',')[0])
        elif line.startswith('-'):
            b = sh('git -C /repo blame -l -s -L %d,%d HEAD -- %s' % (n, n, f)).stdout.split()[0].lstrip('^')
            if sh('git -C /repo merge-base --is-ancestor %s %s' % (b, BASE)).returncode:
                bad.append((f, n))
            n += 1
        elif not line.startswith('+'):
            n += 1
    return bad


def main():
    plants = runpy.run_path(sys.argv[1])['PLANTS']
    ids = sys.argv[2:]
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    for p in plants:
        if ids and p['id'] not in ids:
            continue
        d = os.path.join(HERE, 'seeded', p['id'])
        if not ids and os.path.exists(os.path.join(d, 'patch.diff')):
            continue
        try:
            for f, old, new in p['edits']:
                f = '/repo/' + f
                s = open(f).read()
                assert s.count(old) >= 1, (p['id'], 'not found', old)
                assert s.count(old) == 1, (p['id'], 'ambiguous', old)
                open(f, 'w').write(s.replace(old, new))
            patch = sh('git -C /repo diff').stdout
            bad = original(patch)
            if bad:
                print(p['id'], 'REJECTED: changes lines that are not in the original', bad)
                continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(patch)
            open(d + '/demo.py', 'w').write(HELP + '\n' + p['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            t = sh('bash /opt/vp/test.sh /tmp/plant.json')
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(json.load(open('/tmp/plant.json')).get('passed', []))
            c = sh('python3-vt check.py %s quick' % p['property'], cwd=HERE, timeout=900)
        finally:
            sh('git -C /repo checkout -- .')
        if '.f90' in patch:
            sh('bash /opt/vp/build.sh')
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        ok = b.returncode == 0 and r0.returncode == 0 and r1.returncode != 0 and not stable - passed
        print('%-28s %s %s  build=%d demo clean=%d bug=%d failing tests=%s check=%d' % (
            p['id'], p['property'], 'VALID' if ok else 'INVALID', b.returncode, r0.returncode, r1.returncode, sorted(stable - passed), c.returncode), flush=True)
        if not ok:
            print('   clean:', r0.stdout[-500:], '\n   bug:', r1.stdout[-300:])
            sh('rm -rf /verif/seeded/%s' % p['id'])
        elif c.returncode == 0:
            print('   NOT DETECTED')
            print('\n'.join('   ' + l[:200] for l in c.stdout.splitlines()))
        else:
            print('\n'.join('   ' + l[:200] for l in c.stdout.splitlines() if l.startswith(('different', 'ANAL', 'VIOL'))))


main()
