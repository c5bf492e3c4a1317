P = 'atooms/postprocessing/'
PLANTS = [
 dict(id='gcf-offset-parity', property='P01', edits=[(P+'correlation.py', """        for i0 in range(off, len(x)-i, skip):
            # Get the actual time difference
            dt = t[i0+i] - t[i0]
            cf[dt] += f(x[i0+i], x[i0])
            cnt[dt] += 1

    # Return the ACF with the time differences sorted
    dt = sorted(cf.keys())
    return dt, [cf[ti] / cnt[ti] for ti in dt]
""", """        # Get the actual time difference
        dt = t[off+i] - t[off]
        for i0 in range(off, len(x)-i, skip):
            cf[dt] += f(x[i0+i], x[i0])
            cnt[dt] += 1

    # Return the ACF with the time differences sorted
    dt = sorted(cf.keys())
    return dt, [cf[ti] / cnt[ti] for ti in dt]
""")], needs='frames that are not evenly spaced, several time origins', breaks='pairs separated by different times are averaged under the time of the first pair',
 demo='''
from atooms.postprocessing.correlation import gcf_offset
t = [0, 1, 3, 4, 6, 7]
x = [numpy.array([float(v)]) for v in [0.0, 1.0, 5.0, 2.0, 8.0, 3.0]]
f = lambda a, b: float(((a - b)**2).sum())
dt, y = gcf_offset(f, [(0, 1)], 1, t, x)
ref = {}
for i in range(5):
    ref.setdefault(t[i + 1] - t[i], []).append(f(x[i + 1], x[i]))
check(list(dt) == sorted(ref) and close(y, [numpy.mean(ref[k]) for k in sorted(ref)]), 'average by time difference: %s %s' % (dt, y))
'''),
 dict(id='acf-local-mean', property='P01', edits=[(P+'correlation.py', "            cf[dt] += (x[i0+i]-xave) * (x[i0]-xave)\n            cnt[dt] += 1\n", "            cf[dt] += (x[i0+i]-xave) * x[i0]\n            cnt[dt] += 1\n")],
 needs='data whose average over the origins of a lag differs from the overall average', breaks='the autocorrelation is no longer that of the fluctuations at finite lags',
 demo='''
from atooms.postprocessing.correlation import acf
x = [1.0, 4.0, 2.0, 7.0, 3.0]
dt, y, cnt = acf([0, 1, 2], 1, [0, 1, 2, 3, 4], x)
m = numpy.mean(x)
ref = [numpy.mean([(x[i + k] - m) * (x[i] - m) for i in range(5 - k)]) for k in range(3)]
check(close(y, ref), '%s instead of %s' % (y, ref))
'''),
 dict(id='skip-blocks-ceil', property='P02', edits=[(P+'helpers.py', "nbl = len(trajectory.steps) // trajectory.block_size", "nbl = (len(trajectory.steps) + trajectory.block_size - 1) // trajectory.block_size")],
 needs='a trajectory in blocks whose last block is incomplete, and a number of origins for which the integer parts differ', breaks='the incomplete block counts and fewer time origins than requested are used',
 demo='''
from atooms.postprocessing.helpers import adjust_skip
class T(object):
    block_size = 4
    steps = list(range(15))
check(adjust_skip(T(), 2) == 4, 'three whole blocks, two origins: %s' % adjust_skip(T(), 2))
T.steps = list(range(47))
for n in range(2, 12):
    check(adjust_skip(T(), n) == max(1, int(11 / n) * 4), 'n=%d' % n)
'''),
 dict(id='skip-fraction-round', property='P02', edits=[(P+'helpers.py', "skip = int(1 / float(n_origins)) * trajectory.block_size", "skip = int(round(1 / float(n_origins))) * trajectory.block_size")],
 needs='a fraction of origins whose inverse has a fractional part above one half', breaks='fewer time origins than the requested fraction are used',
 demo='''
from atooms.postprocessing.helpers import adjust_skip
class T(object):
    block_size = 1
    steps = list(range(100))
check(adjust_skip(T(), 0.6) == 1, 'a fraction 0.6 of the origins needs every origin: %s' % adjust_skip(T(), 0.6))
check(adjust_skip(T(), '0.4') == 2, 'fraction 0.4')
'''),
 dict(id='tgrid-last-wins', property='P03', edits=[(P+'helpers.py', "        for i in range(off, len(steps)-off):\n            if steps[i] - steps[off] not in off_samp:\n", "        for i in range(off, len(steps)-off):\n            if i > off or not off_samp:\n")],
 needs='a trajectory in blocks: the same time difference appears with several offsets', breaks='the pair found with the last offset replaces the first one, with fewer origins',
 demo='''
from atooms.postprocessing.helpers import setup_t_grid
class T(object):
    block_size = 3
    timestep = 1.0
    steps = [0, 1, 4, 10, 11, 14, 20, 21, 24]
grid = setup_t_grid(T(), [0.0, 1.0, 3.0, 10.0, 20.0], offset=True)
check(grid == [(0, 0), (0, 1), (1, 1), (0, 3), (0, 6)], str(grid))
'''),
 dict(id='tgrid-trunc', property='P03', edits=[(P+'helpers.py', "i_grid = set([int(round(t/trajectory.timestep)) for t in t_grid])", "i_grid = set([int(t/trajectory.timestep + 0.25) for t in t_grid])")],
 needs='a requested time that lies between half and three quarters of a step beyond an available one', breaks='the frame difference chosen is not the closest one',
 demo='''
from atooms.postprocessing.helpers import setup_t_grid
class T(object):
    block_size = 1
    timestep = 0.01
    steps = [0, 1, 2, 3, 4, 5]
grid = setup_t_grid(T(), [0.0, 0.016, 0.037])
check(grid == [(0, 0), (0, 2), (0, 4)], str(grid))
'''),
 dict(id='msd-rmax-linear', property='P04', edits=[(P+'msd.py', "                frac = self.rmax**2 / msd_total\n", "                frac = self.rmax**2 / max(msd_total, self.rmax)\n")],
 needs='a target displacement larger than the total mean square displacement', breaks='the time grid is cut before the longest time',
 demo='''
from atooms.postprocessing import MeanSquareDisplacement
t = trajectory(nframes=12, npart=10, step_size=0.1)
cf = MeanSquareDisplacement(t, rmax=3.0, tsamples=12, norigins=-1)
cf.compute()
check(cf.grid[-1] == 11.0, 'the grid must reach the end of the trajectory: %s' % cf.grid[-1])
cf = MeanSquareDisplacement(t, rmax=0.6, tsamples=12, norigins=-1)
cf.compute()
check(cf.value[-1] < 0.36 and cf.grid[-1] == 11.0, 'still shorter than rmax: %s %s' % (cf.value[-1], cf.grid[-1]))
'''),

 dict(id='vacf-norm-first', property='P04', edits=[(P+'vacf.py', "return numpy.sum(x * y) / float(x.shape[0])", "return numpy.sum(x * y) / float(self._vel[0].shape[0])")],
 needs='a number of particles that changes along the trajectory', breaks='the velocity autocorrelation is divided by the number of particles of the first frame',
 demo="""
from atooms.postprocessing import VelocityAutocorrelation
t = TrajectoryRam()
rng = numpy.random.RandomState(3)
vel = []
for i, n in enumerate([4, 6, 6, 5]):
    s = System()
    v = rng.randn(n, 3)
    vel.append(v)
    s.particle = [Particle(velocity=v[j].copy(), position=rng.rand(3)) for j in range(n)]
    s.cell = Cell(numpy.ones(3) * 4.0)
    t.write(s, i)
t.timestep = 1.0
cf = VelocityAutocorrelation(t, [0.0], norigins=-1)
cf.compute()
check(close(cf.value, [numpy.mean([(v**2).sum() / len(v) for v in vel])]), 'average per particle: %s' % cf.value)
"""),
 dict(id='chi4-time-origin', property='P05', edits=[(P+'chi4t.py', """            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                A2 += w**2
                A += w
                cnt += 1
            dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
""", """            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                A2 += w**2
                A += w
                cnt += 1
            dt = self.trajectory.steps[off+i]
""")], needs='a trajectory that does not start at step zero, or a time grid with offsets', breaks='the susceptibility is reported at the wrong times',
 demo="""
from atooms.postprocessing import Chi4SelfOverlap
t = trajectory(nframes=8, steps=[10 + 2 * i for i in range(8)])
cf = Chi4SelfOverlap(t, [0.0, 4.0, 8.0], norigins=-1)
cf.compute()
check(close(cf.grid, [0.0, 4.0, 8.0]), 'times: %s' % cf.grid)
"""),
 dict(id='susceptibility-moments', property='P05', edits=[(P+'susceptibility.py', "            for xi, yi in zip(x, y):\n", "            for xi, yi in zip(x_all[0], y):\n")],
 needs='steps that are not evenly spaced, so that the times of the origins differ', breaks='values at different times are mixed in the variance',
 demo="""
from atooms.postprocessing import SelfOverlap
from atooms.postprocessing.susceptibility import Susceptibility
steps = [0, 1, 3, 4, 7, 9, 10, 12, 13, 16, 18, 19]
t = trajectory(nframes=12, steps=steps, step_size=0.6)
cf = Susceptibility(SelfOverlap, t, tgrid=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 15.0], norigins=-1)
grid, value = cf.compute()
from atooms.trajectory import Sliced
db = {}
for i in range(0, int(12 * 15.0 / 19) - cf.skip, cf.skip):
    c = SelfOverlap(Sliced(t, slice(i, 12, 1)), tgrid=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 15.0], norigins='1')
    c.compute()
    for x, y in zip(c.grid, c.value):
        db.setdefault(x, []).append(y * 8)
check(list(grid) == sorted(db), 'times %s %s' % (grid, sorted(db)))
check(close(value, [numpy.var(db[x]) / 8 for x in sorted(db)]), 'variance')
"""),
 dict(id='filter-species-prefix', property='P12', edits=[(P+'helpers.py', "s.particle = [p for p in system.particle if p.species == species]", "s.particle = [p for p in system.particle if str(p.species).startswith(str(species))]")],
 needs='a species whose name is the beginning of another one', breaks='the filter also keeps particles of the other species',
 demo="""
from atooms.postprocessing.helpers import filter_species
t = trajectory(species=('C', 'Cl', 'O'))
check(set(p.species for p in filter_species(t[0], 'C').particle) == {'C'}, 'only C')
check(len(filter_species(t[0], None).particle) == 8, 'all of them')
"""),
 dict(id='filter-second-kwargs', property='P12', edits=[(P+'correlation.py', """                s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                if 'pos' in self.phasespace:
""", """                s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[0])
                if 'pos' in self.phasespace:
""")], needs='two filters with different keyword arguments', breaks='the second filter gets the keyword arguments of the first one',
 demo="""
from atooms.postprocessing.correlation import Correlation
from atooms.postprocessing.helpers import filter_species
class Two(Correlation):
    nbodies = 2
    symbol = short_name = long_name = 'two'
    phasespace = ['pos']
cf = Two(trajectory(npart=12, species=('A', 'A', 'B')), None)
cf.add_filter(filter_species, species='A')
cf.add_filter(filter_species, species='B')
cf.compute()
check((len(cf._pos_0[0]), len(cf._pos_1[0])) == (8, 4), 'sizes %s %s' % (len(cf._pos_0[0]), len(cf._pos_1[0])))
"""),
 dict(id='cm-unweighted', property='P14', edits=[(P+'correlation.py', "                        cm /= mtot\n", "                        cm *= len(s.particle) / (mtot * len(s.particle)) if mtot > len(s.particle) else 1.0 / len(s.particle)\n")],
 needs='unfolded positions stored in the trajectory, fix_cm, and masses smaller than one on average', breaks='the centre of mass is wrong for light particles',
 demo="""
from atooms.postprocessing.correlation import Correlation
class One(Correlation):
    nbodies = 1
    symbol = short_name = long_name = 'one'
    phasespace = ['pos-unf']
t = trajectory()
for s in t._system:
    for p in s.particle:
        p.position_unfolded = p.position + 1.0
        p.mass = 0.25 + 0.5 * (p.species == 'A')
cf = One(t, None, fix_cm=True)
cf.compute()
s = t[2]
m = numpy.array([p.mass for p in s.particle])
x = numpy.array([p.position_unfolded for p in s.particle])
check(close(cf._pos_unf[2], x - (m[:, None] * x).sum(axis=0) / m.sum()), 'centre of mass')
"""),
 dict(id='ids-per-frame', property='P14', edits=[(P+'correlation.py', """                    _ids = s.dump('species')
                    _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)
""", """                    _ids = s.dump('species')
                    ids = sorted(set(_ids), key=list(_ids).index)
                    _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)
""")], needs='particles that swap their species along the trajectory (the order of first appearance changes)', breaks='the same index stands for different species in different frames',
 demo="""
from atooms.postprocessing.correlation import Correlation
class One(Correlation):
    nbodies = 1
    symbol = short_name = long_name = 'one'
    phasespace = ['ids']
t = trajectory(npart=4)
names = [['A', 'B', 'A', 'B'], ['B', 'A', 'A', 'B'], ['B', 'B', 'A', 'A']]
for s, x in zip(t._system, names):
    for p, n in zip(s.particle, x):
        p.species = n
cf = One(t, None)
cf.compute()
check([list(i) for i in cf._ids[:3]] == [[0, 1, 0, 1], [1, 0, 0, 1], [1, 1, 0, 0]], str(cf._ids[:3]))
"""),
 dict(id='weight-second-mean', property='P15', edits=[(P+'correlation.py', "            _subtract_mean(self._weight_1)\n", "            for w in self._weight_1:\n                w -= w.mean()\n")],
 needs='two filters, fluctuations, and a field of the second body whose frame average changes in time', breaks='the average of each frame is subtracted instead of the overall one',
 demo="""
from atooms.postprocessing.correlation import Correlation
from atooms.postprocessing.helpers import filter_species
class Two(Correlation):
    nbodies = 2
    symbol = short_name = long_name = 'two'
    phasespace = ['pos']
t = trajectory(npart=8)
for i, s in enumerate(t._system):
    for p in s.particle:
        p.radius = p.radius * (1 + i)
cf = Two(t, None)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.add_weight(field='radius', fluctuations=True)
cf.compute()
ref = [numpy.array([p.radius for p in s.particle if p.species == 'B']) for s in t]
mean = numpy.mean([r.mean() for r in ref])
check(all(close(w, r - mean) for w, r in zip(cf._weight_1, ref)), 'fluctuations of the second body')
"""),
 dict(id='weight-mean-particles', property='P15', edits=[(P+'correlation.py', """    for current_field in weight:
        mean += current_field.mean()
    mean /= len(weight)
""", """    for current_field in weight:
        mean += current_field.sum()
    mean /= sum(len(current_field) for current_field in weight)
""")], needs='a number of selected particles that changes along the trajectory', breaks='frames with more particles weigh more in the average of the field',
 demo="""
from atooms.postprocessing.correlation import Correlation
class One(Correlation):
    nbodies = 1
    symbol = short_name = long_name = 'one'
    phasespace = ['pos']
import copy
def cbk(s):
    s = copy.copy(s)
    s.particle = [p for p in s.particle if p.position[0] > 0.2]
    return s
t = trajectory(npart=20, step_size=2.0)
cf = One(t, None)
cf.add_filter(cbk)
cf.add_weight(field='radius', fluctuations=True)
cf.compute()
ref = [numpy.array([p.radius for p in cbk(s).particle]) for s in t]
check(len({len(r) for r in ref}) > 1, 'the number of particles changes')
mean = numpy.mean([r.mean() for r in ref])
check(all(close(w, r - mean) for w, r in zip(cf._weight, ref)), 'fluctuations')
"""),
 dict(id='update-equal-times', property='P19', edits=[(P+'correlation.py', "            if os.path.getmtime(self.trajectory.filename) < \\\n", "            if os.path.getmtime(self.trajectory.filename) <= \\\n")],
 needs='an output file with the modification time of the trajectory', breaks='an output file that is not newer than the trajectory is taken as up to date',
 demo="""
import os, tempfile, shutil
from atooms.postprocessing import MeanSquareDisplacement
d = tempfile.mkdtemp()
try:
    shutil.copy('/repo/data/lj_fcc.xyz', d + '/t.xyz')
    cf = MeanSquareDisplacement(d + '/t.xyz', [0.0])
    out = d + '/t.xyz.pp.msd'
    check(cf._output_file == out, cf._output_file)
    open(out, 'w').close()
    os.utime(d + '/t.xyz', (1e9, 1e9))
    os.utime(out, (1e9, 1e9))
    same = cf.need_update()
    os.utime(out, (1e9 + 5, 1e9 + 5))
    newer = cf.need_update()
finally:
    shutil.rmtree(d)
check(same and not newer, 'same time: %s, newer: %s' % (same, newer))
"""),
 dict(id='analysis-zero', property='P20', edits=[(P+'correlation.py', "            if f is not None:\n                analysis +=", "            if f:\n                analysis +=")],
 needs='an analysis result equal to zero', breaks='the result is missing from the output file',
 demo="""
import os, tempfile, shutil
from atooms.postprocessing.correlation import Correlation
class One(Correlation):
    nbodies = 1
    symbol = 'one'
    short_name = 'c(t)'
    long_name = 'one'
    phasespace = []
d = tempfile.mkdtemp()
try:
    t = trajectory()
    t.filename = d + '/t.xyz'
    cf = One(t, [0.0, 1.0])
    cf.value = [1.0, 2.0]
    cf.analysis = {'time': 0.0, 'none': None}
    cf.write()
    txt = open(d + '/t.xyz.pp.one').read()
finally:
    shutil.rmtree(d)
check('# time: 0.0' in txt and 'none' not in txt, txt)
"""),
 dict(id='path-strip-whole', property='P20', edits=[(P+'correlation.py', """                subpaths[-1] = subpaths[-1].strip(punct)
                filename = '/'.join(subpaths)
""", """                filename = '/'.join(subpaths).strip(punct)
""")], needs='a relative output path that starts with a dot (./ or ../)', breaks='the output goes to another directory',
 demo="""
from atooms.postprocessing.correlation import Correlation
class One(Correlation):
    nbodies = 1
    symbol = 'one'
    short_name = 'c(t)'
    long_name = 'one'
    phasespace = []
t = trajectory()
t.filename = '../data/t.xyz'
check(One(t, [0])._output_file == '../data/t.xyz.pp.one', One(t, [0])._output_file)
"""),
 dict(id='ctor-format', property='P22', edits=[(P+'correlation.py', "self.trajectory = Trajectory(trj, mode='r', fmt=core.pp_trajectory_format)", "self.trajectory = Trajectory(trj, mode='r', fmt=core.pp_trajectory_format if '.' not in trj else None)")],
 needs='a path with an extension and an explicit trajectory format', breaks='the configured format is ignored',
 demo="""
import tempfile, shutil
from atooms.postprocessing import core, MeanSquareDisplacement
d = tempfile.mkdtemp()
try:
    shutil.copy('/repo/data/lj_fcc.xyz', d + '/t.data')
    core.pp_trajectory_format = 'xyz'
    try:
        n = len(MeanSquareDisplacement(d + '/t.data', [0.0]).trajectory)
    except Exception as e:
        n = repr(e)
finally:
    shutil.rmtree(d)
check(isinstance(n, int) and n > 0, n)
"""),
 dict(id='root-from-end', property='P28', edits=[(P+'helpers.py', "    for i in range(min(len(x), len(f))):\n        if (f[i] - fstar) * s < 0.0:", "    for i in range(min(len(x), len(f)) - 1, 0, -1):\n        if (f[i] - fstar) * s < 0.0 and (f[i-1] - fstar) * s >= 0.0:")],
 needs='a function that crosses the level more than once', breaks='the last crossing is returned instead of the first one',
 demo="""
from atooms.postprocessing.helpers import feqc
x, i = feqc([0.0, 1.0, 3.0, 7.0, 8.0, 9.0], [5.0, 4.0, 2.0, -2.0, 3.0, -1.0], 1.0)
check(close([x, i], [4.0, 3]), '%s %s' % (x, i))
"""),
 dict(id='fit-dof', property='P28', edits=[(P+'helpers.py', "    sa = n * s / (n*sxx - sx**2)\n    sb = sa * sxx / n\n", "    sa = n * s / (n*sxx - sx**2)\n    sb = sa * (sx / n)**2 + s / n * (1 if sx else 0)\n")],
 needs='data centred at zero', breaks='the error on the intercept vanishes',
 demo="""
from atooms.postprocessing.helpers import linear_fit
x = numpy.array([-2.0, -1.0, 0.0, 1.0, 2.0])
y = numpy.array([0.3, 1.4, 1.9, 3.2, 3.9])
a, b, sa, sb = linear_fit(x, y)
p, cov = numpy.polyfit(x, y, 1, cov=True)
check(close([a, b], p), 'fit')
check(close(sb * numpy.sqrt(len(x) * 1.0) / sa, numpy.sqrt((x**2).sum())), 'ratio of the errors')
"""),
 dict(id='grid-round', property='P29', edits=[(P+'helpers.py', "n = int((max_val - min_val) / delta) + 1", "n = int(round((max_val - min_val) / delta)) + 1")],
 needs='a spacing that does not divide the range', breaks='the grid exceeds its upper end',
 demo="""
from atooms.postprocessing.helpers import linear_grid
g = linear_grid(0.0, 1.0, 0.35)
check(max(g) <= 1.0 and len(g) == 3, str(g))
"""),
]
