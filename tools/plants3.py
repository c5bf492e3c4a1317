P = 'atooms/postprocessing/'
PLANTS = [
 dict(id='write-transposed', property='P20', edits=[(P+'correlation.py', "z = numpy.array(self.value).flatten()", "z = numpy.array(self.value).flatten('F')")],
 needs='a function of two variables with more than one entry in both grids', breaks='values are written next to the grid points of others',
 demo='''
import os, shutil, tempfile
from atooms.postprocessing.correlation import Correlation
d = tempfile.mkdtemp()
try:
    t = trajectory(nframes=3, npart=4)
    t.filename = os.path.join(d, 'trj')
    class F(Correlation):
        symbol, short_name, long_name, phasespace = 'f', 'f(k,t)', 'some function', 'pos'
    cf = F(t, [[1.0, 2.0], [10.0, 20.0, 30.0]], output_path=os.path.join(d, 'out'))
    cf.value = [[k + x for x in cf.grid[1]] for k in cf.grid[0]]
    cf.write()
    for row in numpy.loadtxt(os.path.join(d, 'out')):
        check(close(row[0] + row[1], row[2]), str(row))
finally:
    shutil.rmtree(d)
'''),
 dict(id='path-description', property='P20', edits=[(P+'correlation.py', "tag_description=self.tag_description.replace(' ', '_'),", "tag_description=self.tag_description,")],
 needs='a template of the output path with the description of the tag', breaks='output paths contain spaces',
 demo='''
from atooms.postprocessing import MeanSquareDisplacement
t = trajectory(nframes=3, npart=4)
t.filename = 'trj'
cf = MeanSquareDisplacement(t, [0.0, 1.0])
cf.output_path = '{trajectory.filename}.{tag_description}'
cf.tag_description = 'species pair A-B'
check(cf._output_file == 'trj.species_pair_A-B', cf._output_file)
'''),
 dict(id='weight-pooled-mean', property='P15', edits=[(P+'correlation.py', "            _subtract_mean(self._weight_0)\n            _subtract_mean(self._weight_1)", "            _subtract_mean(self._weight_0 + self._weight_1)")],
 needs='two filters and a weight with fluctuations', breaks='the averages of the field over the two sets are not subtracted',
 demo='''
from atooms.postprocessing.correlation import Correlation
from atooms.postprocessing.helpers import filter_species
class F(Correlation):
    nbodies, symbol, short_name, long_name, phasespace = 2, 'f', 'f(t)', 'some function', 'pos'
t = trajectory(nframes=3, npart=15, species=('A', 'A', 'B'))
cf = F(t, [0.0])
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.add_weight(field='radius', fluctuations=True)
cf.compute()
for w in (cf._weight_0, cf._weight_1):
    check(abs(numpy.mean([x.mean() for x in w])) < 1e-10, str(w))
'''),
 dict(id='gr-rmax-excluded', property='P09', edits=[(P+'gr.py', "        self.value = gr / norm\n        # Restrict distances to L/2 (in last frame) or rmax\n        if self.rmax > 0:\n            where = self.grid <= self.rmax", "        self.value = gr / norm\n        # Restrict distances to L/2 (in last frame) or rmax\n        if self.rmax > 0:\n            where = self.grid < self.rmax")],
 needs='a maximum distance at the centre of a bin', breaks='the last distance is not reported',
 demo='''
from atooms.postprocessing import RadialDistributionFunctionLegacy
t = trajectory(nframes=3, npart=12)
cf = RadialDistributionFunctionLegacy(t, dr=0.25, rmax=0.875, norigins=-1)
cf.compute()
check(close(cf.grid, [0.125, 0.375, 0.625, 0.875]), str(cf.grid))
'''),
 dict(id='rng-shared', property='P16', edits=[(P+'fourierspace.py', "        rng = random.Random(1)\n", "        rng = _rng\n"), (P+'fourierspace.py', "class FourierSpaceCorrelation", "_rng = random.Random(1)\n\n\nclass FourierSpaceCorrelation")],
 needs='two correlation functions in the same process, with fewer wave-vectors per shell than available', breaks='the wave-vectors selected depend on what was computed before',
 demo='''
from atooms.postprocessing import StructureFactorLegacy
t = trajectory(nframes=2, npart=12)
a = StructureFactorLegacy(t, [6.0, 8.0], norigins=1, nk=5, dk=0.5)
a.compute()
b = StructureFactorLegacy(t, [6.0, 8.0], norigins=1, nk=5, dk=0.5)
b.compute()
check(close(a.value, b.value), '%s %s' % (a.value, b.value))
'''),
 dict(id='cm-filtered', property='P14', edits=[(P+'correlation.py', "                    if self._fix_cm:\n                        # Compute CM", "                    if self._fix_cm and len(self._cbk) == 0:\n                        # Compute CM")],
 needs='unfolded positions stored in the trajectory, a filter and a fixed centre of mass', breaks='the centre of mass is not fixed',
 demo='''
from atooms.postprocessing import MeanSquareDisplacement
from atooms.postprocessing.helpers import filter_species
t = trajectory(nframes=3, npart=8)
for i in range(3):
    for p in t[i].particle:
        p.position_unfolded = numpy.ones(3) * i
cf = MeanSquareDisplacement(t, [0.0, 1.0, 2.0], norigins=-1, fix_cm=True)
cf.add_filter(filter_species, 'A')
cf.compute()
check(close(cf.value, [0.0, 0.0, 0.0]), str(cf.value))
'''),
 dict(id='sk-first-average', property='P06', edits=[(P+'sk.py', "rho_0_av[k] * rho_1_av[k].conjugate() / cnt[k]**2).real\n            self.value.append(value / norm)", "rho_0_av[k] * rho_0_av[k].conjugate() / cnt[k]**2).real\n            self.value.append(value / norm)")],
 needs='a weight and two filters', breaks='the product of the averages of the two weighted densities is replaced by the square of the first one',
 demo='''
from atooms.postprocessing import StructureFactorLegacy
from atooms.postprocessing.helpers import filter_species
t = trajectory(nframes=4, npart=12, species=('A', 'A', 'B'))
cf = StructureFactorLegacy(t, [2.0, 3.5], norigins=-1, nk=4)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.add_weight(field='radius')
cf.compute()
ref = []
for klist in cf.kvectors:
    a, b = [], []
    for s in t:
        for k in klist:
            a.append(sum(p.radius * numpy.exp(1j * numpy.dot(k, p.position)) for p in s.particle if p.species == 'A'))
            b.append(sum(p.radius * numpy.exp(1j * numpy.dot(k, p.position)) for p in s.particle if p.species == 'B'))
    a, b = numpy.array(a), numpy.array(b)
    ref.append((numpy.mean(a * b.conjugate()) - numpy.mean(a) * numpy.mean(b).conjugate()).real / (8 * 4)**0.5)
check(close(cf.value, ref), '%s instead of %s' % (cf.value, ref))
'''),
 dict(id='ik-first-radius', property='P08', edits=[(P+'ik.py', "                    Ri = self._radius[i]", "                    Ri = self._radius[0]")],
 needs='radii that change with time', breaks='the radii of the first frame are used for all frames',
 demo='''
import os, shutil, tempfile
from atooms.trajectory import TrajectoryXYZ
from atooms.postprocessing import SpectralDensity
d = tempfile.mkdtemp()
try:
    t = trajectory(nframes=3, npart=6)
    path = os.path.join(d, 'r.xyz')
    with TrajectoryXYZ(path, 'w') as th:
        th.variables = ['species', 'position', 'radius']
        for i in range(3):
            s = t[i]
            for j, p in enumerate(s.particle):
                p.radius = 0.3 + 0.1 * i + 0.05 * j
            th.write(s, i)
    cf = SpectralDensity(t, path, [2.0], norigins=-1, nk=3)
    cf.compute()
    tot = []
    for i in range(3):
        for k in cf.kvectors[0]:
            q = numpy.dot(k, k)**0.5
            R = [0.3 + 0.1 * i + 0.05 * j for j in range(6)]
            tot.append(abs(sum(4 * numpy.pi / q**3 * (numpy.sin(q * r) - q * r * numpy.cos(q * r)) * numpy.exp(1j * numpy.dot(k, p.position))
                               for r, p in zip(R, t[i].particle)))**2)
    check(close(cf.value, [numpy.mean(tot) / 64.0], 1e-3), '%s %s' % (cf.value, numpy.mean(tot) / 64))
finally:
    shutil.rmtree(d)
'''),
]
