P = 'atooms/postprocessing/'
PLANTS = [
 dict(id='sk-pair-norm', property='P06', edits=[(P+'sk.py', """        # Normalization
        npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
        npart_1 = sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))
        self.grid = kgrid
""", """        # Normalization
        npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
        npart_1 = npart_0 if self._weight is None else sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))
        self.grid = kgrid
""")], needs='two filters that select different numbers of particles, no weight', breaks='cross structure factors are normalized by the number of particles of the first set only',
 demo='''
from atooms.postprocessing import StructureFactorLegacy
from atooms.postprocessing.helpers import filter_species
t = trajectory(nframes=4, npart=12, species=('A', 'A', 'B'))
cf = StructureFactorLegacy(t, [2.0, 3.5], norigins=-1)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.compute()
ref = []
for klist in cf.kvectors:
    tot = []
    for s in t:
        for k in klist:
            a = sum(numpy.exp(1j * numpy.dot(k, p.position)) for p in s.particle if p.species == 'A')
            b = sum(numpy.exp(1j * numpy.dot(k, p.position)) for p in s.particle if p.species == 'B')
            tot.append((a * b.conjugate()).real)
    ref.append(numpy.mean(tot) / (8 * 4)**0.5)
check(close(cf.value, ref), '%s instead of %s' % (cf.value, ref))
'''),
 dict(id='fkt-cross-order', property='P07', edits=[(P+'fkt.py', "(rho_0[i0+i][kvec] * rho_1[i0][kvec].conjugate()).real", "(rho_0[i0][kvec] * rho_1[i0+i][kvec].conjugate()).real")],
 needs='two filters: with one set of particles the real part is the same', breaks='the first set is taken at the time origin and the second at the later time',
 demo='''
from atooms.postprocessing import IntermediateScattering
from atooms.postprocessing.helpers import filter_species
t = trajectory(nframes=5, npart=12, species=('A', 'A', 'B'))
cf = IntermediateScattering(t, [2.0], [0.0, 1.0, 2.0], nk=5, normalize=False)
cf.add_filter(filter_species, 'A')
cf.add_filter(filter_species, 'B')
cf.compute()
def rho(s, k, sp):
    return sum(numpy.exp(1j * numpy.dot(k, p.position)) for p in s.particle if p.species == sp)
ref = [numpy.mean([(rho(t[i0 + i], k, 'A') * rho(t[i0], k, 'B').conjugate()).real
                   for k in cf.kvectors[0] for i0 in range(len(t) - i)]) for i in [0, 1, 2]]
check(close(cf.value[0], ref), '%s instead of %s' % (cf.value[0], ref))
'''),
 dict(id='fskt-last-block', property='P07', edits=[(P+'fkt.py', "                                acf[ik][dt] += numpy.sum(tmp).real\n                            cnt[ik][dt] += x.shape[1]\n", "                                acf[ik][dt] += numpy.sum(tmp).real\n                            cnt[ik][dt] += block\n")],
 needs='more than 20 particles, their number not a multiple of the block, values that are not normalized', breaks='the last block of particles counts as a full one in the average',
 demo='''
from atooms.postprocessing import SelfIntermediateScatteringLegacy
t = trajectory(nframes=4, npart=27)
cf = SelfIntermediateScatteringLegacy(t, [2.0], [0.0, 1.0], nk=4, normalize=False)
cf.compute()
check(close(cf.value[0][0], 1.0), 'F_s(k,0) = %s' % cf.value[0][0])
'''),
 dict(id='ik-last-origin', property='P08', edits=[(P+'ik.py', "for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):", "for i in progress(range(0, nsteps - self.skip + 1, self.skip), total=nsteps // self.skip):")],
 needs='a number of frames that is not a multiple of the interval between the origins', breaks='the last time origin is left out of the average',
 demo='''
import tempfile, os, shutil
from atooms.trajectory import TrajectoryXYZ
from atooms.postprocessing import SpectralDensity
d = tempfile.mkdtemp()
t = trajectory(nframes=5, npart=8)
with TrajectoryXYZ(d + '/t.xyz', 'w', fields=['species', 'pos', 'radius']) as th:
    for i, s in enumerate(t):
        th.write(s, i)
with TrajectoryXYZ(d + '/t.xyz') as th:
    cf = SpectralDensity(th, d + '/t.xyz', [2.0], norigins=-1)
    cf.skip = 2
    cf.compute()
    ref = []
    for i in [0, 2, 4]:
        s = th[i]
        for k in cf.kvectors[0]:
            kn = numpy.dot(k, k)**0.5
            R = numpy.array([p.radius for p in s.particle])
            m = 4 * numpy.pi / kn**3 * (numpy.sin(kn * R) - kn * R * numpy.cos(kn * R))
            ref.append(abs(sum(m * numpy.exp(1j * numpy.dot(s.dump('pos'), k))))**2)
shutil.rmtree(d)
check(close(cf.value[0], numpy.mean(ref) / 64.0, 1e-3), '%s instead of %s' % (cf.value[0], numpy.mean(ref) / 64))
'''),
 dict(id='gr-last-batch', property='P09', edits=[(P+'gr.py', "    for ib in range(0, len(y)-1, bl):\n", "    for ib in range(0, max(1, len(y)-bl), bl):\n")],
 needs='more than 316 particles, so that distances are binned in several batches', breaks='the pairs of the last, incomplete batch are not counted',
 demo='''
from atooms.postprocessing.gr import pairs_newton_hist, gr_kernel
rng = numpy.random.RandomState(1)
x = rng.rand(400, 3) * 10 - 5
side = numpy.ones(3) * 10.0
hist = pairs_newton_hist(gr_kernel, x, x, side, numpy.linspace(0.0, 10.0, 11))
check(hist.sum() == 400 * 399 // 2, '%d pairs' % hist.sum())
'''),
 dict(id='gr-crop-first-side', property='P09', edits=[(P+'gr.py', """            self.value[0] = self.value[1]

        # Restrict distances to L/2 (in last frame) or rmax
        if self.rmax > 0:
            where = self.grid <= self.rmax
        else:
            side = system.cell.side
            where = self.grid <= min(side) / 2
""", """            self.value[0] = self.value[1]

        # Restrict distances to L/2 (in last frame) or rmax
        if self.rmax > 0:
            where = self.grid <= self.rmax
        else:
            side = system.cell.side
            where = self.grid <= side[0] / 2
""")], needs='an elongated cell whose smallest side is not along x', breaks='distances are reported beyond half of the smallest side, where pairs are missing',
 demo='''
from atooms.postprocessing.gr import RadialDistributionFunctionFast, RadialDistributionFunctionLegacy
t = trajectory(nframes=2, npart=20, side=numpy.array([8.0, 4.0, 6.0]))
cf = RadialDistributionFunctionFast(t, norigins=-1, dr=0.1)
cf.compute()
check(max(cf.grid) <= 2.0, 'largest distance %s' % max(cf.grid))
'''),
 dict(id='kernel-surface-all', property='P10', edits=[(P+'realspace.f90', """    do i = 1,size(pos,2)
       mask(i) = any(abs(pos(:,i)) > hbox(:) - delta)
    end do
""", """    do i = 1,size(pos,2)
       mask(i) = maxval(abs(pos(:,i))) > minval(hbox(:)) - delta
    end do
""")], needs='an elongated cell', breaks='particles far from the surface along the long sides are marked as close to it',
 demo='''
from atooms.postprocessing.realspace_wrap import compute
pos = numpy.array([[3.0, 0.0, 0.0], [0.0, 1.9, 0.0], [0.0, 0.0, 0.0], [4.9, 0.0, 0.0]])
mask = compute.on_surface(pos.transpose(), numpy.array([10.0, 4.0, 4.0]), 0.5)
check(list(numpy.array(mask) != 0) == [False, True, False, True], str(mask))
'''),
 dict(id='kernel-nd-axes', property='P10', edits=[(P+'fourierspace.f90', "    do j = 2,SIZE(expo,3)\n", "    do j = 2,MIN(3,SIZE(expo,3))\n")],
 needs='more than three dimensions', breaks='the axes beyond the third one do not enter the self correlation',
 demo='''
from atooms.postprocessing.fourierspace_wrap import fourierspace_module
rng = numpy.random.RandomState(1)
expo = numpy.asfortranarray(numpy.exp(1j * rng.rand(2, 5, 4, 3)))
ik = numpy.array([0, 1, 2, 1], dtype=numpy.int32)
ref = sum(numpy.prod([expo[0, i, j, ik[j]] * expo[1, i, j, ik[j]].conjugate() for j in range(4)]) for i in range(5))
res = fourierspace_module.fskt_kernel_nd(expo, 1, 2, ik + 1)
check(abs(res - ref) < 1e-10, '%s instead of %s' % (res, ref))
'''),
 dict(id='ba-rcut-transposed', property='P11', edits=[(P+'ba.py', "self.rcut[isp, :],", "self.rcut[:, isp],")],
 needs='cutoff distances that depend on which species is at the center', breaks='neighbors are searched within the cutoff distance of the exchanged pair of species',
 demo='''
from atooms.postprocessing import BondAngleDistribution
from atooms.system import System, Particle, Cell
from atooms.trajectory.ram import TrajectoryRam
s = System()
s.particle = [Particle(position=[0., 0., 0.], species='A'), Particle(position=[1., 0., 0.], species='B'), Particle(position=[0., 1., 0.], species='B'),
              Particle(position=[4., 4., 4.], species='A')]
s.cell = Cell([10., 10., 10.])
t = TrajectoryRam()
t.write(s, 0)
cf = BondAngleDistribution(t, dtheta=10.0, rcut=[[0.1, 1.2], [0.5, 0.1]])
cf.compute()
check(abs(sum(cf.value) * 10.0 - 1.0) < 1e-6 and cf.value[9] > 0.09, str(cf.value))
'''),
 dict(id='partial-update-first', property='P13', edits=[(P+'partial.py', """            if partial.need_update():
                need = True
                break
""", """            need = partial.need_update()
            break
""")], needs='an output file of a species other than the first one that is missing or outdated', breaks='partial functions are read from files that must be computed again',
 demo='''
from atooms.postprocessing import MeanSquareDisplacement
from atooms.postprocessing.partial import Partial
t = trajectory(nframes=5, npart=8)
p = Partial(MeanSquareDisplacement, ['A', 'B'], t, [0.0, 1.0])
p.partial['A'].need_update = lambda: False
p.partial['B'].need_update = lambda: True
check(p.need_update(), 'the second species needs an update')
'''),
 dict(id='shell-widen-all', property='P16', edits=[(P+'fourierspace.py', "                dk[i] *= 1.2\n                _log.info('increasing kbin {} to {}'.format(i, dk[i]))\n", "                dk = [1.2 * _ for _ in dk]\n                _log.info('increasing kbin {} to {}'.format(i, dk[i]))\n")],
 needs='a grid where one shell is empty and another is not', breaks='the tolerance of shells that hold wave-vectors is enlarged too',
 demo='''
import math
from atooms.postprocessing import StructureFactorLegacy
t = trajectory(nframes=2, npart=8, side=2 * math.pi)
cf = StructureFactorLegacy(t, [1.5, 3.08], nk=1000, dk=0.04)
cf._setup()
norms = [sorted(set(round(numpy.dot(k, k)**0.5, 4) for k in klist)) for klist in cf.kvectors]
check(all(abs(x - 3.08) < 0.09 for x in norms[1]) and len(norms[1]) == 1, str(norms))
cf = StructureFactorLegacy(t, [1.21, 3.05], nk=1000, dk=0.06)
cf._setup()
norms = [sorted(set(round(numpy.dot(k, k)**0.5, 4) for k in klist)) for klist in cf.kvectors]
check(norms[1] == [3.0], str(norms))
'''),
 dict(id='kvectors-trunc', property='P16', edits=[(P+'fourierspace.py', "rounded = numpy.rint(kvec / self.k0)", "rounded = numpy.trunc(kvec / self.k0 * (1 + 1e-6))")],
 needs='wave-vectors that do not fit the cell exactly', breaks='given wave-vectors are truncated towards zero instead of rounded',
 demo='''
import math
from atooms.postprocessing import StructureFactorLegacy
t = trajectory(nframes=2, npart=8, side=2 * math.pi)
cf = StructureFactorLegacy(t, norigins=-1)
cf.kvectors = [[[1.7, 0.0, 0.2], [0.0, -1.9, 0.0]]]
check(close(cf.kvectors, [[[2, 0, 0], [0, -2, 0]]]), str(cf.kvectors))
'''),
 dict(id='expo-first-side', property='P17', edits=[(P+'fourierspace.py', "        expo[..., j, nk_max+1] = numpy.exp(im * k0[j] * pos[..., j])\n", "        expo[..., j, nk_max+1] = numpy.exp(im * k0[0] * pos[..., j])\n")],
 needs='a cell with different sides', breaks='plane waves along y and z have the wave-number of the x axis',
 demo='''
from atooms.postprocessing.fourierspace import expo_sphere
pos = numpy.array([[0.1, 0.2, 0.3], [0.5, -0.4, 0.9]])
k0 = numpy.array([1.0, 2.0, 0.5])
x = expo_sphere(k0, 3, pos)
for n in range(-3, 4):
    for j in range(3):
        check(abs(x[1, j, 3 + n] - numpy.exp(1j * n * k0[j] * pos[1, j])) < 1e-10, 'n=%d axis %d' % (n, j))
'''),
 dict(id='kgrid-again', property='P21', edits=[(P+'fourierspace.py', """        # Setup grid once. If cell changes we'll call it again
        self._setup()
""", """        # Setup the grid, starting again from the one of the correlation
        # if compute() was already called
        if self.value:
            self.kgrid = None
        self._setup()
""")], needs='compute() called twice, a function of two variables with several vectors per shell', breaks='the second call draws the wave-vectors around the average norms of the first one',
 demo='''
import math
from atooms.postprocessing import IntermediateScattering
t = trajectory(nframes=4, npart=8, side=2 * math.pi)
for k in [1.05, 1.2, 2.3, 2.9]:
    cf = IntermediateScattering(t, [k], [0.0, 1.0], nk=3, dk=0.25)
    cf.compute()
    first = [list(g) for g in cf.grid], [list(v) for v in cf.value]
    cf.compute()
    check(close(first[0][0], cf.grid[0]) and close(first[1], cf.value), '%s %s' % (first, (cf.grid, cf.value)))
'''),
 dict(id='api-partial-sigma', property='P23', edits=[(P+'api.py', """                    norigins=global_args['norigins'], sigma=sigma,
                    rmax=rmsd_max, no_offset=no_offset,
""", """                    norigins=global_args['norigins'],
                    rmax=rmsd_max, no_offset=no_offset,
""")], needs='several species and a value of sigma other than the default', breaks='partial mean square displacements are analyzed with the default sigma',
 demo='''
import atooms.postprocessing as pp
from atooms.postprocessing import api
t = trajectory(nframes=5, npart=8)
seen = []
class Fake(pp.MeanSquareDisplacement):
    def do(self, update=False):
        seen.append(self.sigma)
    def compute(self):
        seen.append(self.sigma)
    def write(self):
        pass
    def analyze(self):
        pass
pp.MeanSquareDisplacement = Fake
api._get_trajectories = lambda files, args: [t]
api.msd('x', sigma=0.7)
check(len(seen) == 3 and set(seen) == {0.7}, str(seen))
'''),
 dict(id='slice-stop-block', property='P24', edits=[(P+'api.py', "sl_stop = (sl.stop // th.block_size) * th.block_size if", "sl_stop = -(-sl.stop // th.block_size) * th.block_size if")],
 needs='a trajectory in blocks and a last frame within a block', breaks='frames beyond the requested last one are used',
 demo='''
import os, shutil, tempfile
from atooms.trajectory import TrajectoryXYZ
from atooms.postprocessing import api
d = tempfile.mkdtemp()
t = trajectory(nframes=12, npart=5)
steps = [b * 100 + i for b in range(4) for i in (0, 1, 10)]
with TrajectoryXYZ(d + '/t.xyz', 'w') as th:
    for s, step in zip(t, steps):
        th.write(s, step)
with TrajectoryXYZ(d + '/t.xyz') as th:
    bl = th.block_size
n = [len(th) for th in api._get_trajectories([d + '/t.xyz'], api._compat({'last': 7}))]
shutil.rmtree(d)
check(bl == 3 and n == [6], 'block size %d, %s frames' % (bl, n))
'''),
 dict(id='chi4-import-top', property='P25', edits=[(P+'chi4t.py', "from .qt import self_overlap\n", "from .qt import self_overlap\nfrom .realspace_wrap import compute\n"), (P+'chi4t.py', """        try:
            from atooms.postprocessing.realspace_wrap import compute
        except ImportError:
            _log.error('f90 wrapper missing or not functioning')
            raise

        def f""", """        def f""")], needs='an installation without the compiled extensions', breaks='the package cannot be imported',
 demo='''
for m in ['realspace_wrap', 'fourierspace_wrap']:
    sys.modules['atooms.postprocessing.' + m] = None
try:
    import atooms.postprocessing as pp
except ImportError as e:
    check(False, str(e))
check(pp.RadialDistributionFunction is pp.RadialDistributionFunctionLegacy, 'default')
'''),
 dict(id='cells-stencil', property='P27', edits=[(P+'linkedcells.py', "(ix, iy+1, iz-1), (ix-1, iy+1, iz-1), (ix+1, iy, iz+1),", "(ix, iy+1, iz-1), (ix+1, iy-1, iz-1), (ix+1, iy, iz+1),")],
 needs='particles in two given adjacent cells, that share a corner only', breaks='pairs in cells along one diagonal are missed, along another one counted twice',
 demo='''
from atooms.postprocessing.linkedcells import LinkedCells
rng = numpy.random.RandomState(1)
side = numpy.ones(3) * 5.0
pos = rng.rand(300, 3) * 5 - 2.5
lc = LinkedCells(rcut=1.0)
nn = lc.compute(side, pos)
found = [(min(i, j), max(i, j)) for i in range(300) for j in nn[i]]
check(len(found) == len(set(found)), 'pairs found twice')
for i in range(300):
    r = pos[i + 1:] - pos[i]
    r -= numpy.rint(r / side) * side
    for j in numpy.where((r**2).sum(axis=1) < 1.0)[0]:
        check((i, i + 1 + j) in set(found[:0]) or (i, i + 1 + j) in found, 'pair %d %d' % (i, i + 1 + j))
'''),
 dict(id='progress-reuse', property='P30', edits=[(P+'progress.py', "        iterable = self.iterable\n        for obj in iterable:\n            yield obj\n", "        self.iterable = iter(self.iterable)\n        for obj in self.iterable:\n            yield obj\n")],
 needs='tqdm not installed and a bar used for a second loop', breaks='the second loop over the bar is empty',
 demo='''
sys.modules['tqdm'] = None
from atooms.postprocessing.progress import progress
bar = progress([1, 2, 3])
check(list(bar) == [1, 2, 3], 'first loop')
check(list(bar) == [1, 2, 3], 'second loop')
'''),
 dict(id='msd-fit-three', property='P31', edits=[(P+'msd.py', "        if sum(where) < 2:\n", "        if sum(where) <= 2:\n")],
 needs='exactly two points beyond sigma squared', breaks='the diffusion coefficient is not computed',
 demo='''
from atooms.postprocessing import MeanSquareDisplacement
t = trajectory(nframes=5, npart=8)
cf = MeanSquareDisplacement(t, [0.0, 1.0, 2.0])
cf.compute()
cf.grid, cf.value = [0.0, 1.0, 2.0, 3.0], [0.0, 0.5, 2.0, 4.0]
cf.analyze()
check(close(cf.analysis.get('diffusion coefficient D', -1.0), 2.0 / 6), str(cf.analysis))
'''),
 dict(id='tau-skip-none', property='P31', edits=[(P+'fkt.py', "        if tau is None:\n            out.write('%g\\n' % k)\n        else:\n", "        if tau is not None:\n")],
 needs='a wave-number at which the function does not decay to 1/e', breaks='its row is missing from the file of the relaxation times',
 demo='''
import io
from atooms.postprocessing.fkt import _write_tau
out = io.StringIO()
_write_tau(out, {'relaxation times tau': {1.0: 5.0, 2.0: None, 3.0: 1.0}})
rows = [l.split() for l in out.getvalue().splitlines() if not l.startswith('#')]
check(rows == [['1', '5'], ['2'], ['3', '1']], str(rows))
'''),
]
