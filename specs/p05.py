import numpy
from collections import defaultdict
from atooms.trajectory import Sliced
from atooms.postprocessing.helpers import setup_t_grid, logx_grid, adjust_skip
from atooms.postprocessing.qt import SelfOverlap, CollectiveOverlap
from atooms.postprocessing.chi4t import Chi4SelfOverlap, Chi4SelfOverlapOptimized
from atooms.postprocessing.susceptibility import Susceptibility
from specs.common import unfolded, averaged
from specs.prelude import assume


def impl_self_overlap(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    return SelfOverlap(trj, grid, norigins=norigins, a=a).compute()


def spec_self_overlap(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    def fraction(x, y):
        return (numpy.sum((x - y)**2, axis=1) < a**2).sum() / len(x)
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(fraction, trj.steps, pairs, adjust_skip(trj, norigins), unfolded(trj, False))
    return [lag * trj.timestep for lag in lags], values


def impl_self_overlap_default(trj: 'traj', tsamples: 'int'):
    return SelfOverlap(trj, tsamples=tsamples).compute()


def spec_self_overlap_default(trj: 'traj', tsamples: 'int'):
    def fraction(x, y):
        return (numpy.sum((x - y)**2, axis=1) < 0.09).sum() / len(x)
    pairs = setup_t_grid(trj, logx_grid(0.0, trj.total_time * 0.75, tsamples), offset=True)
    lags, values = averaged(fraction, trj.steps, pairs, adjust_skip(trj, -1), unfolded(trj, False))
    return [lag * trj.timestep for lag in lags], values


def impl_collective_overlap(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    return CollectiveOverlap(trj, grid, norigins=norigins, a=a).compute()


def spec_collective_overlap(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    def overlap(x, y):
        return sum((numpy.sum((x - y[i])**2, axis=1) < a**2).sum() for i in range(len(y))) / len(x)
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    pos = [s.dump('pos') for s in trj]
    lags, values = averaged(overlap, trj.steps, pairs, adjust_skip(trj, norigins), pos)
    return [lag * trj.timestep for lag in lags], values


def impl_chi4(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    cf = Chi4SelfOverlap(trj, grid, norigins=norigins, a=a)
    cf.tag = 'A'
    cf.compute()
    return cf.grid, cf.value, cf.average.grid, cf.average.value, cf.variance.grid, cf.variance.value, cf.average.tag, cf.variance.tag


def spec_chi4(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    pos = unfolded(trj, False)
    skip = adjust_skip(trj, norigins)
    times, chi, mean, square = [], [], [], []
    for off, lag in setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1'):
        q = [(numpy.sum((pos[i] - pos[i + lag])**2, axis=1) < a**2).sum() for i in range(off, len(pos) - lag, skip)]
        first = sum(q) / len(q) if len(q) > 0 else 0
        second = sum([x**2 for x in q]) / len(q) if len(q) > 0 else 0
        times.append((trj.steps[off + lag] - trj.steps[off]) * trj.timestep)
        mean.append(first)
        square.append(second)
        chi.append((second - first**2) / len(pos[0]))
    return times, chi, times, mean, times, square, 'A', 'A'


def impl_chi4_fast(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    cf = Chi4SelfOverlapOptimized(trj, grid, norigins=norigins, a=a)
    cf.tag = 'A'
    cf.compute()
    return cf.grid, cf.value, cf.average.grid, cf.average.value, cf.variance.grid, cf.variance.value, cf.average.tag, cf.variance.tag


def spec_chi4_fast(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    return spec_chi4(trj, grid, norigins, a)


def impl_susceptibility(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    return Susceptibility(SelfOverlap, trj, norigins=norigins, tgrid=grid, a=a).compute()


def spec_susceptibility(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    samples = defaultdict(list)
    skip = adjust_skip(trj, norigins)
    npart = len(trj[0].particle)
    for i in range(0, int(len(trj.steps) * (grid[len(grid) - 1] / trj.total_time)) - skip, skip):
        cf = SelfOverlap(Sliced(trj, slice(i, len(trj.steps), 1)), tgrid=grid, a=a, norigins='1')
        cf.compute()
        for x, y in zip(cf.grid, cf.value):
            samples[x].append(npart * y)
    times = sorted(samples)
    return times, [numpy.array(samples[t]).var() / npart for t in times]


def impl_overlap_kernel(x: 'array2', y: 'array2', a2: 'num'):
    from atooms.postprocessing.realspace_wrap import compute
    assume(len(x) == len(y))
    return compute.self_overlap(x, y, a2)


def spec_overlap_kernel(x: 'array2', y: 'array2', a2: 'num'):
    assume(len(x) == len(y))
    return (numpy.sum((x - y)**2, axis=1) < a2).sum()


def impl_defaults(trj: 'traj', tsamples: 'int', which: ('collective', 'chi4', 'fast', 'self')):
    cls = {'collective': CollectiveOverlap, 'chi4': Chi4SelfOverlap, 'fast': Chi4SelfOverlapOptimized, 'self': SelfOverlap}[which]
    return cls(trj, tsamples=tsamples).compute(), cls(trj).compute()


def spec_defaults(trj: 'traj', tsamples: 'int', which: ('collective', 'chi4', 'fast', 'self')):
    cls = {'collective': CollectiveOverlap, 'chi4': Chi4SelfOverlap, 'fast': Chi4SelfOverlapOptimized, 'self': SelfOverlap}[which]
    few, many = logx_grid(0.0, trj.total_time * 0.75, tsamples), logx_grid(0.0, trj.total_time * 0.75, 60)
    return cls(trj, few, a=0.3, norigins=-1).compute(), cls(trj, many, a=0.3, norigins=-1).compute()


def impl_origins(trj: 'traj', grid: 'list', which: ('collective', 'chi4', 'fast', 'self'), norigins: ('1', '20', '0.5', None)):
    """Numbers of time origins as command line arguments"""
    cls = {'collective': CollectiveOverlap, 'chi4': Chi4SelfOverlap, 'fast': Chi4SelfOverlapOptimized, 'self': SelfOverlap}[which]
    return cls(trj, grid, norigins=norigins).compute()


def spec_origins(trj: 'traj', grid: 'list', which: ('collective', 'chi4', 'fast', 'self'), norigins: ('1', '20', '0.5', None)):
    if which == 'collective':
        return spec_collective_overlap(trj, grid, norigins, 0.3)
    if which == 'self':
        return spec_self_overlap(trj, grid, norigins, 0.3)
    return spec_chi4(trj, grid, norigins, 0.3)[:2]
