"""Structure factors and related static Fourier space functions."""

import math
import numpy
from atooms.postprocessing.sk import StructureFactor, StructureFactorFast
from atooms.trajectory import Trajectory
from atooms.postprocessing.ik import SpectralDensity
from atooms.postprocessing.s4kt import S4ktOverlap
from atooms.postprocessing.helpers import adjust_skip, setup_t_grid
from specs.common import folded_and_unfolded
from specs.fourier_ import commensurate, norm
from specs.prelude import assume


def density(k, pos, w):
    """Fourier component of the density of the field w."""
    return numpy.sum(w * numpy.exp(1j * sum(k[d] * pos[:, d] for d in range(len(k)))))


def mean_number(x):
    return sum(len(p) for p in x) / len(x)


def structure(frames, vectors, pos_0, pos_1, w_0, w_1, fluctuating):
    """Correlation of the densities of two fields, averaged over frames and wave-vectors."""
    values = []
    for shell in vectors:
        a = [density(k, pos_0[i], w_0[i]) for i in frames for k in shell]
        b = [density(k, pos_1[i], w_1[i]) for i in frames for k in shell]
        n = len(a)
        value = sum(a[i] * b[i].conjugate() for i in range(n)) / n
        if fluctuating:
            value = value - sum(a) / n * (sum(b) / n).conjugate()
        values.append(value.real)
    norm_01 = math.sqrt(mean_number(pos_0) * mean_number(pos_1))
    return [v / norm_01 for v in values], values


def uniform(x):
    return [numpy.ones(len(p)) for p in x]


def grid(vectors):
    return [numpy.mean([norm(k) for k in shell]) for shell in vectors]


def impl_total(trj: 'traj', kv: 'list:3', norigins: 'int'):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_total(trj: 'traj', kv: 'list:3', norigins: 'int'):
    vectors = commensurate(trj, kv)
    pos = [s.dump('pos') for s in trj]
    frames = range(0, len(pos), adjust_skip(trj, norigins))
    x, y = structure(frames, vectors, pos, pos, uniform(pos), uniform(pos), False)
    return grid(vectors), x, y


def impl_partial(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter'):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_filter(f)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_partial(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter'):
    vectors = commensurate(trj, kv)
    pos = [f(s).dump('pos') for s in trj]
    frames = range(0, len(pos), adjust_skip(trj, norigins))
    x, y = structure(frames, vectors, pos, pos, uniform(pos), uniform(pos), False)
    return grid(vectors), x, y


def impl_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter'):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter'):
    vectors = commensurate(trj, kv)
    pos_0 = [f(s).dump('pos') for s in trj]
    pos_1 = [g(s).dump('pos') for s in trj]
    frames = range(0, len(pos_0), adjust_skip(trj, norigins))
    x, y = structure(frames, vectors, pos_0, pos_1, uniform(pos_0), uniform(pos_1), False)
    return grid(vectors), x, y


def impl_weight(trj: 'traj', kv: 'list:3', norigins: 'int', fluctuations: (False, True)):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def field(frames, fluctuations):
    w = [s.dump('particle.radius') for s in frames]
    if fluctuations:
        mean = sum(x.mean() for x in w) / len(w)
        w = [x - mean for x in w]
    return w


def spec_weight(trj: 'traj', kv: 'list:3', norigins: 'int', fluctuations: (False, True)):
    vectors = commensurate(trj, kv)
    pos = [s.dump('pos') for s in trj]
    w = field([s for s in trj], fluctuations)
    frames = range(0, len(pos), adjust_skip(trj, norigins))
    x, y = structure(frames, vectors, pos, pos, w, w, True)
    return grid(vectors), x, y


def impl_weight_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter', fluctuations: (False, True)):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_weight_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter', fluctuations: (False, True)):
    vectors = commensurate(trj, kv)
    pos_0 = [f(s).dump('pos') for s in trj]
    pos_1 = [g(s).dump('pos') for s in trj]
    w_0 = field([f(s) for s in trj], fluctuations)
    w_1 = field([g(s) for s in trj], fluctuations)
    frames = range(0, len(pos_0), adjust_skip(trj, norigins))
    x, y = structure(frames, vectors, pos_0, pos_1, w_0, w_1, True)
    return grid(vectors), x, y


def impl_fast(trj: 'traj', kv: 'list:3', norigins: 'int'):
    cf = StructureFactorFast(trj, None, norigins=norigins)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_fast(trj: 'traj', kv: 'list:3', norigins: 'int'):
    return spec_total(trj, kv, norigins)


def impl_fast_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter', fluctuations: (False, True)):
    cf = StructureFactorFast(trj, None, norigins=norigins)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def spec_fast_cross(trj: 'traj', kv: 'list:3', norigins: 'int', f: 'func:filter', g: 'func:filter', fluctuations: (False, True)):
    return spec_weight_cross(trj, kv, norigins, f, g, fluctuations)


# ---------------------------------------------------------------- spectral density

def impl_spectral(trj: 'traj', radius: 'str', kv: 'list:3', norigins: 'int'):
    assume(len(trj[0].cell.side) == 3)
    cf = SpectralDensity(trj, radius, norigins=norigins)
    cf.kvectors = kv
    cf.compute()
    return cf.grid, cf.value, cf.value_nonorm


def form_factor(k, radius):
    """Fourier transform of a ball."""
    return 4 * math.pi * (numpy.sin(k * radius) - k * radius * numpy.cos(k * radius)) / k**3


def spec_spectral(trj: 'traj', radius: 'str', kv: 'list:3', norigins: 'int'):
    assume(len(trj[0].cell.side) == 3)
    other = Trajectory(radius)
    vectors = commensurate(trj, kv)
    frames = range(0, len(trj), adjust_skip(trj, norigins))
    pos = [s.dump('pos') for s in trj]
    ball = [other[list(other.steps).index(step)].dump('particle.radius') for step in trj.steps]
    values = []
    for shell in vectors:
        rho = [density(k, pos[i], form_factor(norm(k), ball[i])) for i in frames for k in shell]
        values.append(sum((x * x.conjugate()).real for x in rho) / len(rho))
    volume = numpy.mean([s.cell.volume for s in trj])
    return grid(vectors), [v / volume for v in values], values


# ---------------------------------------------------------------- four-point structure factor

def impl_four(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', a: 'num'):
    cf = S4ktOverlap(trj, tgrid, norigins=norigins, a=a)
    cf.kvectors = kv
    return cf.compute()


def spec_four(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', a: 'num'):
    vectors = commensurate(trj, kv)
    pos, unf = folded_and_unfolded(trj)
    skip = adjust_skip(trj, norigins)
    times, values = [], []
    for off, lag in setup_t_grid(trj, tgrid, offset=norigins != 1):
        origins = range(off, len(pos) - lag, skip)
        row = []
        for shell in vectors:
            variance = []
            for k in shell:
                w = [density(k, pos[i], 1.0 * (numpy.sum((unf[i] - unf[i + lag])**2, axis=1) < a**2)) for i in origins]
                variance.append((numpy.mean([x * x.conjugate() for x in w]) - numpy.mean(w) * numpy.mean(w).conjugate()).real)
            row.append(numpy.mean(variance) / len(pos[0]))
        times.append((trj.steps[off + lag] - trj.steps[off]) * trj.timestep)
        values.append(row)
    return [times, grid(vectors)], values
