"""Intermediate scattering functions."""

import math
import numpy
from atooms.postprocessing.fkt import SelfIntermediateScatteringLegacy, SelfIntermediateScatteringFast, IntermediateScattering
from atooms.postprocessing.helpers import setup_t_grid, adjust_skip, logx_grid
from specs.common import averaged
from specs.fourier_ import commensurate, norm
from specs.prelude import assume


def with_zero(grid, normalize):
    """Times at which the function is needed: zero is always there when the values are normalized."""
    return [0.0] + list(grid) if normalize and grid[0] > 0 else grid


def density(k, pos):
    """Fourier component of the density of a set of particles."""
    return numpy.sum(numpy.exp(1j * sum(k[d] * pos[:, d] for d in range(len(k)))))


def impl_self(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    cf = SelfIntermediateScatteringLegacy(trj, [], tgrid, norigins=norigins, normalize=normalize)
    cf.kvectors = kv
    return cf.compute()


def spec_self(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    vectors = commensurate(trj, kv)
    pos = [s.dump('pos') for s in trj]
    pairs = setup_t_grid(trj, with_zero(tgrid, normalize), offset=norigins != 1 and norigins != '1')
    values = []
    for shell in vectors:
        def scattering(x, y):
            return numpy.mean([density(k, x - y).real / len(x) for k in shell])
        lags, value = averaged(scattering, trj.steps, pairs, adjust_skip(trj, norigins), pos)
        values.append([v / value[0] for v in value] if normalize else value)
    return [[numpy.mean([norm(k) for k in shell]) for shell in vectors], [lag * trj.timestep for lag in lags]], values


def impl_self_fast(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    cf = SelfIntermediateScatteringFast(trj, [], tgrid, norigins=norigins, normalize=normalize)
    cf.kvectors = kv
    return cf.compute()


def spec_self_fast(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    return spec_self(trj, kv, tgrid, norigins, normalize)


def impl_total(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    cf = IntermediateScattering(trj, [], tgrid, norigins=norigins, normalize=normalize)
    cf.kvectors = kv
    return cf.compute()


def spec_total(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    vectors = commensurate(trj, kv)
    pos = [s.dump('pos') for s in trj]
    pairs = setup_t_grid(trj, with_zero(tgrid, normalize), offset=norigins != 1 and norigins != '1')
    values = []
    for shell in vectors:
        def scattering(x, y):
            return numpy.mean([(density(k, x) * density(k, y).conjugate()).real for k in shell])
        lags, value = averaged(scattering, trj.steps, pairs, adjust_skip(trj, norigins), pos)
        values.append([v / value[0] for v in value] if normalize else value)
    return [[numpy.mean([norm(k) for k in shell]) for shell in vectors], [lag * trj.timestep for lag in lags]], values


def impl_cross(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', f: 'func:filter', g: 'func:filter', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    cf = IntermediateScattering(trj, [], tgrid, norigins=norigins, normalize=normalize)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.kvectors = kv
    return cf.compute()


def spec_cross(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', f: 'func:filter', g: 'func:filter', normalize: (True, False)):
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    vectors = commensurate(trj, kv)
    pos_0 = [f(s).dump('pos') for s in trj]
    pos_1 = [g(s).dump('pos') for s in trj]
    pairs = setup_t_grid(trj, with_zero(tgrid, normalize), offset=norigins != 1 and norigins != '1')
    values = []
    for shell in vectors:
        def scattering(late, early):
            return numpy.mean([(density(k, pos_0[late]) * density(k, pos_1[early]).conjugate()).real for k in shell])
        lags, value = averaged(scattering, trj.steps, pairs, adjust_skip(trj, norigins), range(len(pos_0)))
        values.append([v / value[0] for v in value] if normalize else value)
    return [[numpy.mean([norm(k) for k in shell]) for shell in vectors], [lag * trj.timestep for lag in lags]], values


CLASSES = {'legacy': SelfIntermediateScatteringLegacy, 'fast': SelfIntermediateScatteringFast, 'total': IntermediateScattering}


def computed(cf, kv):
    cf.kvectors = kv
    return cf.compute()


def impl_defaults(trj: 'traj', kv: 'list:3', tgrid: 'list', tsamples: 'int', which: ('legacy', 'fast', 'total')):
    """Default time grid, number of origins and normalization"""
    cls = CLASSES[which]
    return (computed(cls(trj, [], tsamples=tsamples, normalize=False), kv), computed(cls(trj, [], normalize=False), kv), computed(cls(trj, [], tgrid), kv))


def spec_defaults(trj: 'traj', kv: 'list:3', tgrid: 'list', tsamples: 'int', which: ('legacy', 'fast', 'total')):
    cls = CLASSES[which]
    few, many = logx_grid(0.0, trj.total_time * 0.75, tsamples), logx_grid(0.0, trj.total_time * 0.75, 60)
    return (computed(cls(trj, [], few, norigins=-1, normalize=False), kv), computed(cls(trj, [], many, norigins=-1, normalize=False), kv),
            computed(cls(trj, [], tgrid, norigins=-1, normalize=True), kv))


def impl_origins(trj: 'traj', kv: 'list:3', tgrid: 'list', which: ('legacy', 'fast', 'total'), norigins: ('1', '0.5')):
    """Numbers of time origins as command line arguments"""
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    cf = CLASSES[which](trj, [], tgrid, norigins=norigins)
    cf.kvectors = kv
    return cf.compute()


def spec_origins(trj: 'traj', kv: 'list:3', tgrid: 'list', which: ('legacy', 'fast', 'total'), norigins: ('1', '0.5')):
    return (spec_total if which == 'total' else spec_self)(trj, kv, tgrid, norigins, True)


def impl_self_memory(trj: 'traj', kv: 'list:3', tgrid: 'list', lookup_mb: 'num'):
    """The memory that is used only sets the number of particles that are dealt with at the same time"""
    assume(len(tgrid) > 0)
    assume(tgrid[0] >= 0)
    assume(lookup_mb > 0)
    cf = SelfIntermediateScatteringFast(trj, [], tgrid, lookup_mb=lookup_mb)
    cf.kvectors = kv
    return cf.compute()


def spec_self_memory(trj: 'traj', kv: 'list:3', tgrid: 'list', lookup_mb: 'num'):
    return spec_self(trj, kv, tgrid, -1, True)


def impl_self_large(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    """Systems that are dealt with in several blocks of particles"""
    return impl_self(trj, kv, tgrid, norigins, normalize)


def spec_self_large(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', normalize: (True, False)):
    return spec_self(trj, kv, tgrid, norigins, normalize)
