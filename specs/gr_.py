"""Radial distribution function."""

import math
import numpy
from atooms.postprocessing.gr import RadialDistributionFunctionLegacy, RadialDistributionFunctionFast
from atooms.postprocessing.helpers import adjust_skip, linear_grid
from specs.prelude import assume


def distances(x, y, side):
    """Distances between the particles of two sets, from the nearest images."""
    out = []
    for i in range(len(x)):
        d = y - x[i]
        d = d - numpy.rint(d / side) * side
        out += list(numpy.sqrt(numpy.sum(d**2, axis=1)))
    return out


def distances_once(x, side):
    """Distances between distinct particles of a set, each pair once."""
    out = []
    for i in range(len(x)):
        d = x[i + 1:] - x[i]
        d = d - numpy.rint(d / side) * side
        out += list(numpy.sqrt(numpy.sum(d**2, axis=1)))
    return out


def number_in(d, lo, hi):
    """How many distances fall in a bin."""
    return len([x for x in d if lo <= x and x < hi])


def shell(ndims, lo, hi):
    """Volume between two spheres, in any number of dimensions."""
    return math.pi**(ndims / 2) / math.gamma(ndims / 2 + 1) * (hi**ndims - lo**ndims)


def bins(system, grid, dr):
    """Centers of the bins."""
    if grid is None:
        ndims = system.number_of_dimensions
        return linear_grid(dr / 2, max(system.cell.side) * ndims**0.5, dr)
    return grid


def rdf(trj, centers, limit, samples, n_0, n_1):
    """Pairs per unit volume of the shell around each distance, over those of an ideal gas."""
    system = trj[0]
    dr = centers[1] - centers[0]
    grid, value = [], []
    for r in centers:
        if r <= limit:
            pairs = numpy.mean([number_in(d, r - dr / 2, r + dr / 2) for d in samples])
            grid.append(r)
            value.append(pairs / (n_0 * n_1 / system.cell.volume * shell(system.number_of_dimensions, r - dr / 2, r + dr / 2)))
    return grid, value


def impl_legacy(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_legacy(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    pos = [s.dump('pos') for s in trj]
    frames = range(0, len(pos), adjust_skip(trj, norigins))
    side = trj[0].cell.side
    samples = [distances_once(pos[i], side) for i in frames]
    n = numpy.mean([len(x) for x in pos])
    return rdf(trj, bins(trj[0], None, dr), rmax if rmax > 0 else min(side) / 2, samples, n, n / 2)


def impl_legacy_cross(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num', f: 'func:filter', g: 'func:filter'):
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_legacy_cross(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num', f: 'func:filter', g: 'func:filter'):
    pos_0 = [f(s).dump('pos') for s in trj]
    pos_1 = [g(s).dump('pos') for s in trj]
    frames = range(0, len(pos_0), adjust_skip(trj, norigins))
    side = trj[0].cell.side
    samples = [distances(pos_0[i], pos_1[i], side) for i in frames]
    return rdf(trj, bins(trj[0], None, dr), rmax if rmax > 0 else min(side) / 2, samples,
               numpy.mean([len(x) for x in pos_0]), numpy.mean([len(x) for x in pos_1]))


def impl_legacy_grid(trj: 'traj', norigins: 'int', grid: 'list', f: 'func:filter'):
    assume(len(grid) > 1)
    cf = RadialDistributionFunctionLegacy(trj, grid, norigins=norigins)
    cf.add_filter(f)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_legacy_grid(trj: 'traj', norigins: 'int', grid: 'list', f: 'func:filter'):
    assume(len(grid) > 1)
    pos = [f(s).dump('pos') for s in trj]
    frames = range(0, len(pos), adjust_skip(trj, norigins))
    side = trj[0].cell.side
    samples = [distances_once(pos[i], side) for i in frames]
    n = numpy.mean([len(x) for x in pos])
    return rdf(trj, grid, min(side) / 2, samples, n, n / 2)


def impl_fast(trj: 'traj', norigins: 'int', dr: 'num'):
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast(trj: 'traj', norigins: 'int', dr: 'num'):
    return spec_legacy(trj, norigins, dr, -1.0)


def impl_fast_cross(trj: 'traj', norigins: 'int', dr: 'num', f: 'func:filter', g: 'func:filter'):
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast_cross(trj: 'traj', norigins: 'int', dr: 'num', f: 'func:filter', g: 'func:filter'):
    return spec_legacy_cross(trj, norigins, dr, -1.0, f, g)


def impl_fast_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    assume(rmax > 0)
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    assume(rmax > 0)
    return spec_legacy(trj, norigins, dr, rmax)


def impl_fast_cross_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num', f: 'func:filter', g: 'func:filter'):
    assume(rmax > 0)
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast_cross_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num', f: 'func:filter', g: 'func:filter'):
    assume(rmax > 0)
    return spec_legacy_cross(trj, norigins, dr, rmax, f, g)


def impl_large(trj: 'traj', grid: 'list'):
    """Systems whose pairs are dealt with in several batches"""
    assume(len(grid) > 1)
    cf = RadialDistributionFunctionLegacy(trj, grid, norigins=-1)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_large(trj: 'traj', grid: 'list'):
    assume(len(grid) > 1)
    side = trj[0].cell.side
    samples = [numpy.array(distances_once(s.dump('pos'), side)) for s in trj]
    npart = len(trj[0].particle)
    out, value = [], []
    dr = grid[1] - grid[0]
    for r in grid:
        if r <= min(side) / 2:
            pairs = numpy.mean([numpy.sum((r - dr / 2 <= d) & (d < r + dr / 2)) for d in samples])
            out.append(r)
            value.append(pairs / (npart**2 / 2 / trj[0].cell.volume * shell(trj[0].number_of_dimensions, r - dr / 2, r + dr / 2)))
    return out, value


def impl_varying(trj: 'traj', dr: 'num', fast: (False, True)):
    # the number of particles may change along the trajectory
    assume(trj.block_size == 1)
    cls = RadialDistributionFunctionFast if fast else RadialDistributionFunctionLegacy
    cf = cls(trj, norigins=-1, dr=dr)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_varying(trj: 'traj', dr: 'num', fast: (False, True)):
    assume(trj.block_size == 1)
    return spec_legacy(trj, -1, dr, -1.0)


def impl_varying_cross(trj: 'traj', dr: 'num', fast: (False, True), f: 'func:filter', g: 'func:filter'):
    assume(trj.block_size == 1)
    cls = RadialDistributionFunctionFast if fast else RadialDistributionFunctionLegacy
    cf = cls(trj, norigins=-1, dr=dr)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_varying_cross(trj: 'traj', dr: 'num', fast: (False, True), f: 'func:filter', g: 'func:filter'):
    assume(trj.block_size == 1)
    return spec_legacy_cross(trj, -1, dr, -1.0, f, g)
