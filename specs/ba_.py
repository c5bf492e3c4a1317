"""Bond angle distribution."""

import math
import numpy
from atooms.postprocessing.ba import BondAngleDistribution
from atooms.postprocessing.gr import RadialDistributionFunction
from atooms.postprocessing.helpers import adjust_skip, filter_species, linear_grid, ifabsmm
from atooms.system.particle import distinct_species
from specs.kernels_ import nearest, norm, angles
from specs.prelude import assume


def distribution(trj, norigins, dtheta, rcut, first, second):
    """Normalized histogram of the angles in the frames used as origins."""
    species = distinct_species(trj[0].particle)
    edges = linear_grid(0.0, 180.0, dtheta)
    width = edges[1] - edges[0]
    theta = []
    for i in range(0, len(trj), adjust_skip(trj, norigins)):
        side = trj[i].cell.side
        x, y = first(trj[i]), second(trj[i])
        a, b = [species.index(s) for s in x.dump('species')], [species.index(s) for s in y.dump('species')]
        x, y = x.dump('pos'), y.dump('pos')
        for j in range(len(x)):
            near = [k for k in range(len(y)) if norm(nearest(x[j] - y[k], side)) < rcut[a[j], b[k]]]
            theta += angles(x[j], y, near, side)
    hist = numpy.array([len([t for t in theta if width * k <= t and t < width * (k + 1)]) for k in range(len(edges) - 1)])
    return [(edges[k] + edges[k + 1]) / 2 for k in range(len(edges) - 1)], list(hist / (hist.sum() * width))


def same(system):
    return system


def impl_angles(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2'):
    cf = BondAngleDistribution(trj, norigins=norigins, dtheta=dtheta, rcut=rcut)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_angles(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2'):
    return distribution(trj, norigins, dtheta, numpy.array(rcut), same, same)


def impl_angles_one(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2', f: 'func:filter'):
    cf = BondAngleDistribution(trj, norigins=norigins, dtheta=dtheta, rcut=rcut)
    cf.add_filter(f)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_angles_one(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2', f: 'func:filter'):
    return distribution(trj, norigins, dtheta, numpy.array(rcut), f, f)


def impl_angles_two(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2', f: 'func:filter', g: 'func:filter'):
    cf = BondAngleDistribution(trj, norigins=norigins, dtheta=dtheta, rcut=rcut)
    cf.add_filter(f)
    cf.add_filter(g)
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_angles_two(trj: 'traj', norigins: 'int', dtheta: 'num', rcut: 'list:2', f: 'func:filter', g: 'func:filter'):
    return distribution(trj, norigins, dtheta, numpy.array(rcut), f, g)


# Cutoff distances

def some_rdf(self):
    """Stands for the radial distribution function, in the analysis of the cutoff distances."""
    self.grid = [0.1 * (k + 0.5) for k in range(40)]
    n = len(self._pos_0[0]) * len(self._pos_1[0])
    # with equal values at successive distances
    self.value = [numpy.cos(7 * r * (1 + n / 10)) / 9 - int(5 * abs(r - 0.45 - n / 9)) for r in self.grid]
    self.value = [int(4 * x) / 4 if n % 2 == 0 else x for x in self.value]


def first_minimum(r, g):
    """First point after the absolute maximum where the function stops decreasing."""
    top = ifabsmm(r, g)[1][0]
    for i in range(len(r)):
        if r[i] >= top and g[i + 1] >= g[i]:
            return r[i]


def impl_cutoffs(trj: 'traj', norigins: 'int'):
    cf = BondAngleDistribution(trj, norigins=norigins)
    cf.compute()
    n = len(distinct_species(trj[0].particle))
    return [[cf.rcut[i, j] for j in range(n)] for i in range(n)]


def spec_cutoffs(trj: 'traj', norigins: 'int'):
    species = distinct_species(trj[0].particle)
    cutoffs = []
    for a in species:
        row = []
        for b in species:
            gr = RadialDistributionFunction(trj, dr=0.1)
            gr.add_filter(filter_species, a)
            gr.add_filter(filter_species, b)
            r, g = gr.compute()
            row.append(first_minimum(list(r), list(g)))
        cutoffs.append(row)
    return cutoffs
