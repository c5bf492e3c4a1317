"""Partial correlation functions."""

import numpy
from atooms.postprocessing.correlation import Correlation
from atooms.postprocessing.helpers import filter_species
from atooms.postprocessing.partial import Partial
from specs.prelude import assume


class One(Correlation):
    nbodies = 1
    symbol = 'one'
    short_name = 'c(t)'
    long_name = 'one body'
    phasespace = ['pos', 'vel']

    def __init__(self, trajectory, grid, scale=1.0):
        Correlation.__init__(self, trajectory, grid)
        self.scale = scale

    def _compute(self):
        self.value = [self.scale * x * numpy.sum(self._pos[0]) + numpy.sum(self._vel[-1]) for x in self.grid]

    def analyze(self):
        self.analysis['last'] = self.value[-1]


class Two(Correlation):
    nbodies = 2
    symbol = 'two'
    short_name = 'c(t)'
    long_name = 'two bodies'
    phasespace = ['pos']

    def __init__(self, trajectory, grid, scale=1.0):
        Correlation.__init__(self, trajectory, grid)
        self.scale = scale

    def _compute(self):
        self.grid = [2 * x for x in self.grid]
        self.value = [self.scale * x * numpy.sum(self._pos_0[0]) * numpy.sum(self._pos_1[0]) for x in self.grid]

    def analyze(self):
        self.analysis['last'] = self.value[-1]


class Ordered(Two):
    _symmetric = False

    def _compute(self):
        self.value = [x * numpy.sum(self._pos_0[0]) + 3 * numpy.sum(self._pos_1[0]) for x in self.grid]


class Weighted(Two):
    def _compute(self):
        self.value = [x * numpy.sum(self._weight_0[0]) * numpy.sum(self._weight_1[0]) for x in self.grid]


def state(cf):
    return list(cf.grid), list(cf.value), cf.tag, cf.tag_description


def one(trj, grid, scale, species):
    cf = One(trj, grid, scale=scale)
    cf.add_filter(filter_species, species)
    cf.tag = species
    cf.tag_description = 'species ' + species
    return cf


def two(cls, trj, grid, scale, a, b):
    cf = cls(trj, grid, scale=scale)
    cf.add_filter(filter_species, a)
    cf.add_filter(filter_species, b)
    cf.tag = a + '-' + b
    cf.tag_description = 'species pair ' + a + '-' + b
    return cf


PAIRS = [('A', 'A'), ('A', 'B'), ('A', 'C'), ('B', 'A'), ('B', 'B'), ('B', 'C'), ('C', 'A'), ('C', 'B'), ('C', 'C')]


def impl_one(trj: 'traj', grid: 'list', scale: 'num'):
    p = Partial(One, ['A', 'B', 'C'], trj, grid, scale=scale)
    p.compute()
    return [state(p.partial[s]) for s in ['A', 'B', 'C']], sorted(p.partial.keys())


def spec_one(trj: 'traj', grid: 'list', scale: 'num'):
    out = []
    for s in ['A', 'B', 'C']:
        cf = one(trj, grid, scale, s)
        cf.compute()
        out.append(state(cf))
    return out, ['A', 'B', 'C']


def impl_two(trj: 'traj', grid: 'list', scale: 'num'):
    p = Partial(Two, ['A', 'B', 'C'], trj, grid, scale=scale)
    p.compute()
    return [state(p.partial[s]) for s in PAIRS], len(p.partial.keys())


def spec_two(trj: 'traj', grid: 'list', scale: 'num'):
    out = []
    for a, b in PAIRS:
        cf = two(Two, trj, grid, scale, a, b)
        cf.compute()
        out.append(state(cf))
    return out, 9


def impl_ordered(trj: 'traj', grid: 'list', scale: 'num'):
    p = Partial(Ordered, ['A', 'B', 'C'], trj, grid, scale)
    p.compute()
    return [state(p.partial[s]) for s in PAIRS]


def spec_ordered(trj: 'traj', grid: 'list', scale: 'num'):
    out = []
    for a, b in PAIRS:
        cf = two(Ordered, trj, grid, scale, a, b)
        cf.compute()
        out.append(state(cf))
    return out


def impl_weight(trj: 'traj', grid: 'list', fluctuations: 'bool'):
    p = Partial(Weighted, ['A', 'B'], trj, grid)
    p.add_weight(field='mass', fluctuations=fluctuations)
    p.compute()
    return [state(p.partial[s]) for s in [('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')]]


def spec_weight(trj: 'traj', grid: 'list', fluctuations: 'bool'):
    out = []
    for a, b in [('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')]:
        cf = two(Weighted, trj, grid, 1.0, a, b)
        cf.add_weight(field='mass', fluctuations=fluctuations)
        cf.compute()
        out.append(state(cf))
    return out


def impl_do(trj: 'traj', grid: 'list', scale: 'num'):
    p = Partial(One, ['A', 'B'], trj, grid, scale=scale)
    p.do()
    return [state(p.partial[s]) for s in ['A', 'B']]


def spec_do(trj: 'traj', grid: 'list', scale: 'num'):
    partial = [one(trj, grid, scale, s) for s in ['A', 'B']]
    for cf in partial:
        cf.compute()
    for cf in partial:
        cf.analyze()
        cf.write()
    return [state(cf) for cf in partial]


def impl_do_two(trj: 'traj', grid: 'list', scale: 'num'):
    p = Partial(Two, ['A', 'B'], trj, grid, scale=scale)
    p.do()


def spec_do_two(trj: 'traj', grid: 'list', scale: 'num'):
    partial = [two(Two, trj, grid, scale, a, b) for a, b in [('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')]]
    for cf in partial:
        cf.compute()
    for cf in partial:
        cf.analyze()
        cf.write()


def impl_path(trj: 'traj', grid: 'list', path: 'str'):
    p = Partial(One, ['A', 'B'], trj, grid)
    p.output_path = path
    p.compute()
    p.write()
    return p.output_path


def spec_path(trj: 'traj', grid: 'list', path: 'str'):
    partial = [one(trj, grid, 1.0, s) for s in ['A', 'B']]
    for cf in partial:
        cf.output_path = path
        cf.compute()
    for cf in partial:
        cf.write()
    return path


def impl_update(trj: 'traj', grid: 'list', update: 'bool'):
    p = Partial(One, ['A', 'B'], trj, grid)
    p.do(update=update)
    return [state(p.partial[s]) for s in ['A', 'B']]


def spec_update(trj: 'traj', grid: 'list', update: 'bool'):
    partial = [one(trj, grid, 1.0, s) for s in ['A', 'B']]
    if update and not (partial[0].need_update() or partial[1].need_update()):
        for cf in partial:
            cf.read()
    else:
        for cf in partial:
            cf.compute()
        for cf in partial:
            cf.analyze()
            cf.write()
    return [state(cf) for cf in partial]
