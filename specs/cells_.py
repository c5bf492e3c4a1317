"""Linked cells."""

import numpy
from atooms.postprocessing.linkedcells import LinkedCells
from specs.prelude import assume


def near(x, y, box, rcut, periodic=None):
    d = y - x
    image = numpy.rint(d / box) * box
    if periodic is not None:
        image = image * periodic
    return numpy.sum((d - image)**2) < rcut**2


def close(neighbors, x, y, box, rcut, periodic=None):
    """The neighbors within the cutoff distance."""
    return [sorted([j for j in neighbors[i] if near(x[i], y[j], box, rcut, periodic)]) for i in range(len(x))]


def both_ways(neighbors, x, box, rcut, periodic=None):
    """The neighbors within the cutoff distance, when pairs come once."""
    n = len(x)
    return [sorted([j for j in range(n) for k in neighbors[i] if k == j and near(x[i], x[j], box, rcut, periodic)] +
                   [j for j in range(n) for k in neighbors[j] if k == i and near(x[i], x[j], box, rcut, periodic)]) for i in range(n)]


def all_close(x, box, rcut, periodic=None):
    n = len(x)
    return [[j for j in range(n) if j != i and near(x[i], x[j], box, rcut, periodic)] for i in range(n)]


def impl_pairs(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    return both_ways(LinkedCells(rcut).compute(box, x), x, box, rcut)


def spec_pairs(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    return all_close(x, box, rcut)


def impl_pairs_both(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    neighbors = LinkedCells(rcut).compute(box, x, newton=False)
    # those in the same cell come once
    n = len(x)
    return [[j for j in range(n) if j != i and (j in neighbors[i] or i in neighbors[j]) and near(x[i], x[j], box, rcut)] for i in range(n)]


def spec_pairs_both(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    return all_close(x, box, rcut)


def impl_other(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    return close(LinkedCells(rcut).compute(box, x, y), x, y, box, rcut)


def spec_other(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    return [[j for j in range(len(y)) if near(x[i], y[j], box, rcut)] for i in range(len(x))]


def impl_open(box: 'array1', rcut: 'num', x: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    return both_ways(LinkedCells(rcut).compute(box, x, periodic=periodic), x, box, rcut, periodic)


def spec_open(box: 'array1', rcut: 'num', x: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    return all_close(x, box, rcut, periodic)


def impl_other_open(box: 'array1', rcut: 'num', x: 'array2', y: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    return close(LinkedCells(rcut).compute(box, x, y, periodic=periodic), x, y, box, rcut, periodic)


def spec_other_open(box: 'array1', rcut: 'num', x: 'array2', y: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    return [[j for j in range(len(y)) if near(x[i], y[j], box, rcut, periodic)] for i in range(len(x))]


def impl_again(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    cells = LinkedCells(rcut)
    cells.compute(2 * box, 2 * y)
    return both_ways(cells.compute(box, x), x, box, rcut)


def spec_again(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    return all_close(x, box, rcut)


def impl_again_other(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    cells = LinkedCells(rcut)
    cells.compute(box, x)
    return close(cells.compute(box, x, y), x, y, box, rcut)


def spec_again_other(box: 'array1', rcut: 'num', x: 'array2', y: 'array2'):
    assume(rcut > 0)
    return [[j for j in range(len(y)) if near(x[i], y[j], box, rcut)] for i in range(len(x))]


def impl_again_open(box: 'array1', rcut: 'num', x: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    cells = LinkedCells(rcut)
    cells.compute(box, x, periodic=periodic)
    return both_ways(cells.compute(box, x), x, box, rcut)


def spec_again_open(box: 'array1', rcut: 'num', x: 'array2', periodic: 'array1'):
    assume(rcut > 0)
    return all_close(x, box, rcut)


def impl_array(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    array, number = LinkedCells(rcut).compute(box, x, as_array=True)
    return [[array[i, k] for k in range(number[i])] for i in range(len(x))]


def spec_array(box: 'array1', rcut: 'num', x: 'array2'):
    assume(rcut > 0)
    return LinkedCells(rcut).compute(box, x)


# Linked cells as seen by the other properties

def set_reach(self, rcut):
    self.reach = rcut


def within_reach(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
    """Pairs of particles closer than the cutoff distance. Those of a single set come once."""
    if other is None:
        neighbors = [[j for j in range(i + 1, len(pos)) if near(pos[i], pos[j], box, self.reach)] for i in range(len(pos))]
    else:
        neighbors = [[j for j in range(len(other)) if near(pos[i], other[j], box, self.reach)] for i in range(len(pos))]
    if not as_array:
        return neighbors
    numbers = [len(x) for x in neighbors]
    array = numpy.zeros((len(pos), max(numbers)), dtype=int)
    for i in range(len(pos)):
        array[i, 0:len(neighbors[i])] = neighbors[i]
    return array, numpy.array(numbers)
