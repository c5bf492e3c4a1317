"""Fortran kernels."""

import math
import numpy
from atooms.postprocessing.realspace_wrap import compute
from atooms.postprocessing.fourierspace_wrap import fourierspace_module
from specs.gr_ import distances, distances_once, number_in


def nearest(d, box):
    """Nearest image of a displacement."""
    return d - numpy.rint(d / box) * box


def counts(d, dr, n):
    """Histogram of distances in bins of equal width and their centers."""
    return [number_in(d, dr * k, dr * (k + 1)) for k in range(n)], [dr * (k + 0.5) for k in range(n)]


def norm(d):
    return numpy.sqrt(numpy.sum(d**2))


# Histograms of distances, with particles along rows or (Fortran order) columns

def impl_gr_self(x: 'array2', side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    hist = numpy.ones(n, dtype=int)
    bins = numpy.zeros(n)
    if order == 'C':
        compute.gr_self_c(x, side, dr, hist, bins)
    else:
        compute.gr_self(x.transpose(), side, dr, hist, bins)
    return hist, bins


def spec_gr_self(x: 'array2', side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    return counts(distances_once(x, side), dr, n)


def impl_gr_distinct(x: 'array2', y: 'array2', side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    hist = numpy.ones(n, dtype=int)
    bins = numpy.zeros(n)
    if order == 'C':
        compute.gr_distinct_c(x, y, side, dr, hist, bins)
    else:
        compute.gr_distinct(x.transpose(), y.transpose(), side, dr, hist, bins)
    return hist, bins


def spec_gr_distinct(x: 'array2', y: 'array2', side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    return counts(distances(x, y, side), dr, n)


def impl_gr_neighbors_self(x: 'array2', pairs: 'array2', number: 'array1', first: ('C', 'F'), side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    hist = numpy.ones(n, dtype=int)
    bins = numpy.zeros(n)
    pairs = pairs + (0 if first == 'C' else 1)
    if order == 'C':
        compute.gr_neighbors_self_c(first, x, pairs, number, side, dr, hist, bins)
    else:
        compute.gr_neighbors_self(first, x.transpose(), pairs, number, side, dr, hist, bins)
    return hist, bins


def spec_gr_neighbors_self(x: 'array2', pairs: 'array2', number: 'array1', first: ('C', 'F'), side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    d = [norm(nearest(x[pairs[i, k]] - x[i], side)) for i in range(len(x)) for k in range(number[i])]
    return counts(d, dr, n)


def impl_gr_neighbors_distinct(x: 'array2', y: 'array2', pairs: 'array2', number: 'array1', first: ('C', 'F'), side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    hist = numpy.ones(n, dtype=int)
    bins = numpy.zeros(n)
    pairs = pairs + (0 if first == 'C' else 1)
    if order == 'C':
        compute.gr_neighbors_distinct_c(first, x, y, pairs, number, side, dr, hist, bins)
    else:
        compute.gr_neighbors_distinct(first, x.transpose(), y.transpose(), pairs, number, side, dr, hist, bins)
    return hist, bins


def spec_gr_neighbors_distinct(x: 'array2', y: 'array2', pairs: 'array2', number: 'array1', first: ('C', 'F'), side: 'array1', dr: 'num', n: 'nonneg', order: ('C', 'F')):
    d = [norm(nearest(y[pairs[i, k]] - x[i], side)) for i in range(len(x)) for k in range(number[i])]
    return counts(d, dr, n)


# Surface of a cell

def impl_on_surface(x: 'array2', side: 'array1', delta: 'num', order: ('C', 'F')):
    if order == 'C':
        mask = compute.on_surface_c(x, side, delta)
    else:
        mask = compute.on_surface(x.transpose(), side, delta)
    return [1 if mask[i] else 0 for i in range(len(x))]


def spec_on_surface(x: 'array2', side: 'array1', delta: 'num', order: ('C', 'F')):
    return [1 if max([abs(x[i][d]) - side[d] / 2 for d in range(len(side))]) > -delta else 0 for i in range(len(x))]


# Neighbors

def impl_neighbors(center: 'array1', x: 'array2', ids: 'array1', rcut: 'array1', side: 'array1'):
    nn = numpy.array(0, dtype=numpy.int32)
    neighbors = numpy.zeros(len(x), dtype=numpy.int32)
    compute.neighbors('C', side, center, x.transpose(), ids, rcut, nn, neighbors)
    return list(neighbors[0: nn])


def spec_neighbors(center: 'array1', x: 'array2', ids: 'array1', rcut: 'array1', side: 'array1'):
    return [j for j in range(len(x)) if norm(nearest(center - x[j], side)) < rcut[ids[j]]]


def impl_neighbors_list(x: 'array2', ids: 'array1', rcut: 'array2', side: 'array1', first: ('C', 'F'), full: ('list', 'full')):
    n = len(x)
    nn = numpy.ones(n, dtype=numpy.int32)
    neighbors = numpy.zeros((n, n), dtype=numpy.int32)
    if full == 'full':
        compute.neighbors_full(first, side, x.transpose(), ids, rcut, nn, neighbors)
    else:
        compute.neighbors_list(first, side, x.transpose(), ids, rcut, nn, neighbors)
    return [sorted([neighbors[i, k] for k in range(nn[i])]) for i in range(n)]


def spec_neighbors_list(x: 'array2', ids: 'array1', rcut: 'array2', side: 'array1', first: ('C', 'F'), full: ('list', 'full')):
    shift = 0 if first == 'C' else 1
    return [[j + shift for j in range(len(x)) if j != i and norm(nearest(x[i] - x[j], side)) < rcut[ids[min(i, j)] - 1, ids[max(i, j)] - 1]]
            for i in range(len(x))]


def impl_neighbors_distinct(x: 'array2', y: 'array2', ids: 'array1', rcut: 'array2', side: 'array1', first: ('C', 'F')):
    n = len(x)
    nn = numpy.ones(n, dtype=numpy.int32)
    neighbors = numpy.zeros((n, len(y)), dtype=numpy.int32)
    compute.neighbors_list_distinct(first, side, x.transpose(), y.transpose(), ids, rcut, nn, neighbors)
    return [[neighbors[i, k] for k in range(nn[i])] for i in range(n)]


def spec_neighbors_distinct(x: 'array2', y: 'array2', ids: 'array1', rcut: 'array2', side: 'array1', first: ('C', 'F')):
    shift = 0 if first == 'C' else 1
    return [[j + shift for j in range(len(y)) if norm(nearest(x[i] - y[j], side)) < rcut[ids[i] - 1, ids[j] - 1]] for i in range(len(x))]


# Angles

def angle(a, b):
    """Angle between two vectors, in degrees."""
    return numpy.arccos(min(1.0, max(-1.0, numpy.sum(a * b) / (norm(a) * norm(b))))) * 180 / math.pi


def angles(center, x, neighbors, side):
    """Angles around a particle between each of its neighbors and the other ones."""
    bonds = [nearest(center - x[j], side) for j in neighbors]
    bonds = [d for d in bonds if norm(d) > 0]
    return [angle(bonds[j], bonds[k]) for j in range(len(bonds)) for k in range(len(bonds)) if k != j]


def impl_bond_angle(center: 'array1', x: 'array2', neighbors: 'list', side: 'array1', dtheta: 'num', n: 'nonneg'):
    hist = numpy.ones(n, dtype=numpy.int32)
    compute.bond_angle(center, x.transpose(), numpy.array(neighbors), side, dtheta, hist)
    return hist


def spec_bond_angle(center: 'array1', x: 'array2', neighbors: 'list', side: 'array1', dtheta: 'num', n: 'nonneg'):
    theta = angles(center, x, neighbors, side)
    return [len([t for t in theta if dtheta * k <= t and t < dtheta * (k + 1)]) for k in range(n)]


# Overlaps and Fourier space

def impl_self_overlap(x: 'array2', y: 'array2', a_square: 'num'):
    return compute.self_overlap(x, y, a_square)


def spec_self_overlap(x: 'array2', y: 'array2', a_square: 'num'):
    return len([i for i in range(len(x)) if numpy.sum((x[i] - y[i])**2) < a_square])


def impl_density(expo: 'array3:complex', k: 'array2', n: 'nonneg'):
    rho = numpy.zeros(n, dtype=complex)
    fourierspace_module.sk_bare(expo, k, rho)
    return rho


def spec_density(expo: 'array3:complex', k: 'array2', n: 'nonneg'):
    rho = numpy.zeros(n, dtype=complex)
    for i in range(len(k[0])):
        rho[i] = numpy.sum(expo[:, 0, k[0, i] - 1] * expo[:, 1, k[1, i] - 1] * expo[:, 2, k[2, i] - 1])
    return rho


def impl_self_kernel(expo: "array4:complex", t: 'nonneg', u: 'nonneg', k: 'list', kernel: (2, 3, 0)):
    if kernel == 2:
        return fourierspace_module.fskt_kernel_2d(expo, t, u, k)
    if kernel == 3:
        return fourierspace_module.fskt_kernel_3d(expo, t, u, k)
    return fourierspace_module.fskt_kernel_nd(expo, t, u, k)


def spec_self_kernel(expo: 'array4:complex', t: 'nonneg', u: 'nonneg', k: 'list', kernel: (2, 3, 0)):
    total = 0.0
    ndims = expo.shape[2] if kernel == 0 else kernel
    for i in range(expo.shape[1]):
        wave = 1.0
        for d in range(ndims):
            wave = wave * expo[t - 1, i, d, k[d] - 1] * expo[u - 1, i, d, k[d] - 1].conjugate()
        total += wave
    return total
