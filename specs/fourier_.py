"""Wave-vectors, plane waves and Fourier space correlation functions."""

import math
import random
import numpy
from atooms.postprocessing.fourierspace import FourierSpaceCorrelation, expo_sphere, expo_sphere_safe
from atooms.postprocessing.helpers import linear_grid
from specs.prelude import assume


class Probe(FourierSpaceCorrelation):
    nbodies = 1
    symbol = 'probe'
    short_name = 'p(k)'
    long_name = 'probe'
    phasespace = ['pos']

    def _compute(self):
        self.grid = self.kgrid
        self.value = [1.0 for k in self.kgrid]


def plane_waves(k0, nk, pos):
    """Exponentials exp(i k x) on the integer grid k = k0 (-nk ... nk), along each axis."""
    n = numpy.arange(-nk, nk + 1)
    return numpy.exp(1j * (pos * k0)[..., numpy.newaxis] * n)


def impl_expo(k0: 'array1', nk: 'int', pos: 'array2'):
    assume(nk > 0)
    assume(len(pos) > 0)
    assume(len(k0) == len(pos[0]))
    return expo_sphere(k0, nk, pos)


def spec_expo(k0: 'array1', nk: 'int', pos: 'array2'):
    assume(nk > 0)
    assume(len(pos) > 0)
    assume(len(k0) == len(pos[0]))
    return plane_waves(k0, nk, pos)


def impl_expo_frames(k0: 'array1', nk: 'int', pos: 'array3'):
    assume(nk > 0)
    assume(len(pos) > 0)
    assume(len(k0) == len(pos[0][0]))
    return expo_sphere(k0, nk, pos)


def spec_expo_frames(k0: 'array1', nk: 'int', pos: 'array3'):
    assume(nk > 0)
    assume(len(pos) > 0)
    assume(len(k0) == len(pos[0][0]))
    return plane_waves(k0, nk, pos)


def impl_vectors(trj: 'traj', kv: 'list:3'):
    cf = Probe(trj, None)
    cf.kvectors = kv
    cf.compute()
    return cf.kvectors, cf.grid


def commensurate(trj, kv):
    """The wave-vectors compatible with the cell that are the closest to the given ones."""
    k0 = 2 * math.pi / trj[0].cell.side
    return [[[k0[i] * numpy.rint(k[i] / k0[i]) for i in range(len(k0))] for k in shell] for shell in kv]


def norm(k):
    return math.sqrt(sum(ki**2 for ki in k))


def spec_vectors(trj: 'traj', kv: 'list:3'):
    out = commensurate(trj, kv)
    return out, [numpy.mean([norm(k) for k in shell]) for shell in out]


def impl_sphere(dk: 'list', kgrid: 'list', k0: 'array1'):
    assume(len(dk) == len(kgrid))
    return FourierSpaceCorrelation._setup_grid_sphere(dk, kgrid, k0)


def integers(n, ndims):
    """Integer vectors with components between -n and n, in lexicographic order."""
    if ndims == 2:
        return [(i, j) for i in range(-n, n + 1) for j in range(-n, n + 1)]
    return [(i, j, k) for i in range(-n, n + 1) for j in range(-n, n + 1) for k in range(-n, n + 1)]


def spec_sphere(dk: 'list', kgrid: 'list', k0: 'array1'):
    assume(len(dk) == len(kgrid))
    ndims = len(k0)
    if ndims != 2 and ndims != 3:
        raise ValueError('dimensions')
    n = 1 + int((kgrid[-1] + dk[-1]) / min(k0))
    shells = [[] for k in kgrid]
    for j in integers(n, ndims):
        k = norm([k0[d] * j[d] for d in range(ndims)])
        if k <= kgrid[-1] + dk[-1]:
            inside = [s for s in range(len(kgrid)) if abs(k - kgrid[s]) < dk[s]]
            if len(inside) > 0:
                shells[inside[0]].append(tuple([x + n for x in j]))
    if min([len(s) for s in shells]) > 0:
        return shells, n
    wider = [1.2 * dk[s] if len(shells[s]) == 0 else dk[s] for s in range(len(dk))]
    # both sides recur in the same way: the recursive calls are compared by their arguments
    return spec_sphere(wider, kgrid, k0)


def selection(trj, kgrid, nk, dk):
    """At most nk wave-vectors in each shell, drawn in a reproducible way."""
    k0 = 2 * math.pi / trj[0].cell.side
    shells, n = spec_sphere([dk for k in kgrid], kgrid, k0)
    rng = random.Random(1)
    out = []
    for shell in shells:
        chosen = rng.sample(shell, min(nk, len(shell)))
        out.append([[k0[i] * (j[i] - n) for i in range(len(k0))] for j in chosen])
    return out


def impl_selected(trj: 'traj', grid: 'list', nk: 'int', dk: 'num'):
    assume(nk > 0)
    assume(dk > 0)
    assume(len(grid) > 0)
    cf = Probe(trj, grid, nk=nk, dk=dk)
    cf.compute()
    return cf.kvectors, cf.grid


def spec_selected(trj: 'traj', grid: 'list', nk: 'int', dk: 'num'):
    assume(nk > 0)
    assume(dk > 0)
    assume(len(grid) > 0)
    kgrid = sorted(grid)
    if kgrid[0] < 0:
        kgrid[0] = min(2 * math.pi / trj[0].cell.side)
    out = selection(trj, kgrid, nk, dk)
    return out, [numpy.mean([norm(k) for k in shell]) for shell in out]


def impl_default_grid(trj: 'traj', kmin: 'num', kmax: 'num', ksamples: 'int'):
    assume(ksamples > 0)
    cf = Probe(trj, None, kmin=kmin, kmax=kmax, ksamples=ksamples)
    cf.compute()
    return cf.kvectors, cf.grid


def spec_default_grid(trj: 'traj', kmin: 'num', kmax: 'num', ksamples: 'int'):
    assume(ksamples > 0)
    first = kmin if kmin > 0 else min(2 * math.pi / trj[0].cell.side)
    kgrid = linear_grid(first, kmax, ksamples)
    out = selection(trj, kgrid, 8, 0.1)
    return out, [numpy.mean([norm(k) for k in shell]) for shell in out]


def impl_report(trj: 'traj', kv: 'list:3', verbose: (False, True)):
    cf = Probe(trj, None)
    cf.kvectors = kv
    cf.compute()
    return cf.report(verbose) if verbose else cf.report()


def spec_report(trj: 'traj', kv: 'list:3', verbose: (False, True)):
    txt = '# k-point, average, std, vectors in shell\n'
    shells = commensurate(trj, kv)
    for shell in shells:
        norms = numpy.array([norm(k) for k in shell])
        txt += '{} {:f} {:f} {}\n'.format(numpy.mean(norms), numpy.mean(norms), numpy.std(norms), len(shell))
    if verbose:
        txt += '\n# k-point, k-vector\n'
        for shell in shells:
            for k in shell:
                as_str = str(list(k))
                for c in ',[]':
                    as_str = as_str.replace(c, '')
                txt += '{} {}\n'.format(numpy.mean([norm(k) for k in shell]), as_str)
    return txt
