"""Reference definitions shared by the specifications."""

import numpy
from atooms.trajectory.decorators import Unfolded, fold
from atooms.system.particle import distinct_species


def center_of_mass(s):
    """Centre of mass of the unfolded positions."""
    mass = sum(p.mass for p in s.particle)
    cm = numpy.zeros_like(s.particle[0].position_unfolded)
    for p in s.particle:
        cm = cm + p.mass * p.position_unfolded
    return cm / mass


def unfolded(trj, fix_cm):
    """Unfolded positions of the particles in every frame."""
    if hasattr(trj[0].particle[0], 'position_unfolded'):
        if fix_cm:
            return [numpy.array([p.position_unfolded - center_of_mass(s) for p in s.particle]) for s in trj]
        return [s.dump('particle.position_unfolded') for s in trj]
    return [s.dump('pos') for s in Unfolded(trj, fixed_cm=fix_cm)]


def folded_and_unfolded(trj):
    """Positions in the cell and unfolded ones, when both are needed."""
    if hasattr(trj[0].particle[0], 'position_unfolded'):
        return [s.dump('pos') for s in trj], [s.dump('particle.position_unfolded') for s in trj]
    th = Unfolded(trj, fixed_cm=False)
    th.add_callback(fold)
    return [s.dump('pos') for s in th], [s.dump('pos') for s in Unfolded(trj, fixed_cm=False)]


def origins(steps, pairs, skip, n):
    """All the (lag, later, earlier) triplets, as pairs of frames"""
    return [(steps[i0 + i] - steps[i0], i0 + i, i0) for off, i in pairs for i0 in range(off, n - i, skip)]


def averaged(f, steps, pairs, skip, x):
    """Average of f over the time origins, one value per actual time lag."""
    total, count = {}, {}
    for lag, late, early in origins(steps, pairs, skip, len(x)):
        total[lag] = total.get(lag, 0.0) + f(x[late], x[early])
        count[lag] = count.get(lag, 0) + 1
    lags = sorted(total)
    return lags, [total[lag] / count[lag] for lag in lags]
