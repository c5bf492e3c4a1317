"""Grids, number of origins, root finding and fits (no assumed interfaces here)."""

import numpy
from math import sqrt
from atooms.postprocessing.helpers import adjust_skip, setup_t_grid, linear_grid, logx_grid, ifabsmm, linear_fit, feqc, filter_species, copy_field
from specs.prelude import assume


def clamp(trj, skip):
    return min(len(trj.steps), max(1, skip))


def multiple(trj, skip):
    if skip % trj.block_size != 0:
        raise ValueError('skip')


# ---------------------------------------------------------------- time origins

def impl_skip_all(trj: 'traj', n: 'num'):
    assume(n < 0)
    return adjust_skip(trj, n)


def spec_skip_all(trj: 'traj', n: 'num'):
    assume(n < 0)
    return clamp(trj, trj.block_size)


def impl_skip_one(trj: 'traj', n: (1, '1')):
    return adjust_skip(trj, n)


def spec_skip_one(trj: 'traj', n: (1, '1')):
    return clamp(trj, len(trj.steps))


def impl_skip_many(trj: 'traj', n: 'int'):
    assume(n > 1)
    return adjust_skip(trj, n)


def spec_skip_many(trj: 'traj', n: 'int'):
    assume(n > 1)
    nblocks = len(trj.steps) // trj.block_size
    return clamp(trj, max(1, nblocks // n) * trj.block_size)


def impl_skip_many_str(trj: 'traj', n: ('2', '5', '10', '-1', '100')):
    return adjust_skip(trj, n)


def spec_skip_many_str(trj: 'traj', n: ('2', '5', '10', '-1', '100')):
    if int(n) < 0:
        return clamp(trj, trj.block_size)
    nblocks = len(trj.steps) // trj.block_size
    return clamp(trj, max(1, nblocks // int(n)) * trj.block_size)


def impl_skip_fraction(trj: 'traj', n: (0.6, 0.2, 0.07, 0.01, '0.5', '0.4')):
    return adjust_skip(trj, n)


def spec_skip_fraction(trj: 'traj', n: (0.6, 0.2, 0.07, 0.01, '0.5', '0.4')):
    return clamp(trj, int(1 / float(n)) * trj.block_size)


def impl_skip_fraction_any(trj: 'traj', n: 'real'):
    assume(n > 0)
    assume(n < 1)
    return adjust_skip(trj, n)


def spec_skip_fraction_any(trj: 'traj', n: 'real'):
    assume(n > 0)
    assume(n < 1)
    return clamp(trj, int(1 / n) * trj.block_size)


def impl_skip_default(trj: 'traj'):
    return adjust_skip(trj, None)


def spec_skip_default(trj: 'traj'):
    if trj.block_size == 1:
        return clamp(trj, int(len(trj.steps) * len(trj[0].particle) / 40000))
    return clamp(trj, trj.block_size)


# ---------------------------------------------------------------- time grids

def impl_t_grid(trj: 'traj', grid: 'list', offset: (True, False)):
    return setup_t_grid(trj, grid, offset)


def spec_t_grid(trj: 'traj', grid: 'list', offset: (True, False)):
    # every frame difference within the first block, the first occurrence wins
    steps = trj.steps
    pairs = {}
    for off in range(trj.block_size if offset else 1):
        for late in range(off, len(steps) - off):
            lag = steps[late] - steps[off]
            if lag not in pairs:
                pairs[lag] = (off, late - off)
    lags = sorted(pairs)
    chosen = set()
    for t in sorted(set(int(round(t / trj.timestep)) for t in grid)):
        chosen.add(min(lags, key=lambda lag: abs(lag - t)))
    return [pairs[lag] for lag in sorted(chosen)]


def impl_linear_grid_n(a: 'num', b: 'num', n: 'int'):
    return linear_grid(a, b, n)


def spec_linear_grid_n(a: 'num', b: 'num', n: 'int'):
    if n > 1:
        return [a + i * (b - a) / (n - 1) for i in range(n)]
    return [a for i in range(n)]


def impl_linear_grid_delta(a: 'num', b: 'num', delta: (0.1, 0.04, 2.5)):
    return linear_grid(a, b, delta)


def spec_linear_grid_delta(a: 'num', b: 'num', delta: (0.1, 0.04, 2.5)):
    return [a + i * delta for i in range(int((b - a) / delta) + 1)]


def impl_logx_grid(a: 'num', b: 'num', n: 'int'):
    return logx_grid(a, b, n)


def spec_logx_grid(a: 'num', b: 'num', n: 'int'):
    if a > 0:
        return [a] + [a * ((b / a)**(1.0 / n))**i for i in range(2, n + 1)]
    return [a] + [(b**(1.0 / n))**i - 1 for i in range(2, n + 1)]


# ---------------------------------------------------------------- extrema, roots and fits

def impl_extrema(x: 'list', f: 'list'):
    return ifabsmm(x, f)


def spec_extrema(x: 'list', f: 'list'):
    def vertex(i):
        if i == 0 or i == len(f) - 1:
            return x[i], f[i]
        # Newton form of the parabola through the three points
        s1 = (f[i] - f[i - 1]) / (x[i] - x[i - 1])
        s2 = (f[i + 1] - f[i]) / (x[i + 1] - x[i])
        a = (s2 - s1) / (x[i + 1] - x[i - 1])
        b = s1 - a * (x[i] + x[i - 1])
        c = f[i] - a * x[i]**2 - b * x[i]
        top = -b / (2 * a)
        return top, a * top**2 + b * top + c
    low = [i for i in range(len(f)) if f[i] == min(f)]
    high = [i for i in range(len(f)) if f[i] == max(f)]
    return vertex(low[0]), vertex(high[0])


def impl_fit(x: 'array1', y: 'array1'):
    assume(len(y) > 2)
    return linear_fit(x, y)


def spec_fit(x: 'array1', y: 'array1'):
    assume(len(y) > 2)
    n = len(y)
    sx, sy, sxx, sxy, syy = numpy.sum(x), numpy.sum(y), numpy.sum(x**2), numpy.sum(x * y), numpy.sum(y**2)
    var = n * sxx - sx**2
    slope = (n * sxy - sx * sy) / var
    inter = (sy - slope * sx) / n
    res = (n * syy - sy**2 - slope**2 * var) / (n * (n - 2))
    return slope, inter, sqrt(n * res / var), sqrt(n * res / var * sxx / n)


def impl_root(x: 'list', f: 'list', level: 'num'):
    return feqc(x, f, level)


def spec_root(x: 'list', f: 'list', level: 'num'):
    for i in range(min(len(x), len(f))):
        if (f[i] - level) * (f[0] - level) < 0:
            return x[i - 1] + (level - f[i - 1]) * (x[i] - x[i - 1]) / (f[i] - f[i - 1]), i
    return None, None
