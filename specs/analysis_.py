"""Quantities derived from the correlation functions, and the additional files they write."""

import numpy
from atooms.postprocessing.alpha2 import NonGaussianParameter
from atooms.postprocessing.chi4t import Chi4SelfOverlap, Chi4SelfOverlapOptimized
from atooms.postprocessing.fkt import SelfIntermediateScatteringLegacy, SelfIntermediateScatteringFast, IntermediateScattering
from atooms.postprocessing.helpers import feqc, ifabsmm, linear_fit
from atooms.postprocessing.msd import MeanSquareDisplacement
from atooms.postprocessing.qt import SelfOverlap
from specs.prelude import assume


def crossing(x, f, level):
    """First crossing, if any"""
    try:
        return feqc(x, f, level)[0]
    except ValueError:
        return None


def maximum(x, f):
    """Location and height of the highest point, if the parabola through it exists"""
    try:
        return ifabsmm(x, f)[1]
    except ZeroDivisionError:
        return None


# ---------------------------------------------------------------- one variable

def impl_diffusion(trj: 'traj', t: 'list', f: 'list', sigma: 'num'):
    assume(len(t) == len(f))
    cf = MeanSquareDisplacement(trj, t, sigma=sigma)
    cf.grid, cf.value = t, f
    cf.analyze()
    return cf.analysis, cf.grid, cf.value


def spec_diffusion(trj: 'traj', t: 'list', f: 'list', sigma: 'num'):
    assume(len(t) == len(f))
    out = {'diffusive time tau_D': crossing(t, f, sigma**2)}
    beyond = [i for i in range(len(f)) if f[i] > sigma**2]
    if len(beyond) >= 2:
        slope = linear_fit(numpy.array([t[i] for i in beyond]), numpy.array([f[i] for i in beyond]))[0]
        out['diffusion coefficient D'] = slope / (2 * trj[0].number_of_dimensions)
    return out, t, f


def impl_alpha2(trj: 'traj', t: 'list', f: 'list'):
    assume(len(t) == len(f))
    cf = NonGaussianParameter(trj, t)
    cf.grid, cf.value = t, f
    cf.analyze()
    return cf.analysis, cf.grid, cf.value


def spec_alpha2(trj: 'traj', t: 'list', f: 'list'):
    assume(len(t) == len(f))
    out = {}
    top = maximum(t, f)
    if top is not None:
        out['t_star'] = top[0]
        out['a2_star'] = top[1]
    return out, t, f


def impl_chi4(trj: 'traj', t: 'list', f: 'list', fast: (False, True)):
    assume(len(t) == len(f))
    cf = Chi4SelfOverlapOptimized(trj, t) if fast else Chi4SelfOverlap(trj, t)
    cf.grid, cf.value = t, f
    cf.analyze()
    return cf.analysis, cf.grid, cf.value


def spec_chi4(trj: 'traj', t: 'list', f: 'list', fast: (False, True)):
    assume(len(t) == len(f))
    out = {}
    top = maximum(t, f)
    if top is not None:
        out['peak time tau_star'] = top[0]
        out['peak height chi4_star'] = top[1]
    return out, t, f


def impl_overlap(trj: 'traj', t: 'list', f: 'list'):
    assume(len(t) == len(f))
    cf = SelfOverlap(trj, t)
    cf.grid, cf.value = t, f
    cf.analyze()
    return cf.analysis, cf.grid, cf.value


def spec_overlap(trj: 'traj', t: 'list', f: 'list'):
    assume(len(t) == len(f))
    return {'tau': crossing(t, f, 1 / numpy.exp(1.0))}, t, f


# ---------------------------------------------------------------- relaxation times

def scattering(which, trj, k, t):
    if which == 'legacy':
        return SelfIntermediateScatteringLegacy(trj, k, t, normalize=False)
    if which == 'fast':
        return SelfIntermediateScatteringFast(trj, k, t, normalize=False)
    return IntermediateScattering(trj, k, t, normalize=False)


def impl_tau(trj: 'traj', k: 'list', times: 'list', f: 'list:2', which: ('legacy', 'fast', 'total')):
    assume(len(f) == len(k))
    t = [0.0] + times
    cf = scattering(which, trj, k, t)
    cf.grid, cf.value = [k, t], f
    cf.analyze()
    return cf.analysis, cf.grid, cf.value


def spec_tau(trj: 'traj', k: 'list', times: 'list', f: 'list:2', which: ('legacy', 'fast', 'total')):
    assume(len(f) == len(k))
    t = [0.0] + times
    tau = {}
    for i in range(len(k)):
        tau[k[i]] = crossing(t, f[i], f[i][0] / numpy.exp(1.0))
    return {'relaxation times tau': tau}, [k, t], f


def impl_write_tau(trj: 'traj', k: 'num', q: 'num', tau: 'num', which: ('legacy', 'fast', 'total')):
    assume(trj.filename is not None)
    assume(k < q)
    cf = scattering(which, trj, [k, q], [0.0, 1.0])
    cf.grid, cf.value = [[k, q], [0.0, 1.0]], [[1.0, 2.0], [3.0, 4.0]]
    cf.analysis = {'relaxation times tau': {k: tau, q: None}}
    cf.output_path = 'out/there'
    cf.write()


def spec_write_tau(trj: 'traj', k: 'num', q: 'num', tau: 'num', which: ('legacy', 'fast', 'total')):
    assume(trj.filename is not None)
    assume(k < q)
    written(trj, which, [[k, q], [0.0, 1.0]], [[1.0, 2.0], [3.0, 4.0]], {'relaxation times tau': {k: tau, q: None}})
    with open('out/there.tau', 'w') as fh:
        fh.write('# title: relaxation times tau(k) as a function of k\n')
        fh.write('# columns: k, tau(k)\n')
        fh.write('# note: tau is the time at which the correlation function has decayed to 1/e\n')
        fh.write('%g %g\n' % (k, tau))
        fh.write('%g\n' % q)


def written(trj, which, grid, value, analysis):
    from atooms.postprocessing.correlation import Correlation
    cf = scattering(which, trj, grid[0], grid[1])
    cf.grid, cf.value, cf.analysis = grid, value, analysis
    cf.output_path = 'out/there'
    Correlation.write(cf)


def impl_write_chi4(trj: 'traj', t: 'list', f: 'list', g: 'list', h: 'list', tag: 'str'):
    cf = Chi4SelfOverlap(trj, t)
    cf.grid, cf.value = t, f
    cf.average.grid, cf.average.value = t, g
    cf.variance.grid, cf.variance.value = t, h
    cf.tag = tag
    cf.write()


def spec_write_chi4(trj: 'traj', t: 'list', f: 'list', g: 'list', h: 'list', tag: 'str'):
    from atooms.postprocessing.correlation import Correlation
    cf = Chi4SelfOverlap(trj, t)
    cf.grid, cf.value, cf.tag = t, f, tag
    Correlation.write(cf)
    for symbol, short, long, values in [('qsu', 'Q^u(t)', 'Average of self overlap, not normalized', g), ('q2su', 'Q_2^u(t)', 'Variance of self overlap, not normalized', h)]:
        other = Correlation(trj, t)
        other.symbol, other.short_name, other.long_name = symbol, short, long
        other.value = values
        other.write()
