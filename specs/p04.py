import numpy
from atooms.postprocessing.helpers import setup_t_grid, linear_grid, adjust_skip
from atooms.postprocessing.msd import MeanSquareDisplacement
from atooms.postprocessing.alpha2 import NonGaussianParameter
from atooms.postprocessing.vacf import VelocityAutocorrelation
from atooms.postprocessing.sacf import StressAutocorrelation
from specs.common import unfolded, averaged


def msd(x, y):
    return numpy.sum((x - y)**2) / len(x)


def impl_msd_grid(trj: 'traj', grid: 'list', norigins: 'int', fix_cm: (False, True)):
    cf = MeanSquareDisplacement(trj, grid, norigins=norigins, fix_cm=fix_cm)
    return cf.compute()


def spec_msd_grid(trj: 'traj', grid: 'list', norigins: 'int', fix_cm: (False, True)):
    pos = unfolded(trj, fix_cm)
    skip = adjust_skip(trj, norigins)
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(msd, trj.steps, pairs, skip, pos)
    return [lag * trj.timestep for lag in lags], values


def impl_msd_default_grid(trj: 'traj', norigins: 'int', tsamples: 'int'):
    return MeanSquareDisplacement(trj, norigins=norigins, tsamples=tsamples).compute()


def spec_msd_default_grid(trj: 'traj', norigins: 'int', tsamples: 'int'):
    pos = unfolded(trj, False)
    grid = linear_grid(0.0, trj.total_time, tsamples)
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(msd, trj.steps, pairs, adjust_skip(trj, norigins), pos)
    return [lag * trj.timestep for lag in lags], values


def impl_msd_rmax(trj: 'traj', norigins: 'int', tsamples: 'int', rmax: 'num', no_offset: (False, True)):
    return MeanSquareDisplacement(trj, None, rmax, norigins, tsamples, no_offset=no_offset).compute()


def spec_msd_rmax(trj: 'traj', norigins: 'int', tsamples: 'int', rmax: 'num', no_offset: (False, True)):
    pos = unfolded(trj, False)
    tmax = trj.total_time
    if rmax > 0:
        tmax = min(tmax, trj.total_time * rmax**2 / msd(pos[len(trj) - 1], pos[0]))
    grid = linear_grid(0.0, tmax, tsamples)
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1' and not no_offset)
    lags, values = averaged(msd, trj.steps, pairs, adjust_skip(trj, norigins), pos)
    return [lag * trj.timestep for lag in lags], values


def impl_alpha2(trj: 'traj', grid: 'list', norigins: 'int'):
    return NonGaussianParameter(trj, grid, norigins=norigins).compute()


def spec_alpha2(trj: 'traj', grid: 'list', norigins: 'int'):
    pos = unfolded(trj, False)

    def parameter(late, early):
        if late == early:
            return 0.0
        square = numpy.sum((pos[late] - pos[early])**2, axis=1)
        fourth = numpy.sum(square**2) / len(pos[late])
        second = numpy.sum((pos[late] - pos[early])**2) / len(pos[late])
        # zero when the displacements are Gaussian
        ndims = pos[late].shape[1]
        return fourth / second**2 / (1 + 2 / ndims) - 1

    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(parameter, trj.steps, pairs, adjust_skip(trj, norigins), range(len(trj)))
    return [lag * trj.timestep for lag in lags], values


def impl_vacf(trj: 'traj', grid: 'list', norigins: 'int'):
    return VelocityAutocorrelation(trj, grid, norigins=norigins).compute()


def spec_vacf(trj: 'traj', grid: 'list', norigins: 'int'):
    vel = [s.dump('vel') for s in trj]
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(lambda x, y: numpy.sum(x * y) / len(x), trj.steps, pairs, adjust_skip(trj, norigins), vel)
    return [lag * trj.timestep for lag in lags], values


def impl_sacf(trj: 'traj', grid: 'list', norigins: 'int'):
    return StressAutocorrelation(trj, grid, norigins=norigins).compute()


def spec_sacf(trj: 'traj', grid: 'list', norigins: 'int'):
    mass = numpy.array([p.mass for p in trj[0].particle])
    stress = []
    for frame in trj:
        v = frame.dump('vel')
        stress.append([frame.interaction.stress[i, j] + numpy.sum(mass * v[:, i] * v[:, j]) for i, j in [(0, 1), (0, 2), (1, 2)]])
    pairs = setup_t_grid(trj, grid, offset=norigins != 1 and norigins != '1')
    lags, values = averaged(lambda x, y: sum(a * b for a, b in zip(x, y)) / len(x), trj.steps, pairs, adjust_skip(trj, norigins), stress)
    return [lag * trj.timestep for lag in lags], [v / trj[0].cell.volume for v in values]


def impl_defaults(trj: 'traj', tsamples: 'int', which: ('alpha2', 'vacf')):
    if which == 'alpha2':
        cf = NonGaussianParameter(trj, nsamples=tsamples)
    else:
        cf = VelocityAutocorrelation(trj, tsamples=tsamples)
    return cf.compute()


def spec_defaults(trj: 'traj', tsamples: 'int', which: ('alpha2', 'vacf')):
    if which == 'alpha2':
        cf = NonGaussianParameter(trj, linear_grid(0.0, trj.total_time * 0.75, tsamples), norigins=None)
    else:
        cf = VelocityAutocorrelation(trj, linear_grid(0.0, trj.total_time * 0.1, tsamples), norigins=None)
    return cf.compute()


def impl_origins(trj: 'traj', grid: 'list', which: ('msd', 'alpha2', 'vacf', 'sacf'), norigins: ('1', '20', '0.5', None)):
    """Numbers of time origins as command line arguments"""
    cls = {'msd': MeanSquareDisplacement, 'alpha2': NonGaussianParameter, 'vacf': VelocityAutocorrelation, 'sacf': StressAutocorrelation}[which]
    return cls(trj, grid, norigins=norigins).compute()


def spec_origins(trj: 'traj', grid: 'list', which: ('msd', 'alpha2', 'vacf', 'sacf'), norigins: ('1', '20', '0.5', None)):
    if which == 'msd':
        return spec_msd_grid(trj, grid, norigins, False)
    return {'alpha2': spec_alpha2, 'vacf': spec_vacf, 'sacf': spec_sacf}[which](trj, grid, norigins)
