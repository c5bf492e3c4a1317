"""Computing again gives the same result."""

from atooms.postprocessing.msd import MeanSquareDisplacement
from atooms.postprocessing.alpha2 import NonGaussianParameter
from atooms.postprocessing.vacf import VelocityAutocorrelation
from atooms.postprocessing.sacf import StressAutocorrelation
from atooms.postprocessing.qt import SelfOverlap, CollectiveOverlap
from atooms.postprocessing.chi4t import Chi4SelfOverlap
from atooms.postprocessing.fkt import SelfIntermediateScatteringLegacy, SelfIntermediateScatteringFast, IntermediateScattering
from atooms.postprocessing.sk import StructureFactor, StructureFactorLegacy, StructureFactorFast
from atooms.postprocessing.ik import SpectralDensity
from atooms.postprocessing.s4kt import S4ktOverlap
from atooms.postprocessing.susceptibility import Susceptibility
from atooms.postprocessing.partial import Partial
from specs.partial_ import Two
from specs import core_
from atooms.postprocessing.gr import RadialDistributionFunctionLegacy, RadialDistributionFunctionFast
from atooms.postprocessing.ba import BondAngleDistribution
from specs.prelude import assume


def times(cls, trj, grid, norigins):
    if cls == 'msd':
        return MeanSquareDisplacement(trj, grid, norigins=norigins)
    if cls == 'alpha2':
        return NonGaussianParameter(trj, grid, norigins=norigins)
    if cls == 'vacf':
        return VelocityAutocorrelation(trj, grid, norigins=norigins)
    if cls == 'sacf':
        return StressAutocorrelation(trj, grid, norigins=norigins)
    if cls == 'qs':
        return SelfOverlap(trj, grid, norigins=norigins)
    if cls == 'q':
        return CollectiveOverlap(trj, grid, norigins=norigins)
    return Chi4SelfOverlap(trj, grid, norigins=norigins)


def impl_time(trj: 'traj', grid: 'list', norigins: 'int', cls: ('msd', 'alpha2', 'vacf', 'sacf', 'qs', 'q', 'chi4')):
    cf = times(cls, trj, grid, norigins)
    cf.compute()
    x, y = cf.compute()
    return list(x), list(y)


def spec_time(trj: 'traj', grid: 'list', norigins: 'int', cls: ('msd', 'alpha2', 'vacf', 'sacf', 'qs', 'q', 'chi4')):
    x, y = times(cls, trj, grid, norigins).compute()
    return list(x), list(y)


def scattering(cls, trj, kv, tgrid):
    if cls == 'fast':
        cf = SelfIntermediateScatteringFast(trj, tgrid=tgrid)
    elif cls == 'legacy':
        cf = SelfIntermediateScatteringLegacy(trj, tgrid=tgrid)
    else:
        cf = IntermediateScattering(trj, tgrid=tgrid)
    cf.kvectors = kv
    return cf


def impl_scattering(trj: 'traj', kv: 'list:3', tgrid: 'list', cls: ('legacy', 'fast', 'total')):
    assume(len(tgrid) > 0)
    cf = scattering(cls, trj, kv, tgrid)
    cf.compute()
    cf.compute()
    return list(cf.grid[0]), list(cf.grid[1]), [list(x) for x in cf.value]


def spec_scattering(trj: 'traj', kv: 'list:3', tgrid: 'list', cls: ('legacy', 'fast', 'total')):
    assume(len(tgrid) > 0)
    cf = scattering(cls, trj, kv, tgrid)
    cf.compute()
    return list(cf.grid[0]), list(cf.grid[1]), [list(x) for x in cf.value]


def structure(cls, trj, kv, norigins):
    cf = StructureFactorFast(trj, norigins=norigins) if cls == 'fast' else StructureFactorLegacy(trj, norigins=norigins)
    cf.kvectors = kv
    return cf


def impl_structure(trj: 'traj', kv: 'list:3', norigins: 'int', cls: ('legacy', 'fast')):
    cf = structure(cls, trj, kv, norigins)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_structure(trj: 'traj', kv: 'list:3', norigins: 'int', cls: ('legacy', 'fast')):
    cf = structure(cls, trj, kv, norigins)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_selected(trj: 'traj', grid: 'list', nk: 'int', dk: 'num'):
    assume(len(grid) > 0)
    cf = StructureFactorLegacy(trj, kgrid=grid, nk=nk, dk=dk)
    cf._setup()
    cf._setup()
    return list(cf.kgrid), cf.kvectors


def spec_selected(trj: 'traj', grid: 'list', nk: 'int', dk: 'num'):
    assume(len(grid) > 0)
    cf = StructureFactorLegacy(trj, kgrid=grid, nk=nk, dk=dk)
    cf._setup()
    return list(cf.kgrid), cf.kvectors


def impl_legacy(trj: 'traj', norigins: 'int', dr: 'num'):
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, dr=dr)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_legacy(trj: 'traj', norigins: 'int', dr: 'num'):
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, dr=dr)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_fast(trj: 'traj', norigins: 'int', dr: 'num'):
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast(trj: 'traj', norigins: 'int', dr: 'num'):
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_fast_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    assume(rmax > 0)
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_fast_rmax(trj: 'traj', norigins: 'int', dr: 'num', rmax: 'num'):
    assume(rmax > 0)
    cf = RadialDistributionFunctionFast(trj, norigins=norigins, dr=dr, rmax=rmax)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_legacy_grid(trj: 'traj', norigins: 'int', rgrid: 'list'):
    assume(len(rgrid) > 1)
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, rgrid=rgrid)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_legacy_grid(trj: 'traj', norigins: 'int', rgrid: 'list'):
    assume(len(rgrid) > 1)
    cf = RadialDistributionFunctionLegacy(trj, norigins=norigins, rgrid=rgrid)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_angles(trj: 'traj', dtheta: 'num', rcut: 'list:2'):
    cf = BondAngleDistribution(trj, dtheta=dtheta, rcut=rcut)
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_angles(trj: 'traj', dtheta: 'num', rcut: 'list:2'):
    cf = BondAngleDistribution(trj, dtheta=dtheta, rcut=rcut)
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_weight(trj: 'traj', kv: 'list:3', norigins: 'int', fluctuations: (False, True)):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.kvectors = kv
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_weight(trj: 'traj', kv: 'list:3', norigins: 'int', fluctuations: (False, True)):
    cf = StructureFactor(trj, None, norigins=norigins)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.kvectors = kv
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_spectral(trj: 'traj', radius: 'str', kv: 'list:3', norigins: 'int'):
    assume(len(trj[0].cell.side) == 3)
    cf = SpectralDensity(trj, radius, norigins=norigins)
    cf.kvectors = kv
    cf.compute()
    cf.compute()
    return list(cf.grid), list(cf.value)


def spec_spectral(trj: 'traj', radius: 'str', kv: 'list:3', norigins: 'int'):
    assume(len(trj[0].cell.side) == 3)
    cf = SpectralDensity(trj, radius, norigins=norigins)
    cf.kvectors = kv
    cf.compute()
    return list(cf.grid), list(cf.value)


def impl_susceptibility(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    cf = Susceptibility(SelfOverlap, trj, norigins=norigins, tgrid=grid, a=a)
    cf.compute()
    return cf.compute()


def spec_susceptibility(trj: 'traj', grid: 'list', norigins: 'int', a: 'num'):
    return Susceptibility(SelfOverlap, trj, norigins=norigins, tgrid=grid, a=a).compute()


def impl_partial(trj: 'traj', grid: 'list', scale: 'num'):
    cf = Partial(Two, ['A', 'B'], trj, grid, scale=scale)
    cf.compute()
    cf.compute()
    return [(k, list(cf.partial[k].grid), list(cf.partial[k].value)) for k in cf.partial]


def spec_partial(trj: 'traj', grid: 'list', scale: 'num'):
    cf = Partial(Two, ['A', 'B'], trj, grid, scale=scale)
    cf.compute()
    return [(k, list(cf.partial[k].grid), list(cf.partial[k].value)) for k in cf.partial]


def impl_four(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', a: 'num'):
    cf = S4ktOverlap(trj, tgrid, norigins=norigins, a=a)
    cf.kvectors = kv
    cf.compute()
    return cf.compute()


def spec_four(trj: 'traj', kv: 'list:3', tgrid: 'list', norigins: 'int', a: 'num'):
    cf = S4ktOverlap(trj, tgrid, norigins=norigins, a=a)
    cf.kvectors = kv
    return cf.compute()


def probe(trj, f, g, x, filters, two, fluctuations):
    cf = core_.Two(trj, None) if two else core_.One(trj, None)
    if filters > 0:
        cf.add_filter(f, x, option=x)
    if filters > 1 and two:
        cf.add_filter(g, x)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    return cf


def arrays(cf, two):
    if two:
        return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, cf._weight_0, cf._weight_1
    return cf._pos, cf._vel, cf._ids, cf._weight


def impl_arrays(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', filters: (0, 1, 2), two: (False, True), fluctuations: (False, True)):
    cf = probe(trj, f, g, x, filters, two, fluctuations)
    cf.compute()
    cf.compute()
    return arrays(cf, two)


def spec_arrays(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', filters: (0, 1, 2), two: (False, True), fluctuations: (False, True)):
    cf = probe(trj, f, g, x, filters, two, fluctuations)
    cf.compute()
    return arrays(cf, two)


def impl_filter_later(trj: 'traj', f: 'func:filter', g: 'func:filter', two: (False, True), unfolded: (False, True)):
    if unfolded:
        cf = core_.TwoUnfolded(trj, None) if two else core_.OneUnfolded(trj, None)
    else:
        cf = probe(trj, f, g, 0.0, 0, two, False)
    cf.compute()
    cf.add_filter(f)
    if two:
        cf.add_filter(g)
    cf.compute()
    return arrays(cf, two), cf._pos_unf, cf._pos_unf_0, cf._pos_unf_1


def spec_filter_later(trj: 'traj', f: 'func:filter', g: 'func:filter', two: (False, True), unfolded: (False, True)):
    if unfolded:
        cf = core_.TwoUnfolded(trj, None) if two else core_.OneUnfolded(trj, None)
    else:
        cf = probe(trj, f, g, 0.0, 0, two, False)
    cf.add_filter(f)
    if two:
        cf.add_filter(g)
    cf.compute()
    return arrays(cf, two), cf._pos_unf, cf._pos_unf_0, cf._pos_unf_1


def impl_unfolded(trj: 'traj', f: 'func:filter', filters: (0, 1, 2), two: (False, True), fix_cm: (False, True)):
    cf = core_.TwoUnfolded(trj, None, fix_cm=fix_cm) if two else core_.OneBoth(trj, None, fix_cm=fix_cm)
    if filters > 0:
        cf.add_filter(f)
    if filters > 1 and two:
        cf.add_filter(f)
    cf.compute()
    cf.compute()
    return cf._pos, cf._pos_unf, cf._pos_unf_0, cf._pos_unf_1


def spec_unfolded(trj: 'traj', f: 'func:filter', filters: (0, 1, 2), two: (False, True), fix_cm: (False, True)):
    cf = core_.TwoUnfolded(trj, None, fix_cm=fix_cm) if two else core_.OneBoth(trj, None, fix_cm=fix_cm)
    if filters > 0:
        cf.add_filter(f)
    if filters > 1 and two:
        cf.add_filter(f)
    cf.compute()
    return cf._pos, cf._pos_unf, cf._pos_unf_0, cf._pos_unf_1
