"""Command line functions: which correlation functions are computed, with which options."""

import atooms.postprocessing as pp
from atooms.postprocessing import api
from atooms.postprocessing.filter import Filter
from atooms.postprocessing.helpers import linear_grid, logx_grid
from atooms.postprocessing.partial import Partial
from atooms.trajectory import Sliced, Trajectory, TrajectoryXYZ
from atooms.trajectory.decorators import center, change_species
from atooms.core.utils import fractional_slice
from atooms.system.particle import distinct_species
from specs.prelude import assume


# ---------------------------------------------------------------- input files

def opened(files, args):
    """Stand-in for the trajectories in the input files: property P24 decides it"""
    return [Trajectory(f, fmt=args['fmt']) for f in files]


def compute_all(th, cls, filter, partial, total, update, args, kwargs):
    """The total function, or the filtered one, then the partial ones"""
    ids = distinct_species(th[0].particle)
    if total or filter is not None or len(ids) == 1:
        cf = cls(th, *args, **kwargs)
        if filter is not None:
            cf = Filter(cf, filter)
        cf.do(update=update)
    if partial and filter is None and len(ids) > 1:
        Partial(cls, ids, th, *args, **kwargs).do(update=update)


def times(th, func, upper, samples):
    grid = linear_grid if func == 'linear' else logx_grid
    return [0.0] + grid(th.timestep, upper, samples)


def wave_numbers(kgrid, kmin, kmax, ksamples):
    if kgrid is None:
        return linear_grid(kmin, kmax, ksamples)
    return [float(x) for x in kgrid.split(',')]


FILTERS = (None, 'species == "A"')


# ---------------------------------------------------------------- static

def impl_gr(path: 'str', fmt: 'str', dr: 'num', rmax: 'num', ndim: 'int', norigins: 'int', grandcanonical: 'bool', update: 'bool',
            legacy: (False, True), no_partial: (False, True), filter: (None, 'species == "A"')):
    api.gr(path, dr=dr, grandcanonical=grandcanonical, ndim=ndim, rmax=rmax, fmt=fmt, norigins=norigins, update=update, legacy=legacy, no_partial=no_partial, filter=filter)


def spec_gr(path: 'str', fmt: 'str', dr: 'num', rmax: 'num', ndim: 'int', norigins: 'int', grandcanonical: 'bool', update: 'bool',
            legacy: (False, True), no_partial: (False, True), filter: (None, 'species == "A"')):
    th = Trajectory(path, fmt=fmt)
    th._grandcanonical = grandcanonical
    cls = pp.RadialDistributionFunctionLegacy if legacy else pp.RadialDistributionFunction
    compute_all(th, cls, filter, not no_partial, True, update, (), dict(dr=dr, rmax=rmax, norigins=norigins, ndim=ndim))


def impl_gr_default(path: 'str'):
    api.gr(path)


def spec_gr_default(path: 'str'):
    th = Trajectory(path, fmt=None)
    th._grandcanonical = False
    compute_all(th, pp.RadialDistributionFunction, None, True, True, False, (), dict(dr=0.04))


def impl_sk(path: 'str', fmt: 'str', nk: 'int', dk: 'num', kmin: 'num', kmax: 'num', ksamples: 'int', norigins: 'int', update: 'bool',
            fast: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), kgrid: (None, '2.5,7.25')):
    api.sk(path, nk=nk, dk=dk, kmin=kmin, kmax=kmax, ksamples=ksamples, kgrid=kgrid, fmt=fmt, norigins=norigins, update=update, fast=fast, no_partial=no_partial, filter=filter)


def spec_sk(path: 'str', fmt: 'str', nk: 'int', dk: 'num', kmin: 'num', kmax: 'num', ksamples: 'int', norigins: 'int', update: 'bool',
            fast: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), kgrid: (None, '2.5,7.25')):
    th = Trajectory(path, fmt=fmt)
    cls = pp.StructureFactorFast if fast else pp.StructureFactorLegacy
    compute_all(th, cls, filter, not no_partial, True, update, (),
                dict(kgrid=[2.5, 7.25] if kgrid else None, norigins=norigins, kmin=kmin, kmax=kmax, ksamples=ksamples, nk=nk, dk=dk))


def impl_sk_weight(path: 'str', weight: 'str', other: 'str', fluctuations: 'bool', update: 'bool', given: (False, True)):
    api.sk(path, weight=weight, weight_trajectory=other if given else None, weight_fluctuations=fluctuations, update=update)


def spec_sk_weight(path: 'str', weight: 'str', other: 'str', fluctuations: 'bool', update: 'bool', given: (False, True)):
    th = Trajectory(path, fmt=None)
    trj = TrajectoryXYZ(other) if given else None
    cf = pp.StructureFactorLegacy(th, norigins=None)
    cf.add_weight(trajectory=trj, field=weight, fluctuations=fluctuations)
    cf.do(update=update)
    ids = distinct_species(th[0].particle)
    cf = Partial(pp.StructureFactorLegacy, ids, th, norigins=None)
    cf.add_weight(trajectory=trj, field=weight, fluctuations=fluctuations)
    cf.do(update=update)


def impl_ik(path: 'str', fmt: 'str', nk: 'int', dk: 'num', kmin: 'num', kmax: 'num', ksamples: 'int', norigins: 'int', update: 'bool', radius: 'str',
            given: (False, True), kgrid: (None, '2.5,7.25')):
    api.ik(path, trajectory_radius=radius if given else None, nk=nk, dk=dk, kmin=kmin, kmax=kmax, kgrid=kgrid, ksamples=ksamples, fmt=fmt, norigins=norigins, update=update)


def spec_ik(path: 'str', fmt: 'str', nk: 'int', dk: 'num', kmin: 'num', kmax: 'num', ksamples: 'int', norigins: 'int', update: 'bool', radius: 'str',
            given: (False, True), kgrid: (None, '2.5,7.25')):
    th = Trajectory(path, fmt=fmt)
    pp.SpectralDensity(th, radius if given else th.filename, kgrid=[2.5, 7.25] if kgrid else None, norigins=norigins,
                       kmin=kmin, kmax=kmax, ksamples=ksamples, nk=nk, dk=dk).do(update=update)


def impl_ba(path: 'str', fmt: 'str', dtheta: 'num', norigins: 'int', grandcanonical: 'bool', update: 'bool', no_partial: (False, True), filter: (None, 'species == "A"')):
    api.ba(path, dtheta=dtheta, grandcanonical=grandcanonical, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)


def spec_ba(path: 'str', fmt: 'str', dtheta: 'num', norigins: 'int', grandcanonical: 'bool', update: 'bool', no_partial: (False, True), filter: (None, 'species == "A"')):
    th = Trajectory(path, fmt=fmt)
    th._grandcanonical = grandcanonical
    compute_all(th, pp.BondAngleDistribution, filter, not no_partial, True, update, (), dict(dtheta=dtheta, norigins=norigins))


# ---------------------------------------------------------------- time dependent

def impl_msd(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', sigma: 'num', rmsd_max: 'num', fix_cm: 'bool', no_offset: 'bool',
             norigins: 'int', update: 'bool', no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx')):
    api.msd(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, sigma=sigma, func=func, rmsd_max=rmsd_max, fix_cm=fix_cm, no_offset=no_offset,
            fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)


def spec_msd(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', sigma: 'num', rmsd_max: 'num', fix_cm: 'bool', no_offset: 'bool',
             norigins: 'int', update: 'bool', no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx')):
    th = Trajectory(path, fmt=fmt)
    grid = None
    if tmax > 0:
        grid = times(th, func, min(th.total_time, tmax), tsamples)
    elif tmax_fraction > 0:
        grid = times(th, func, th.total_time * tmax_fraction, tsamples)
    compute_all(th, pp.MeanSquareDisplacement, filter, not no_partial, True, update, (),
                dict(tgrid=grid, norigins=norigins, sigma=sigma, rmax=rmsd_max, no_offset=no_offset, fix_cm=fix_cm))


def impl_vacf(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', norigins: 'int', update: 'bool',
              no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx')):
    api.vacf(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, func=func, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)


def spec_vacf(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', norigins: 'int', update: 'bool',
              no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx')):
    th = Trajectory(path, fmt=fmt)
    grid = None
    if tmax > 0:
        grid = times(th, func, min(th.total_time, tmax), tsamples)
    elif tmax_fraction > 0:
        grid = times(th, func, th.total_time * tmax_fraction, tsamples)
    compute_all(th, pp.VelocityAutocorrelation, filter, not no_partial, True, update, (grid,), dict(norigins=norigins))


def time_grid(th, func, tmax, tmax_fraction, tsamples):
    if tmax > 0:
        return times(th, func, tmax, tsamples)
    if tmax_fraction > 0:
        return times(th, func, th.total_time * tmax_fraction, tsamples)
    return None


def impl_overlaps(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', norigins: 'int', update: 'bool',
                  no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), which: ('alpha2', 'qst', 'qt')):
    if which == 'alpha2':
        api.alpha2(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, func=func, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)
    elif which == 'qst':
        api.qst(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, func=func, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)
    else:
        api.qt(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, func=func, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)


def spec_overlaps(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', norigins: 'int', update: 'bool',
                  no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), which: ('alpha2', 'qst', 'qt')):
    th = Trajectory(path, fmt=fmt)
    cls = {'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap}[which]
    grid = time_grid(th, func, tmax, tmax_fraction, tsamples)
    compute_all(th, cls, filter, not no_partial, True, update, (grid,), dict(norigins=norigins))


def impl_chi4qs(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', a: 'num', norigins: 'int', update: 'bool',
                no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), fast: (False, True)):
    api.chi4qs(path, tsamples=tsamples, a=a, tmax=tmax, func=func, tmax_fraction=tmax_fraction, fmt=fmt, norigins=norigins, update=update,
               no_partial=no_partial, filter=filter, fast=fast)


def spec_chi4qs(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', a: 'num', norigins: 'int', update: 'bool',
                no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), fast: (False, True)):
    th = Trajectory(path, fmt=fmt)
    cls = pp.Chi4SelfOverlapOptimized if fast else pp.Chi4SelfOverlap
    grid = None
    if tmax > 0:
        grid = times(th, func, min(th.total_time, tmax), tsamples)
    elif tmax_fraction > 0:
        grid = times(th, func, th.total_time * tmax_fraction, tsamples)
    compute_all(th, cls, filter, not no_partial, False, update, (grid,), dict(a=a, norigins=norigins))


def impl_chi4qs_total(path: 'str', tmax: 'num', a: 'num', norigins: 'int', update: 'bool'):
    assume(tmax > 0)
    api.chi4qs(path, tmax=tmax, a=a, total=True, norigins=norigins, update=update)


def spec_chi4qs_total(path: 'str', tmax: 'num', a: 'num', norigins: 'int', update: 'bool'):
    assume(tmax > 0)
    th = Trajectory(path, fmt=None)
    pp.Chi4SelfOverlap(th, times(th, 'logx', min(th.total_time, tmax), 60), a=a, norigins=norigins).do(update=update)


def impl_fkt(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', kmin: 'num', kmax: 'num', ksamples: 'int', dk: 'num', nk: 'int', fix_cm: 'bool',
             norigins: 'int', update: 'bool', total: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), kgrid: (None, '2.5,7.25')):
    api.fkt(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, kmin=kmin, kmax=kmax, ksamples=ksamples, dk=dk, nk=nk, kgrid=kgrid, func=func, fix_cm=fix_cm, total=total,
            fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter)


def spec_fkt(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', kmin: 'num', kmax: 'num', ksamples: 'int', dk: 'num', nk: 'int', fix_cm: 'bool',
             norigins: 'int', update: 'bool', total: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), func: ('linear', 'logx'), kgrid: (None, '2.5,7.25')):
    th = Trajectory(path, fmt=fmt)
    grid = time_grid(th, func, tmax, tmax_fraction, tsamples)
    compute_all(th, pp.IntermediateScattering, filter, not no_partial, total, update, (wave_numbers(kgrid, kmin, kmax, ksamples), grid),
                dict(norigins=norigins, nk=nk, dk=dk, fix_cm=fix_cm))


def impl_fskt(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', kmin: 'num', kmax: 'num', ksamples: 'int', dk: 'num', nk: 'int', fix_cm: 'bool', lookup_mb: 'num',
              norigins: 'int', update: 'bool', total: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), kgrid: (None, '2.5,7.25'), legacy: (False, True)):
    api.fskt(path, tmax=tmax, tmax_fraction=tmax_fraction, tsamples=tsamples, kmin=kmin, kmax=kmax, ksamples=ksamples, dk=dk, nk=nk, kgrid=kgrid, func='linear', fix_cm=fix_cm, total=total,
             lookup_mb=lookup_mb, fmt=fmt, norigins=norigins, update=update, no_partial=no_partial, filter=filter, legacy=legacy)


def spec_fskt(path: 'str', fmt: 'str', tmax: 'num', tmax_fraction: 'num', tsamples: 'int', kmin: 'num', kmax: 'num', ksamples: 'int', dk: 'num', nk: 'int', fix_cm: 'bool', lookup_mb: 'num',
              norigins: 'int', update: 'bool', total: (False, True), no_partial: (False, True), filter: (None, 'species == "A"'), kgrid: (None, '2.5,7.25'), legacy: (False, True)):
    th = Trajectory(path, fmt=fmt)
    cls = pp.SelfIntermediateScatteringLegacy if legacy else pp.SelfIntermediateScattering
    grid = time_grid(th, 'linear', tmax, tmax_fraction, tsamples)
    compute_all(th, cls, filter, not no_partial, total, update, (wave_numbers(kgrid, kmin, kmax, ksamples), grid),
                dict(norigins=norigins, nk=nk, dk=dk, fix_cm=fix_cm, lookup_mb=lookup_mb))


# ---------------------------------------------------------------- several files

def impl_files(one: 'str', two: 'str', which: ('gr', 'sk', 'ik', 'msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'ba')):
    if which == 'gr':
        api.gr(one, 0.04, False, -1, -1.0, two)
    elif which == 'sk':
        api.sk(one, 20, 0.1, -1.0, 15.0, 30, None, None, None, False, two)
    elif which == 'ik':
        api.ik(one, None, 20, 0.1, -1.0, 15.0, None, 30, two)
    elif which == 'msd':
        api.msd(one, -1.0, 0.75, 30, 1.0, 'linear', -1.0, False, False, two)
    elif which == 'vacf':
        api.vacf(one, -1.0, 0.10, 30, 'linear', two)
    elif which == 'fkt':
        api.fkt(one, -1.0, 0.75, 60, 7.0, 7.0, 1, 0.1, 100, None, 'logx', False, False, two)
    elif which == 'fskt':
        api.fskt(one, -1.0, 0.75, 60, 7.0, 8.0, 1, 0.1, 8, None, 'logx', False, False, 64.0, two)
    elif which == 'chi4qs':
        api.chi4qs(one, 60, 0.3, -1.0, 'logx', 0.75, False, two)
    elif which == 'alpha2':
        api.alpha2(one, -1.0, 0.75, 60, 'logx', two)
    elif which == 'qst':
        api.qst(one, -1.0, 0.75, 60, 'logx', two)
    elif which == 'qt':
        api.qt(one, -1.0, 0.75, 60, 'logx', two)
    else:
        api.ba(one, 4.0, False, two)


def spec_files(one: 'str', two: 'str', which: ('gr', 'sk', 'ik', 'msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'ba')):
    func = {'gr': api.gr, 'sk': api.sk, 'ik': api.ik, 'msd': api.msd, 'vacf': api.vacf, 'fkt': api.fkt, 'fskt': api.fskt, 'chi4qs': api.chi4qs,
            'alpha2': api.alpha2, 'qst': api.qst, 'qt': api.qt, 'ba': api.ba}[which]
    func(one)
    func(two)


# ---------------------------------------------------------------- trajectories

def some_slice(first, last, skip, n):
    """Documented behavior of atooms.core.utils.fractional_slice"""
    if first is not None:
        first = int(first * n) if 0 < first < 1 else int(first)
    if last is not None:
        last = int(last * n) if 0 < last < 1 else int(last)
    return slice(first, last, skip)


def impl_callbacks(one: 'str', two: 'str', fmt: 'str', layout: 'str', centered: (False, True), no_cache: (False, True), species: (False, True)):
    args = {'fmt': fmt, 'center': centered, 'no_cache': no_cache, 'species_layout': layout if species else None, 'first': None, 'last': None, 'skip': None}
    out = []
    for th in api._get_trajectories([one, two], args):
        out.append([th.steps, th.cache, [th[i] for i in range(len(th))]])
    return out


def spec_callbacks(one: 'str', two: 'str', fmt: 'str', layout: 'str', centered: (False, True), no_cache: (False, True), species: (False, True)):
    out = []
    for path in [one, two]:
        th = Trajectory(path, fmt=fmt)
        if centered:
            th.add_callback(center)
        if not no_cache:
            th.cache = True
        if species:
            th.register_callback(change_species, layout)
        out.append([th.steps, th.cache, [th[i] for i in range(len(th))]])
    return out


def impl_sliced(path: 'str', first: 'num', last: 'num', skip: 'int', has_first: (False, True), has_last: (False, True), has_skip: (False, True)):
    assume(skip > 0)
    args = {'fmt': None, 'center': False, 'no_cache': False, 'species_layout': None,
            'first': first if has_first else None, 'last': last if has_last else None, 'skip': skip if has_skip else None}
    out = []
    for th in api._get_trajectories([path], args):
        out.append([th.steps, [th[i] for i in range(len(th))]])
    return out


def spec_sliced(path: 'str', first: 'num', last: 'num', skip: 'int', has_first: (False, True), has_last: (False, True), has_skip: (False, True)):
    assume(skip > 0)
    th = Trajectory(path, fmt=None)
    th.cache = True
    n, block = len(th), th.block_size
    a, z = None, None
    if has_first:
        a = int(first * n) if 0 < first < 1 else int(first)
        if block > 1:
            a = a // block * block
    if has_last:
        z = int(last * n) if 0 < last < 1 else int(last)
        if block > 1:
            z = z // block * block
    part = Sliced(th, slice(a, z, skip if has_skip else None))
    return [[part.steps, [part[i] for i in range(len(part))]]]
