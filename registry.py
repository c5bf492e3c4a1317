"""Which obligations and rules decide each property."""

import os
import resource
import signal
import time

from sa import driver
from sa import terms as T


class Vanished(Exception):
    """A public entry point that the property is about no longer exists."""


DEEP_SECONDS, DEEP_MEMORY = 120, 3 << 30


def bounded(function, seconds):
    """Result of the function, or None if it fails, takes longer or much memory."""
    class Stop(BaseException):
        pass

    def out(*args):
        raise Stop()

    t = time.time()
    handler = signal.getsignal(signal.SIGALRM)
    left = signal.alarm(0)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (DEEP_MEMORY, hard))
        signal.signal(signal.SIGALRM, out)
        signal.alarm(min(left, seconds) if left else seconds)
        return function()
    except (Exception, Stop):
        return None
    finally:
        signal.alarm(0)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        signal.signal(signal.SIGALRM, handler)
        if left:
            signal.alarm(max(1, int(left - (time.time() - t))))


class Ob(object):
    """A pair impl_x / spec_x of a specification module."""

    thorough_only = False

    def __init__(self, module, name, cost=1, thorough=False, **kw):
        self.module, self.oname, self.cost, self.kw = 'specs.' + module, name, cost, kw
        self.name = '%s.%s' % (module, name)
        self.thorough_only = thorough

    def run(self, tier):
        ob = driver.Obligation(self.module, self.oname, **self.kw)
        mm = ob.decide()
        if ob.status in ('different', 'undecided') and ob.contracts:
            # without the assumed interfaces of the helpers
            deep = driver.Obligation(self.module, self.oname, **dict(self.kw, contracts=False))
            dm = bounded(deep.decide, DEEP_SECONDS)
            if dm is not None and deep.status in ('proved', 'equal'):
                ob, mm = deep, dm
            elif dm is None and ob.status == 'different' and not ob.same_helpers:
                # one of the two may only do without the helper
                ob.status = 'undecided'
        r = {'name': self.name, 'status': ob.status, 'functions': sorted(ob.stats['functions']), 'callsites': ob.stats['callsites'],
             'cases': ob.stats['cases'], 'loops': ob.stats['loops']}
        if ob.status in ('different', 'undecided'):
            m = mm[0]
            x, y = driver.narrow(m.impl, m.spec)
            r['detail'] = '%s%s differs; %s' % (m.what, ' in case %s' % driver.show_case(m.case) if m.case[0] or m.case[1] else '', ob.witness)
            r['where'] = driver.locate(ob, m, x) + ['implementation: ' + T.short(x, 600), 'reference:      ' + T.short(y, 600)]
            r['gaveup'] = [list(map(str, g)) for g in ob.gaveup[:5]]
        return r


def obs(module, *names, **kw):
    return [Ob(module, n, **kw) for n in names]


D = {'contracts': False}


# Values of the parameters in the random interpretation, where the default ones are not meaningful

def h_tag(m, t):
    return ['A-A', 'x-_', 'x_-', '', '._y-', 'a--b', 'c..d__e', 'z', '-._'][m.h('tag') % 9]


def h_steps(m, t):
    out, s = [], m.h('t0') % 3
    for k in range(6):
        out.append(s)
        s += 1 + m.h('t', k) % (1 if m.seed % 3 == 0 else 3)
    return out


def h_pairs(m, t):
    return [[m.h('off', k) % 2, m.h('lag', k) % 4] for k in range(3)]


def h_lags(m, t):
    return [m.h('lag', k) % 4 for k in range(3)]


def h_frames(rank):
    return lambda m, t: m.shaped(rank, lambda *ix: m.u('x', ix), (6, 4, 3)[:rank])


def h_skip(m, t):
    return 1 + m.h('skip') % 3


def h_kv(m, t):
    # multiples of the smallest wave-vectors of the (fixed) cell, slightly off
    return [[[(m.h('kv', i, j, d) % 7 - 3) * 2.4 + 0.2 * m.u('kvx', i, j, d) for d in range(m.ndim)] for j in range(1 + m.h('nkv', i) % 3)]
            for i in range(1 + m.h('nk') % 2)]


def h_k0(m, t):
    return [1.0 + 0.6 * m.u('k0', d) for d in range(m.ndim)]


def h_kgrid(m, t):
    return [1.2 + 0.7 * k + 0.3 * m.u('kg', k) for k in range(3)]


def h_dk(m, t):
    return [(0.25 if m.seed % 2 else 0.6) + 0.2 * m.u('dk', k) for k in range(3)]


def h_kgrid_bad(m, t):
    # unsorted, the smallest possibly negative
    return [5.6 + 0.5 * m.u('kg', 0), (-1.0 if m.seed % 3 == 0 else 2.5) + 0.4 * m.u('kg', 1), 4.0 + 0.5 * m.u('kg', 2)]


def h_dr(m, t):
    return 0.25 if m.seed % 4 >= 2 else 0.15 + 0.2 * m.u('dr')


def h_rgrid(m, t):
    dr = 0.15 + 0.2 * m.u('dr')
    return [dr / 2 + m.u('r0') + dr * k for k in range(2 + m.h('nr') % 8)]


def h_points(name):
    # in the cell
    return lambda m, t: m.shaped(2, lambda *ix: -1 + 2 * m.u(name, ix), (npoints(m, name), m.ndim))


def h_cell_points(name):
    # in the cell, one time in two close to its faces
    def point(m, ix):
        u = 2 * m.u(name, ix) - 1
        if m.seed % 2:
            u = (1 - 0.15 * abs(u)) * (1 if u > 0 else -1)
        return u * h_box(m, None)[ix[1]] / 2
    return lambda m, t: m.shaped(2, lambda *ix: point(m, ix), (npoints(m, name), m.ndim))


def npoints(m, name):
    return 3 + m.h('number of', name) % 4


def h_memory(m, t):
    # Mb, for some blocks of particles
    return 0.002 + 0.02 * m.u('memory')


def h_size(m, t):
    return 1 + m.h('n') % 9


def h_near(m, t):
    # entries beyond the number of neighbors have no meaning, but the index is valid
    return [[m.h('near', i, j) % 3 for j in range(4)] for i in range(npoints(m, 'x'))]


def h_number(m, t):
    return [m.h('many', i) % 4 for i in range(npoints(m, 'x'))]


def h_delta(m, t):
    return 0.2 * m.u('delta')


def h_center(m, t):
    return [-1 + 2 * m.u('center', d) for d in range(m.ndim)]


def h_ids(m, t):
    return [1 + m.h('id', i) % 2 for i in range(9)]


def h_cutoffs(m, t):
    from sa import models
    c = [[0.5 + 0.9 * m.u('rc', i, j) for j in range(3)] for i in range(3)]
    return c if models.RANK.get(t) == 2 else c[0]


def h_some(m, t):
    n = npoints(m, 'x')
    return [i for i in range(n) if m.h('some', i) % 3]


def h_dtheta(m, t):
    return 4.0 if m.seed % 2 else 35.0


def h_expo(m, t):
    from sa import models
    return m.shaped(models.RANK.get(t), lambda *ix: m.u('ere', ix) + 1j * m.u('eim', ix), ([3] if models.RANK.get(t) == 4 else []) + [4, 3, 5])


def h_ik(m, t):
    from sa import models
    return m.shaped(models.RANK.get(t), lambda *ix: 1 + m.h('ik', ix) % 5, [3, m.h('n') % 9][:models.RANK.get(t)])


def h_box(m, t):
    return [2.0 + m.u('box', d) for d in range(m.ndim)]


def h_rmax(m, t):
    # possibly the centre of a bin
    return -1.0 if m.seed % 2 else 0.875 if m.seed % 4 == 2 else 0.6 + 0.5 * m.u('rmax')


def h_reach(m, t):
    # with and without linked cells, possibly the centre of a bin
    if m.seed % 4 >= 2:
        return 0.375 if m.seed % 2 else 0.875
    return 0.35 + 0.2 * m.u('rmax') if m.seed % 2 else 0.8 + 0.3 * m.u('rmax')


def h_species(m, t):
    return ['A', 'B', 'AB', 'a', 'Z'][m.seed % 5]


def h_times(m, t):
    return [(0.0 if m.seed % 2 else 0.3) + 0.6 * k for k in range(1 + m.seed % 4)]


def h_many(m, t):
    return -1 if m.h('no') % 3 else 4


def h_later(m, t):
    return [0.5 * (k + m.u('later', k)) + 0.1 for k in range(4)]


def h_decay(m, t):
    return [[(1 - 0.3 * j) * (0.5 + m.u('f', i, j)) for j in range(5)] for i in range(3)]


def h_side(m, t):
    return 0.3 + 0.6 * m.u('a')


def h_timegrid(m, t):
    from sa import rand
    trj = rand.Ext(m, 'traj', 'trj')
    end = m.attr(trj, 'total_time') * (0.5 + 0.6 * m.u('end'))
    return [0.0] + sorted(end * m.u('time', i) for i in range(m.h('nt') % 7)) + [end]


def h_dk1(m, t):
    return 0.4 if m.seed % 2 else 1.1


def h_kmin(m, t):
    return -1.0 if m.seed % 3 == 0 else 2.9 + 0.3 * m.u('kmin')


def h_kmax(m, t):
    return 4.5 + m.u('kmax')


def h_shells(m, args):
    # the outcome of a further attempt with wider shells
    x = 1000 * m.uf('reccall', [args])
    shells = [[[int(x * (1 + i + 3 * j + 7 * d)) % 7 for d in range(m.ndim)] for j in range(2 + i)] for i in range(len(args[1]))]
    return [shells, 3]


def series(grid, rank):
    return {'hints': {'t': h_steps, 'grid': grid, 'x': h_frames(rank), 'skip': h_skip}}



WAVES = {driver.PKG + '.fourierspace.expo_sphere': driver.replaced_by('specs.fourier_', 'plane_waves')}

# The cell is the same in all frames (property P18 is about the others)
FIXED = {driver.PKG + '.sk.is_cell_variable': lambda interp, S, func, vals: T.FALSE,
         'ext:atooms.trajectory.utils.is_cell_variable': lambda interp, S, args, kw: T.FALSE}

# Property P27 decides linked cells
CELLS = {driver.PKG + '.linkedcells.LinkedCells.__init__': driver.replaced_by('specs.cells_', 'set_reach'),
         driver.PKG + '.linkedcells.LinkedCells.compute': driver.replaced_by('specs.cells_', 'within_reach')}

KERNELS = {'x': h_points('x'), 'y': h_points('y'), 'side': h_box, 'n': h_size, 'dr': h_dr, 'pairs': h_near, 'number': h_number, 'delta': h_delta,
           'center': h_center, 'ids': h_ids, 'rcut': h_cutoffs, 'neighbors': h_some, 'dtheta': h_dtheta, 'a_square': lambda m, t: 0.5 + m.u('a'),
           'expo': h_expo, 'k': h_ik, 't': h_skip, 'u': lambda m, t: 1 + m.h('u') % 3}

# Property P09 decides the radial distribution function
SOME_RDF = {driver.PKG + '.gr.RadialDistributionFunctionFast._compute': driver.replaced_by('specs.ba_', 'some_rdf')}



def two_species(interp, S, args, kw):
    return S.alloc('list', T.seq((T.string('A'), T.string('B'))))


TWO = {'ext:atooms.system.particle.distinct_species': two_species}

ONE = {'ext:atooms.system.particle.distinct_species': lambda interp, S, args, kw: S.alloc('list', T.seq((T.string('A'),)))}


def reported(interp, S, func, vals):
    interp.event(S, 'do', *vals.values())
    return T.NONE


# Command line functions: properties P13, P19 and P24 decide the rest
RUNS = {driver.PKG + '.correlation.Correlation.do': reported, driver.PKG + '.partial.Partial.do': reported,
        driver.PKG + '.api._get_trajectories': driver.replaced_by('specs.api_', 'opened')}

SLICE = {'ext:atooms.core.utils.fractional_slice': driver.external('specs.api_', 'some_slice')}


def h_first(m, t):
    # fractions or indices, possibly from the end
    name = t.args[0]
    return 0.1 + 0.8 * m.u(name) if m.h(name) % 3 == 0 else [0, 1, 2, 3, 4, -1, -2][m.h(name, 1) % 7]


API = ['gr', 'gr_default', 'sk', 'sk_weight', 'ik', 'ba', 'msd', 'vacf', 'overlaps', 'chi4qs', 'fkt', 'fskt', 'files']

ANGLES = {'fixed_cell': True, 'canonical': True, 'dtheta': h_dtheta, 'rcut': h_cutoffs}

SCATTERING = {'kv': h_kv, 'fixed_cell': True, 'canonical': True, 'tgrid': h_times}
DISTANCES = {'ndim': [3, 2, 1, 4, 5, 3, 2], 'fixed_cell': True, 'canonical': True, 'dr': h_dr, 'rmax': h_rmax, 'grid': h_rgrid}
VARYING = {k: v for k, v in DISTANCES.items() if k != 'canonical'}

# Without compiled extensions, without tqdm, with it
ALONE = {'no_extensions': True}
NO_TQDM = {'progress': True, 'missing': ('medepy', 'tqdm')}
OWN = {'progress': True}

PROPERTIES = {
    'P01': obs('p01', 'gcf_offset', **series(h_pairs, 3)) + obs('p01', 'gcf', **series(h_lags, 3)) + obs('p01', 'acf', **series(h_lags, 1)),
    'P04': obs('p04', 'msd_grid', 'msd_default_grid', 'alpha2', 'vacf', 'sacf') + obs('p04', 'defaults') + obs('p04', 'msd_rmax', 'origins', cost=5),
    'P05': obs('p05', 'self_overlap', 'self_overlap_default', 'collective_overlap', 'chi4', 'chi4_fast', 'overlap_kernel', 'defaults') + obs('p05', 'origins', cost=8) + obs('p05', 'susceptibility', hints={'norigins': h_many, 'a': h_side, 'grid': h_timegrid}) + obs('sk_', 'four', extra=WAVES, hints={'kv': h_kv, 'a': h_side, 'tgrid': h_timegrid}),
    'P02': obs('helpers_', 'skip_all', hints={'signed': ('n',)}, **D) + obs('helpers_', 'skip_one', 'skip_many', 'skip_many_str', 'skip_fraction', 'skip_default', **D) + obs('helpers_', 'skip_fraction_any', hints={'n': lambda m, t: 0.05 + 0.9 * m.u('n')}, **D),
    'P03': obs('helpers_', 't_grid', **D),
    'P11': obs('ba_', 'angles', 'angles_one', 'angles_two', hints=ANGLES) + obs('ba_', 'cutoffs', extra=dict(SOME_RDF, **TWO), hints=ANGLES),
    'P12': obs('core_', 'one_filter', 'one_filter_bare', 'two_filter_one', 'two_filter_two', 'two_unfolded', 'unfolded_filter', 'unfolded_filter_bare', 'too_many', 'condition', 'condition_two', 'condition_first', 'filter_many', 'species_any', 'another') + obs('core_', 'species', hints={'species': h_species}),
    'P13': obs('partial_', 'one', 'two', 'ordered', 'weight', 'do', 'do_two', 'path', 'update'),
    'P14': obs('core_', 'one', 'one_string', 'one_fixed', 'unfolded', 'both', 'two', 'two_unfolded', 'two_fixed', 'unfolded_filter', 'unfolded_filter_bare', 'one_filter', 'one_filter_bare', 'two_filter_one', 'two_filter_two'),
    'P15': obs('core_', 'weight', 'weight_two', 'weight_filter', 'weight_counted', 'weight_tag', 'weight_none', 'weight_other', 'weight_unknown', 'copied'),
    'P19': obs('life_', 'compute', 'do', 'do_unable', 'do_call', 'need_update', 'need_update_stdout', 'analyze_default', 'read_one'),
    'P20': obs('life_', 'write', 'write_tag', 'write_two', 'path_names', 'path_later', 'write_another', 'grid_name') + obs('life_', 'write_path', hints={'tag': h_tag}) + obs('life_', 'no_path', hints={'no_filename': True}),
    'P16': obs('fourier_', 'vectors', 'report', hints={'kv': h_kv}) + obs('fourier_', 'sphere', hints={'k0': h_k0, 'kgrid': h_kgrid, 'dk': h_dk, 'reccall': h_shells}) + obs('fourier_', 'selected', hints={'grid': h_kgrid_bad, 'nk': h_skip, 'dk': h_dk1, 'reccall': h_shells}) + obs('fourier_', 'default_grid', hints={'kmin': h_kmin, 'kmax': h_kmax, 'ksamples': h_skip, 'reccall': h_shells}),
    'P07': obs('fkt_', 'self_large', extra=WAVES, hints=dict(SCATTERING, particles=[47, 21, 40], frames=5)) + obs('fkt_', 'self_memory', extra=WAVES, hints=dict(SCATTERING, particles=[7, 5, 11], lookup_mb=h_memory)) + obs('fkt_', 'self', 'self_fast', 'total', 'cross', extra=WAVES, hints=SCATTERING) + obs('fkt_', 'defaults', 'origins', cost=8, extra=WAVES, hints=SCATTERING),
    'P06': obs('sk_', 'total', 'partial', 'cross', 'weight', 'weight_cross', 'fast', 'fast_cross', extra=dict(WAVES, **FIXED), hints={'kv': h_kv, 'fixed_cell': True}),
    'P08': obs('sk_', 'spectral', extra=dict(WAVES, **FIXED), hints={'kv': h_kv, 'fixed_cell': True, 'canonical': True, 'ndim': [3] * 7}),
    'P09': obs('gr_', 'large', cost=6, hints=dict(DISTANCES, particles=[330, 350], frames=2, ndim=[2, 3, 1, 2, 3, 2, 2], assignments=4)) + obs('gr_', 'legacy', 'legacy_cross', 'legacy_grid', 'fast', 'fast_cross', hints=DISTANCES) + obs('gr_', 'varying', 'varying_cross', hints=VARYING) + obs('gr_', 'fast_rmax', 'fast_cross_rmax', extra=CELLS, hints={'fixed_cell': True, 'canonical': True, 'dr': h_dr, 'rmax': h_reach}),
    'P10': obs('kernels_', 'gr_self', 'gr_distinct', 'gr_neighbors_self', 'gr_neighbors_distinct', 'on_surface', 'neighbors', 'neighbors_list', 'neighbors_distinct',
               'bond_angle', 'self_overlap', 'density', 'self_kernel', hints=KERNELS),
    'P27': obs('cells_', 'pairs', 'pairs_both', 'other', 'open', 'other_open', 'again', 'again_other', 'again_open', 'array', cost=4,
               hints={'x': h_cell_points('x'), 'y': h_cell_points('y'), 'box': h_box, 'rcut': lambda m, t: 0.55 + 0.11 * m.u('rcut'), 'periodic': lambda m, t: [bool(m.h('periodic', d) % 2) for d in range(m.ndim)]}),
    'P23': obs('api_', *API, extra=dict(RUNS, **TWO)) + obs('api_', 'chi4qs_total', extra=dict(RUNS, **ONE)),
    'P24': obs('api_', 'callbacks', 'sliced', extra=SLICE, hints={'first': h_first, 'last': h_first, 'skip': h_skip}),
    'P25': obs('names_', 'defaults') + obs('names_', 'defaults_without', config=ALONE) + obs('names_', 'fallback', config=ALONE, extra=WAVES, hints=dict(SCATTERING, **DISTANCES)) + obs('p04', 'msd_grid', 'alpha2', 'vacf', config=ALONE) + obs('p05', 'self_overlap', 'collective_overlap', 'chi4', config=ALONE)
           + obs('fkt_', 'self', 'total', config=ALONE, extra=WAVES, hints=SCATTERING) + obs('sk_', 'total', config=ALONE, extra=dict(WAVES, **FIXED), hints={'kv': h_kv, 'fixed_cell': True}) + obs('gr_', 'legacy', config=ALONE, hints=DISTANCES),
    'P30': obs('names_', 'plain', 'again', config=NO_TQDM) + obs('names_', 'bar', 'bar_again', config=OWN),
    'P17': obs('fourier_', 'expo', 'expo_frames'),
    'P21': obs('life_', 'twice') + obs('again_', 'time') + obs('again_', 'scattering', extra=WAVES, hints=SCATTERING, cost=8) + obs('again_', 'structure', 'weight', extra=dict(WAVES, **FIXED), hints={'kv': h_kv, 'fixed_cell': True}) + obs('again_', 'spectral', extra=dict(WAVES, **FIXED), hints={'kv': h_kv, 'fixed_cell': True, 'canonical': True, 'ndim': [3] * 7}) + obs('again_', 'partial', 'arrays', 'unfolded', 'filter_later') + obs('again_', 'susceptibility', hints={'norigins': h_many, 'a': h_side, 'grid': h_timegrid}) + obs('again_', 'four', extra=WAVES, hints={'kv': h_kv, 'a': h_side, 'tgrid': h_timegrid})
           + obs('again_', 'legacy', 'legacy_grid', 'fast', hints=DISTANCES) + obs('again_', 'fast_rmax', extra=CELLS, hints={'fixed_cell': True, 'canonical': True, 'dr': h_dr, 'rmax': h_reach}) + obs('again_', 'angles', hints=ANGLES) + obs('again_', 'selected', hints={'grid': h_kgrid_bad, 'nk': h_skip, 'dk': h_dk1, 'reccall': h_shells}),
    'P22': obs('life_', 'path_or_trajectory', 'trajectory_kept'),
    'P28': obs('helpers_', 'extrema', 'fit', 'root', **D),
    'P31': obs('analysis_', 'diffusion', 'overlap', 'write_tau', 'write_chi4') + obs('analysis_', 'tau', hints={'k': h_kgrid, 'times': h_later, 'f': h_decay}) + obs('analysis_', 'chi4', 'alpha2', cost=9),
    'P29': obs('helpers_', 'linear_grid_n', 'linear_grid_delta', 'logx_grid', **D),
}
