"""Particle arrays, filters, weights and life cycle of the correlation classes."""

import copy
import numpy
from atooms.trajectory.decorators import Unfolded, fold
from atooms.system.particle import distinct_species
from atooms.postprocessing.helpers import adjust_skip, copy_field, filter_species
from atooms.postprocessing.correlation import Correlation
from atooms.postprocessing.filter import Filter
from specs.common import unfolded, center_of_mass
from specs.prelude import assume


class One(Correlation):
    nbodies = 1
    symbol = 'one'
    short_name = 'one(t)'
    long_name = 'probe'
    phasespace = ['pos', 'vel', 'ids']

    def _compute(self):
        self.grid = [0]
        self.value = [1]


class OneUnfolded(One):
    phasespace = ['pos-unf']


class OneBoth(One):
    phasespace = ['pos', 'pos-unf']


class OneString(One):
    phasespace = 'pos'


class Two(One):
    nbodies = 2
    phasespace = ['pos', 'vel', 'ids']


class TwoUnfolded(Two):
    phasespace = ['pos-unf']


def indices(trj, frames):
    """Species of the particles as integers, in the order of the distinct species of the first frame."""
    names = distinct_species(trj[0].particle)
    return [numpy.array([names.index(x) for x in s.dump('species')]) for s in frames]


# ---------------------------------------------------------------- no filter

def impl_one(trj: 'traj'):
    cf = One(trj, None)
    cf.compute()
    return cf._pos, cf._vel, cf._ids


def spec_one(trj: 'traj'):
    return [s.dump('pos') for s in trj], [s.dump('vel') for s in trj], indices(trj, trj)


def impl_one_string(trj: 'traj'):
    cf = OneString(trj, None)
    cf.compute()
    return cf._pos, cf._vel, cf._pos_unf


def spec_one_string(trj: 'traj'):
    return [s.dump('pos') for s in trj], [], []


def impl_one_fixed(trj: 'traj'):
    cf = OneString(trj, None, fix_cm=True)
    cf.compute()
    return cf._pos


def spec_one_fixed(trj: 'traj'):
    th = Unfolded(trj, fixed_cm=True)
    th.add_callback(fold)
    return [s.dump('pos') for s in th]


def impl_unfolded(trj: 'traj', fix_cm: (False, True)):
    cf = OneUnfolded(trj, None, fix_cm=fix_cm)
    cf.compute()
    return cf._pos_unf


def spec_unfolded(trj: 'traj', fix_cm: (False, True)):
    return unfolded(trj, fix_cm)


def impl_both(trj: 'traj', f: 'func:filter', fix_cm: (False, True), filtered: (False, True)):
    cf = OneBoth(trj, None, fix_cm=fix_cm)
    if filtered:
        cf.add_filter(f)
    cf.compute()
    if fix_cm and hasattr(trj[0].particle[0], 'position_unfolded'):
        return cf._pos, len(cf._pos_unf)
    return cf._pos, cf._pos_unf


def spec_both(trj: 'traj', f: 'func:filter', fix_cm: (False, True), filtered: (False, True)):
    def keep(s):
        return f(s) if filtered else s
    stored = hasattr(trj[0].particle[0], 'position_unfolded')
    if stored and not fix_cm:
        return [keep(s).dump('pos') for s in trj], [keep(s).dump('particle.position_unfolded') for s in trj]
    th = Unfolded(trj, fixed_cm=fix_cm)
    th.add_callback(fold)
    pos = [keep(s).dump('pos') for s in th]
    if stored:
        return pos, len(trj)
    return pos, [keep(s).dump('pos') for s in Unfolded(trj, fixed_cm=fix_cm)]


def impl_two(trj: 'traj'):
    cf = Two(trj, None)
    cf.compute()
    return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, cf._pos_0 is cf._pos_1


def spec_two(trj: 'traj'):
    pos, vel, ids = [s.dump('pos') for s in trj], [s.dump('vel') for s in trj], indices(trj, trj)
    return pos, pos, vel, vel, ids, ids, True


# ---------------------------------------------------------------- filters

def impl_one_filter(trj: 'traj', f: 'func:filter', x: 'num', y: 'num'):
    cf = One(trj, None)
    cf.add_filter(f, x, option=y)
    cf.compute()
    return cf._pos, cf._vel, cf._ids


def spec_one_filter(trj: 'traj', f: 'func:filter', x: 'num', y: 'num'):
    th = [f(s, x, option=y) for s in trj]
    return [s.dump('pos') for s in th], [s.dump('vel') for s in th], indices(trj, th)


def impl_unfolded_filter(trj: 'traj', f: 'func:filter', x: 'num', fix_cm: (False, True)):
    cf = OneUnfolded(trj, None, fix_cm=fix_cm)
    cf.add_filter(f, x)
    cf.compute()
    return cf._pos_unf


def shifted(s):
    """A copy of the frame in the reference frame of the centre of mass."""
    cm = center_of_mass(s)
    s = copy.copy(s)
    s.particle = [copy.copy(p) for p in s.particle]
    for p in s.particle:
        p.position_unfolded = p.position_unfolded - cm
    return s


def spec_unfolded_filter(trj: 'traj', f: 'func:filter', x: 'num', fix_cm: (False, True)):
    if hasattr(trj[0].particle[0], 'position_unfolded'):
        return [f(shifted(s) if fix_cm else s, x).dump('particle.position_unfolded') for s in trj]
    return [f(s, x).dump('pos') for s in Unfolded(trj, fixed_cm=fix_cm)]


def impl_two_filter_one(trj: 'traj', f: 'func:filter', x: 'num', y: 'num'):
    cf = Two(trj, None)
    cf.add_filter(f, x, option=y)
    cf.compute()
    return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, cf._pos_0 is cf._pos_1


def spec_two_filter_one(trj: 'traj', f: 'func:filter', x: 'num', y: 'num'):
    th = [f(s, x, option=y) for s in trj]
    pos, vel, ids = [s.dump('pos') for s in th], [s.dump('vel') for s in th], indices(trj, th)
    return pos, pos, vel, vel, ids, ids, True


def impl_two_filter_two(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', y: 'num'):
    cf = Two(trj, None)
    cf.add_filter(f, x, option=y)
    cf.add_filter(g, y, option=x)
    cf.compute()
    return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, cf._pos_0 is cf._pos_1


def spec_two_filter_two(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', y: 'num'):
    a = [f(s, x, option=y) for s in trj]
    b = [g(s, y, option=x) for s in trj]
    return ([s.dump('pos') for s in a], [s.dump('pos') for s in b], [s.dump('vel') for s in a], [s.dump('vel') for s in b],
            indices(trj, a), indices(trj, b), False)


def impl_unfolded_filter_bare(trj: 'traj', f: 'func:filter', y: 'num', option: (False, True)):
    cf = OneUnfolded(trj, None)
    if option:
        cf.add_filter(f, option=y)
    else:
        cf.add_filter(f)
    cf.compute()
    return cf._pos_unf


def spec_unfolded_filter_bare(trj: 'traj', f: 'func:filter', y: 'num', option: (False, True)):
    def keep(s):
        return f(s, option=y) if option else f(s)
    if hasattr(trj[0].particle[0], 'position_unfolded'):
        return [keep(s).dump('particle.position_unfolded') for s in trj]
    return [keep(s).dump('pos') for s in Unfolded(trj, fixed_cm=False)]


def impl_one_filter_bare(trj: 'traj', f: 'func:filter', y: 'num', two: (False, True), option: (False, True)):
    cf = Two(trj, None) if two else One(trj, None)
    if option:
        cf.add_filter(f, option=y)
    else:
        cf.add_filter(f)
    cf.add_weight(field='radius')
    cf.compute()
    if two:
        return cf._pos_0, cf._vel_0, cf._ids_0, cf._weight_0
    return cf._pos, cf._vel, cf._ids, cf._weight


def spec_one_filter_bare(trj: 'traj', f: 'func:filter', y: 'num', two: (False, True), option: (False, True)):
    th = [f(s, option=y) if option else f(s) for s in trj]
    return [s.dump('pos') for s in th], [s.dump('vel') for s in th], indices(trj, th), [s.dump('particle.radius') for s in th]


def impl_two_fixed(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', y: 'num'):
    cf = Two(trj, None, fix_cm=True)
    cf.add_filter(f, x, option=y)
    cf.add_filter(g, y, option=x)
    cf.compute()
    return cf._pos_0, cf._pos_1


def spec_two_fixed(trj: 'traj', f: 'func:filter', g: 'func:filter', x: 'num', y: 'num'):
    def folded(h, x, y):
        # An unfolded trajectory cannot be rewound
        th = Unfolded(trj, fixed_cm=True)
        th.add_callback(fold)
        return [h(s, x, option=y).dump('pos') for s in th]
    return folded(f, x, y), folded(g, y, x)


def impl_two_unfolded(trj: 'traj', f: 'func:filter', g: 'func:filter', fix_cm: (False, True), x: 'num', y: 'num'):
    cf = TwoUnfolded(trj, None, fix_cm=fix_cm)
    cf.add_filter(f, x, option=y)
    cf.add_filter(g, y, option=x)
    cf.compute()
    return cf._pos_unf_0, cf._pos_unf_1


def spec_two_unfolded(trj: 'traj', f: 'func:filter', g: 'func:filter', fix_cm: (False, True), x: 'num', y: 'num'):
    return ([f(s, x, option=y).dump('pos') for s in Unfolded(trj, fixed_cm=fix_cm)],
            [g(s, y, option=x).dump('pos') for s in Unfolded(trj, fixed_cm=fix_cm)])


def impl_too_many(trj: 'traj', f: 'func:filter', two: (False, True)):
    cf = Two(trj, None) if two else One(trj, None)
    cf.add_filter(f)
    if two:
        cf.add_filter(f)
    cf.add_filter(f)


def spec_too_many(trj: 'traj', f: 'func:filter', two: (False, True)):
    adjust_skip(trj, None)
    raise ValueError('too many')


def impl_species_any(trj: 'traj', species: (0, 1, '', 'A', '0', None)):
    return [p for p in filter_species(trj[0], species).particle]


def spec_species_any(trj: 'traj', species: (0, 1, '', 'A', '0', None)):
    if species is None:
        return [p for p in trj[0].particle]
    return [p for p in trj[0].particle if p.species == species]


def impl_another(trj: 'traj', f: 'func:filter', two: (False, True)):
    other = Two(trj, None) if two else One(trj, None)
    other.add_filter(f)
    other.add_weight(field='radius')
    other.compute()
    cf = Two(trj, None) if two else One(trj, None)
    cf.compute()
    if two:
        return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, cf._weight
    return cf._pos, cf._vel, cf._weight


def spec_another(trj: 'traj', f: 'func:filter', two: (False, True)):
    cf = Two(trj, None) if two else One(trj, None)
    cf.compute()
    if two:
        return cf._pos_0, cf._pos_1, cf._vel_0, cf._vel_1, cf._ids_0, cf._ids_1, None
    return cf._pos, cf._vel, None


def impl_species(s: 'system', species: 'str'):
    return [p for p in filter_species(s, species).particle], [p for p in filter_species(s, None).particle]


def spec_species(s: 'system', species: 'str'):
    return [p for p in s.particle if p.species == species], [p for p in s.particle]


def impl_condition(trj: 'traj'):
    cf = Filter(One(trj, None), 'species == "A" and radius > 0.5')
    cf.compute()
    return cf._pos, cf._vel


def spec_condition(trj: 'traj'):
    keep = [[p for p in s.particle if p.species == 'A' and p.radius > 0.5] for s in trj]
    return [numpy.array([p.position for p in particle]) for particle in keep], [numpy.array([p.velocity for p in particle]) for particle in keep]


def impl_condition_two(trj: 'traj'):
    cf = Filter(Two(trj, None), 'species == "A",species == "B"')
    cf.compute()
    return cf._pos_0, cf._pos_1


def spec_condition_two(trj: 'traj'):
    return ([numpy.array([p.position for p in s.particle if p.species == 'A']) for s in trj],
            [numpy.array([p.position for p in s.particle if p.species == 'B']) for s in trj])


def impl_condition_first(trj: 'traj'):
    cf = Filter(Two(trj, None), 'species == "A"')
    cf.compute()
    return cf._pos_0, cf._pos_1


def spec_condition_first(trj: 'traj'):
    return ([numpy.array([p.position for p in s.particle if p.species == 'A']) for s in trj],
            [numpy.array([p.position for p in s.particle]) for s in trj])


# ---------------------------------------------------------------- weights

def impl_weight(trj: 'traj', two: (False, True), fluctuations: (False, True)):
    cf = Two(trj, None) if two else One(trj, None)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.compute()
    return (cf._weight_0, cf._weight_1) if two else (cf._weight, cf._weight)


def spec_weight(trj: 'traj', two: (False, True), fluctuations: (False, True)):
    w = [s.dump('particle.radius') for s in trj]
    if fluctuations:
        mean = sum(x.mean() for x in w) / len(w)
        w = [x - mean for x in w]
    return w, w


def impl_weight_two(trj: 'traj', f: 'func:filter', g: 'func:filter', fluctuations: (False, True), x: 'num', y: 'num'):
    cf = Two(trj, None)
    cf.add_filter(f, x, option=y)
    cf.add_filter(g, y, option=x)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.compute()
    return cf._weight_0, cf._weight_1


def spec_weight_two(trj: 'traj', f: 'func:filter', g: 'func:filter', fluctuations: (False, True), x: 'num', y: 'num'):
    def weight(h, x, y):
        w = [h(s, x, option=y).dump('particle.radius') for s in trj]
        if fluctuations:
            mean = sum(x.mean() for x in w) / len(w)
            w = [x - mean for x in w]
        return w
    return weight(f, x, y), weight(g, y, x)


def impl_weight_filter(trj: 'traj', f: 'func:filter', fluctuations: (False, True), two: (False, True), x: 'num', y: 'num'):
    cf = Two(trj, None) if two else One(trj, None)
    cf.add_filter(f, x, option=y)
    cf.add_weight(field='radius', fluctuations=fluctuations)
    cf.compute()
    return (cf._weight_0, cf._weight_1) if two else (cf._weight, cf._weight)


def spec_weight_filter(trj: 'traj', f: 'func:filter', fluctuations: (False, True), two: (False, True), x: 'num', y: 'num'):
    w = [f(s, x, option=y).dump('particle.radius') for s in trj]
    if fluctuations:
        mean = sum(x.mean() for x in w) / len(w)
        w = [x - mean for x in w]
    return w, w


def impl_weight_none(trj: 'traj'):
    cf = Two(trj, None)
    cf.add_weight()
    cf.compute()
    return cf._weight, cf._weight_0, cf._weight_1, cf.tag


def spec_weight_none(trj: 'traj'):
    return None, None, None, ''


def impl_weight_other(trj: 'traj', other: 'traj', two: (False, True), fluctuations: (False, True)):
    cf = Two(trj, None) if two else One(trj, None)
    cf.add_weight(other, 'radius', fluctuations)
    cf.compute()
    return ((cf._weight_0, cf._weight_1) if two else (cf._weight, cf._weight)), cf.tag, cf.tag_description


def spec_weight_other(trj: 'traj', other: 'traj', two: (False, True), fluctuations: (False, True)):
    trj.add_callback(copy_field, 'radius', other)
    if other.steps != trj.steps:
        raise ValueError('inconsistent trajectories')
    w = [s.dump('particle.radius') for s in trj]
    if fluctuations:
        mean = sum(x.mean() for x in w) / len(w)
        w = [x - mean for x in w]
    if fluctuations:
        return (w, w), '.radius_fluctuations', 'the whole system with radius fluctuations field'
    return (w, w), '.radius_', 'the whole system with radius field'


def impl_weight_counted(trj: 'traj', two: (False, True), fluctuations: (False, True)):
    # the field may hold integers
    cf = Two(trj, None) if two else One(trj, None)
    cf.add_weight(field='neighbors_number', fluctuations=fluctuations)
    cf.compute()
    return (cf._weight_0, cf._weight_1) if two else (cf._weight, cf._weight)


def spec_weight_counted(trj: 'traj', two: (False, True), fluctuations: (False, True)):
    w = [s.dump('particle.neighbors_number') for s in trj]
    if fluctuations:
        mean = sum(x.mean() for x in w) / len(w)
        w = [x - mean for x in w]
    return w, w


def impl_weight_tag(trj: 'traj', fluctuations: (False, True)):
    cf = One(trj, None)
    cf.tag = 'A'
    cf.tag_description = 'species A'
    cf.add_weight(field='radius', fluctuations=fluctuations)
    return cf.tag, cf.tag_description


def spec_weight_tag(trj: 'traj', fluctuations: (False, True)):
    return ('A.radius_fluctuations', 'species A with radius fluctuations field') if fluctuations else ('A.radius_', 'species A with radius field')


def impl_copied(trj: 'traj', other: 'traj', i: 'int'):
    assume(i >= 0)
    assume(i < len(trj.steps))
    assume(i < len(other.steps))
    system = trj[0]
    system.frame = i
    s = copy_field(system, 'radius', other)
    return [p.radius for p in s.particle], [p.mass for p in s.particle]


def spec_copied(trj: 'traj', other: 'traj', i: 'int'):
    assume(i >= 0)
    assume(i < len(trj.steps))
    assume(i < len(other.steps))
    system = trj[0]
    system.frame = i
    for p, q in zip(system.particle, other[i].particle):
        p.radius = q.radius
    return [p.radius for p in system.particle], [p.mass for p in system.particle]


def impl_weight_unknown(trj: 'traj', other: 'traj'):
    cf = One(trj, None)
    cf.add_weight(other)
    return cf.tag


def spec_weight_unknown(trj: 'traj', other: 'traj'):
    raise ValueError('no field')


def impl_filter_many(trj: 'traj'):
    cf = Filter(Two(trj, None), 'mass > 1, mass < 2, radius > 1')
    return cf.tag


def spec_filter_many(trj: 'traj'):
    raise ValueError('too many conditions')
