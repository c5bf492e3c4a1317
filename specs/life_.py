"""Life cycle of a correlation object: compute, analyze, write, update, read."""

import datetime
import os
import numpy
from atooms.trajectory import Trajectory
from atooms.core.utils import mkdir
from atooms.postprocessing import core
from atooms.postprocessing.correlation import Correlation
from specs.prelude import assume


class Probe(Correlation):
    nbodies = 1
    symbol = 'probe'
    short_name = 'p(t)'
    long_name = 'probe'
    phasespace = []

    def _compute(self):
        self.grid = [2 * x for x in self.grid]
        self.value = [3 * x for x in self.grid]

    def analyze(self):
        self.analysis['last value'] = self.value[-1]


def impl_compute(trj: 'traj', grid: 'list'):
    cf = Probe(trj, grid)
    out = cf.compute()
    return out, cf.grid, cf.value


def spec_compute(trj: 'traj', grid: 'list'):
    x = [2 * _ for _ in grid]
    y = [6 * _ for _ in grid]
    return (x, y), x, y


def impl_twice(trj: 'traj', grid: 'list'):
    cf = Probe(trj, grid)
    cf.compute()
    cf.compute()
    return cf.grid, cf.value


def spec_twice(trj: 'traj', grid: 'list'):
    return [2 * _ for _ in grid], [6 * _ for _ in grid]


def impl_write(trj: 'traj', grid: 'list'):
    cf = Probe(trj, grid)
    cf.compute()
    cf.analyze()
    cf.write()


def spec_write(trj: 'traj', grid: 'list'):
    if trj.filename is None:
        return
    path = output_file(trj, 'probe', '')
    mkdir(os.path.dirname(path))
    with open(path, 'w') as fh:
        fh.write(header(trj, 'probe p(t) of the whole system', 't, p(t)'))
        fh.write('# last value: %s\n' % (6 * grid[-1]))
        numpy.savetxt(fh, numpy.transpose(numpy.array([[2 * x for x in grid], [6 * x for x in grid]])), fmt='%g')


def output_file(trj, symbol, tag):
    """Path of the output file, without repeated or trailing punctuation in its last component."""
    return clean(trj.filename + '.pp.' + symbol + '.' + tag)


def clean(path):
    parts = path.split('/')
    name = parts[-1]
    for mark in ['.', '_', '-']:
        name = name.replace(mark + mark, mark).strip(mark)
    return '/'.join(parts[:-1] + [name])


def header(trj, title, columns):
    text = '# title: ' + title + '\n'
    text += '# columns: ' + columns + '\n'
    text += '# date: ' + datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S') + '\n'
    text += '# command: atooms-pp\n'
    text += '# version: ' + core.__version__ + '\n'
    text += '# parents: ' + trj.filename + '\n'
    return text


class Plain(Correlation):
    nbodies = 1
    symbol = 'plain'
    short_name = 'c(t)'
    long_name = 'plain function'
    phasespace = []


class Surface(Correlation):
    nbodies = 1
    symbol = 'surf'
    short_name = 'F(k,t)'
    long_name = 'two variables'
    phasespace = []


def impl_write_tag(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is not None)
    cf = Plain(trj, x)
    cf.value = y
    cf.tag = 'A-A'
    cf.tag_description = 'A particles'
    cf.analysis['nothing'] = None
    cf.comments = '# a comment\n'
    cf.write()


def spec_write_tag(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is not None)
    path = output_file(trj, 'plain', 'A-A')
    mkdir(os.path.dirname(path))
    with open(path, 'w') as fh:
        fh.write(header(trj, 'plain function c(t) of A particles', 't, c(t)') + '# a comment\n')
        numpy.savetxt(fh, numpy.transpose(numpy.array([x, y])), fmt='%g')


def impl_write_path(trj: 'traj', x: 'list', y: 'list', tag: 'str'):
    assume(trj.filename is not None)
    cf = Plain(trj, x, output_path='out/{symbol}-{short_name}-{long_name}.{tag}.{tag_description}')
    cf.value = y
    cf.tag = tag
    cf.tag_description = ''
    cf.write()


def spec_write_path(trj: 'traj', x: 'list', y: 'list', tag: 'str'):
    assume(trj.filename is not None)
    path = clean('out/plain-c(t)-plain_function.' + tag + '.')
    mkdir(os.path.dirname(path))
    with open(path, 'w') as fh:
        fh.write(header(trj, 'plain function c(t)  ', 't, c(t)'))
        numpy.savetxt(fh, numpy.transpose(numpy.array([x, y])), fmt='%g')


def impl_path_names(trj: 'traj', x: 'list', tag: 'str'):
    assume(trj.filename is not None)
    cf = Plain(trj, x, output_path='{trajectory.filename}/{long_name}+{short_name}/{tag_description}/{symbol}')
    cf.tag = tag
    cf.tag_description = 'species pair A-B'
    cf.value = x
    cf.write()


def spec_path_names(trj: 'traj', x: 'list', tag: 'str'):
    assume(trj.filename is not None)
    path = clean(trj.filename + '/plain_function+c(t)/species_pair_A-B/plain')
    mkdir(os.path.dirname(path))
    with open(path, 'w') as fh:
        fh.write(header(trj, 'plain function c(t) of species pair A-B', 't, c(t)'))
        numpy.savetxt(fh, numpy.transpose(numpy.array([x, x])), fmt='%g')


def impl_path_later(trj: 'traj', x: 'list', path: 'str'):
    assume(trj.filename is not None)
    old = core.pp_output_path
    core.pp_output_path = path
    a = Plain(trj, x).output_path
    core.pp_output_path = old
    return a, Plain(trj, x).output_path


def spec_path_later(trj: 'traj', x: 'list', path: 'str'):
    assume(trj.filename is not None)
    old = core.pp_output_path
    core.pp_output_path = path
    core.pp_output_path = old
    return path, old


def impl_write_another(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is not None)
    other = Plain(trj, x)
    other.analysis['peak'] = 1.0
    other.comments = '# other'
    other.tag = 'A'
    other.tag_description = 'A'
    cf = Plain(trj, x)
    cf.value = y
    cf.write()


def spec_write_another(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is not None)
    path = output_file(trj, 'plain', '')
    mkdir(os.path.dirname(path))
    with open(path, 'w') as fh:
        fh.write(header(trj, 'plain function c(t) of the whole system', 't, c(t)'))
        numpy.savetxt(fh, numpy.transpose(numpy.array([x, y])), fmt='%g')


def impl_write_two(trj: 'traj', k: 'list', t: 'list', f: 'func'):
    assume(trj.filename is not None)
    assume(len(k) > 0)
    assume(len(t) > 0)
    cf = Surface(trj, [k, t])
    cf.value = [[f(x, y) for y in t] for x in k]
    cf.analysis['first'] = k[0]
    cf.analysis['second'] = t[0]
    cf.write()


def spec_write_two(trj: 'traj', k: 'list', t: 'list', f: 'func'):
    assume(trj.filename is not None)
    assume(len(k) > 0)
    assume(len(t) > 0)
    path = output_file(trj, 'surf', '')
    mkdir(os.path.dirname(path))
    rows = [[k[i], t[j], f(k[i], t[j])] for i in range(len(k)) for j in range(len(t))]
    with open(path, 'w') as fh:
        fh.write(header(trj, 'two variables F(k,t) of the whole system', 'k, t, F(k,t)'))
        fh.write('# first: %s\n# second: %s\n' % (k[0], t[0]))
        numpy.savetxt(fh, numpy.array(rows), fmt='%g')


def impl_no_path(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is None)
    cf = Plain(trj, x, output_path='somewhere')
    cf.value = y
    cf.write()
    return cf.output_path, cf.need_update()


def spec_no_path(trj: 'traj', x: 'list', y: 'list'):
    assume(trj.filename is None)
    return None, True


def impl_need_update(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    return Plain(trj, x).need_update()


def spec_need_update(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    path = output_file(trj, 'plain', '')
    if path == '/dev/stdout' or not os.path.exists(path):
        return True
    return os.path.getmtime(trj.filename) >= os.path.getmtime(path)


def impl_need_update_stdout(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    return Plain(trj, x, output_path='/dev/stdout').need_update()


def spec_need_update_stdout(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    return True


class Order(Correlation):
    nbodies = 1
    symbol = 'order'
    short_name = 'o(t)'
    long_name = 'order'
    phasespace = []

    def _compute(self):
        self.calls.append('compute')

    def analyze(self):
        self.calls.append('analyze')

    def write(self):
        self.calls.append('write')

    def read(self):
        self.calls.append('read')

    def need_update(self):
        return self.stale


class Unable(Order):
    def analyze(self):
        self.calls.append('analyze')
        raise ImportError('no module')


def impl_do(trj: 'traj', x: 'list', update: 'bool', stale: 'bool'):
    cf = Order(trj, x)
    cf.calls = []
    cf.stale = stale
    cf.do(update=update)
    return cf.calls


def spec_do(trj: 'traj', x: 'list', update: 'bool', stale: 'bool'):
    if update and not stale:
        return ['read']
    return ['compute', 'analyze', 'write']


def impl_do_unable(trj: 'traj', x: 'list', update: 'bool', stale: 'bool'):
    cf = Unable(trj, x)
    cf.calls = []
    cf.stale = stale
    cf.do(update=update)
    return cf.calls


def spec_do_unable(trj: 'traj', x: 'list', update: 'bool', stale: 'bool'):
    if update and not stale:
        return ['read']
    return ['compute', 'analyze', 'write']


def impl_do_call(trj: 'traj', x: 'list', stale: 'bool'):
    cf = Order(trj, x)
    cf.calls = []
    cf.stale = stale
    cf()
    first = cf.calls
    cf = Order(trj, x)
    cf.calls = []
    cf.stale = stale
    cf.do()
    return first, cf.calls


def spec_do_call(trj: 'traj', x: 'list', stale: 'bool'):
    return ['compute', 'analyze', 'write'], ['compute', 'analyze', 'write']


def impl_path_or_trajectory(path: 'str', x: 'list', fmt: 'str'):
    core.pp_trajectory_format = fmt
    cf = Plain(path, x)
    return cf.trajectory


def spec_path_or_trajectory(path: 'str', x: 'list', fmt: 'str'):
    core.pp_trajectory_format = fmt
    return Trajectory(path, mode='r', fmt=fmt)


def impl_trajectory_kept(trj: 'traj', x: 'list'):
    cf = Plain(trj, x)
    return cf.trajectory is trj, cf.grid, cf.value, cf.tag, cf.tag_description, cf.comments


def spec_trajectory_kept(trj: 'traj', x: 'list'):
    return True, x, [], '', 'the whole system', None


def impl_grid_name(trj: 'traj', x: 'list'):
    return Plain(trj, x).grid_name, Surface(trj, x).grid_name


def spec_grid_name(trj: 'traj', x: 'list'):
    return ['t'], ['k', 't']


def impl_analyze_default(trj: 'traj', x: 'list'):
    cf = Plain(trj, x)
    cf.value = [1.0]
    cf.analyze()
    return cf.analysis, cf.value, cf.grid


def spec_analyze_default(trj: 'traj', x: 'list'):
    return {}, [1.0], x


def impl_read_one(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    cf = Plain(trj, x)
    cf.read()
    return cf.grid, cf.value


def spec_read_one(trj: 'traj', x: 'list'):
    assume(trj.filename is not None)
    with open(output_file(trj, 'plain', ''), 'r') as fh:
        columns = numpy.loadtxt(fh, unpack=True, ndmin=2)
    if len(columns) == 3:
        n = len(columns[1]) // numpy.count_nonzero(columns[1] == columns[1][0])
        return [list(columns[0][::n]), list(columns[1][:n])], [list(v) for v in columns[2].reshape(-1, n)]
    return columns[0], columns[1]
