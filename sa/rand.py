"""Random interpretation of value graphs.

Two value graphs whose normal forms differ may still denote the same value,
because the rewriting theory of `terms` is not complete.  As in random
interpretation (Gulwani and Necula), the remaining differences are decided by
assigning random values to the leaves of the *value graphs* (symbols, fields
of abstract frames, uninterpreted calls) and comparing the values of the two
roots.  Nothing of the analysed package is executed: the graphs are the
abstract values computed by the interpreter.  A pair of graphs that agrees on
every assignment is taken as equal; a disagreement is a witness.
"""

import hashlib
import math
import posixpath
import random
import re
import sys
import time

import numpy as np

from . import terms as T
from . import models as M

sys.setrecursionlimit(20000)


class Unevaluable(Exception):
    """The graph has a construct without a meaning here (an opaque value, typically)."""


class Bottom(Exception):
    """The value is undefined under this assignment (index out of range, empty average)."""


class Ext(object):
    """An object of the environment (trajectory, frame, particle, cell)."""

    def __init__(self, model, kind, path, **kw):
        self.model, self.kind, self.path = model, kind, path
        self.kw = kw

    def __hash__(self):
        return hash(self.path)

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __repr__(self):
        return '<%s>' % self.path

    def number(self):
        return 0.5 + self.model.u(self.path)


class With(object):
    """A frame or a particle with some attributes replaced."""

    def __init__(self, base, attrs):
        self.base, self.attrs = base, attrs

    def canon(self):
        a = {}
        x = self
        while isinstance(x, With):
            for k, v in x.attrs.items():
                a.setdefault(k, v)
            x = x.base
        return x, a


class Inst(object):
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


# nan and inf are values like others
np.seterr(all='ignore')


class Failure(object):
    """The evaluation of a term that has no value."""
    __slots__ = ('error',)

    def __init__(self, error):
        self.error = error


MISSING = object()
NOENV = {}
sorted_bnd = {}


def free_bnd(t, memo={}):
    """Heights of the bound variables free in t"""
    r = memo.get(t)
    if r is None:
        if t.op == 'bnd':
            r = frozenset([t.args[0]])
        else:
            r = frozenset()
            for x in t.args:
                r |= _fb(x)
            if t.op in T.BINDERS:
                r -= frozenset(t.args[0])
        memo[t] = r
    return r


def _fb(x):
    if isinstance(x, T.Term):
        return free_bnd(x)
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _fb(y)
        return r
    return frozenset()


def isnum(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) or isinstance(x, bool)


EPS = 1e-9


class Model(object):

    SIZES = {'frames': 6, 'particles': 5}

    def __init__(self, seed, strings=(), hints=None):
        self.seed = seed
        self.memo = {}
        self.methods = {}
        self.last = {}
        self.states = {}
        self.strings = list(strings)
        self.hints = hints or {}
        self.steps_budget = 3000000
        self.foreign = ()
        self.frames = [5, 6, 7, 5, 9, 12][self.h('frames') % 6] if self.seed else 5
        self.particles = 4 + seed % 2
        if 'particles' in self.hints:
            # systems with as many particles as needed to exceed the thresholds of the code
            self.particles = self.hints['particles'][self.h('particles') % len(self.hints['particles'])]
            self.steps_budget *= 20
        if 'frames' in self.hints:
            self.frames = self.hints['frames']
        self.ndim = self.hints.get('ndim', [3, 2, 3, 3, 2, 3, 3])[self.h('ndim') % 7 if seed else 0]
        # special assignments: each of these holds in a fraction of the assignments, independently
        self.some_zero = self.flag('zeros', 6)
        self.identities = self.flag('identities', 2)
        self.per_frame = self.flag('per frame', 2)
        self.prefixed = self.flag('prefixed', 4)
        self.varying = self.flag('varying', 4)
        self.slow = self.flag('slow', 4)
        self.listlen = [3, 3, 3, 3, 5, 6, 1, 3][self.h('length') % 8] if seed else 3

    # -- pseudo-random functions

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def flag(self, name, n):
        return self.seed > 0 and self.h('flag', name) % n == 0

    def u(self, *key):
        """uniform in [0, 1)"""
        return (self.h(*key) >> 11) / float(1 << 53)

    def uf(self, name, args, rank=0, lo=0.4, hi=2.6):
        """An uninterpreted function: continuous in its numeric arguments."""
        phase, disc = [0.0], []

        def leaf(x, p):
            if x is None or isinstance(x, (str, bool, np.bool_)):
                disc.append((p, str(x)))
            elif isinstance(x, (int, np.integer)):
                phase[0] += (1 + 2 * self.u('w', name, p)) * float(x)
            elif isinstance(x, (float, np.floating)):
                if math.isfinite(x):
                    phase[0] += (1 + 2 * self.u('w', name, p)) * float(x)
                else:
                    disc.append((p, str(x)))
            elif isinstance(x, (complex, np.complexfloating)):
                phase[0] += (1 + 2 * self.u('w', name, p)) * x.real + (1 + 2 * self.u('v', name, p)) * x.imag
            elif isinstance(x, Ext):
                disc.append((p, x.path))
            elif isinstance(x, With):
                b, a = x.canon()
                leaf(b, p)
                for k in sorted(a):
                    leaf(a[k], p + (k,))
            elif isinstance(x, dict):
                for k in sorted(x, key=repr):
                    leaf(k, p + ('k',))
                    leaf(x[k], p + (str(k),))
            elif isinstance(x, (list, tuple, np.ndarray)):
                disc.append((p, len(x)))
                for k, y in enumerate(x):
                    leaf(y, p + (k,))
            elif isinstance(x, Inst):
                disc.append((p, x.name))
                for k, v in x.attrs:
                    leaf(v, p + (k,))
            elif isinstance(x, slice):
                disc.append((p, str(x)))
            else:
                disc.append((p, repr(x)))
        for k, a in enumerate(args):
            leaf(a, (k,))

        def val(*ix):
            base = 6.283 * self.u('uf', name, tuple(disc), ix)
            return lo + (hi - lo) * (0.5 + 0.5 * math.sin(base + phase[0]))
        if rank == 0:
            return val()
        return self.shaped(rank, val)

    def dims(self, rank):
        return {0: (), 1: (3,), 2: (4, 3), 3: (self.frames, 4, 3)}.get(rank, (2,) * rank)

    def shaped(self, rank, val, dims=None):
        dims = dims or self.dims(rank)

        def rec(ix, d):
            if not d:
                return val(*ix)
            return [rec(ix + (k,), d[1:]) for k in range(d[0])]
        return rec((), tuple(dims))

    # -- leaves

    def sym(self, t):
        v = self.symbol(t)
        return np.array(v) if isinstance(v, list) and M.KIND.get(t) == 'array' else v

    def symbol(self, t):
        n = t.args[0]
        if t is T.IMAG:
            return 1j
        if n == '#unbounded':
            # a loop that was not understood
            raise Unevaluable('while loop')
        if n == 'math.pi':
            return math.pi
        if n == 'inf':
            return math.inf
        if n == 'nan':
            return math.nan
        if n == 'e':
            return math.e
        if t in M.TRAJ:
            return Ext(self, 'traj', n)
        k = M.KIND.get(t)
        if n in self.hints:
            v = self.hints[n]
            return v(self, t) if callable(v) else v
        if k == 'num' or (k is None and t in T.KNOWN_SCALAR):
            if t in T.KNOWN_INT:
                c = [1, 2, 3, 1, 4, -1, 5, 0]
                return c[self.h('int', n) % len(c)]
            if self.some_zero and n not in self.hints.get('signed', ()) and self.h('zero', n) % 2 == 0:
                return 0.0
            x = (0.2 + 2.5 * self.u('num', n)) * self.scale(n)
            return -x if n in self.hints.get('signed', ()) and self.seed % 2 else x
        if k == 'str':
            c = self.strings + ['str<%s>' % n, 'other<%s>' % n]
            return c[self.h('str', n) % len(c)]
        if k == 'bool':
            return self.h('bool', n) % 2 == 0
        if k in ('list', 'array'):
            r = M.RANK.get(t, 1)
            if t in T.KNOWN_INT:
                return self.shaped(r, lambda *ix: self.h('li', n, ix) % 4)
            dims = (self.listlen,) if r == 1 else None
            if r == 1 and self.flag('zero' + n, 2 if self.varying else 8):
                return [0.0]
            if n in ('grid', 'tgrid') and self.flag('times' + n, 2) and M.TRAJ:
                # times of the correlation function, up to (nearly) the length of the trajectory
                trj = self.sym(sorted(M.TRAJ, key=repr)[0])
                end = self.attr(trj, 'total_time') * [1.05, 0.9, 0.7][self.h('end') % 3]
                k = 2 + self.h('ntimes') % 7
                return [0.0] + sorted(end * self.u('time', i) for i in range(k - 1)) + [end]
            if r == 1 and self.flag('symmetric' + n, 8):
                # symmetric around zero
                return [(k - (self.listlen - 1) / 2) * (0.4 + self.u('l', n)) for k in range(self.listlen)]
            if self.some_zero:
                return self.shaped(r, lambda *ix: 0.0 if self.h('zero', n, ix) % 2 == 0 else -1.0 + 3.0 * self.u('l', n, ix), dims)
            scale = self.scale(n)
            return self.shaped(r, lambda *ix: (-1.0 + 3.0 * self.u('l', n, ix)) * scale, dims)
        return Ext(self, 'sym', n)

    def scale(self, n):
        return [1, 1, 1, 1, 1, 0.1, 3, 10][self.h('scale', n) % 8] if self.seed else 1

    def root(self, e):
        while e.kind in ('unfold', 'sliced', 'cbk', 'rewound'):
            e = e.kw['base']
        return e

    def nframes(self, e):
        if e.kind == 'sliced':
            return len(range(self.nframes(e.kw['base']))[e.kw['slice']])
        if e.kind in ('unfold', 'cbk', 'rewound'):
            return self.nframes(e.kw['base'])
        if 'opened' in e.kw:
            return len(self.steps(e))
        return self.frames

    def steps(self, e):
        if e.kind == 'sliced':
            return self.steps(e.kw['base'])[e.kw['slice']]
        if e.kind in ('unfold', 'cbk', 'rewound'):
            return self.steps(e.kw['base'])
        if 'opened' in e.kw:
            # holds the same steps as the main trajectory, and others
            main = self.steps(Ext(self, 'traj', 'trj'))
            more = [main[-1] + 1 + k for k in range(self.h('more', e.path) % 3)]
            return more + main if self.h('order', e.path) % 2 else main[::-1] + more
        out, s = [], self.h('s0', e.path) % 3
        mode = self.seed % 3
        for k in range(self.frames):
            out.append(s)
            s += 2 if mode == 0 else ([1, 3][k % 2] if mode == 1 else 1 + self.h('step', e.path, k) % 4)
        return out

    def attr(self, x, name):
        if isinstance(x, With):
            if name in x.attrs:
                return x.attrs[name]
            if name in ('real', 'imag'):
                raise Unevaluable(name)
            return self.attr(x.base, name)
        if isinstance(x, Inst):
            for k, v in x.attrs:
                if k == name:
                    return v
            raise Unevaluable('attribute ' + name)
        if isinstance(x, (list, np.ndarray)):
            if name == 'real':
                return np.real(np.asarray(x))
            if name == 'imag':
                return np.imag(np.asarray(x))
            if name == 'size':
                return np.asarray(x).size
            raise Unevaluable('attribute %s of a list' % name)
        if isnum(x):
            if name in ('real', 'imag'):
                return getattr(complex(x), name)
            raise Unevaluable('attribute %s of a number' % name)
        if isinstance(x, dict):
            raise Unevaluable('attribute of a dict')
        if isinstance(x, str) or x is None:
            raise Bottom('attribute %s of %r' % (name, x))
        if not isinstance(x, Ext):
            raise Unevaluable('attribute %s of %r' % (name, x))
        kind = x.kind
        p = x.path + '.' + name
        if kind in ('traj', 'unfold', 'sliced', 'cbk', 'rewound'):
            if name == 'steps':
                return self.steps(x)
            if name == 'timestep':
                return 0.25 + self.u('ts', self.root(x).path)
            if name in ('times',):
                ts = self.attr(x, 'timestep')
                return [ts * s for s in self.steps(x)]
            if name == 'total_time':
                s = self.steps(x)
                return (s[-1] - s[0]) * self.attr(x, 'timestep') if s else 0.0
            if name == 'block_size':
                return [1, 2, 3][self.h('bs', x.path) % 3]
            if name == 'filename':
                if self.hints.get('no_filename', self.flag('no filename', 7)):
                    return None
                return ['/dir/%s.xyz', '%s..xyz', 'd--ir/%s_.xyz', './-a__b/%s'][self.seed % 4] % self.root(x).path
            return Ext(self, 'attr', p)
        if kind in ('frame', 'system') or kind == 'sym':
            if name == 'particle':
                n = x.kw.get('n', self.particles)
                return [Ext(self, 'particle', '%s.p%d' % (x.path, k), index=k, frame=x) for k in range(n)]
            if name in ('cell', 'interaction', 'thermostat'):
                return Ext(self, name, p, frame=x)
            if name == 'number_of_dimensions':
                return self.ndim
        if kind == 'particle':
            fr, k = x.kw['frame'], x.kw['index']
            if name == 'species':
                names = ['A', 'B', 'A', 'B', 'A', 'C', 'B', 'A']
                if self.prefixed and not self.hints.get('canonical'):
                    # names that extend one another, or differ by case
                    names = ['A', 'AB', 'a', 'AB', 'A', 'BA', 'AB', 'A']
                # the identity of the particles may change along the trajectory, the composition does not
                shift = 0
                if self.identities and fr.kind == 'frame':
                    shift = fr.kw['index'] % self.particles
                n = fr.kw.get('n', self.particles)
                return names[:n][(k + shift) % n]
            if name in ('position', 'velocity', 'position_unfolded', 'force'):
                side = 2.0
                if self.slow:
                    q = re.sub(r'\[\d+\]', '', p)
                    return np.array([-side / 2 + 0.9 * side * self.u('pos', q, d) + 0.1 * self.u('pos', p, d) for d in range(self.ndim)])
                return np.array([-side / 2 + side * self.u('pos', p, d) for d in range(self.ndim)])
            if name in ('mass', 'radius', 'diameter'):
                return 0.5 + self.u(name, x.path if self.per_frame else x.path.split('.')[-1])
            return 0.1 + self.u('attr', p)
        if kind == 'cell':
            if name == 'side':
                if self.hints.get('fixed_cell'):
                    return np.array([2.0 + self.u('side', d) for d in range(self.ndim)])
                return np.array([2.0 + self.u('side', p, d) for d in range(self.ndim)])
            if name == 'center':
                return np.array([self.u('center', p, d) for d in range(self.ndim)])
            if name == 'periodic':
                return np.array([not self.hints.get('open_cell')] * self.ndim)
            if name == 'volume':
                return float(np.prod(self.attr(x, 'side')))
        r = M.ATTR_RANK.get(name)
        if r:
            return np.array(self.shaped(r, lambda *ix: -1 + 2 * self.u('attr', p, ix), (3,) * r))
        return Ext(self, 'attr', p)

    def frame(self, x, i):
        if isinstance(x, Ext) and x.kind in ('traj', 'unfold', 'sliced', 'cbk', 'rewound'):
            if isinstance(i, slice):
                raise Unevaluable('slice of a trajectory')
            n = self.nframes(x)
            i = self.integer(i)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise Bottom('frame %d of %d' % (i, n))
            if x.kind == 'sliced':
                return self.frame(x.kw['base'], range(self.nframes(x.kw['base']))[x.kw['slice']][i])
            kw = {}
            if self.varying and not self.hints.get('canonical'):
                # the number of particles changes along the trajectory
                kw['n'] = self.particles + (i + 1) % 3
            return Ext(self, 'frame', '%s[%d]' % (x.path, i), index=i, traj=x, **kw)
        raise Unevaluable('frame of %r' % (x,))

    # -- evaluation

    def integer(self, x):
        x = self.scalar(x)
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, complex):
            x = x.real
        if not math.isfinite(x):
            raise Bottom('not an integer')
        if abs(x - round(x)) < 1e-7:
            return int(round(x))
        raise Bottom('not an integer: %r' % x)

    def scalar(self, x):
        if isinstance(x, (Ext,)):
            return x.number()
        if isinstance(x, With):
            raise Unevaluable('number from an object')
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return x.item()
        if isinstance(x, np.generic):
            return x.item()
        if isnum(x):
            return x
        if x is None:
            raise Bottom('None in arithmetic')
        if isinstance(x, (list, np.ndarray)):
            raise Bottom('sequence where a number is expected')
        if isinstance(x, str):
            raise Bottom('string where a number is expected')
        raise Unevaluable('number from %r' % type(x))

    def arr(self, x):
        """A value as an operand of arithmetic"""
        if isnum(x):
            return x
        if isinstance(x, np.ndarray):
            return x
        if isinstance(x, Ext):
            return x.number()
        if isinstance(x, (list, tuple)):
            try:
                a = np.array([self.arr(y) for y in x])
            except ValueError:
                raise Bottom('ragged array')
            if a.dtype == object:
                raise Bottom('not a numeric array')
            return a
        if x is None:
            raise Bottom('None in arithmetic')
        if isinstance(x, str):
            raise Bottom('string in arithmetic')
        raise Unevaluable('operand %r' % type(x))

    def ev(self, t, env=NOENV):
        op = t.op
        if op == 'bnd':
            try:
                return env[t.args[0]]
            except KeyError:
                raise Unevaluable('free bound variable')
        fb = sorted_bnd.get(t)
        if fb is None:
            fb = sorted_bnd[t] = tuple(sorted(free_bnd(t)))
        memo = self.memo
        try:
            if not fb:
                key = t
            elif len(fb) == 1:
                key = (t, env[fb[0]])
            else:
                key = (t,) + tuple([env[h] for h in fb])
            r = memo.get(key, MISSING)
        except KeyError:
            raise Unevaluable('free bound variable')
        except TypeError:
            # values that cannot be hashed: remember the last ones
            key = None
            values = [env[h] for h in fb]
            last = self.last.get(t)
            if last is not None:
                for x, y in zip(last[0], values):
                    if x is not y:
                        break
                else:
                    return last[1]
        else:
            if r is not MISSING:
                if r.__class__ is Failure:
                    raise r.error
                return r
        self.steps_budget -= 1
        if self.steps_budget < 0:
            raise Unevaluable('budget')
        f = self.methods.get(op)
        if f is None:
            f = getattr(self, 'o_' + op, None)
            if f is None:
                raise Unevaluable('operator ' + op)
            self.methods[op] = f
        try:
            r = f(t, env)
        except (Bottom, Unevaluable) as e:
            if key is not None:
                e.__traceback__ = None
                memo[key] = Failure(e)
            raise
        except (IndexError, ZeroDivisionError, KeyError, OverflowError, ValueError, FloatingPointError) as e:
            raise Bottom(repr(e))
        if key is not None:
            memo[key] = r
        else:
            self.last[t] = (values, r)
        return r

    def o_num(self, t, env):
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)

    def o_str(self, t, env):
        return t.args[0]

    def o_bool(self, t, env):
        return t.args[0]

    def o_none(self, t, env):
        return None

    def o_empty(self, t, env):
        return []

    def o_ellipsis(self, t, env):
        return Ellipsis

    def o_sym(self, t, env):
        return self.sym(t)

    def o_undef(self, t, env):
        raise Bottom('undefined variable')

    def o_opaque(self, t, env):
        raise Unevaluable(t.args[1])

    def o_bnd(self, t, env):
        return env[t.args[0]]

    def o_bv(self, t, env):
        raise Unevaluable('free variable')

    def o_poly(self, t, env):
        r = size = 0
        for m, c in t.args[0]:
            v = int(c) if c.denominator == 1 else float(c)
            for at, e in m:
                x = self.arr(self.ev(at, env))
                if e != 1:
                    ee = int(e) if e.denominator == 1 else float(e)
                    x = self.pw(x, ee)
                v = self.bmul(v, x)
            r = self.badd(r, v)
            size = self.badd(size, abs(v))
        if len(t.args[0]) > 1:
            # terms that cancel up to rounding
            if isinstance(r, np.ndarray):
                small = abs(r) < 4e-15 * size
                if small.any():
                    r = np.where(small, 0.0, r)
            elif isinstance(r, (float, complex)) and abs(r) < 4e-15 * size:
                r = 0.0
        return r

    def pw(self, x, e):
        if isinstance(x, np.ndarray):
            if e < 0 or not isinstance(e, int):
                x = x.astype(complex if np.iscomplexobj(x) else float)
                if not isinstance(e, int) and not np.iscomplexobj(x):
                    # cancellation up to rounding
                    x = np.where((x < 0) & (x > -1e-12), 0.0, x)
            return x ** e
        if isinstance(x, (bool, np.bool_)):
            x = int(x)
        if x == 0 and (e.real if isinstance(e, complex) else e) < 0:
            return math.nan
        if not isinstance(e, (int, complex)) and not isinstance(x, complex) and x < 0:
            return math.nan if x < -1e-12 or e < 0 else 0.0
        if isinstance(e, int) and e < 0:
            return 1 / x ** (-e)
        return x ** e

    def bmul(self, a, b):
        try:
            return a * b
        except ValueError:
            raise Bottom('shapes')

    def badd(self, a, b):
        try:
            return a + b
        except ValueError:
            raise Bottom('shapes')

    def o_phi(self, t, env):
        try:
            c = self.ev(t.args[0], env)
        except Bottom:
            # conditions are tested in the order of the diagram, not of the program: a
            # condition without a value does not matter where both outcomes agree
            a = self.ev(t.args[1], env)
            b = self.ev(t.args[2], env)
            if a is b or same(a, b, 1e-9):
                return a
            raise
        if isinstance(c, np.ndarray) and c.ndim > 0:
            a, b = self.arr(self.ev(t.args[1], env)), self.arr(self.ev(t.args[2], env))
            return np.where(c, a, b)
        return self.ev(t.args[1] if c else t.args[2], env)

    def elementwise(self, t, env, f):
        with np.errstate(all='ignore'):
            x = self.arr(self.ev(t.args[0], env))
            return f(x)

    def o_exp(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.exp(x)))

    def item(self, x):
        return x.item() if isinstance(x, np.generic) else x

    def o_conj(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.conj(x)))

    def o_real(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.real(x)))

    def o_imag(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.imag(x)))

    def o_abs(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.abs(x)))

    def o_rint(self, t, env):
        return self.elementwise(t, env, lambda x: self.rint(x))

    def rint(self, x):
        r = np.rint(x)
        if isinstance(r, np.ndarray):
            return r
        return int(r) if math.isfinite(r) else r

    def o_sin(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.sin(x)))

    def o_cos(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.cos(x)))

    def o_log(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.log(x)))

    def o_acos(self, t, env):
        return self.elementwise(t, env, lambda x: self.item(np.arccos(x)))

    def o_pow(self, t, env):
        with np.errstate(all='ignore'):
            return self.pw(self.arr(self.ev(t.args[0], env)), self.arr(self.ev(t.args[1], env)))

    def o_tofloat(self, t, env):
        x = self.ev(t.args[0], env)
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                return self.uf('float', [x])
        return self.arr(x)

    def o_toint(self, t, env):
        x = self.ev(t.args[0], env)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                return 1 + self.h('int', x) % 3
        return self.truncated(self.arr(x))

    def truncated(self, x):
        if isinstance(x, np.ndarray):
            return np.where(np.abs(x - np.rint(x)) < 1e-9, np.rint(x), np.trunc(x)).astype(int)
        if isinstance(x, complex):
            raise Bottom('int of a complex')
        if not math.isfinite(x):
            raise Bottom('int of inf')
        return int(round(x)) if abs(x - round(x)) < 1e-9 else int(x)

    def o_floordiv(self, t, env):
        a, b = self.arr(self.ev(t.args[0], env)), self.arr(self.ev(t.args[1], env))
        if not isinstance(b, np.ndarray) and b == 0:
            raise Bottom('division by zero')
        if isinstance(a, float) or isinstance(b, float):
            q = a / b
            if abs(q - round(q)) < 1e-9:
                return float(round(q))
        return a // b

    def o_mod(self, t, env):
        a, b = self.arr(self.ev(t.args[0], env)), self.arr(self.ev(t.args[1], env))
        if not isinstance(b, np.ndarray) and b == 0:
            raise Bottom('division by zero')
        return a % b

    def o_ceildiv(self, t, env):
        a, b = self.integer(self.ev(t.args[0], env)), self.integer(self.ev(t.args[1], env))
        if b == 0:
            raise Bottom('zero stride')
        return max(0, -(-a // b))

    def o_min(self, t, env):
        return self.minmax(min, np.minimum, [self.arr(self.ev(x, env)) for x in t.args[0]])

    def o_max(self, t, env):
        return self.minmax(max, np.maximum, [self.arr(self.ev(x, env)) for x in t.args[0]])

    def minmax(self, f, g, xs):
        if any(isinstance(x, np.ndarray) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = g(r, x)
            return r
        return f(xs)

    def o_lt0(self, t, env):
        x = self.arr(self.ev(t.args[0], env))
        if isinstance(x, complex):
            raise Bottom('order of complex numbers')
        return x < -EPS

    def o_eq0(self, t, env):
        x = self.arr(self.ev(t.args[0], env))
        return np.abs(x) < EPS if isinstance(x, np.ndarray) else abs(x) < EPS

    def o_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, np.ndarray) and isnum(b) or isinstance(b, np.ndarray) and isnum(a):
            return np.abs(np.asarray(a) - np.asarray(b)) < EPS
        if isinstance(a, (list, np.ndarray)) and isinstance(b, str) or isinstance(b, (list, np.ndarray)) and isinstance(a, str):
            x, s = (a, b) if isinstance(b, str) else (b, a)
            return np.array([y == s for y in x])
        return same(a, b, 1e-9)

    def o_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return same(a, b, 1e-9)

    def o_truthy(self, t, env):
        return self.truth(self.ev(t.args[0], env))

    def truth(self, x):
        if isinstance(x, (Ext, With, Inst)):
            return True
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return bool(x.item())
            if x.size == 0:
                return False
            raise Bottom('truth of an array')
        return bool(x)

    def o_seq(self, t, env):
        return [self.ev(x, env) for x in t.args[0]]

    def o_tuple(self, t, env):
        return tuple(self.ev(x, env) for x in t.args[0])

    def lst(self, x):
        if isinstance(x, (list, tuple)):
            return list(x)
        if isinstance(x, np.ndarray):
            return list(x)
        if isinstance(x, range):
            return list(x)
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, str):
            return list(x)
        if isinstance(x, Ext) and x.kind in ('traj', 'unfold', 'sliced', 'cbk', 'rewound'):
            return [self.frame(x, i) for i in range(self.nframes(x))]
        if isinstance(x, Ext):
            return self.uf('list' + x.path, [], 1)
        if x is None or isnum(x):
            raise Bottom('not iterable')
        raise Unevaluable('iteration over %r' % type(x))

    def o_concat(self, t, env):
        out = []
        for p in t.args[0]:
            out += self.lst(self.ev(p, env))
        return out

    def o_range(self, t, env):
        a, b, s = [self.integer(self.ev(x, env)) for x in t.args]
        if s == 0:
            raise Bottom('zero stride')
        return list(range(a, b, s))

    def domain(self, d, env):
        if d.op == 'range':
            return self.o_range(d, env)
        return self.lst(self.ev(d, env))

    def loop(self, t, env, guard=None):
        hs, doms = t.args[0], t.args[1]

        def rec(k, e):
            if k == len(hs):
                if guard is None or self.truth(self.ev(guard, e)):
                    yield e
                return
            for v in self.domain(doms[k], e):
                e2 = dict(e)
                e2[hs[k]] = v
                for r in rec(k + 1, e2):
                    yield r
        return rec(0, env)

    def o_comp(self, t, env):
        guard, body = t.args[2], t.args[3]
        return [self.ev(body, e) for e in self.loop(t, env, None if guard is T.TRUE else guard)]

    def o_flat(self, t, env):
        guard, body = t.args[2], t.args[3]
        out = []
        for e in self.loop(t, env, None if guard is T.TRUE else guard):
            out += self.lst(self.ev(body, e))
        return out

    def o_sum(self, t, env):
        r = 0
        for e in self.loop(t, env):
            r = self.badd(r, self.arr(self.ev(t.args[2], e)))
        return r

    def o_prod(self, t, env):
        r = 1
        for e in self.loop(t, env, t.args[2]):
            r = self.bmul(r, self.arr(self.ev(t.args[3], e)))
        return r

    def o_exists(self, t, env):
        for e in self.loop(t, env):
            if self.truth(self.ev(t.args[2], e)):
                return True
        return False

    def o_first(self, t, env):
        for e in self.loop(t, env):
            if self.truth(self.ev(t.args[2], e)):
                return e[t.args[0][0]]
        raise Bottom('no first')

    def o_firsts(self, t, env):
        for e in self.loop(t, env):
            if self.truth(self.ev(t.args[2], e)):
                return [e[h] for h in t.args[0]]
        raise Bottom('no first')

    def o_last(self, t, env):
        found = None
        for e in self.loop(t, env, t.args[2]):
            found = e
        if found is None:
            return self.ev(t.args[4], env)
        return self.ev(t.args[3], found)

    def o_minover(self, t, env):
        xs = [self.scalar(self.ev(t.args[3], e)) for e in self.loop(t, env, t.args[2])]
        return min(xs) if xs else math.inf

    def o_maxover(self, t, env):
        xs = [self.scalar(self.ev(t.args[3], e)) for e in self.loop(t, env, t.args[2])]
        return max(xs) if xs else -math.inf

    def o_rec(self, t, env):
        pos = self.integer(self.ev(t.args[5], env))
        # all the components at once
        joint = t.args[:5]
        fb = sorted_bnd.get(t)
        values = [env[h] for h in fb]
        last = self.states.get(joint)
        if last is not None and all(x is y for x, y in zip(last[0], values)) and len(values) == len(last[0]):
            return last[1][pos]
        hs, doms, guard, init, step = joint
        n = len([d for d in doms if d is not T.NONE])
        state = []
        for x in init.args[0]:
            try:
                state.append(self.ev(x, env))
            except Bottom:
                state.append(None)

        def rec(k, e):
            if k == n:
                yield e
                return
            for v in self.domain(doms[k], e):
                e2 = dict(e)
                e2[hs[k]] = v
                for r in rec(k + 1, e2):
                    yield r
        for e in rec(0, env):
            e2 = dict(e)
            for h, v in zip(hs[n:], state):
                e2[h] = v
            if guard is not T.TRUE and not self.truth(self.ev(guard, e2)):
                continue
            state = [self.ev(x, e2) for x in step.args[0]]
        self.states[joint] = (values, state)
        return state[pos]

    def o_npsum(self, t, env):
        x = self.arr(self.ev(t.args[0], env))
        ax = self.ev(t.args[1], env)
        if not isinstance(x, np.ndarray):
            return x
        if ax is None:
            return self.item(np.sum(x))
        return np.sum(x, axis=self.integer(ax))

    def o_mask(self, t, env):
        return self.ev(t.args[0], env)

    def o_anyof(self, t, env):
        return bool(np.any(self.ev(t.args[0], env)))

    def o_len(self, t, env):
        return self.length(self.ev(t.args[0], env))

    def length(self, x):
        if isinstance(x, (list, tuple, str, dict, range)):
            return len(x)
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                raise Bottom('len of a number')
            return len(x)
        if isinstance(x, Ext) and x.kind in ('traj', 'unfold', 'sliced', 'cbk', 'rewound'):
            return self.nframes(x)
        if x is None or isnum(x):
            raise Bottom('len')
        if isinstance(x, Ext):
            return 3
        raise Unevaluable('length of %r' % type(x))

    def o_shape(self, t, env):
        x = self.arr(self.ev(t.args[0], env))
        return list(np.shape(x))

    def o_slice(self, t, env):
        return slice(*[None if x is T.NONE else self.integer(self.ev(x, env)) for x in t.args])

    def o_index(self, t, env):
        return self.index(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def index(self, x, i):
        if isinstance(x, dict):
            k = self.key(i)
            if k in x:
                return x[k]
            if DEFAULT in x:
                return x[DEFAULT]
            raise Bottom('KeyError')
        if isinstance(x, Ext):
            if x.kind in ('traj', 'unfold', 'sliced', 'cbk', 'rewound'):
                return self.frame(x, i)
            if isinstance(i, slice):
                raise Unevaluable('slice of an object')
            return Ext(self, 'item', '%s[%r]' % (x.path, i))
        if x is None or isnum(x):
            raise Bottom('not subscriptable')
        if isinstance(i, (list, np.ndarray)):
            a = np.asarray(x)
            return a[np.asarray(i)]
        if isinstance(i, tuple):
            a = self.arr(x)
            ii = tuple(y if isinstance(y, slice) or y is None or y is Ellipsis else (np.asarray(y) if isinstance(y, (list, np.ndarray)) else self.integer(y)) for y in i)
            r = a[ii]
            return self.item(r)
        if isinstance(i, slice):
            return x[i]
        if isinstance(i, str):
            raise Bottom('string index')
        if i is None or i is Ellipsis:
            return np.asarray(x)[i]
        k = self.integer(i)
        if not -len(x) <= k < len(x):
            raise Bottom('index %d of %d' % (k, len(x)))
        return x[k]

    def o_reccall(self, t, env):
        # an unknown function of the arguments of the recursive call
        args = self.ev(t.args[0], env)
        if 'reccall' in self.hints:
            return self.hints['reccall'](self, args)
        return [self.uf('reccall', [args], 1), 'rec']

    def o_attr(self, t, env):
        return self.attr(self.ev(t.args[0], env), t.args[1])

    def o_getattr(self, t, env):
        return self.attr(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_frame(self, t, env):
        return self.frame(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_keeptype(self, t, env):
        # a real number cannot be added in place to an array of integers
        if self.h('integer field', t.args[0]) % 2:
            raise Bottom('integers modified in place')
        return self.ev(t.args[1], env)

    def o_dump(self, t, env):
        x, key = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(key, str):
            a = M.dump_attr(key)
            if a is not None:
                vals = [self.attr(p, a) for p in self.lst(self.attr(x, 'particle'))]
                if not vals:
                    return np.zeros((0,))
                try:
                    return np.array(vals)
                except ValueError:
                    raise Bottom('ragged')
            y = x
            for n in key.split('.'):
                y = self.attr(y, n)
            return y
        return self.uf('dump', [x, key])

    def wrap(self, kind, x, *extra, **kw):
        if isinstance(x, With):
            # the attributes are shared
            x, attrs = x.canon()
            return With(self.wrap(kind, x, *extra, **kw), attrs)
        if not isinstance(x, Ext):
            raise Unevaluable(kind + ' of %r' % type(x))
        return Ext(self, kind, '%s(%s%s)' % (kind, x.path, ''.join(',' + repr(e) for e in extra)), base=x, **kw)

    def o_unfold(self, t, env):
        return self.wrap('unfold', self.ev(t.args[0], env), bool(self.truth(self.ev(t.args[1], env))))

    def o_sliced(self, t, env):
        s = self.ev(t.args[1], env)
        if not isinstance(s, slice):
            raise Unevaluable('slice')
        x = self.ev(t.args[0], env)
        if isinstance(x, With):
            x, attrs = x.canon()
            return With(self.part(x, s), attrs)
        return self.part(x, s)

    def part(self, x, s):
        """Some frames of a trajectory: those of a whole trajectory are the trajectory itself."""
        if not isinstance(x, Ext):
            raise Unevaluable('slice of %r' % type(x))
        frames = range(self.nframes(x))[s]
        if frames == range(self.nframes(x)):
            return x
        return self.wrap('sliced', x, repr(list(frames)), slice=s)

    def o_rewound(self, t, env):
        return self.wrap('rewound', self.ev(t.args[0], env))

    def o_cbk(self, t, env):
        return self.wrap('cbk', self.ev(t.args[0], env), self.canon(self.evs(t.args[1], env)), self.canon(self.evs(t.args[2], env)))

    def evs(self, x, env):
        if isinstance(x, T.Term):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.evs(y, env) for y in x)
        return x

    def o_copyof(self, t, env):
        return self.ev(t.args[0], env)

    def o_objwith(self, t, env):
        x = self.ev(t.args[0], env)
        return With(x, {k: self.ev(v, env) for k, v in t.args[1]})

    def o_instv(self, t, env):
        return Inst(t.args[0], tuple((k, self.ev(v, env)) for k, v in t.args[1]))

    def o_global(self, t, env):
        return Ext(self, 'obj', 'obj:' + t.args[0])

    def o_closure(self, t, env):
        return Inst(t.args[0], tuple((k, self.ev(v, env)) for k, v in t.args[1]))

    def o_obj(self, t, env):
        return Ext(self, 'obj', 'obj:%s' % (getattr(t.args[0], 'name', None) or getattr(t.args[0], 'qual', lambda: t.key)() if not isinstance(t.args[0], (int, str)) else T.show(t)))

    def o_cyclic(self, t, env):
        return 'cyclic'

    # -- dictionaries and updates

    def key(self, k):
        k = self.canon(k)
        if isinstance(k, float):
            k = round(k, 9)
            return int(k) if k == int(k) else k
        return k

    def canon(self, x):
        """A hashable representation"""
        if isinstance(x, (list, tuple, np.ndarray)):
            return tuple(self.canon(y) for y in x)
        if isinstance(x, np.generic):
            x = x.item()
        if isinstance(x, bool):
            return x
        if isinstance(x, float):
            x = round(x, 9) if math.isfinite(x) else x
            return int(x) if math.isfinite(x) and x == int(x) else x
        if isinstance(x, complex):
            return (round(x.real, 9), round(x.imag, 9))
        if isinstance(x, dict):
            return tuple(sorted(((repr(k), self.canon(v)) for k, v in x.items())))
        if isinstance(x, With):
            b, a = x.canon()
            return (self.canon(b), self.canon(a))
        if isinstance(x, Inst):
            return (x.name, tuple((k, self.canon(v)) for k, v in x.attrs))
        return x

    def o_dict0(self, t, env):
        if t.args[0] is T.NONE:
            return {}
        return {DEFAULT: self.ev(t.args[0], env)}

    def o_zeros(self, t, env):
        sh = self.ev(t.args[0], env)
        dims = tuple(self.integer(x) for x in sh) if isinstance(sh, (list, tuple)) else (self.integer(sh),)
        if any(d < 0 for d in dims) or int(np.prod(dims)) > 100000:
            raise Bottom('shape')
        return np.zeros(dims)

    def o_newarr(self, t, env):
        x = self.o_zeros(t, env)
        x[...] = np.nan
        return x

    def o_upd(self, t, env):
        base = mutable(self.ev(t.args[0], env))
        for g in t.args[1]:
            for e in self.loop(g, env, None if g.args[2] is T.TRUE else g.args[2]):
                path = [p if p.op == 'attrkey' else self.ev(p, e) for p in g.args[3]]
                base = self.put(base, path, g.args[4], g.args[5], e)
        return base

    def put(self, c, path, kind, val, env):
        p = path[0]
        if isinstance(p, T.Term):
            x = self.attr(c, p.args[0])
            if len(path) > 1:
                new = self.put(mutable(x), path[1:], kind, val, env)
            else:
                new = self.combine(kind, x, val, env)
            return With(c, {p.args[0]: new})
        if p is Ellipsis and len(path) == 1 and isinstance(c, (int, float, complex, np.generic)):
            return self.ev(val, env) if kind == 'set' else self.combine(kind, c, val, env)
        if isinstance(c, dict):
            k = self.key(p)
            if len(path) > 1:
                if k not in c and DEFAULT not in c:
                    raise Bottom('KeyError')
                c[k] = self.put(mutable(c[k] if k in c else c[DEFAULT]), path[1:], kind, val, env)
                return c
            if kind == 'key':
                c.setdefault(k, None)
            elif kind == 'set':
                c[k] = self.ev(val, env)
            elif kind == 'setd':
                if k not in c:
                    c[k] = self.ev(val, env)
            else:
                if k not in c and DEFAULT not in c:
                    raise Bottom('KeyError')
                c[k] = self.combine(kind, c[k] if k in c else c[DEFAULT], val, env)
            return c
        if isinstance(c, list) and any(isinstance(x, float) for x in c) and (isinstance(p, (slice, tuple)) or any(isinstance(q, (slice, tuple, list, np.ndarray)) for q in path)):
            c = np.array(c)
        if isinstance(c, list) and (isinstance(p, tuple) or isinstance(p, slice) or any(isinstance(q, tuple) for q in path)):
            c = np.array(c, dtype=float)
        if isinstance(c, np.ndarray):
            v = None if val is T.NONE else self.ev(val, env)
            if kind not in ('set', 'add'):
                raise Unevaluable('store ' + kind)
            v = self.arr(v)
            view = c
            for k, q in enumerate(path):
                q = self.ix(q)
                if k == len(path) - 1:
                    if np.iscomplexobj(v) and not np.iscomplexobj(view):
                        if k == 0:
                            c = c.astype(complex)
                            view = c
                        else:
                            raise Unevaluable('complex store in a view')
                    if view.dtype.kind in 'iub':
                        if k == 0:
                            c = c.astype(float)
                            view = c
                        else:
                            raise Unevaluable('store in an integer view')
                    if kind == 'set':
                        view[q] = v
                    else:
                        view[q] = view[q] + v
                else:
                    view = view[q]
                    if not isinstance(view, np.ndarray):
                        raise Unevaluable('path')
            return c
        if isinstance(c, list):
            k = self.integer(p)
            if not -len(c) <= k < len(c):
                raise Bottom('store out of range')
            if len(path) > 1:
                c[k] = self.put(mutable(c[k]), path[1:], kind, val, env)
            elif kind == 'set':
                c[k] = self.ev(val, env)
            else:
                c[k] = self.combine(kind, c[k], val, env)
            return c
        raise Unevaluable('store in %r at %r' % (type(c), path))

    def ix(self, q):
        if isinstance(q, tuple):
            return tuple(self.ix(x) for x in q)
        if isinstance(q, (slice, np.ndarray)) or q is None or q is Ellipsis:
            return q
        if isinstance(q, list):
            return tuple(self.ix(x) for x in q)
        return self.integer(q)

    def combine(self, kind, old, val, env):
        v = self.ev(val, env)
        if kind == 'set':
            return v
        if kind == 'add':
            if isinstance(old, str) or isinstance(v, str):
                return old + v
            return self.badd(self.arr(old), self.arr(v))
        if kind == 'append':
            return self.lst(old) + [v]
        if kind == 'extend':
            return self.lst(old) + self.lst(v)
        raise Unevaluable('store ' + kind)

    def o_get(self, t, env):
        x = self.ev(t.args[0], env)
        for p in t.args[1]:
            x = self.attr(x, p.args[0]) if p.op == 'attrkey' else self.index(x, self.ev(p, env))
        return x

    def o_keys(self, t, env):
        x = self.ev(t.args[0], env)
        if not isinstance(x, dict):
            raise Unevaluable('keys of %r' % type(x))
        return [k for k in x if k is not DEFAULT]

    def o_in(self, t, env):
        k, c = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(c, dict):
            return self.key(k) in c
        if isinstance(c, str):
            if not isinstance(k, str):
                raise Bottom('in')
            return k in c
        if isinstance(c, Ext):
            return self.h('in', repr(k), c.path) % 2 == 0
        return any(same(k, y, 1e-9) for y in self.lst(c))

    def o_delitem(self, t, env):
        c, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(c, dict):
            c = dict(c)
            del c[self.key(k)]
            return c
        c = self.lst(c)
        del c[self.integer(k)]
        return c

    def o_mutated(self, t, env):
        c = self.lst(self.ev(t.args[1], env))
        a = [self.ev(x, env) for x in t.args[2]]
        n = t.args[0]
        if n == 'insert':
            c.insert(self.integer(a[0]), a[1])
        elif n == 'pop':
            c.pop(*[self.integer(x) for x in a])
        elif n == 'remove':
            for k, y in enumerate(c):
                if same(y, a[0], 1e-9):
                    del c[k]
                    break
            else:
                raise Bottom('remove')
        elif n == 'reverse':
            c.reverse()
        elif n == 'sort':
            c = sorted(c, key=sortkey)
        elif n == 'clear':
            c = []
        else:
            raise Unevaluable('mutated ' + n)
        return c

    def o_popped(self, t, env):
        c = self.lst(self.ev(t.args[0], env))
        a = [self.ev(x, env) for x in t.args[1]]
        return c.pop(*[self.integer(x) for x in a])

    def o_sorted(self, t, env):
        return sorted(self.lst(self.ev(t.args[0], env)), key=sortkey)

    def o_reversed(self, t, env):
        return list(reversed(self.lst(self.ev(t.args[0], env))))

    # -- strings and effects

    def o_strcat(self, t, env):
        out = ''
        for p in t.args[0]:
            x = self.ev(p, env)
            out += x if isinstance(x, str) else self.text(x, '')
        return out

    def o_tostr(self, t, env):
        return self.text(self.ev(t.args[0], env), t.args[1])

    def text(self, x, spec):
        if isinstance(x, np.generic):
            x = x.item()
        if isinstance(x, str):
            return x if spec in ('', 's') else '{%s:%s}' % (x, spec)
        if isinstance(x, Ext):
            return '{%s:%s}' % (x.path, spec)
        if isnum(x):
            if spec in ('', '!r'):
                return str(x) if isinstance(x, (int, bool)) else '%.7g' % x if not isinstance(x, complex) else '%.7g%+.7gj' % (x.real, x.imag)
            try:
                return ('%' + spec) % x
            except (ValueError, TypeError):
                try:
                    return format(x, spec)
                except (ValueError, TypeError):
                    return '{%.7g:%s}' % (x, spec)
        if x is None:
            return 'None'
        return '{%r:%s}' % (self.canon(x), spec)

    def o_strjoin(self, t, env):
        return ''.join(self.lst(self.ev(t.args[0], env)))

    def o_ev(self, t, env):
        return ('ev', t.args[0]) + tuple(self.ev(a, env) for a in t.args[1])

    def o_file(self, t, env):
        return ('file',) + tuple(self.ev(a, env) for a in t.args)

    def o_kw(self, t, env):
        return ('kw', t.args[0], self.ev(t.args[1], env))

    def o_exc(self, t, env):
        return ('exc', t.args[0])

    def o_hasattr(self, t, env):
        return self.h('hasattr', T.show(t.args[0])) % 2 == 0

    def o_isinstance(self, t, env):
        x = self.ev(t.args[0], env)
        names = t.args[1]
        n = type(x).__name__
        if isinstance(x, bool):
            return 'bool' in names or 'int' in names
        if isinstance(x, (int, float)):
            return n in names
        if isinstance(x, str):
            return 'str' in names
        if isinstance(x, list):
            return 'list' in names
        return self.h('isinstance', repr(self.canon(x)), names) % 2 == 0

    def o_iterable(self, t, env):
        x = self.ev(t.args[0], env)
        return not isnum(x) and x is not None

    def o_boolcall(self, t, env):
        a = [self.evs(x, env) for x in t.args[1:]]
        n = t.args[0]
        if n in ('any', 'all'):
            if isinstance(a[0], (list, tuple)):
                return (any if n == 'any' else all)([bool(np.any(x) if n == 'any' else np.all(x)) if isinstance(x, np.ndarray) else self.truth(x) for x in a[0]])
            return bool((np.any if n == 'any' else np.all)(self.arr(a[0])))
        if n in ('startswith', 'endswith') and isinstance(a[0], str):
            return getattr(a[0], n)(*a[1])
        if n == 'isdigit' and isinstance(a[0], str):
            return a[0].isdigit()
        return self.h('boolcall', n, repr(self.canon(a))) % 2 == 0

    def o_mcall(self, t, env):
        n = t.args[0]
        x = self.ev(t.args[1], env)
        a = [self.evs(y, env) for y in t.args[2]]
        kw = [(k, self.ev(v, env)) for k, v in t.args[3]] if len(t.args) > 3 else []
        if isinstance(x, str) and hasattr(x, n) and not kw:
            try:
                return getattr(x, n)(*a)
            except TypeError:
                raise Bottom('str method')
        if isinstance(x, dict) and n == 'get':
            k = self.key(a[0])
            return x[k] if k in x else (a[1] if len(a) > 1 else None)
        f = getattr(self, 'm_' + n, None)
        if f is not None:
            return f(x, a, dict(kw))
        if ('mcall', n) in self.foreign and (isinstance(x, (list, tuple, dict)) or isnum(x)):
            raise Unevaluable('method ' + n)
        if ('mcall', n) in self.foreign and isinstance(x, np.ndarray) and callable(getattr(x, n, None)):
            try:
                return self.item(getattr(x.copy(), n)(*[real_value(y) for y in a], **{k: real_value(v) for k, v in kw}))
            except Exception as e:
                raise Bottom('%s: %s' % (n, type(e).__name__))
        if n in T.STRING_METHODS and n != 'split':
            return '{%s}' % repr(self.canon([n, x, a, [v for k, v in kw]]))
        return self.uf('mcall.' + n, [x] + a + [v for k, v in kw], M.MCALL_RANK.get(n, 0))

    def m_sample(self, x, a, kw):
        return c_sample(self, x, *(a + [v for k, v in sorted(kw.items())]))

    def o_apply(self, t, env):
        f = self.ev(t.args[0], env)
        a = [self.evs(y, env) for y in t.args[1]]
        kw = [(k, self.ev(v, env)) for k, v in t.args[2]]
        if a and (isinstance(a[0], With) or isinstance(a[0], Ext) and a[0].kind in ('frame', 'system')) and t.args[0] in M.FILTERS:
            # a callback that selects some of the particles
            p = self.lst(self.attr(a[0], 'particle'))
            key = (repr(self.canon(f)), repr(self.canon(a[1:])), repr(self.canon(dict(kw))))
            keep = [x for i, x in enumerate(p) if self.u('keep', i, *key) < 0.6]
            return With(a[0], {'particle': keep or p[:1]})
        return self.uf('apply', [f] + a + [v for k, v in kw])

    def o_call(self, t, env):
        n = t.args[0]
        f = CALLS.get(n)
        lazy = LAZY.get(n)
        if lazy is not None:
            return lazy(self, t, env)
        kw = {}
        a = []
        for y in t.args[1]:
            if isinstance(y, T.Term) and y.op == 'kw':
                kw[y.args[0]] = self.ev(y.args[1], env)
            else:
                a.append(self.evs(y, env))
        if f is not None:
            with np.errstate(all='ignore'):
                return f(self, *a, **kw)
        f = concrete(n)
        if f is None and n in self.foreign:
            raise Unevaluable('call of ' + n)
        if f is not None:
            try:
                with np.errstate(all='ignore'):
                    v = f(*[real_value(x) for x in a], **{k: real_value(v) for k, v in kw.items()})
            except Unevaluable:
                raise
            except Exception as e:
                raise Bottom('%s: %s' % (n, type(e).__name__))
            return self.item(v) if isinstance(v, (np.ndarray, np.generic)) or isnum(v) else v
        r = M.CALL_RANK.get(n)
        rk = 0
        if r is not None:
            rk = r(t) or 0
        return self.uf(n, a + [kw[k] for k in sorted(kw)], rk)


def c_open(m, *a, **kw):
    return Ext(m, 'traj', 'open(%r)' % (m.canon([list(a), sorted(kw.items())]),), opened=True)


# library functions known to differ from any other one
DISTINCT = {'random.Random', 'os.path.getctime', 'os.path.getatime', 'os.path.getsize'}

LIBRARIES = {'numpy', 'math', 'scipy', 'itertools', 'functools', 'operator', 'collections', 'copy', 're', 'string', 'bisect', 'heapq',
             'statistics', 'cmath', 'fractions', 'decimal', 'sys', 'os', 'inspect', 'random', 'warnings', 'textwrap', 'contextlib'}


def called(terms):
    out, seen, stack = set(), set(), list(terms)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'call':
            out.add(x.args[0])
        elif x.op == 'mcall':
            out.add(('mcall', x.args[0]))
        stack.extend(x.args)
    return out


def library(n):
    if isinstance(n, tuple):
        return True
    from .interp import PYBUILTINS
    return '.' in n and n.split('.')[0] in LIBRARIES or n in PYBUILTINS


def concrete(n):
    """Numerical functions of numpy and math: their values are known."""
    root, _, name = n.partition('.')
    f = {'numpy': np, 'math': math}.get(root)
    for part in name.split('.'):
        f = getattr(f, part, None) if f is not None and not part.startswith('_') and part not in ('random', 'save', 'load', 'savetxt', 'loadtxt') else None
    return f if callable(f) else None


def real_value(x):
    if isinstance(x, np.ndarray) and x.dtype != object or isnum(x) or x is None or isinstance(x, (str, slice)):
        return x
    if isinstance(x, (list, tuple)):
        return [real_value(y) for y in x]
    raise Unevaluable('argument %r of a library function' % type(x))


class _Default(object):
    def __repr__(self):
        return 'DEFAULT'


DEFAULT = _Default()


def mutable(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        # entries are copied on the way to the one that changes
        return list(x)
    if isinstance(x, tuple):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    return x


def sortkey(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return (2, tuple(sortkey(y) for y in x))
    if isinstance(x, str):
        return (1, x)
    if isinstance(x, np.generic):
        x = x.item()
    if isnum(x):
        if isinstance(x, complex):
            raise Bottom('order of complex numbers')
        return (0, x)
    raise Bottom('unorderable')


def unique(m, x):
    out, seen = [], set()
    for y in m.lst(x):
        k = m.key(y)
        if k not in seen:
            seen.add(k)
            out.append(y)
    try:
        return sorted(out, key=sortkey)
    except Bottom:
        return sorted(out, key=repr)


def c_sortedkey(m, t, env):
    c = m.lst(m.ev(t.args[1][0], env))
    rest = t.args[1][1:]
    rev = False
    key = sortkey
    for y in rest:
        if y.op == 'lam':
            h = y.args[0][0]
            # the function of the entry number
            vals = []
            for k in range(len(c)):
                e = dict(env)
                e[h] = k
                vals.append(sortkey(m.ev(y.args[2], e)))
            order = sorted(range(len(c)), key=lambda k: vals[k])
            c2 = [c[k] for k in order]
            key = None
        elif y.op == 'bool':
            rev = y.args[0]
        elif y.op == 'none':
            pass
        elif y.op == 'kw':
            raise Unevaluable('sort with keywords')
    if key is None:
        return list(reversed(c2)) if rev else c2
    return sorted(c, key=sortkey, reverse=rev)


def c_minkey(op):
    def f(m, t, env):
        c = m.lst(m.ev(t.args[1][0], env))
        y = t.args[1][1]
        h = y.args[0][0]
        vals = []
        for k in range(len(c)):
            e = dict(env)
            e[h] = k
            vals.append(sortkey(m.ev(y.args[2], e)))
        if not c:
            raise Bottom('empty')
        return c[op(range(len(c)), key=lambda k: vals[k])]
    return f


LAZY = {'sortedkey': c_sortedkey, 'minkey': c_minkey(min), 'maxkey': c_minkey(max)}


def c_grid(m, trj, grid, offset=False, *rest):
    out = []
    n = m.nframes(trj) if isinstance(trj, Ext) else len(trj)
    sig = repr((getattr(trj, 'path', None), m.canon(np.round(m.arr(grid), 5)) if not isinstance(grid, Ext) else grid.path, bool(offset)))
    if m.varying and m.flag('lag zero', 2):
        # nothing else is defined for most functions when the number of particles varies
        return [[0, 0]]
    if not isinstance(grid, Ext) and np.min(m.arr(grid)) <= 0:
        # the lag closest to zero
        out.append([0, 0])
    for k in range(1 + (2 if m.seed < 8 else m.h('npairs', sig) % 5)):
        off = m.h('off', sig, k) % 2 if offset else 0
        lag = m.h('lag', sig, k) % max(1, n - off - 1)
        out.append([off, lag])
    return out


def c_skip(m, trj, norigins=-1):
    return 1 + m.h('skip', repr(m.canon(norigins)), getattr(trj, 'path', '')) % 2


def c_distinct(m, x):
    return sorted(set(m.lst(m.attr(x, 'species')))) if isinstance(x, Ext) else sorted({m.attr(p, 'species') for p in m.lst(x)})


def np1(f):
    return lambda m, x, *a, **kw: m.item(f(m.arr(x), *[m.integer(y) if isnum(y) and not isinstance(y, float) else y for y in a], **kw))


def c_minmax(f):
    def g(m, x, *a, **kw):
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
            return f(x)
        y = m.arr(x)
        if not isinstance(y, np.ndarray):
            raise Bottom('min of a number')
        if y.size == 0:
            raise Bottom('min of nothing')
        if a or kw:
            return (np.min if f is min else np.max)(y, *a, **kw)
        return m.item(f(y.tolist(), key=sortkey)) if y.ndim == 1 else m.item((np.min if f is min else np.max)(y))
    return g


def c_path(name):
    def f(m, *a):
        if all(isinstance(x, str) for x in a):
            return getattr(posixpath, name)(*a)
        return '{%s}' % repr(m.canon([name] + list(a)))
    return f


def c_loadtxt(m, fh, **kw):
    """Content of a file of two columns, of three columns (a function of two variables) or more."""
    n = [2, 3, 3, 4][m.h('columns') % 4]
    key = repr(m.canon(fh))
    if n == 3:
        nx, ny = 1 + m.h('nx', key) % 3, 1 + m.h('ny', key) % 3
        if m.h('single', key) % 3 == 0:
            nx = ny = 1
        x = [0.1 + i + m.u('ltx', key, i) for i in range(nx)]
        y = [0.1 + i + m.u('lty', key, i) for i in range(ny)]
        if m.h('descending', key) % 3 == 0:
            # grids given by the user need not be sorted
            x, y = x[::-1], y[::-1]
        cols = [[a for a in x for b in y], [b for a in x for b in y], [m.u('ltz', key, i) for i in range(nx * ny)]]
    else:
        r = [1, 3, 4, 5][m.h('lt', key) % 4]
        cols = [[0.1 + i + m.u('lt', key, c, i) for i in range(r)] for c in range(n)]
    cols = np.array(cols)
    if cols.shape[1] == 1 and kw.get('ndmin', 0) < 2:
        return cols[:, 0]
    return cols if kw.get('unpack') else cols.T


def c_sample(m, rng, items, k):
    """A choice of k distinct items, the same for the same items"""
    items, k = m.lst(items), m.integer(k)
    if not 0 <= k <= len(items):
        raise Bottom('sample of %d out of %d' % (k, len(items)))
    order = sorted(range(len(items)), key=lambda i: m.h('sample', repr(rng), len(items), i))
    return [items[i] for i in order[:k]]



def _histogram(m, x, bins=10, *a, **kw):
    if not isnum(bins):
        bins = m.arr(bins)
        if len(bins) < 2:
            raise Bottom('histogram without bins')
    n, e = np.histogram(m.arr(x), bins, *a, **kw)
    return [n, e]


def _linear_grid(m, lo, hi, n):
    """What property P29 establishes."""
    if isinstance(n, (float, np.floating)):
        if n == 0 or (hi - lo) / n > 1000:
            raise Bottom('grid')
        return [lo + i * n for i in range(int((hi - lo) / n) + 1)]
    return [lo + i * (hi - lo) / (n - 1) for i in range(n)] if n > 1 else [lo] * n


def _logx_grid(m, lo, hi, n):
    n = m.integer(n)
    if lo > 0:
        q = (hi / lo)**(1.0 / n)
        return [lo] + [lo * q**(i + 1) for i in range(1, n)]
    q = hi**(1.0 / n)
    return [lo] + [q**(i + 1) - 1 for i in range(1, n)]


CALLS = {
    'Trajectory': c_open, 'TrajectoryXYZ': c_open,
    'numpy.loadtxt': c_loadtxt, 'numpy.count_nonzero': lambda m, x: int(np.count_nonzero(x)),
    'os.path.dirname': c_path('dirname'), 'os.path.basename': c_path('basename'), 'os.path.join': c_path('join'),
    'os.path.splitext': lambda m, x: list(posixpath.splitext(x)) if isinstance(x, str) else m.uf('splitext', [x], 1),
    'setup_t_grid': c_grid, 'adjust_skip': c_skip, 'logx_grid': _logx_grid,
    'distinct_species': c_distinct,
    'set': unique,
    'min': c_minmax(min), 'max': c_minmax(max),
    'numpy.min': c_minmax(min), 'numpy.max': c_minmax(max),
    'numpy.transpose': lambda m, x, *a: np.transpose(m.arr(x), *a),
    'numpy.flatten': lambda m, x, order='C': np.ravel(m.arr(x), order),
    'numpy.dot': lambda m, a, b: m.item(np.dot(m.arr(a), m.arr(b))),
    'numpy.size': np1(np.size), 'numpy.prod': np1(np.prod), 'numpy.var': np1(np.var), 'numpy.std': np1(np.std),
    'numpy.mean': np1(np.mean), 'numpy.cumsum': np1(np.cumsum), 'numpy.count_nonzero': np1(np.count_nonzero),
    'numpy.argmin': np1(np.argmin), 'numpy.argmax': np1(np.argmax), 'numpy.diff': np1(np.diff),
    'numpy.sort': np1(np.sort), 'numpy.median': np1(np.median), 'numpy.sign': np1(np.sign),
    'numpy.repeat': lambda m, x, n, **kw: np.repeat(m.arr(x), m.integer(n) if isnum(n) else n, **kw),
    'math.atan': lambda m, x: m.item(np.arctan(m.arr(x))),
    'math.asin': lambda m, x: m.item(np.arcsin(m.arr(x))),
    'numpy.ones': lambda m, n: np.ones([m.integer(y) for y in n] if isinstance(n, list) else m.integer(n)),
    'numpy.asfortranarray': lambda m, x: m.arr(x),
    'numpy.unique': lambda m, x: np.unique(m.arr(x)),
    'numpy.where': lambda m, c, *a: np.where(c, *[m.arr(x) for x in a]) if a else [np.nonzero(c)[0]],
    'numpy.linspace': lambda m, a, b, n=50, **kw: list(np.linspace(m.scalar(a), m.scalar(b), m.integer(n), **kw)),
    'numpy.reshape': lambda m, x, *sh: np.reshape(m.arr(x), [m.integer(y) for y in (sh[0] if len(sh) == 1 and isinstance(sh[0], (list, tuple)) else sh)]),
    'numpy.stack': lambda m, x, **kw: np.stack([m.arr(y) for y in x], **kw),
    'numpy.concatenate': lambda m, x, **kw: np.concatenate([m.arr(y) for y in x], **kw),
    'numpy.floor': np1(np.floor),
    'math.floor': lambda m, x: np.floor(x + 1e-9) if isinstance(x, np.ndarray) and x.size != 1 else int(math.floor(m.scalar(x) + 1e-9)),
    'math.ceil': lambda m, x: np.ceil(x - 1e-9) if isinstance(x, np.ndarray) and x.size != 1 else int(math.ceil(m.scalar(x) - 1e-9)),
    'numpy.ceil': np1(np.ceil), 'numpy.isnan': np1(np.isnan),
    'numpy.linalg.norm': lambda m, x, **kw: m.item(np.linalg.norm(m.arr(x), **kw)),
    'numpy.clip': lambda m, x, a, b: m.item(np.clip(m.arr(x), a, b)),
    'numpy.outer': lambda m, a, b: np.outer(m.arr(a), m.arr(b)),
    'numpy.add.outer': lambda m, a, b: np.add.outer(m.arr(a), m.arr(b)),
    'numpy.polyfit': lambda m, x, y, d: np.polyfit(m.arr(x), m.arr(y), m.integer(d)),
    'numpy.histogram': _histogram,
    'histogram': lambda m, x, bins: _histogram(m, x, bins)[0],
    'linear_grid': _linear_grid,
    'numpy.astype_int': lambda m, x: m.truncated(m.arr(x)),
    'round': lambda m, x, n=0, **kw: m.item(np.round(m.arr(x), m.integer(kw.get('decimals', n)))),
    'list.index': lambda m, x, y: [same(z, y, 1e-9) for z in m.lst(x)].index(True),
    'list.count': lambda m, x, y: sum(1 for z in m.lst(x) if same(z, y, 1e-9)),
    'repeatlist': lambda m, x, n: m.lst(x) * m.integer(n),
    'op.Invert': lambda m, x: ~np.asarray(x),
    'op.BitAnd': lambda m, x, y: np.asarray(x) & np.asarray(y),
    'op.BitOr': lambda m, x, y: np.asarray(x) | np.asarray(y),
    'ndim': lambda m, x: np.ndim(m.arr(x)),
    'filled': lambda m, x, v: np.full(np.shape(m.arr(x)), m.scalar(v)),
    'numpy.ones_like': lambda m, x: np.ones_like(m.arr(x), dtype=float),
    'numpy.empty_like': lambda m, x: np.full(np.shape(m.arr(x)), np.nan),
    'numpy.full': lambda m, n, v: np.full([m.integer(y) for y in n] if isinstance(n, list) else m.integer(n), m.scalar(v)),
    'numpy.eye': lambda m, n: np.eye(m.integer(n)),
    'numpy.zeros': lambda m, n: np.zeros([m.integer(y) for y in n] if isinstance(n, list) else m.integer(n)),
    'numpy.einsum': lambda m, s, *a: m.item(np.einsum(s, *[m.arr(x) for x in a])),
    'numpy.minimum': lambda m, a, b: np.minimum(m.arr(a), m.arr(b)),
    'numpy.maximum': lambda m, a, b: np.maximum(m.arr(a), m.arr(b)),
    'numpy.swapaxes': lambda m, x, a, b: np.swapaxes(m.arr(x), m.integer(a), m.integer(b)),
    'numpy.tile': lambda m, x, n: np.tile(m.arr(x), n),
    'numpy.compress': lambda m, c, x, **kw: np.compress(c, m.arr(x), **kw),
    'numpy.isclose': lambda m, a, b, **kw: np.isclose(m.arr(a), m.arr(b), **kw),
    'numpy.logical_and': lambda m, a, b: np.logical_and(a, b),
    'numpy.logical_or': lambda m, a, b: np.logical_or(a, b),
    'numpy.logical_not': lambda m, a: np.logical_not(a),
    'numpy.hypot': lambda m, a, b: np.hypot(m.arr(a), m.arr(b)),
    'numpy.log10': np1(np.log10), 'numpy.log2': np1(np.log2), 'numpy.tan': np1(np.tan), 'numpy.arcsin': np1(np.arcsin),
    'numpy.trunc': np1(np.trunc), 'numpy.column_stack': lambda m, x: np.column_stack([m.arr(y) for y in x]),
    'numpy.vstack': lambda m, x: np.vstack([m.arr(y) for y in x]), 'numpy.hstack': lambda m, x: np.hstack([m.arr(y) for y in x]),
    'os.path.getmtime': lambda m, p: float(m.h('mtime', p) % 3),
    'fractional_slice': lambda m, *a: m.uf('fractional_slice', list(a)),
}


# ---------------------------------------------------------------- comparison of values

def same(a, b, tol=1e-6):
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if isinstance(a, Ext) and isnum(b):
        a = a.number()
    if isinstance(b, Ext) and isnum(a):
        b = b.number()
    if isinstance(a, (list, tuple, np.ndarray)):
        if not isinstance(b, (list, tuple, np.ndarray)) or len(a) != len(b):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, (list, tuple, np.ndarray)):
        return False
    if isnum(a) and isnum(b):
        if isinstance(a, bool) != isinstance(b, bool):
            a, b = complex(a), complex(b)
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            return same(a.real, b.real, tol) and same(a.imag, b.imag, tol)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {k for k in a if k is not DEFAULT}
        kb = {k for k in b if k is not DEFAULT}
        return ka == kb and all(same(a[k], b[k], tol) for k in ka)
    if isinstance(a, (With,)) or isinstance(b, (With,)):
        xa, aa = a.canon() if isinstance(a, With) else (a, {})
        xb, ab = b.canon() if isinstance(b, With) else (b, {})
        if not same(xa, xb, tol):
            return False
        for k in set(aa) | set(ab):
            m = (xa if isinstance(xa, Ext) else xb)
            va = aa[k] if k in aa else (xa.model.attr(xa, k) if isinstance(xa, Ext) else None)
            vb = ab[k] if k in ab else (xb.model.attr(xb, k) if isinstance(xb, Ext) else None)
            if not same(va, vb, tol):
                return False
        return True
    if isinstance(a, Inst) and isinstance(b, Inst):
        return a.name == b.name and len(a.attrs) == len(b.attrs) and all(
            k == l and same(v, w, tol) for (k, v), (l, w) in zip(a.attrs, b.attrs))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        return numeric_text(a) == numeric_text(b) and numeric_text(a) is not None
    return type(a) == type(b) and a == b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path)


import re
_num = re.compile(r'[-+]?\d+\.\d+(?:[eE][-+]?\d+)?')


def numeric_text(s):
    return _num.sub(lambda m: '%.4g' % float(m.group()), s)


# ---------------------------------------------------------------- deciding

def string_constants(ts):
    out = set()
    seen = set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'eq':
            for y in x.args:
                if y.op == 'str':
                    out.add(y.args[0])
        elif x.op == 'in' or x.op == 'mcall' and x.args[0] in ('startswith', 'endswith', 'find', 'index', 'count', 'split', 'partition'):
            for y in x.args[1:] if x.op == 'mcall' else x.args[:1]:
                for z in y if isinstance(y, tuple) else (y,):
                    if isinstance(z, T.Term) and z.op == 'str':
                        out.update(['a%sb' % z.args[0], '%sb' % z.args[0], 'a%s' % z.args[0]])
        stack.extend(x.args)
    return sorted(out)


def outcome(m, o):
    """Value of an outcome: the exceptions raised, or the result and the effects."""
    raised = sorted(k for k, c in o.exc.items() if m.truth(m.ev(c)))
    if raised:
        return ('raises', raised)
    return ('ok', m.ev(o.value), effects(m, m.ev(o.fx)) if o.fx is not None else [])


def effects(m, fx):
    """Consecutive writes to the same file are one."""
    out = []
    for e in fx:
        if isinstance(e, tuple) and e[:2] == ('ev', 'fwrite') and len(e) == 4:
            s = e[3] if isinstance(e[3], str) else m.text(e[3], '')
            if s == '':
                continue
            if out and out[-1][:3] == e[:3]:
                out[-1] = out[-1][:3] + (out[-1][3] + s,)
                continue
            e = e[:3] + (s,)
        out.append(e)
    return out


def decide(a, b, assumptions=(), seeds=96, hints=None, want=40, limit=30.0):
    """Compare two outcomes under random assignments.

    Returns (status, info): 'equal' with the number of conclusive assignments,
    'different' with a witness, 'undecided' with a reason."""
    terms = [a.value, b.value, a.fx or T.NONE, b.fx or T.NONE] + list(a.exc.values()) + list(b.exc.values())
    strings = string_constants(terms)
    ca = called([a.value, a.fx or T.NONE] + list(a.exc.values()))
    cb = called([b.value, b.fx or T.NONE] + list(b.exc.values()) + list(assumptions))
    # library functions that only the implementation calls
    foreign = {n for n in ca - cb if library(n) and n not in DISTINCT}
    good, why, ones = 0, None, 0
    want = (hints or {}).get('assignments', want)
    start = time.time()
    for seed in range(seeds):
        if seed >= 8 and time.time() - start > limit and (good >= 6 or time.time() - start > 4 * limit):
            break
        m = Model(seed, strings, hints)
        m.foreign = foreign
        try:
            if not all(m.truth(m.ev(c)) for c in assumptions):
                continue
        except (Bottom, Unevaluable) as e:
            why = 'assumption: %s' % e
            continue
        va = vb = None
        try:
            va = outcome(m, a)
        except Bottom as e:
            va = ('bottom', str(e))
        except Unevaluable as e:
            why = 'implementation: %s' % e
            continue
        try:
            vb = outcome(m, b)
        except Bottom as e:
            vb = ('bottom', str(e))
        except Unevaluable as e:
            why = 'reference: %s' % e
            continue
        if va[0] == 'bottom' or vb[0] == 'bottom':
            if vb[0] == 'bottom':
                why = 'undefined: %s' % vb[1]
                continue
            # the reference has a value and the implementation has none
            ones += 1
            if ones >= 3:
                return 'different', 'assignment %d: undefined (%s) instead of %s' % (seed, va[1], brief(vb))
            continue
        if not same(va, vb):
            return 'different', 'assignment %d: %s' % (seed, first_diff(va, vb))
        good += 1
        if good >= want:
            break
    if good >= 4:
        return 'equal', good
    return 'undecided', why or 'no assignment satisfies the assumptions'


def brief(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def first_diff(a, b, path=''):
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return '%s has %d entries instead of %d: %s, %s' % (path or 'value', len(a), len(b), brief(a), brief(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, '%s[%d]' % (path, k))
    return '%s is %s instead of %s' % (path or 'value', brief(a), brief(b))
