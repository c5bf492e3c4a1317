"""Abstract semantics of Python built-ins, numpy and the atooms interfaces.

Everything the analysed package calls but does not define is modelled here:
either by a normalising term constructor (arithmetic, sequences, strings,
dictionaries, numpy reductions, the trajectory interface) or by an
uninterpreted function of its arguments.
"""

import ast
import itertools

from . import terms as T
from .state import UNDEF, REFKIND, REFCLS, has_ref, parts_of, base_groups
from .terms import NONE, TRUE, FALSE, ZERO, ONE


# ---------------------------------------------------------------- kinds and ranks

FILTERS = set()    # symbols of functions that select particles
SETREFS = set()    # dictionaries that stand for sets
KIND = {}       # sym term -> 'str' | 'num' | 'list' | 'array' | 'func' | 'obj' | 'bool'
RANK = {}       # sym term -> rank

ATTR_RANK = {'stress': 2, 'side': 1, 'position': 1, 'velocity': 1, 'position_unfolded': 1, 'center': 1, 'particle': 1,
             'steps': 1, 'samples': 1, 'times': 1, 'force': 1, 'periodic': 1}
DUMP_RANK = {'pos': 2, 'vel': 2, 'species': 1, 'particle.position_unfolded': 2, 'position': 2, 'particle.position': 2,
             'mass': 1, 'spe': 1, 'radius': 1, 'particle.radius': 1, 'particle.velocity': 2, 'particle.species': 1}
SCALAR_CALLS = {'numpy.any', 'numpy.all', 'min', 'max', 'math.gamma', 'math.floor', 'math.ceil', 'numpy.size', 'numpy.median'}
_rank = {}


def rank(t):
    """Number of array dimensions, None when unknown."""
    r = _rank.get(t, -1)
    if r == -1:
        r = _rank_of(t)
        _rank[t] = r
    return r


def mask_rank(c):
    """Rank of an elementwise condition: the largest one of the compared arrays."""
    if c.op != 'phi':
        return rank(c)
    best = 0
    atoms = [c.args[0]]
    todo = [c]
    while todo:
        x = todo.pop()
        if x.op == 'phi':
            atoms.append(x.args[0])
            todo += x.args[1:]
    for x in atoms:
        if x.op in ('lt0', 'eq0'):
            r = rank(x.args[0])
            if r is None:
                return None
            best = max(best, r)
    return best


def _rank_of(t):
    o, a = t.op, t.args
    if o in ('num', 'str', 'bool', 'none', 'len', 'bv', 'bnd', 'tostr', 'strcat', 'count', 'floordiv', 'mod', 'lt0', 'eq0', 'eq',
             'first', 'ceildiv', 'min', 'max', 'obj'):
        if o in ('bv', 'bnd') and not str(a[1]).startswith('i'):
            return RANK.get(t)
        return 0
    if o == 'toint':
        return rank(a[0]) or 0
    if o == 'sym':
        if t in RANK:
            return RANK[t]
        if t in T.KNOWN_SCALAR or KIND.get(t) in ('num', 'str', 'bool'):
            return 0
        return None
    if o == 'poly':
        best = 0
        for m, c in a[0]:
            for at, e in m:
                r = rank(at)
                if r is None:
                    return None
                best = max(best, r)
        return best
    if o == 'mask':
        return mask_rank(a[0])
    if o in ('exp', 'conj', 'real', 'imag', 'abs', 'rint', 'sin', 'cos', 'log', 'tofloat', 'sorted', 'reversed', 'acos'):
        x = a[0]
        return rank(x) if isinstance(x, T.Term) else None
    if o == 'pow':
        return rank(a[0])
    if o == 'phi':
        if o == 'phi' and t.args[1] in (TRUE, FALSE):
            return 0
        r, s = rank(a[1]), rank(a[2])
        return r if r == s else (None if r is None or s is None else max(r, s))
    if o == 'comp':
        r = rank(a[3])
        return None if r is None else 1 + r
    if o == 'seq':
        if not a[0]:
            return 1
        r = rank(a[0][0])
        return None if r is None else 1 + r
    if o == 'concat':
        for x in a[0]:
            r = rank(x)
            if r is not None and not (x.op == 'seq' and not x.args[0]):
                return r
        return rank(a[0][0])
    if o == 'range':
        return 1
    if o == 'sum':
        return rank(a[2])
    if o == 'npsum':
        if a[1] is NONE:
            return 0
        r = rank(a[0])
        return None if r is None else r - 1
    if o in ('zeros', 'newarr'):
        sh = a[0]
        if sh.op == 'seq':
            return len(sh.args[0])
        if sh.op == 'shape':
            return rank(sh.args[0])
        return 1 if sh.op not in ('concat',) else None
    if o == 'dict0':
        r = rank(a[0]) if a[0] is not NONE else None
        return None if r is None else 1 + r
    if o == 'upd':
        r = rank(a[0])
        return r
    if o == 'rec' and a[5].op == 'num':
        k = int(a[5].args[0])
        init = a[3].args[0][k]
        r = None if init.op == 'seq' and not init.args[0] else rank(init)
        if r is None:
            # from what is appended
            r = rank(a[4].args[0][k])
        return r if r else None
    if o == 'get':
        r = rank(a[0])
        return None if r is None else max(0, r - len(a[1]))
    if o == 'attr':
        if a[1] in ATTR_RANK:
            return ATTR_RANK[a[1]]
        return 0
    if o == 'dump':
        key = a[1].args[0] if a[1].op == 'str' else None
        if key not in DUMP_RANK and key is not None and dump_attr(key) is not None:
            # one value per particle
            return 1
        return DUMP_RANK.get(key)
    if o == 'shape':
        return 1
    if o == 'index':
        r = rank(a[0])
        if r is None:
            return None
        i = a[1]
        if i.op == 'slice':
            return r
        if i.op == 'tuple':
            n = sum(1 for x in i.args[0] if x.op not in ('slice', 'ellipsis', 'none'))
            return max(0, r - n)
        ri = rank(i)
        if ri and i.op == 'mask':
            return max(1, r - ri + 1)
        if ri:
            return r - 1 + ri
        return max(0, r - 1)
    if o == 'call':
        if a[0] in SCALAR_CALLS:
            return 0
        f = CALL_RANK.get(a[0])
        if f is not None:
            return f(t)
        return None
    if o == 'mcall':
        return MCALL_RANK.get(a[0])
    return None


T.RANK_HOOK.append(rank)

CALL_RANK = {
    'expo': lambda t: None if rank(t.args[1][2]) is None else rank(t.args[1][2]) + 1,
    'numpy.transpose': lambda t: rank(t.args[1][0]),
    'numpy.flatten': lambda t: 1,
    'numpy.repeat': lambda t: 1,
    'numpy.ones': lambda t: 1,
    'histogram': lambda t: 1,
    'set': lambda t: 1,
    'numpy.asfortranarray': lambda t: rank(t.args[1][0]),
    'distinct_species': lambda t: 1,
    'numpy.where': lambda t: None,
    'numpy.loadtxt': lambda t: 2,
}
MCALL_RANK = {}


def isarr(t):
    r = rank(t)
    return r is not None and r > 0


# ---------------------------------------------------------------- term level rules

TRAJ_PASS = ('unfold', 'cbk', 'rewound')
PARTICLE_DUMP = {'pos': 'position', 'vel': 'velocity', 'spe': 'species', 'species': 'species', 'position': 'position',
                 'particle.position': 'position', 'particle.velocity': 'velocity', 'particle.species': 'species'}
CANON_DUMP = {'position': 'pos', 'velocity': 'vel', 'species': 'species'}


def dump_attr(key):
    """Particle attribute read by dump(key)."""
    if key in PARTICLE_DUMP:
        return PARTICLE_DUMP[key]
    if key.startswith('particle.'):
        return key[len('particle.'):]
    return None


def mk_dump(s, key):
    def one(s, key):
        if key.op == 'str':
            a = dump_attr(key.args[0])
            if a is not None:
                k = T.string(CANON_DUMP.get(a, 'particle.' + a))
                if s.op == 'objwith' or s.op == 'copyof':
                    ps = T.mk_attr(s, 'particle')
                    return mapattr(ps, a)
                return T.mk('dump', s, k)
        return T.mk('dump', s, key)
    return T.lift(one, s, key)


def mapattr(ps, a):
    """[p.a for p in ps]"""
    if ps.op == 'phi':
        return T.lift(lambda x: mapattr(x, a), ps)
    if ps.op == 'seq':
        return T.seq([T.mk_attr(p, a) for p in ps.args[0]])
    if ps.op == 'comp':
        doms, guard, body, bvs = T.open_comp(ps)
        return T.mk_comp(bvs, doms, guard, T.mk_attr(body, a))
    if ps.op == 'concat':
        return T.concat([mapattr(p, a) for p in ps.args[0]])
    if ps.op == 'attr' and ps.args[1] == 'particle':
        return mk_dump(ps.args[0], T.string('particle.' + a))
    w = T.fresh('i')
    return T.mk_comp((w,), (T.mk_range(ZERO, T.mk_len(ps), ONE),), TRUE, T.mk_attr(T.mk_index(ps, w), a))


def dump_index(x, i):
    s, key = x.args
    if key.op != 'str':
        return None
    a = dump_attr(key.args[0])
    if a is None or i.op in ('slice', 'tuple', 'ellipsis', 'seq', 'comp', 'mask'):
        return None
    return T.mk_attr(T.mk_index(T.mk_attr(s, 'particle'), i), a)


T.INDEX_MODELS['dump'] = dump_index


def comp_rule(bvs, doms, guard, body):
    """[p.a for p in s.particle] is the dump of a"""
    if len(bvs) == 1 and guard is TRUE and body.op == 'attr' and body.args[0].op == 'index':
        ps, j = body.args[0].args
        if j is bvs[0] and ps.op == 'attr' and ps.args[1] == 'particle' and j.args[0] not in ps.bvs:
            if doms[0].op == 'range' and doms[0].args[1] is T.mk_len(ps):
                return mk_dump(ps.args[0], T.string('particle.' + body.args[1]))
    return None


T.COMP_RULES.append(comp_rule)


def attr_rule(x, name):
    if x.op in TRAJ_PASS and name in ('steps', 'timestep', 'filename', 'block_size', 'total_time', 'times'):
        return T.mk_attr(x.args[0], name)
    if x.op == 'copyof':
        return T.mk_attr(x.args[0], name)
    if x.op == 'frame' and name == 'cell' and x.args[0].op in ('unfold', 'cbk', 'rewound') and False:
        return None
    if x.op == 'index' and name in ('real', 'imag') and False:
        return None
    return None


T.ATTR_MODELS.append(attr_rule)


def len_rule(x):
    if x.op == 'keys':
        y = keys_as_set(x)
        if y is not x:
            return T.mk_len(y)
    """Lengths of trajectories and of what is read from them."""
    o = x.op
    if o == 'attr' and x.args[1] in ('steps', 'samples', 'times'):
        return T.mk_len(x.args[0])
    if o in TRAJ_PASS:
        return T.mk_len(x.args[0])
    if o == 'dump' and x.args[1].op == 'str' and dump_attr(x.args[1].args[0]):
        return T.mk_len(T.mk_attr(x.args[0], 'particle'))
    if o == 'keys':
        return None
    return None


T.LEN_RULES.append(len_rule)


def shape_index(x, i):
    if not T.is_num(i):
        return None
    k = int(i.args[0])
    a = x.args[0]
    if k < 0:
        r = rank(a)
        if r is None:
            return None
        k += r
    for _ in range(k):
        a = T.mk_index(a, ZERO)
    return T.mk_len(a)


T.INDEX_MODELS['shape'] = shape_index


# ---------------------------------------------------------------- set up

def setup(interp):
    pass


NUMPY_GONE = {'int', 'float', 'bool', 'object', 'complex', 'str', 'long', 'unicode', 'typeDict', 'asscalar'}
CONSTANTS = {'numpy.pi': 'math.pi', 'math.pi': 'math.pi', 'math.inf': 'inf', 'numpy.inf': 'inf', 'math.e': 'e', 'numpy.nan': 'nan',
             'numpy.newaxis': None}


def ext_attr(interp, m, name):
    full = '%s.%s' % (m.name, name)
    from .interp import obj_term, Builtin, Module
    if full in CONSTANTS:
        return NONE if CONSTANTS[full] is None else T.sym(CONSTANTS[full])
    if m.name == 'numpy' and name in NUMPY_GONE:
        from .interp import Raised
        raise Raised(T.mk('exc', 'AttributeError', T.string(full)))
    if full in ('os.path', 'numpy.linalg', 'numpy.random', 'matplotlib.pyplot'):
        return obj_term(interp.module(full))
    if full in ('sys.stdout', 'sys.stderr', 'sys.argv', 'os.environ', 'sys.version_info', 'numpy.newaxis', 'numpy.float_info'):
        return T.sym(full)
    v = interp.config.get('ext', {}).get(full)
    if v is not None:
        return v
    key = ('ext', full)
    t = interp._bi.get(key)
    if t is None:
        t = obj_term(Builtin(ALIAS.get(full, full)))
        interp._bi[key] = t
    return t


ALIAS = {
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.cos': 'numpy.cos', 'math.sin': 'numpy.sin',
    'math.fabs': 'abs', 'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'numpy.fabs': 'abs', 'numpy.average': 'numpy.mean',
    'numpy.round': 'round', 'numpy.around': 'round', 'numpy.rint': 'round', 'numpy.conj': 'numpy.conjugate',
    'numpy.power': 'pow', 'math.pow': 'pow', 'numpy.square': 'numpy.square', 'numpy.asarray': 'numpy.array',
    'numpy.product': 'numpy.prod', 'math.floor': 'math.floor', 'numpy.floor': 'math.floor', 'numpy.empty': 'numpy.ndarray',
    'numpy.inner': 'numpy.dot', 'numpy.vdot': 'numpy.vdot', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.float64': 'float', 'numpy.int64': 'int', 'numpy.int32': 'int', 'numpy.bool_': 'bool', 'numpy.double': 'float',
    'copy.copy': 'copy.copy', 'builtins.range': 'range', 'numpy.minimum': 'min', 'numpy.maximum': 'max',
    'atooms.core.progress.progress': 'progress', 'numpy.float32': 'float32', 'math.log': 'numpy.log', 'numpy.arccos': 'math.acos', 'numpy.arctan': 'math.atan', 'numpy.arcsin': 'math.asin',
    'numpy.true_divide': 'numpy.divide', 'math.fsum': 'sum', 'operator.add': 'numpy.add', 'operator.mul': 'numpy.multiply',
}


# ---------------------------------------------------------------- lists

def take_once(interp, v, S):
    """What an iterator still has to give."""
    from .interp import GiveUp
    c = S.content(v)
    if c is UNDEF or any(x is UNDEF for x in T.leaves(c)):
        raise GiveUp('iterator that is used in parts')
    return c


def list_content(interp, v, S, fr=None, node=None):
    """Value of an iterable as a sequence term (references inside are kept)."""
    if v.op == 'ref':
        k = v.args[1]
        if k == 'once':
            c = list_content(interp, take_once(interp, v, S), S, fr, node)
            S.set_content(v, T.seq(()))
            return c
        if k == 'list':
            return S.content(v)
        if k == 'array':
            return S.content(v)
        if k == 'dict':
            return keys_term(S.content(v))
        if k == 'ext':
            c = interp.embed1(v, S)
            w = T.fresh('i')
            return T.mk_comp((w,), (T.mk_range(ZERO, T.mk_len(c), ONE),), TRUE, index(interp, c, w, S))
    if v.op == 'phi' and has_ref(v):
        return T.ite(T.node(v.args[0], TRUE, FALSE), list_content(interp, v.args[1], S), list_content(interp, v.args[2], S))
    if v.op == 'it':
        if v.args[0] == 'keys':
            return keys_term(S.content(v.args[1]) if v.args[1].op == 'ref' else v.args[1])
        r = S.alloc('list', T.seq(()))

        def bind(x, S2, p):
            S2.set_content(r, T.concat([S2.content(r), T.seq((x,))]))
        from .interp import Flow
        fl = interp.for_over(v, bind, lambda S2: Flow(TRUE, S2), fr, S, node)
        if fl.S is None:
            from .interp import Raised
            raise Raised(fl.exc[0][2])
        p = S.path
        S.become(fl.S)
        S.path = p
        return S.content(r)
    if v.op == 'upd' and v.args[0].op == 'dict0':
        return keys_term(v)
    if v.op == 'str':
        return T.seq([T.string(c) for c in v.args[0]])
    return v


def list_extend(interp, ref, val, S, fr, node):
    c = list_content(interp, val, S, fr, node)
    S.set_content(ref, T.concat([S.content(ref), c]))


def keys_term(c):
    """Keys of a dictionary, in order of insertion."""
    if c.op == 'dict0':
        return T.seq(())
    if c.op == 'phi':
        return T.lift(keys_term, c)
    ci = const_items(c)
    if ci is not None:
        return T.seq([k for k, v in ci])
    if c.op == 'upd':
        base, groups = c.args
        out = []
        for g in groups:
            h = T.mk('upd1', g.args[0], g.args[1], g.args[2], g.args[3][:1], 'key', NONE)
            h = renumber(h)
            if h not in out:
                out.append(h)
        if base.op == 'dict0':
            base = T.mk('dict0', NONE)
        return T.mk('keys', T.mk('upd', base, tuple(out)))
    return T.mk('keys', c)


def renumber(h):
    """Recompute the binder heights after a part of the body was dropped."""
    bvs, doms, body = T.open_binder(h)
    used = set()
    guard, path, kind, val = body
    return T.close('upd1', bvs, doms, (guard, path, kind, val))


def const_items(c):
    """[(key, value)] of a dictionary with constant keys, or None"""
    if c.op == 'dict0':
        return []
    if c.op != 'upd' or c.args[0].op != 'dict0':
        return None
    out = {}
    for g in c.args[1]:
        if g.args[0] != () or g.args[2] is not TRUE or len(g.args[3]) != 1 or not T.const_key(g.args[3][0]) or g.args[4] not in ('set', 'setd'):
            return None
        k = g.args[3][0]
        if g.args[4] == 'setd' and k in out:
            continue
        out[k] = g.args[5]
    return list(out.items())


def dict_items(interp, d, S):
    if d.op == 'ref':
        d = S.content(d)
    return const_items(d)


def dict_len(c):
    return T.mk_len(keys_term(c))


def dict_update(interp, r, other, S, fr, node):
    items = dict_items(interp, other, S)
    if items is None:
        oc = interp.deref(other, S)
        ks = keys_term(oc)
        w = T.fresh('i')
        k = T.mk_index(ks, w)
        g = T.mk_upd1((w,), (T.mk_range(ZERO, T.mk_len(ks), ONE),), TRUE, (k,), 'set', T.mk_get(oc, (k,)))
        S.set_content(r, T.mk_upd(S.content(r), (g,)))
        return
    for k, v in items:
        interp.store(r, (k,), 'set', v, S)


def iterate(interp, it, S, fr, node):
    """Segments of the iteration over an abstract iterable."""
    from .interp import Raised, GiveUp
    if it.op == 'phi' and has_ref(it):
        c = T.node(it.args[0], TRUE, FALSE)
        d = interp.assume(c, S)
        if d is TRUE:
            return iterate(interp, it.args[1], S, fr, node)
        if d is FALSE:
            return iterate(interp, it.args[2], S, fr, node)
        it = list_content(interp, it, S, fr, node)
    if it.op == 'ref':
        k = it.args[1]
        if k == 'dict':
            ci = const_items(S.content(it))
            if ci is not None:
                return [('items', [(kk, None) for kk, v in ci])]
            return seq_segments(interp, keys_term(S.content(it)), None, S)
        if k == 'ext':
            c = interp.embed1(it, S)
            i = T.fresh('i')
            if c.op in ('unfold', 'cbk', 'rewound', 'sliced') or has_unfold(c):
                # unfolded trajectories only go forward: a second sweep differs
                if has_unfold(c):
                    S.set_content(it, T.mk('rewound', c) if c.op != 'rewound' else c)
            return [('sym', (i,), (T.mk_range(ZERO, T.mk_len(c), ONE),), TRUE, lambda S2: (index(interp, c, i, S2), None))] \
                if T.mk_range(ZERO, T.mk_len(c), ONE).op == 'range' else [('items', [])]
        if k == 'inst':
            f = interp.find_method(it, '__iter__')
            if f is not None:
                return iterate(interp, interp.call_func(f, [it], {}, S), S, fr, node)
            raise GiveUp('iteration over an instance')
        return seq_segments(interp, S.content(it), it, S)
    if it.op == 'it':
        kind, args = it.args[0], it.args[1:]
        if kind == 'enumerate':
            return enum_segments(interp, args[0], args[1], S, fr, node)
        if kind == 'zip':
            return zip_segments(interp, args[0], S, fr, node)
        if kind == 'keys':
            return iterate(interp, args[0], S, fr, node) if args[0].op == 'ref' else seq_segments(interp, keys_term(args[0]), None, S)
        if kind in ('items', 'values'):
            return items_segments(interp, args[0], kind, S)
        if kind == 'reversed':
            c = list_content(interp, args[0], S, fr, node)
            if c.op == 'seq':
                return [('items', [(x, None) for x in reversed(c.args[0])])]
            n = T.mk_len(c)
            i = T.fresh('i')
            return [('sym', (i,), (T.mk('range', ZERO, n, ONE),), TRUE,
                     lambda S2: (index(interp, c, T.sub(T.sub(n, ONE), i), S2), None))]
    if it.op in ('num', 'bool', 'none'):
        raise Raised(T.mk('exc', 'TypeError', T.string('not iterable')))
    if it.op == 'str':
        return [('items', [(T.string(x), None) for x in it.args[0]])]
    if it.op == 'upd' and it.args[0].op == 'dict0':
        return seq_segments(interp, keys_term(it), None, S)
    return seq_segments(interp, it, None, S)


def has_unfold(c):
    while isinstance(c, T.Term) and c.op in ('cbk', 'rewound', 'sliced', 'unfold'):
        if c.op == 'unfold':
            return True
        c = c.args[0]
    return False


def seq_segments(interp, c, ref, S):
    if c.op == 'phi':
        i = T.fresh('i')
        n = T.mk_len(c)
        return [('sym', (i,), (T.mk('range', ZERO, n, ONE),), TRUE, lambda S2: elem(interp, c, ref, i, S2))]
    parts = parts_of(c)
    out = []
    off = ZERO
    single = len(parts) == 1
    for p in parts:
        if p.op == 'seq':
            out.append(('items', [(x, T.mk('lref', ref, (T.add(off, T.num(k)),)) if ref is not None and x.op not in ('ref', 'num', 'str') else None)
                                  for k, x in enumerate(p.args[0])]))
        elif p.op == 'range':
            i = T.fresh('i')
            out.append(('sym', (i,), (p,), TRUE, lambda S2, i=i: (i, None)))
        elif p.op == 'comp' and (p.args[2] is not TRUE or len(p.args[0]) > 1) and not has_ref(p):
            doms, guard, body, bvs = T.open_comp(p)
            out.append(('sym', bvs, doms, guard, lambda S2, body=body: (body, None)))
        else:
            i = T.fresh('i')
            n = T.mk_len(p)
            d = T.mk_range(ZERO, n, ONE)
            if d.op == 'seq':
                items = []
                for k in range(len(d.args[0])):
                    kk = T.num(k)
                    items.append((T.mk_index(p, kk), T.mk('lref', ref, (T.add(off, kk),)) if ref is not None else None))
                out.append(('items', items))
            elif single:
                out.append(('sym', (i,), (d,), TRUE, lambda S2, i=i: elem(interp, c, ref, i, S2)))
            else:
                out.append(('sym', (i,), (d,), TRUE, lambda S2, i=i, p=p: (T.mk_index(p, i), None)))
        off = T.add(off, T.mk_len(p))
    return out


def elem(interp, c, ref, i, S):
    if ref is not None:
        v = interp.getitem(ref, i, S)
        if v.op == 'ref':
            return v, None
        return v, T.mk('lref', ref, (i,))
    return index(interp, c, i, S), None


def enum_segments(interp, x, start, S, fr, node):
    c, ref = as_seq(interp, x, S, fr, node)
    parts = parts_of(c)
    if all(p.op == 'seq' for p in parts) and c.op != 'phi':
        items = [v for p in parts for v in p.args[0]]
        return [('items', [(T.seq((T.add(start, T.num(k)), v)), places(NONE, place(ref, T.num(k), v))) for k, v in enumerate(items)])]
    i = T.fresh('i')
    n = T.mk_len(c)
    d = T.mk_range(ZERO, n, ONE)
    if d.op == 'seq':
        return [('items', [(T.seq((T.add(start, k), index(interp, c, k, S))), None) for k in d.args[0]])]

    def both(S2):
        v, p = elem(interp, c, ref, i, S2)
        return T.seq((T.add(start, i), v)), places(NONE, p)
    return [('sym', (i,), (d,), TRUE, both)]


def place(ref, k, v):
    return T.mk('lref', ref, (k,)) if ref is not None and v.op not in ('ref', 'num', 'str') else None


def places(*ps):
    """Where the items of a tuple come from"""
    return T.mk('ltuple', tuple(p if p is not None else NONE for p in ps)) if any(p is not None and p is not NONE for p in ps) else None


def as_seq(interp, x, S, fr, node):
    if x.op == 'ref' and x.args[1] in ('list', 'array'):
        return S.content(x), x
    return list_content(interp, x, S, fr, node), None


def zip_segments(interp, xs, S, fr, node):
    cs = [as_seq(interp, x, S, fr, node) for x in xs]
    conc = []
    for c, r in cs:
        ps = parts_of(c)
        if c.op != 'phi' and all(p.op == 'seq' for p in ps):
            conc.append([v for p in ps for v in p.args[0]])
        else:
            conc.append(None)
    if all(v is not None for v in conc):
        return [('items', [(T.seq(t), places(*[place(r, T.num(k), v) for (c, r), v in zip(cs, t)])) for k, t in enumerate(zip(*conc))])]
    lens = [len(v) for v in conc if v is not None]
    if lens:
        # the shortest constant operand bounds the iteration; the others are assumed to be as long
        n = min(lens)
        return [('items', [(T.seq([v[k] if v is not None else interp.getitem(r, T.num(k), S) if r is not None else index(interp, c, T.num(k), S)
                                   for v, (c, r) in zip(conc, cs)]), None) for k in range(n)])]
    n = T.minimum(*[T.mk_len(c) for c, r in cs])
    i = T.fresh('i')
    return [('sym', (i,), (T.mk('range', ZERO, n, ONE),), TRUE,
             lambda S2: zipped([elem(interp, c, r, i, S2) for c, r in cs]))]


def zipped(pairs):
    return T.seq([v for v, p in pairs]), places(*[p for v, p in pairs])


def items_segments(interp, d, kind, S):
    ref = d if d.op == 'ref' else None
    c = S.content(d) if ref is not None else d
    ci = const_items(c)
    if ci is not None:
        if kind == 'values':
            return [('items', [(v, T.mk('lref', ref, (k,)) if ref is not None and v.op != 'ref' else None) for k, v in ci])]
        return [('items', [(T.seq((k, v)), places(NONE, place(ref, k, v))) for k, v in ci])]
    ks = keys_term(c)
    i = T.fresh('i')
    k = T.mk_index(ks, i)

    def val(S2):
        v = interp.getitem(ref, k, S2) if ref is not None else T.mk_get(c, (k,))
        if kind == 'values':
            return v, (T.mk('lref', ref, (k,)) if ref is not None and v.op != 'ref' else None)
        return T.seq((k, v)), places(NONE, place(ref, k, v))
    return [('sym', (i,), (T.mk('range', ZERO, T.mk_len(ks), ONE),), TRUE, val)]


# ---------------------------------------------------------------- indexing and updates

def is_traj(t):
    while t.op in ('unfold', 'cbk', 'rewound', 'sliced'):
        return True
    return t in TRAJ


TRAJ = set()


def index(interp, o, i, S):
    from .interp import Raised
    i = interp.deref(i, S) if has_ref(i) else i
    if o.op == 'phi':
        return T.lift(lambda x: index(interp, x, i, S), o)
    if o.op == 'none':
        raise Raised(T.mk('exc', 'TypeError', T.string('None is not subscriptable')))
    if i.op == 'mask' or (i.op == 'phi' and all(x.op == 'bool' for x in T.leaves(i)) and False):
        return T.mk('index', o, i)
    if is_traj(o) and i.op not in ('slice',):
        if T.is_num(i) and i.args[0] < 0:
            i = T.add(T.mk_len(o), i)
        return mk_frame(o, i)
    if o.op == 'dict0':
        if o.args[0] is NONE:
            raise Raised(T.mk('exc', 'KeyError', i))
        return o.args[0]
    if o.op == 'upd' and o.args[0].op == 'dict0':
        ci = const_items(o)
        if ci is not None and T.const_key(i):
            for k, v in ci:
                if k is i:
                    return v
            if o.args[0].args[0] is NONE:
                raise Raised(T.mk('exc', 'KeyError', i))
        return T.mk_get(o, (i,))
    if o.op == 'seq' and T.is_num(i) and not -len(o.args[0]) <= i.args[0] < len(o.args[0]):
        raise Raised(T.mk('exc', 'IndexError', i))
    if T.is_num(i) and i.args[0] < 0 and o.op in ('upd', 'get', 'attr', 'index', 'comp', 'sym', 'call', 'range', 'sorted', 'dump'):
        n = T.mk_len(o)
        if n.op != 'num':
            i = T.add(n, i)
    if i.op == 'num' and i.args[1]:
        i = T.num(i.args[0], False)
    return T.mk_index(o, i)


def mk_frame(content, i):
    def one(c, i):
        if c.op == 'sliced':
            # frames of a slice are frames of the whole trajectory
            sl = c.args[1]
            if sl.op == 'slice':
                st = ZERO if sl.args[0] is NONE else sl.args[0]
                inc = ONE if sl.args[2] is NONE else sl.args[2]
                return one(c.args[0], T.add(st, T.mul(inc, i)))
        return T.mk('frame', c, i)
    return T.lift(one, content, i)


def peek_index(term, p):
    from .interp import GiveUp
    if term.op in ('num', 'str', 'none', 'bool'):
        raise GiveUp('peek')
    if p.op == 'attrkey':
        return T.mk_attr(term, p.args[0])
    if term.op == 'dict0':
        if term.args[0] is NONE:
            raise GiveUp('peek')
        return term.args[0]
    if term.op == 'upd' and term.args[0].op == 'dict0':
        ci = const_items(term)
        if ci is not None and T.const_key(p):
            for k, v in ci:
                if k is p:
                    return v
            raise GiveUp('peek')
        return T.mk_get(term, (p,))
    if term.op == 'seq' and T.is_num(p) and not -len(term.args[0]) <= p.args[0] < len(term.args[0]):
        raise GiveUp('peek')
    return T.mk_index(term, p)


def update(interp, kind, content, path, storekind, val, S):
    val = val
    if content.op == 'phi':
        c = T.node(content.args[0], TRUE, FALSE)
        return T.ite(c, update(interp, kind, content.args[1], path, storekind, val, S),
                     update(interp, kind, content.args[2], path, storekind, val, S))
    p0 = path[0]
    if T.is_num(p0) and p0.args[0] < 0 and content.op != 'seq':
        path = (T.add(T.mk_len(content), p0),) + tuple(path[1:])
    if storekind == 'extend':
        if val.op == 'seq' and len(val.args[0]) == 1:
            storekind, val = 'append', val.args[0][0]
    if kind == 'array' and len(path) == 1 and path[0] is T.FULL and storekind == 'set':
        return val
    # array views: a[i][j] = v and a[i, j] = v are the same store
    path = flat_path(path)
    # entries of concrete lists
    if content.op == 'concat' and T.is_num(path[0]) and path[0].args[0] >= 0:
        k = int(path[0].args[0])
        ps = list(content.args[0])
        for j, p in enumerate(ps):
            if p.op == 'seq':
                if k < len(p.args[0]):
                    ps[j] = update(interp, kind, p, (T.num(k),) + path[1:], storekind, val, S)
                    return T.concat(ps)
                k -= len(p.args[0])
            else:
                break
    b, groups = base_groups(content)
    if groups and storekind in ('set', 'add') and groups[-1].args[0] == () and groups[-1].args[2] is TRUE and groups[-1].args[3] == path:
        g = groups[-1]
        if storekind == 'set':
            return T.mk_upd(b, tuple(groups[:-1]) + (T.mk_upd1((), (), TRUE, path, 'set', val),))
        if g.args[4] == 'set' and storekind == 'add' and not has_ref(g.args[5]):
            return T.mk_upd(b, tuple(groups[:-1]) + (T.mk_upd1((), (), TRUE, path, 'set', T.add(g.args[5], val)),))
    if storekind == 'set' and content.op == 'upd' and T.const_key(path[0]):
        # constant keys written again
        ci = const_items(content)
        if ci is not None and len(path) == 1 and b.op == 'dict0':
            new = []
            found = False
            for k, v in ci:
                if k is path[0]:
                    found = True
                    v = val
                new.append(T.mk_upd1((), (), TRUE, (k,), 'set', v))
            if not found:
                new.append(T.mk_upd1((), (), TRUE, path, 'set', val))
            return T.mk('upd', b, tuple(new))
    return T.mk_upd(content, (T.mk_upd1((), (), TRUE, tuple(path), storekind, val),))


def flat_path(path):
    out = []
    for p in path:
        if p.op == 'seq' and p.args[0] and all(x.op not in ('slice', 'ellipsis', 'none') for x in p.args[0]) and False:
            out.extend(p.args[0])
        elif p.op == 'seq':
            items = list(p.args[0])
            # leading plain indices become path elements
            while items and items[0].op not in ('slice', 'ellipsis', 'none') and any(x.op in ('slice', 'ellipsis') for x in items):
                out.append(items.pop(0))
            while items and items[-1] is T.FULL:
                items.pop()
            if not items:
                continue
            if any(x.op in ('slice', 'ellipsis') for x in items):
                out.append(T.mk('tuple', tuple(items)) if len(items) > 1 else items[0])
            else:
                out.append(T.seq(items))
        else:
            out.append(p)
    return tuple(out)


def in_term(key, container):
    if container.op == 'phi':
        return T.lift(lambda c: in_term(key, c), container)
    if key.op == 'phi':
        return T.lift(lambda k: in_term(k, container), key)
    if container.op == 'seq':
        r = FALSE
        for x in container.args[0]:
            r = T.or_(r, T.eq(key, x))
        return r
    if container.op == 'str' and key.op == 'str':
        return T.boolean(key.args[0] in container.args[0])
    if container.op == 'dict0':
        return FALSE
    if container.op == 'upd' and container.args[0].op == 'dict0':
        ci = const_items(container)
        if ci is not None:
            r = FALSE
            for k, v in ci:
                r = T.or_(r, T.eq(key, k))
            return r
        container = keys_term(container)
    if container.op == 'keys':
        u = container.args[0]
        if u.op == 'upd' and len(u.args[1]) and u.args[0].op == 'dict0':
            container = container
        elif u.op != 'upd':
            container = u
    if container.op == 'upd':
        return T.node(T.mk('in', key, container), TRUE, FALSE)
    return T.node(T.mk('in', key, container), TRUE, FALSE)


def del_item(interp, ref, i, S):
    c = S.content(ref)
    ci = const_items(c)
    if ci is not None and T.const_key(i):
        S.set_content(ref, T.mk_upd(T.mk('dict0', NONE), tuple(T.mk_upd1((), (), TRUE, (k,), 'set', v) for k, v in ci if k is not i)))
        return
    S.set_content(ref, T.mk('delitem', c, i))


# ---------------------------------------------------------------- strings

def tostr(x, spec):
    def one(x):
        if spec in ('', 's'):
            if x.op == 'str':
                return x
            if x.op in ('strcat', 'tostr') or (x.op == 'mcall' and x.args[0] in STR_METHODS) or KIND.get(x) == 'str':
                return T.strcat([x])
            if x.op == 'num' and x.args[0].denominator == 1:
                return T.string(str(int(x.args[0])))
            if x.op in ('bool', 'none'):
                return T.string(str(T.const(x)))
        if spec in ('d',) and x.op == 'num':
            return T.string('%d' % T.const(x))
        s = '' if spec == 's' else spec
        return T.mk('tostr', x, s)
    return T.lift(one, x)


STR_METHODS = {'replace', 'strip', 'lower', 'upper', 'lstrip', 'rstrip', 'join', 'format', 'title', 'strftime'}


def fmt_percent(interp, tmpl, args, S):
    """'...%s...' % args"""
    import re
    if tmpl.op != 'str':
        return T.mk('mcall', 'format%', tmpl, tuple(interp.deref(a, S) for a in args))
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(\([a-z_]+\))?([-#0 +]*\d*(?:\.\d+)?)([sdifgeExr%])', tmpl.args[0]):
        out.append(T.string(tmpl.args[0][pos:m.start()]))
        pos = m.end()
        if m.group(3) == '%':
            out.append(T.string('%'))
            continue
        if k >= len(args):
            from .interp import Raised
            raise Raised(T.mk('exc', 'TypeError', T.string('format')))
        x = interp.deref(args[k], S)
        k += 1
        spec = m.group(2) + ('' if m.group(3) == 's' else m.group(3))
        out.append(tostr(x, 'd' if spec == 'd' else spec))
    out.append(T.string(tmpl.args[0][pos:]))
    return T.strcat(out)


def fmt_braces(interp, tmpl, args, kw, S, fr=None):
    import string as _string
    if tmpl.op == 'phi':
        return T.lift(lambda x: fmt_braces(interp, x, args, kw, S, fr), tmpl)
    if tmpl.op != 'str':
        return T.mk('mcall', 'format', tmpl, tuple(interp.deref(a, S) for a in args),
                    tuple((k, interp.deref(v, S)) for k, v in sorted(kw.items())))
    out = []
    auto = 0
    try:
        pieces = list(_string.Formatter().parse(tmpl.args[0]))
    except ValueError:
        return T.opaque('format')
    for lit, field, spec, conv in pieces:
        out.append(T.string(lit))
        if field is None:
            continue
        base = field.split('.')[0].split('[')[0]
        rest = field[len(base):]
        if base == '':
            x = args[auto]
            auto += 1
        elif base.isdigit():
            x = args[int(base)]
        else:
            x = kw[base]
        for a in [r for r in rest.split('.') if r]:
            x = interp.getattr(x, a, fr, S)
        out.append(tostr(interp.deref(x, S), spec or ''))
    return T.strcat(out)


# ---------------------------------------------------------------- operators

def elementwise(op2, a, b):
    """Apply a scalar operation to sequences element by element."""
    la, lb = a.op in ('seq', 'comp', 'range'), b.op in ('seq', 'comp', 'range')
    if a.op == 'seq' and b.op == 'seq' and len(a.args[0]) == len(b.args[0]):
        return T.seq([ew(op2, x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == 'seq' and scalarish(b, a):
        return T.seq([ew(op2, x, b) for x in a.args[0]])
    if b.op == 'seq' and scalarish(a, b):
        return T.seq([ew(op2, a, y) for y in b.args[0]])
    if a.op == 'comp' and a.args[2] is TRUE and scalarish(b, a):
        doms, g, body, bvs = T.open_comp(a)
        return T.mk_comp(bvs, doms, g, ew(op2, body, b))
    if b.op == 'comp' and b.args[2] is TRUE and scalarish(a, b):
        doms, g, body, bvs = T.open_comp(b)
        return T.mk_comp(bvs, doms, g, ew(op2, a, body))
    if a.op == 'comp' and b.op == 'comp' and a.args[1] is b.args[1] or (a.op == 'comp' and b.op == 'comp' and a.args[1] == b.args[1] and a.args[2] is TRUE and b.args[2] is TRUE):
        doms, g, body, bvs = T.open_comp(a)
        if len(bvs) == 1:
            return T.mk_comp(bvs, doms, g, ew(op2, body, T.mk_index(b, bvs[0])))
    if a.op == 'seq' and rank(b) == 1 and b.op not in ('seq', 'comp'):
        return T.seq([ew(op2, x, T.mk_index(b, T.num(k))) for k, x in enumerate(a.args[0])])
    if b.op == 'seq' and rank(a) == 1 and a.op not in ('seq', 'comp'):
        return T.seq([ew(op2, T.mk_index(a, T.num(k)), x) for k, x in enumerate(b.args[0])])
    return op2(a, b)


def ew(op2, a, b):
    if a.op in ('seq', 'comp') or b.op in ('seq', 'comp'):
        return elementwise(op2, a, b)
    return op2(a, b)


def scalarish(x, other):
    r = rank(x)
    return r == 0 or T.known_scalar(x)


def opfun(op):
    return {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': T.power, 'FloorDiv': T.floordiv, 'Mod': T.mod}.get(op)


def binop(interp, op, a, b, S, node, fr):
    from .interp import Raised, GiveUp
    if (a.op == 'phi' and has_ref(a)):
        return interp.fork(a, S, lambda x, S2: binop(interp, op, x, b, S2, node, fr))
    if (b.op == 'phi' and has_ref(b)):
        return interp.fork(b, S, lambda x, S2: binop(interp, op, a, x, S2, node, fr))
    # user defined operators
    for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
        if x.op == 'ref' and x.args[1] == 'inst':
            f = interp.find_method(x, nm % {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}.get(op, '?'))
            if f is not None:
                return interp.call_func(f, [x, y], {}, S)
    alist = a.op == 'ref' and a.args[1] == 'list'
    blist = b.op == 'ref' and b.args[1] == 'list'
    if op == 'Mod' and (a.op in ('str', 'strcat') or KIND.get(a) == 'str'):
        args = list(b.args[0]) if b.op == 'seq' else [b]
        return fmt_percent(interp, a, args, S)
    if op == 'Add' and (alist or blist):
        if alist and blist:
            return S.alloc('list', T.concat([S.content(a), S.content(b)]))
        other = b if alist else a
        if other.op == 'ref' and other.args[1] == 'array':
            pass
        elif other.op in ('concat', 'comp', 'range', 'it') or other.op == 'seq' or string_list(other):
            c = list_content(interp, other, S, fr, node)
            la = S.content(a) if alist else c
            lb = c if alist else S.content(b)
            return S.alloc('list', T.concat([la, lb]))
    if op == 'Add' and (a.op in ('seq', 'concat') or string_list(a)) and (b.op in ('seq', 'concat') or string_list(b)):
        return T.concat([a, b])
    if op == 'Mult' and (alist or blist or a.op in ('seq', 'str') or b.op in ('seq', 'str')):
        l, n = (a, b) if (alist or a.op in ('seq', 'str')) else (b, a)
        n = interp.deref(n, S)
        if rank(n) == 0 or T.known_int(n) or T.known_scalar(n):
            if l.op == 'str':
                if T.is_num(n):
                    return T.string(l.args[0] * int(n.args[0]))
                return T.mk('mcall', 'repeat', l, (n,))
            c = S.content(l) if l.op == 'ref' else l
            if T.is_num(n) and n.args[0] * 8 < 64:
                r = T.concat([c] * int(n.args[0]))
            elif c.op == 'seq' and len(c.args[0]) == 1 and not has_ref(c):
                w = T.fresh('i')
                r = T.mk_comp((w,), (T.mk_range(ZERO, n, ONE),), TRUE, c.args[0][0])
            else:
                r = T.call('repeatlist', interp.deref(c, S), n)
            return S.alloc('list', r) if l.op == 'ref' else r
    a, b = interp.deref(a, S), interp.deref(b, S)
    for x in (a, b):
        if x.op == 'none':
            raise Raised(T.mk('exc', 'TypeError', T.string('None operand')))
    if op == 'Add' and (strlike(a) or strlike(b)):
        return T.strcat([a, b])
    f = opfun(op)
    if f is not None:
        if op in ('Add', 'Sub') and a.op == 'zeros' and isarr(b):
            return b if op == 'Add' else T.neg(b)
        if op in ('Add', 'Sub') and b.op == 'zeros' and isarr(a):
            return a
        if op in ('Div', 'FloorDiv', 'Mod') and b.op == 'num' and b.args[0] == 0:
            raise Raised(T.mk('exc', 'ZeroDivisionError', NONE))
        if op == 'Pow':
            if a.op in ('seq', 'comp'):
                return elementwise(f, a, b)
            return f(a, b)
        a, b = range_array(a), range_array(b)
        if a.op in ('seq', 'comp') or b.op in ('seq', 'comp'):
            return elementwise(f, a, b)
        a, b = unmask(a), unmask(b)
        return f(a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if all(x.op == 'bool' for x in T.leaves(a) | T.leaves(b)):
            return T.and_(a, b) if op == 'BitAnd' else T.or_(a, b)
        if a.op == 'mask' and b.op == 'mask':
            return mk_mask(T.and_(a.args[0], b.args[0]) if op == 'BitAnd' else T.or_(a.args[0], b.args[0]))
        return T.call('op.' + op, a, b)
    if op == 'MatMult':
        return np_dot(a, b)
    return T.call('op.' + op, a, b)


def unmask(a):
    if a.op == 'phi' and all(x.op == 'bool' for x in T.leaves(a)):
        return T.ite(a, ONE, ZERO)
    return a


def range_array(a):
    return a


def strlike(t):
    return t.op in ('str', 'strcat', 'tostr') or (t.op == 'mcall' and t.args[0] in STR_METHODS) or KIND.get(t) == 'str'


def mk_mask(c):
    if c.op == 'bool':
        return c
    return T.mk('mask', c)


def invert(v):
    if v.op == 'mask':
        return mk_mask(T.not_(v.args[0]))
    return T.call('op.Invert', v)


def compare(interp, op, l, r, S):
    if l.op == 'phi' and has_ref(l):
        return interp.fork(l, S, lambda x, S2: compare(interp, op, x, r, S2))
    if r.op == 'phi' and has_ref(r):
        return interp.fork(r, S, lambda x, S2: compare(interp, op, l, x, S2))
    if op in ('Is', 'IsNot'):
        c = is_same(interp, l, r, S)
        return c if op == 'Is' else T.not_(c)
    if op in ('In', 'NotIn'):
        c = contains(interp, l, r, S)
        return c if op == 'In' else T.not_(c)
    if op in ('Eq', 'NotEq') and l is r:
        return T.boolean(op == 'Eq')
    a, b = interp.deref(l, S), interp.deref(r, S)
    if isarr(a) and not is_pylist(l) and b.op != 'none' or isarr(b) and not is_pylist(r) and a.op != 'none':
        if not strlike(a) and not strlike(b) and not (op in ('Eq', 'NotEq') and listattr(a) and listattr(b)):
            if op in ('Eq', 'NotEq') and (KIND.get(a) == 'str' or KIND.get(b) == 'str' or a.op == 'str' or b.op == 'str'):
                c = T.eq(a, b)
            elif op in ('Eq', 'NotEq'):
                c = T.eq0(T.sub(a, b)) if not (a.op in ('seq', 'comp') or b.op in ('seq', 'comp')) else T.eq(a, b)
            elif op in ('Lt', 'GtE'):
                c = T.lt(a, b)
            else:
                c = T.lt(b, a)
            if op in ('NotEq', 'GtE', 'LtE'):
                c = T.not_(c)
            return mk_mask(c)
    if op == 'Eq':
        return T.eq(a, b)
    if op == 'NotEq':
        return T.not_(T.eq(a, b))
    if a.op == 'none' or b.op == 'none':
        from .interp import Raised
        raise Raised(T.mk('exc', 'TypeError', T.string('comparison with None')))
    if op == 'Lt':
        return T.lt(a, b)
    if op == 'Gt':
        return T.lt(b, a)
    if op == 'LtE':
        return T.not_(T.lt(b, a))
    if op == 'GtE':
        return T.not_(T.lt(a, b))
    return T.opaque('comparison')


def listattr(a):
    """steps of a trajectory and the like are lists, not arrays"""
    return a.op == 'attr' and a.args[1] in ('steps', 'samples', 'times', 'particle', 'species') or a.op in ('seq', 'comp', 'concat')


def is_pylist(t):
    return t.op == 'ref' and t.args[1] == 'list'


def is_same(interp, l, r, S):
    if l is r:
        return TRUE
    if l.op == 'none' or r.op == 'none':
        x = r if l.op == 'none' else l
        if x.op in ('ref', 'obj', 'it', 'frame'):
            return FALSE
        return T.eq(NONE, x)
    if l.op == 'ref' and r.op == 'ref':
        return FALSE
    if l.op == 'obj' and r.op == 'obj':
        from .interp import the_obj
        return T.boolean(the_obj(l) is the_obj(r))
    if l.op == 'ref' or r.op == 'ref':
        return FALSE
    if T.is_const(l) and T.is_const(r):
        return T.eq(l, r)
    c = same_entry(l, r)
    if c is not None:
        return c
    if rank(l) and rank(r) and other_origin(l, r):
        # arrays built in different ways
        return FALSE
    return T.node(T.mk('is', *sorted((l, r), key=lambda t: t.key)), TRUE, FALSE)


def same_entry(l, r):
    """Two entries of one list of objects are the same object when their indices coincide."""
    a, b = first_diff(l, r)
    if a is None or not T.known_int(a) or not T.known_int(b):
        return None
    if T.replace(l, {a: b}) is r:
        return T.eq(a, b)
    return None


def other_origin(a, b):
    """Whether two expressions differ in more than indices."""
    if a is b or a == b:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return any(other_origin(x, y) for x, y in zip(a, b))
    if not isinstance(a, T.Term) or not isinstance(b, T.Term):
        return True
    if T.known_int(a) and T.known_int(b) or 'phi' in (a.op, b.op):
        return False
    if a.op != b.op or len(a.args) != len(b.args):
        return True
    return any(other_origin(x, y) for x, y in zip(a.args, b.args))


def first_diff(a, b):
    if a is b:
        return None, None
    if T.known_int(a) and T.known_int(b):
        return a, b
    if a.op != b.op or len(a.args) != len(b.args):
        return None, None
    for x, y in zip(a.args, b.args):
        if x is y or x == y:
            continue
        if isinstance(x, T.Term) and isinstance(y, T.Term):
            return first_diff(x, y)
        return None, None
    return None, None


def contains(interp, k, c, S):
    kk = interp.deref(k, S)
    if c.op == 'ref':
        if c.args[1] == 'inst':
            f = interp.find_method(c, '__contains__')
            if f is not None:
                return interp.truth(interp.call_func(f, [c, k], {}, S), S)
        x = S.content(c)
        if x.op == 'seq' and has_ref(x):
            r = FALSE
            for y in x.args[0]:
                r = T.or_(r, T.eq(kk, interp.deref(y, S)))
            return r
        if has_ref(x):
            x = interp.deref(x, S)
        return in_term(kk, x)
    if c.op == 'it' and c.args[0] == 'keys':
        return contains(interp, k, c.args[1], S)
    c = interp.deref(c, S)
    return in_term(kk, c)


# ---------------------------------------------------------------- attributes

LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'sort', 'reverse', 'copy', 'count', 'clear'}
DICT_METHODS = {'add', 'discard', 'keys', 'values', 'items', 'get', 'pop', 'update', 'setdefault', 'copy', 'clear'}
ARRAY_METHODS = {'sum', 'mean', 'dot', 'conjugate', 'conj', 'flatten', 'ravel', 'copy', 'reshape', 'astype', 'transpose', 'repeat', 'var', 'std',
                 'max', 'min', 'any', 'all', 'tolist', 'fill', 'round', 'argmin', 'argmax', 'nonzero', 'prod', 'cumsum', 'sort', 'view'}
EXT_METHODS = {'read', 'add_callback', 'register_callback', 'close', 'dump', 'distance', 'fold', 'view', 'write', 'nearest_image',
               'start', 'stop', 'flush', 'sample', 'seed', 'shuffle', 'random', 'info', 'warning', 'warn', 'error', 'debug', 'critical', 'strftime', 'now', 'plot',
               'ylabel', 'xlabel', 'writelines', 'readlines', 'readline', '__enter__', '__exit__', 'add_argument', 'parse_args',
               'wait', 'update', 'encode', 'isdigit', 'startswith', 'endswith', 'compute_property', 'set_description', 'isatty'}
STRM = {'format', 'replace', 'strip', 'split', 'join', 'lower', 'upper', 'lstrip', 'rstrip', 'startswith', 'endswith', 'splitlines',
        'title', 'encode', 'isdigit', 'find', 'count', 'rsplit', 'partition', 'capitalize'}
ALLM = LIST_METHODS | DICT_METHODS | ARRAY_METHODS | EXT_METHODS | STRM
ARRAY_ATTRS = {'shape', 'T', 'real', 'imag', 'size', 'dtype', 'ndim', 'nbytes', 'flat'}


def meth(o, name, node):
    from .interp import obj_term, Meth
    return obj_term(Meth(o, name, node))


def ref_attr(interp, o, name, S, fr, node):
    kind = o.args[1]
    if kind == 'ext':
        if name in ARRAY_ATTRS and name != 'size':
            pass
        if name in EXT_METHODS or name in ('copy',):
            return meth(o, name, node)
        return T.mk_attr(S.content(o), name)
    if kind == 'array' and name in ARRAY_ATTRS:
        return array_attr(S.content(o) if not has_ref(S.content(o)) else interp.deref(S.content(o), S), name)
    if kind == 'list' and name not in LIST_METHODS or kind == 'dict' and name not in DICT_METHODS:
        if not name.startswith('__') and kind in ('list', 'dict'):
            from .interp import Raised
            raise Raised(T.mk('exc', 'AttributeError', T.string(name)))
    return meth(o, name, node)


def array_attr(x, name):
    def one(x):
        if name == 'shape':
            r = rank(x)
            if x.op in ('zeros', 'newarr'):
                sh = x.args[0]
                return sh if sh.op in ('seq', 'concat', 'shape') else T.seq((sh,))
            if x.op == 'upd' and x.args[0].op in ('zeros', 'newarr'):
                sh = x.args[0].args[0]
                return sh if sh.op in ('seq', 'concat', 'shape') else T.seq((sh,))
            if r is not None and r >= 1:
                out = []
                y = x
                for k in range(r):
                    out.append(T.mk_len(y))
                    y = T.mk_index(y, ZERO)
                return T.seq(out)
            return T.mk('shape', x)
        if name == 'T':
            return T.call('numpy.transpose', x)
        if name == 'real':
            return T.real(x)
        if name == 'imag':
            return T.mk('imag', x)
        if name == 'ndim':
            r = rank(x)
            return T.num(r) if r is not None else T.call('ndim', x)
        if name == 'size':
            r = rank(x)
            if r == 1:
                return T.mk_len(x)
            return T.call('numpy.size', x)
        return T.mk('attr', x, name)
    return T.lift(one, x)


def inst_attr(interp, o, cls, name, S):
    """Attributes provided by external base classes."""
    from .interp import obj_term, Meth, Class
    for c in cls.mro():
        if not isinstance(c, Class):
            n = getattr(c, 'name', '?')
            if n in ('object',):
                if name in ('__init__', '__new__'):
                    return obj_term(Meth(o, 'object.' + name))
                continue
            return T.mk('sym', 'ext:%s.%s' % (n, name))
    return None


def value_attr(interp, o, name, S, fr, node):
    from .interp import Raised
    if o.op == 'none':
        raise Raised(T.mk('exc', 'AttributeError', T.string('None.' + name)))
    if o is T.sym('logger'):
        return meth(o, name, node)
    if o.op in ('frame',) and name in ('dump', 'distance'):
        return meth(o, name, node)
    if o.op in ('str', 'strcat', 'tostr') or KIND.get(o) == 'str':
        return meth(o, name, node)
    if name in ARRAY_ATTRS and not (name == 'size' and rank(o) == 0):
        return array_attr(interp.deref(o, S), name)
    if name in ALLM:
        return meth(o, name, node)
    if o.op == 'exc' and name in ('args', 'message'):
        return T.mk('attr', o, name)
    return T.mk_attr(interp.deref(o, S), name)


# ---------------------------------------------------------------- calls

def call_value(interp, f, args, kw, S, fr, node):
    """Call of an unknown value (user supplied callbacks)."""
    f = interp.deref(f, S)
    if f.op in ('num', 'str', 'none', 'bool'):
        from .interp import Raised
        raise Raised(T.mk('exc', 'TypeError', T.string('not callable')))
    flat = []
    for a in args:
        flat.append(interp.deref(a, S))
    k2 = tuple((k, interp.deref(v, S)) for k, v in sorted(kw.items()))
    return T.mk('apply', f, tuple(flat), k2)


def kwcall(interp, name, args, kw, S):
    a = [interp.deref(x, S) for x in args]
    for k, v in sorted(kw.items()):
        a.append(T.mk('kw', k, interp.deref(v, S)))
    return T.call(name, *a)


def np_dot(a, b):
    ra, rb = rank(a), rank(b)
    if (ra == 1 and rb == 1) or (a is b and ra in (1, None)) or (ra == 1 and rb is None) or (rb == 1 and ra is None):
        return T.npsum(ew(T.mul, a, b), NONE)
    if ra == 0 or rb == 0:
        return T.mul(a, b)
    return T.call('numpy.dot', a, b)


def pysum(x, start=ZERO):
    """Python's sum of a sequence"""
    def one(x):
        if x.op == 'seq':
            r = start
            for y in x.args[0]:
                r = T.add(r, y) if r.op not in ('seq', 'comp') and y.op not in ('seq', 'comp') else ew(T.add, r, y)
            return r
        if x.op == 'concat':
            r = start
            for y in x.args[0]:
                r = T.add(r, pysum(y))
            return r
        if x.op == 'comp':
            doms, guard, body, bvs = T.open_comp(x)
            return T.add(start, T.mk_sum(bvs, doms, T.ite(guard, body, ZERO)))
        r = rank(x)
        if r == 1:
            return T.add(start, T.npsum(x, NONE))
        w = T.fresh('i')
        return T.add(start, T.mk_sum((w,), (T.mk_range(ZERO, T.mk_len(x), ONE),), T.mk_index(x, w)))
    return T.lift(one, x)


def mean(x, axis):
    def one(x):
        if axis is NONE:
            r = rank(x)
            s = T.npsum(x, NONE)
            n = T.mk_len(x) if r == 1 else np_size(x)
            return T.div(s, n)
        if T.is_num(axis) and axis.args[0] == 0:
            return T.div(T.npsum(x, axis), T.mk_len(x))
        return T.call('numpy.mean', x, axis)
    return T.lift(one, x)


def np_size(x):
    r = rank(x)
    if r == 1:
        return T.mk_len(x)
    if r == 0:
        return ONE
    return T.call('numpy.size', x)


def cond_list(x, conj):
    """any (or all) of a sequence of conditions"""
    if x.op == 'seq':
        r = TRUE if conj else FALSE
        for y in x.args[0]:
            r = T.and_(r, y) if conj else T.or_(r, y)
        return r
    if x.op == 'concat':
        r = TRUE if conj else FALSE
        for y in x.args[0]:
            z = cond_list(y, conj)
            r = T.and_(r, z) if conj else T.or_(r, z)
        return r
    if x.op == 'comp':
        doms, guard, body, bvs = T.open_comp(x)
        b = T.as_cond(body)
        if conj:
            return T.not_(T.mk_exists(bvs, doms, T.and_(guard, T.not_(b))))
        return T.mk_exists(bvs, doms, T.and_(guard, b))
    if x.op == 'phi':
        return T.lift(lambda y: cond_list(y, conj), x)
    if x.op == 'mask':
        if conj:
            return T.not_(T.node(T.mk('anyof', T.not_(x.args[0])), TRUE, FALSE))
        return T.node(T.mk('anyof', x.args[0]), TRUE, FALSE)
    return T.node(T.mk('boolcall', 'all' if conj else 'any', x), TRUE, FALSE)


T.ATOMS.add('anyof')


def minmax_of(op, c):
    def one(c):
        if c.op == 'seq' and c.args[0] and not has_ref(c):
            return T.lift(lambda *xs: T.mk_minmax(op, xs), *c.args[0])
        if c.op == 'concat':
            return T.lift(lambda *xs: T.mk_minmax(op, xs), *[one(p) for p in c.args[0]])
        if c.op == 'range' and T.is_num(c.args[2]) and c.args[2].args[0] == 1:
            return c.args[0] if op == 'min' else T.sub(c.args[1], ONE)
        if c.op == 'sorted':
            return one(c.args[0])
        if c.op == 'comp' and False:
            return None
        return T.call(op, c)
    return T.lift(one, c)


def isinstance_(interp, x, names, S):
    def one(x):
        k = None
        if x.op == 'ref':
            k = {'list': 'list', 'dict': 'dict', 'array': 'ndarray', 'ext': 'obj', 'inst': 'inst'}[x.args[1]]
        elif x.op == 'num':
            k = 'float' if x.args[1] or x.args[0].denominator != 1 else 'int'
        elif x.op == 'bool':
            k = 'bool'
        elif strlike(x):
            k = 'str'
        elif x.op == 'none':
            k = 'NoneType'
        elif x.op in ('seq',):
            k = 'tuple'
        elif x.op in ('comp', 'concat', 'upd') and rank(x):
            k = 'list'
        elif x.op in ('frame', 'objwith', 'obj', 'dump'):
            k = 'obj'
        elif x in KIND:
            k = KIND[x]
        elif x.op == 'poly' or x.op in T.NUMERIC:
            k = 'num'
        if k is None:
            return T.node(T.mk('isinstance', x, tuple(sorted(names))), TRUE, FALSE)
        if k == 'inst':
            cls = REFCLS[x.args[0]]
            return T.boolean(any(getattr(c, 'name', '') in names for c in cls.mro()))
        if k == 'num':
            return T.boolean(bool({'float', 'int', 'Number', 'Real'} & set(names)))
        if k == 'list' and x.op != 'ref':
            return T.boolean('list' in names)
        if k == 'bool' and 'int' in names:
            return TRUE
        return T.boolean(k in names)
    if x.op == 'phi':
        return T.ite(T.node(x.args[0], TRUE, FALSE), isinstance_(interp, x.args[1], names, S), isinstance_(interp, x.args[2], names, S))
    return one(x)


def type_names(interp, t, S):
    from .interp import the_obj
    if t.op == 'seq':
        out = []
        for x in t.args[0]:
            out += type_names(interp, x, S)
        return out
    o = the_obj(t)
    n = getattr(o, 'name', None) or '?'
    return [n.split('.')[-1]]


def truth_of(interp, x, S):
    return interp.truth(x, S)


def copy_value(interp, x, S, deep=False):
    if x.op == 'phi':
        return interp.fork(x, S, lambda y, S2: copy_value(interp, y, S2, deep))
    if x.op == 'ref':
        k = x.args[1]
        if k in ('list', 'dict', 'array'):
            c = S.content(x)
            if deep:
                c = interp.deref(c, S)
            return S.alloc(k, c)
        if k == 'ext':
            r = S.alloc('ext', S.content(x))
            for loc in [l for l in S.d if l[0] == 'a' and l[1] == x.args[0]]:
                S.d[('a', r.args[0], loc[2])] = S.d[loc]
            S.d[('own', r.args[0])] = TRUE
            return r
        if k == 'inst':
            r = S.alloc('inst', UNDEF, REFCLS[x.args[0]])
            for loc in [l for l in S.d if l[0] == 'a' and l[1] == x.args[0]]:
                S.d[('a', r.args[0], loc[2])] = S.d[loc]
            return r
    if x.op in ('seq', 'comp', 'concat', 'num', 'str', 'none', 'bool', 'poly', 'dump', 'npsum', 'sum', 'range', 'upd', 'get'):
        return x if not isarr(x) else S.alloc('array', x)
    if x.op in ('attr', 'index', 'get') and isarr(x):
        return S.alloc('array', x)
    r = S.alloc('ext', x)
    S.d[('own', r.args[0])] = TRUE
    return r


def as_array(interp, x, S):
    """Content of a numpy array built from x"""
    c = list_content(interp, x, S)
    return interp.deref(c, S)


SAFE_ELEMENTWISE = {'numpy.exp': T.exp, 'numpy.sqrt': T.sqrt, 'numpy.cos': T.cos, 'numpy.sin': T.sin, 'abs': T.absolute,
                    'numpy.conjugate': T.conj, 'numpy.real': T.real, 'numpy.square': lambda x: T.power(x, T.num(2))}


def emap(f, x):
    if x.op == 'seq':
        return T.seq([emap(f, y) for y in x.args[0]])
    if x.op == 'comp':
        doms, g, body, bvs = T.open_comp(x)
        return T.mk_comp(bvs, doms, g, emap(f, body))
    if x.op == 'phi':
        return T.lift(lambda y: emap(f, y), x)
    return f(x)


def _pystd():
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'pystd.py')
    out = set()
    for x in ast.parse(open(path).read()).body:
        if isinstance(x, ast.FunctionDef):
            a, _, b = x.name.partition('_')
            if a == 'os':
                out.add(x.name.replace('_', '.', 2))
            elif x.name == 'itertools_chain_from_iterable':
                out.add('itertools.chain.from_iterable')
            else:
                out.add('%s.%s' % (a, b) if b else a)
    return out


PYSTD = _pystd()


def builtin(interp, name, args, kw, S, fr, node):
    from .interp import Raised, GiveUp, obj_term, Builtin, the_obj, Flow
    h = interp.contracts.get('ext:' + name)
    if h is not None:
        r = h(interp, S, args, kw)
        if r is not None:
            return r
    D = lambda x: interp.deref(x, S)
    if name in EXC_NAMES:
        return T.mk('exc', name, T.seq([D(a) for a in args]))
    if name == 'len':
        x = args[0]
        if x.op == 'phi' and has_ref(x):
            return interp.fork(x, S, lambda y, S2: builtin(interp, 'len', [y], {}, S2, fr, node))
        if x.op == 'ref':
            k = x.args[1]
            if k == 'once':
                raise Raised(T.mk('exc', 'TypeError', T.string('len')))
            if k == 'dict':
                return dict_len(S.content(x))
            if k == 'inst':
                f = interp.find_method(x, '__len__')
                if f is not None:
                    return interp.call_func(f, [x], {}, S)
            if k == 'ext':
                return T.mk_len(interp.embed1(x, S))
            return T.mk_len(S.content(x))
        if x.op == 'it':
            return T.mk_len(list_content(interp, x, S, fr, node))
        if x.op in ('num', 'none', 'bool'):
            raise Raised(T.mk('exc', 'TypeError', T.string('len')))
        return T.mk_len(x)
    if name == 'range':
        a = [D(x) for x in args]
        if len(a) == 1:
            return T.mk_range(ZERO, a[0], ONE)
        if len(a) == 2:
            return T.mk_range(a[0], a[1], ONE)
        return T.mk_range(*a)
    if name == 'enumerate':
        st = D(args[1]) if len(args) > 1 else D(kw.get('start', ZERO))
        return T.mk('it', 'enumerate', args[0], st)
    if name == 'zip':
        return T.mk('it', 'zip', tuple(args))
    if name == 'reversed':
        return T.mk('it', 'reversed', args[0])
    if name == 'progress' :
        return args[0]
    if name in ('list', 'tuple', 'iter'):
        if not args:
            return S.alloc('list', T.seq(())) if name == 'list' else T.seq(())
        x = args[0]
        if name == 'iter':
            c = is_iterable(interp, x, S)
            if c is FALSE:
                raise Raised(T.mk('exc', 'TypeError', T.string('not iterable')))
            if c is not TRUE:
                interp.pending.append((T.not_(c), S.copy(), T.mk('exc', 'TypeError', T.string('not iterable'))))
                S.path = T.and_(S.path, c)
            return x
        c = list_content(interp, x, S, fr, node)
        return S.alloc('list', c) if name == 'list' else c
    if name == 'dict':
        r = S.alloc('dict', T.mk('dict0', NONE))
        if args:
            x = args[0]
            if x.op == 'ref' and x.args[1] == 'dict' or (x.op in ('upd', 'dict0')):
                S.set_content(r, S.content(x) if x.op == 'ref' else x)
            elif vars_of(x) is not None:
                S.set_content(r, T.call('vars', vars_of(x)))
            else:
                def bind(v, S2, p):
                    interp.store(r, (interp.deref(interp.getitem(v, ZERO, S2), S2),), 'set', interp.getitem(v, ONE, S2), S2)
                fl = interp.for_over(x, bind, lambda S2: Flow(TRUE, S2), fr, S, node)
                S.become(fl.S)
        for k, v in kw.items():
            interp.store(r, (T.string(k),), 'set', v, S)
        return r
    if name == 'eval' and args:
        return eval_condition(interp, args, S, fr, node)
    if name in ('set', 'frozenset'):
        if not args:
            # an empty set is going to be filled: a dictionary whose values do not matter
            if name == 'frozenset':
                return T.call('set', T.seq(()))
            r = S.alloc('dict', T.mk('dict0', NONE))
            SETREFS.add(r)
            return r
        c = D(list_content(interp, args[0], S, fr, node))
        return mk_set(c)
    if name in ('collections.defaultdict', 'defaultdict'):
        o = the_obj(args[0]) if args else None
        n = getattr(o, 'name', None)
        d = {'float': ZERO, 'int': ZERO, 'complex': ZERO, 'list': T.seq(()), 'dict': T.mk('dict0', NONE), 'str': T.string('')}.get(n)
        if d is None and args:
            if args[0] is NONE:
                d = NONE
            else:
                d = D(interp.call(args[0], [], {}, fr, S, node))
        return S.alloc('dict', T.mk('dict0', d if d is not None else NONE))
    if name == 'collections.OrderedDict':
        return builtin(interp, 'dict', args, kw, S, fr, node)
    if name == 'sum':
        c = D(list_content(interp, args[0], S, fr, node))
        st = D(args[1]) if len(args) > 1 else ZERO
        if all(x.op == 'bool' for x in T.leaves(c)) and c.op == 'phi':
            return c
        c = emap_masks(c)
        return pysum(c, st)
    if name in ('min', 'max'):
        if 'key' in kw:
            c = D(list_content(interp, args[0], S, fr, node))
            w = T.fresh('i')
            el = T.mk_index(c, w)
            kv = D(interp.call(kw['key'], [el], {}, fr, S, node))
            return T.call(name + 'key', c, T.close('lam', (w,), (T.mk_range(ZERO, T.mk_len(c), ONE) if True else NONE,), (kv,)))
        if len(args) == 1:
            c = D(list_content(interp, args[0], S, fr, node))
            if c.op == 'seq' and not c.args[0]:
                if 'default' in kw:
                    return kw['default']
                raise Raised(T.mk('exc', 'ValueError', T.string(name)))
            return minmax_of(name, c)
        a = [D(x) for x in args]
        if any(isarr(x) for x in a):
            return T.call('numpy.' + name, *sorted(a, key=lambda t: t.key))
        return T.lift(lambda *xs: T.mk_minmax(name, xs), *a)
    if name == 'sorted':
        c = D(list_content(interp, args[0], S, fr, node))
        if 'key' in kw and kw['key'] is not NONE or 'reverse' in kw and kw['reverse'] is not FALSE:
            if 'key' in kw and kw['key'] is not NONE:
                w = T.fresh('i')
                kv = D(interp.call(kw['key'], [T.mk_index(c, w)], {}, fr, S, node))
                kf = T.close('lam', (w,), (T.mk_range(ZERO, T.mk_len(c), ONE),), (kv,))
            else:
                kf = NONE
            return S.alloc('list', T.call('sortedkey', c, kf, D(kw.get('reverse', FALSE))))
        return S.alloc('list', mk_sorted(c))
    if name in ('int', 'float', 'complex', 'bool', 'str', 'repr'):
        if not args:
            return {'int': ZERO, 'float': ZERO, 'complex': ZERO, 'bool': FALSE, 'str': T.string(''), 'repr': T.string('')}[name]
        if name == 'bool':
            return interp.truth(args[0], S)
        x = D(args[0])
        if name == 'str':
            return tostr(x, '')
        if name == 'repr':
            return T.mk('tostr', x, '!r')
        if x.op == 'none':
            raise Raised(T.mk('exc', 'TypeError', T.string(name)))
        if name == 'int':
            if x.op == 'str':
                try:
                    return T.num(int(x.args[0]))
                except ValueError:
                    raise Raised(T.mk('exc', 'ValueError', T.string('int')))
            return T.toint(x)
        if name == 'float':
            if x.op == 'str':
                try:
                    return T.num(float(x.args[0]))
                except ValueError:
                    raise Raised(T.mk('exc', 'ValueError', T.string('float')))
            return T.tofloat(x)
        if len(args) == 2:
            return T.add(x, T.mul(D(args[1]), T.IMAG))
        return x
    if name == 'numpy.complex128' or name == 'numpy.complex64' or name == 'numpy.complex_':
        x = D(args[0]) if args else ZERO
        if x.op == 'str':
            try:
                z = complex(x.args[0])
            except ValueError:
                raise Raised(T.mk('exc', 'ValueError', T.string('complex')))
            return T.add(T.num(z.real), T.mul(T.num(z.imag), T.IMAG))
        return x
    if name in SAFE_ELEMENTWISE:
        return emap(SAFE_ELEMENTWISE[name], as_array(interp, args[0], S))
    if name == 'math.acos':
        x = D(args[0])
        return T.mk('acos', x) if x is not T.num(-1) else T.sym('math.pi')
    if name in ('math.atan', 'math.asin'):
        x = D(args[0])
        if x is ZERO:
            return ZERO
        if x is ONE:
            return T.div(T.sym('math.pi'), T.num(4 if name == 'math.atan' else 2))
    if name == 'numpy.log':
        x = D(args[0])
        return T.mk('log', x) if len(args) == 1 else T.div(T.mk('log', x), T.mk('log', D(args[1])))
    if name == 'round':
        x = as_array(interp, args[0], S)
        if len(args) > 1 or kw:
            return kwcall(interp, 'round', args, kw, S)
        return emap(T.rint, x)
    if name == 'pow':
        return binop(interp, 'Pow', args[0], args[1], S, node, fr)
    if name in ('numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide'):
        return binop(interp, {'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div'}[name[6:]], arr(args[0], S), arr(args[1], S), S, node, fr)
    if name in ('math.floor', 'math.ceil'):
        x = D(args[0])
        if x.op == 'num':
            import math
            return T.num(math.floor(x.args[0]) if name == 'math.floor' else math.ceil(x.args[0]))
        if T.known_int(x):
            return x
        return T.call(name, x)
    if name == 'divmod':
        a, b = D(args[0]), D(args[1])
        return T.seq((T.floordiv(a, b), T.mod(a, b)))
    if name == 'isinstance':
        return isinstance_(interp, args[0], type_names(interp, args[1], S), S)
    if name == 'hasattr':
        return hasattr_(interp, args[0], args[1], S)
    if name == 'getattr':
        nm = D(args[1])
        if nm.op == 'str':
            try:
                return interp.getattr(args[0], nm.args[0], fr, S, node)
            except Raised:
                if len(args) > 2:
                    return args[2]
                raise
        if nm.op == 'phi':
            return interp.fork(nm, S, lambda x, S2: builtin(interp, name, [args[0], x], kw, S2, fr, node))
        return T.mk('getattr', D(args[0]), nm)
    if name == 'setattr':
        nm = D(args[1])
        if nm.op == 'str':
            interp.setattr(args[0], nm.args[0], args[2], fr, S, node)
            return NONE
        interp.event(S, 'setattr', args[0], nm, args[2])
        return NONE
    if name == 'callable':
        return T.boolean(args[0].op == 'obj')
    if name == 'map':
        f = args[0]
        r = S.alloc('list', T.seq(()))
        it = args[1] if len(args) == 2 else T.mk('it', 'zip', tuple(args[1:]))

        def bind(v, S2, p):
            vs = [v] if len(args) == 2 else list(v.args[0])
            x = interp.call(f, vs, {}, fr, S2, node)
            S2.set_content(r, T.concat([S2.content(r), T.seq((x,))]))
        fl = interp.for_over(it, bind, lambda S2: Flow(TRUE, S2), fr, S, node)
        p = S.path
        S.become(fl.S)
        S.path = p
        return r
    if name in ('any', 'all', 'numpy.any', 'numpy.all'):
        if name.startswith('numpy') and len(args) == 1:
            c = as_array(interp, args[0], S)
        else:
            c = D(list_content(interp, args[0], S, fr, node))
        return cond_list(c, name.endswith('all'))
    if name == 'next':
        # only iterators that are made and used in the same expression
        src = node.args[0] if isinstance(node, ast.Call) and node.args else None
        if args and args[0].op == 'ref' and args[0].args[1] == 'once':
            c = list_content(interp, args[0], S, fr, node)
            S.set_content(args[0], UNDEF if c.op != 'seq' else T.seq(c.args[0][1:]))
            args = [c] + list(args[1:])
        elif not (isinstance(src, ast.GeneratorExp) or isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'iter'):
            raise GiveUp('next')
        c = list_content(interp, args[0], S, fr, node)
        n = T.mk_len(D(c))
        some = T.lt(ZERO, n)
        if some is not TRUE:
            if some is FALSE or len(args) > 1:
                if some is FALSE:
                    if len(args) > 1:
                        return args[1]
                    raise Raised(T.mk('exc', 'StopIteration', NONE))
                return T.ite(some, index(interp, c, ZERO, S), args[1])
            interp.pending.append((T.not_(some), S.copy(), T.mk('exc', 'StopIteration', NONE)))
            S.path = T.and_(S.path, some)
        return index(interp, c, ZERO, S)
    if name in PYSTD:
        f = interp.module('specs.pystd').vars[name.replace('.', '_')]
        return interp.call(f, args, kw, fr, S, node)
    if name == 'print':
        interp.event(S, 'print', *args)
        return NONE
    if name == 'open':
        mode = D(args[1]) if len(args) > 1 else D(kw.get('mode', T.string('r')))
        p = D(args[0])
        interp.event(S, 'open', p, mode)
        return T.mk('file', p, mode)
    if name == 'id':
        return T.call('id', D(args[0]))
    if name == 'type':
        x = args[0]
        if x.op == 'ref' and x.args[1] == 'inst':
            return obj_term(REFCLS[x.args[0]])
        return T.call('type', D(x))
    if name == 'object':
        return T.sym('object()')
    if name == 'slice':
        a = [D(x) for x in args]
        if len(a) == 1:
            return T.mk_slice(NONE, a[0], NONE)
        return T.mk_slice(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if name == 'vars':
        return args[0] if args[0].op == 'ref' and args[0].args[1] == 'inst' else T.mk_attr(D(args[0]), '__dict__')
    if name == 'copy.copy' or name == 'copy.deepcopy':
        return copy_value(interp, args[0], S, name.endswith('deepcopy'))
    if name == 'logging.getLogger':
        return T.sym('logger')
    if name in ('logging.basicConfig', 'warnings.warn', 'logging.warning', 'logging.info'):
        return NONE
    if name == 'atooms.core.utils.Timer':
        return T.sym('timer')
    if name in ('datetime.datetime.now',):
        return T.sym('now')
    # --- file system
    if name in ('atooms.core.utils.mkdir', 'os.makedirs', 'os.mkdir'):
        interp.event(S, 'mkdir', *args)
        return NONE
    if name in ('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rename', 'os.system'):
        interp.event(S, name, *args)
        return NONE
    if name == 'os.path.exists' or name == 'os.path.isfile':
        return T.node(T.mk('boolcall', name, D(args[0])), TRUE, FALSE)
    # --- atooms
    if name in ('atooms.trajectory.Trajectory', 'atooms.trajectory.TrajectoryXYZ'):
        r = S.alloc('ext', kwcall(interp, name.split('.')[-1], args, kw, S))
        TRAJ.add(S.content(r))
        return r
    if name in ('atooms.trajectory.decorators.Unfolded', 'atooms.trajectory.Unfolded'):
        fixed = D(args[1]) if len(args) > 1 else D(kw.get('fixed_cm', FALSE))
        c = content_of(interp, args[0], S)
        return S.alloc('ext', T.mk('unfold', c, interp_bool(fixed)))
    if name in ('atooms.trajectory.Sliced', 'atooms.trajectory.decorators.Sliced'):
        c, attrs = content_of(interp, args[0], S), ()
        if c.op == 'objwith':
            c, attrs = c.args
        r = S.alloc('ext', T.mk('sliced', c, D(args[1])))
        for k, v in attrs:
            # the attributes of the trajectory are those of the slice
            S.d[('a', r.args[0], k)] = v
        return r
    if name == 'atooms.system.particle.distinct_species':
        return T.call('distinct_species', D(args[0]))
    if name == 'atooms.core.utils.fractional_slice':
        return T.call('fractional_slice', *[D(a) for a in args])
    # --- numpy
    if name in ('numpy.sum', 'numpy.mean', 'numpy.count_nonzero', 'numpy.prod', 'numpy.transpose', 'numpy.dot', 'numpy.vdot') \
       and (len(args) > (1 if name in ('numpy.count_nonzero', 'numpy.prod', 'numpy.transpose') else 2) or set(kw) - {'axis', 'weights'}
            or kw and name not in ('numpy.sum', 'numpy.mean')):
        return kwcall(interp, name, args, kw, S)
    if name in ('numpy.array', 'numpy.asfortranarray', 'numpy.ascontiguousarray'):
        x = args[0]
        c = as_array(interp, x, S)
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        if dt is not None and getattr(the_obj(dt), 'name', '') in ('int', 'int32') and not T.known_int(c) and T.known_scalar(c):
            c = T.toint(c)
        if rank(c) == 0 and not isarr(c):
            return c
        return S.alloc('array', c)
    if name in ('numpy.zeros', 'numpy.ndarray', 'numpy.ones'):
        sh = D(args[0]) if args else D(kw['shape'])
        if sh.op == 'seq' and len(sh.args[0]) == 1:
            sh = sh.args[0][0]
        if name == 'numpy.ones':
            return S.alloc('array', T.add(T.mk('zeros', sh), ONE))
        return S.alloc('array', T.mk('zeros' if name == 'numpy.zeros' else 'newarr', sh))
    if name in ('numpy.zeros_like', 'numpy.empty_like', 'numpy.ones_like'):
        x = D(args[0])
        return S.alloc('array', T.mk('zeros', T.mk('shape', x)) if 'zeros' in name else T.call(name, x))
    if name == 'numpy.sum':
        x = emap_masks(as_array(interp, args[0], S))
        ax = D(args[1]) if len(args) > 1 else D(kw.get('axis', NONE))
        return T.npsum(x, ax)
    if name == 'numpy.mean':
        x = as_array(interp, args[0], S)
        ax = D(args[1]) if len(args) > 1 else D(kw.get('axis', NONE))
        if 'weights' in kw:
            return kwcall(interp, name, args, kw, S)
        return mean(x, ax)
    if name == 'numpy.dot':
        return np_dot(as_array(interp, args[0], S), as_array(interp, args[1], S))
    if name == 'numpy.vdot':
        return np_dot(T.conj(as_array(interp, args[0], S)), as_array(interp, args[1], S))
    if name == 'numpy.count_nonzero':
        x = as_array(interp, args[0], S)
        if x.op == 'mask':
            return T.npsum(x, NONE)
        return T.call('numpy.count_nonzero', x)
    if name in ('numpy.max', 'numpy.min'):
        x = as_array(interp, args[0], S)
        if len(args) == 1 and not kw:
            return minmax_of(name[6:], x)
        return kwcall(interp, name, args, kw, S)
    if name == 'numpy.transpose':
        return T.call('numpy.transpose', as_array(interp, args[0], S))
    if name in ('numpy.savetxt',):
        interp.event(S, 'savetxt', *([args[0], as_array_v(interp, args[1], S)] + [T.mk('kw', k, D(v)) for k, v in sorted(kw.items())]))
        return NONE
    if name == 'numpy.histogram' and (len(args) == 2 and not kw or len(args) == 1 and set(kw) == {'bins'}):
        b = args[1] if len(args) == 2 else kw['bins']
        edges = as_array(interp, b, S)
        if isarr(edges):
            x = as_array(interp, args[0], S)
            n = T.add(T.mk_len(edges), T.num(-1))
            if x.op == 'seq' and not x.args[0]:
                counts = T.mk('zeros', n)
            else:
                counts = T.call('histogram', x, edges)
            return T.seq((S.alloc('array', counts), S.alloc('array', edges)))
    if name == 'numpy.linspace':
        return kwcall(interp, name, args, kw, S)
    if name == 'numpy.arange' and not kw and all(T.known_int(D(a)) for a in args):
        return builtin(interp, 'range', args, {}, S, fr, node)
    if name == 'numpy.prod':
        x = as_array(interp, args[0], S)
        if x.op == 'seq':
            r = ONE
            for y in x.args[0]:
                r = T.mul(r, y)
            return r
        return T.call('numpy.prod', x)
    if name.startswith('object.'):
        return NONE
    if name.startswith('random.Random'):
        # one generator for all the objects, or for all the calls of one object,
        # does not restart from its seed
        shared = [T.string('shared')] if fr is not None and (fr.func is None or fr.func.qual.endswith('__init__')) else []
        return T.call('random.Random', *([D(a) for a in args] + shared))
    if name in ('random.sample', 'random.seed', 'random.shuffle', 'random.random', 'numpy.random.seed'):
        interp.event(S, 'rng', T.string(name))
        return kwcall(interp, name, args, kw, S)
    return kwcall(interp, name, args, kw, S)


def arr(x, S):
    """list operands of numpy functions are arrays"""
    if x.op == 'ref' and x.args[1] == 'list':
        return S.content(x)
    return x


def as_array_v(interp, x, S):
    return as_array(interp, x, S)


def interp_bool(x):
    return x


def content_of(interp, x, S):
    if x.op == 'ref' and x.args[1] == 'ext':
        return interp.embed1(x, S)
    return interp.deref(x, S)


INT_TYPES = ('int', 'numpy.int8', 'numpy.int16', 'int8', 'int16', 'builtins.int', 'int32', 'int64', 'numpy.int32', 'numpy.int64')


def int_array(x):
    def one(y):
        if y.op == 'mask':
            return T.ite(y.args[0], ONE, ZERO) if T.known_scalar(y) else y
        if T.known_int(y):
            return y
        return T.toint(y) if rank(y) is not None else T.call('numpy.astype_int', y)
    return emap(one, x)


def emap_masks(c):
    if c.op == 'comp' and all(x.op == 'bool' for x in T.leaves(c.args[3])):
        doms, g, body, bvs = T.open_comp(c)
        return T.mk_comp(bvs, doms, g, T.ite(body, ONE, ZERO))
    return c


EXC_NAMES = {'ValueError', 'TypeError', 'ImportError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'AttributeError', 'Exception',
             'RuntimeError', 'NotImplementedError', 'AssertionError', 'OSError', 'IOError', 'StopIteration', 'ModuleNotFoundError',
             'NameError', 'FileNotFoundError', 'DeprecationWarning', 'UserWarning'}


def mk_sorted(c):
    def one(c):
        if c.op == 'seq' and all(T.is_num(x) for x in c.args[0]):
            return T.seq(sorted(c.args[0], key=lambda t: t.args[0]))
        if c.op == 'seq' and all(x.op == 'str' for x in c.args[0]):
            return T.seq(sorted(c.args[0], key=lambda t: t.args[0]))
        if c.op == 'sorted':
            return c
        if c.op == 'range' and T.is_num(c.args[2]) and c.args[2].args[0] > 0:
            return c
        return T.mk('sorted', keys_as_set(c))
    return T.lift(one, c)


def vars_of(x):
    """The object whose namespace x is."""
    if x.op == 'attr' and x.args[1] == '__dict__':
        return x.args[0]
    if x.op == 'call' and x.args[0] == 'vars' and len(x.args[1:]) == 1:
        y = x.args[1]
        return y[0] if isinstance(y, tuple) else y
    return None


def eval_condition(interp, args, S, fr, node):
    """eval() of a known expression over the attributes of an object."""
    from .interp import GiveUp, Raised, Frame, PYBUILTINS
    D = lambda x: interp.deref(x, S)
    text = D(args[0])
    if text.op == 'phi':
        return interp.fork(text, S, lambda x, S2: eval_condition(interp, [x] + list(args[1:]), S2, fr, node))
    spaces = [D(x) for x in args[1:]]
    objs = [vars_of(x) for x in spaces]
    if text.op != 'str' or not objs or any(o is None for o in objs):
        return T.call('eval', *[D(x) for x in args])
    if spaces[0].op == 'attr':
        # eval() stores the builtins in its globals
        interp.event(S, 'mutate', spaces[0], T.string('__builtins__'))
    try:
        tree = ast.parse(text.args[0].strip(), mode='eval').body
    except SyntaxError:
        raise Raised(T.mk('exc', 'SyntaxError', text))

    class Names(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in PYBUILTINS:
                return n
            return ast.copy_location(ast.Attribute(ast.Name('__particle__', ast.Load()), n.id, ast.Load()), n)
    tree = ast.fix_missing_locations(Names().visit(tree))
    env = T.fresh('env').args[0] if False else ('eval', text.args[0])
    fr2 = Frame(env, (), fr.module)
    S.d[('v', env, '__particle__')] = objs[-1]
    try:
        return interp.ev(tree, fr2, S)
    finally:
        S.d.pop(('v', env, '__particle__'), None)


def mk_set(c):
    def one(c):
        if c.op == 'seq' and all(T.is_const(x) for x in c.args[0]):
            return T.call('set', T.seq(sorted(set(c.args[0]), key=lambda t: t.key)))
        if c.op == 'call' and c.args[0] == 'set':
            return c
        if c.op == 'sorted':
            return one(c.args[0])
        if c.op == 'keys':
            return keys_as_set(c)
        if c.op == 'concat':
            # sub-sets are merged
            parts = []
            for p in c.args[0]:
                if p.op == 'call' and p.args[0] == 'set':
                    p = p.args[1][0] if isinstance(p.args[1], tuple) else p.args[1]
                parts.append(p)
            c = T.concat(parts)
        return T.call('set', c)
    return T.lift(one, c)


def keys_as_set(c):
    """Keys of a dictionary when their order does not matter."""
    if c.op != 'keys' or c.args[0].op != 'upd' or c.args[0].args[0].op != 'dict0':
        return c
    parts = []
    for g in c.args[0].args[1]:
        doms, guard, path, kind, val, bvs = T.open_upd1(g)
        if bvs:
            parts.append(T.mk_comp(bvs, doms, guard, path[0]))
        else:
            parts.append(T.ite(guard, T.seq((path[0],)), T.seq(())))
    parts.sort(key=lambda t: t.key)
    return mk_set(T.concat(parts) if len(parts) > 1 else parts[0])


def is_iterable(interp, x, S):
    def one(x):
        if x.op == 'ref':
            return TRUE
        if x.op in ('seq', 'comp', 'concat', 'range', 'str', 'strcat', 'dump', 'it'):
            return TRUE
        if x.op in ('num', 'none', 'bool', 'len', 'npsum') or rank(x) == 0:
            return FALSE
        if isarr(x):
            return TRUE
        return T.node(T.mk('iterable', x), TRUE, FALSE)
    if x.op == 'phi':
        return T.ite(T.node(x.args[0], TRUE, FALSE), is_iterable(interp, x.args[1], S), is_iterable(interp, x.args[2], S))
    return one(x)


def hasattr_(interp, o, nm, S):
    nm = interp.deref(nm, S)
    if o.op == 'ref' and o.args[1] == 'inst' and nm.op == 'str':
        if ('a', o.args[0], nm.args[0]) in S.d:
            return TRUE
        return T.boolean(REFCLS[o.args[0]].find(nm.args[0])[0] is not None)
    x = interp.deref(o, S)
    if x.op == 'objwith' and nm.op == 'str' and any(k == nm.args[0] for k, v in x.args[1]):
        return TRUE
    if x.op in ('frame',) and False:
        return TRUE
    h = interp.config.get('hasattr', {}).get(nm.args[0] if nm.op == 'str' else None)
    if h is not None:
        return T.boolean(h)
    return T.node(T.mk('hasattr', T.string(nm.args[0]) if nm.op == 'str' else nm), TRUE, FALSE)


# ---------------------------------------------------------------- methods

DRAWS = itertools.count(1)


def method(interp, m, args, kw, S, fr, node):
    from .interp import Raised, GiveUp
    o, name = m.recv, m.name
    D = lambda x: interp.deref(x, S)
    if name.startswith('object.'):
        return NONE
    if o.op == 'phi' and has_ref(o):
        from .interp import Meth
        return interp.fork(o, S, lambda x, S2: method(interp, Meth(x, name, m.node), args, kw, S2, fr, node))
    if o.op == 'ref':
        k = o.args[1]
        if k == 'list':
            r = list_method(interp, o, name, args, kw, S, fr, node)
            if r is not None:
                return r
            raise GiveUp('list.' + name)
        if k == 'dict':
            r = dict_method(interp, o, name, args, kw, S, fr, node)
            if r is not None:
                return r
            raise GiveUp('dict.' + name)
        if k == 'array':
            if name == 'fill':
                S.set_content(o, T.call('filled', D(S.content(o)), D(args[0])))
                return NONE
            if name == 'sort':
                S.set_content(o, mk_sorted(D(S.content(o))))
                return NONE
            return array_method(interp, D(S.content(o)), name, args, kw, S, fr, node)
        if k == 'ext':
            return ext_method(interp, o, interp.embed1(o, S), name, args, kw, S, fr, node)
    if o.op == 'call' and o.args[0] == 'random.Random' and T.string('shared') in o.args[1]:
        # it does not return to its state either
        o = T.call('random.Random', *(o.args[1] + (T.num(next(DRAWS)),)))
    if o is T.sym('logger'):
        return NONE
    if o is T.sym('timer'):
        return NONE
    if strlike(o) or o.op == 'str':
        return str_method(interp, o, name, args, kw, S, fr, node)
    if name in ('add', 'discard', 'remove', 'update', 'clear', 'pop') and o.op == 'call' and o.args[0] == 'set':
        raise GiveUp('set.' + name)
    if name in LIST_METHODS | {'update', 'setdefault'} and name not in ('copy', 'index', 'count') or (name == 'extend'):
        loc = None
        if m.node is not None and isinstance(m.node, ast.Attribute):
            try:
                loc = interp.lv(m.node.value, fr, S)
            except (GiveUp, Raised):
                loc = None
        if loc is not None and loc[1]:
            if name == 'append':
                interp.store(loc[0], loc[1], 'append', D(args[0]), S)
                return NONE
            if name == 'extend':
                interp.store(loc[0], loc[1], 'extend', D(list_content(interp, args[0], S, fr, node)), S)
                return NONE
            if name in ('sort', 'remove', 'insert', 'pop', 'reverse', 'clear', 'update', 'setdefault'):
                old = D(o)
                new = T.mk('mutated', name, old, tuple(D(a) for a in args))
                interp.store(loc[0], loc[1], 'set', new, S)
                return NONE if name != 'pop' else T.mk('popped', old, tuple(D(a) for a in args))
        if name in ('append', 'extend', 'remove', 'insert', 'clear', 'sort'):
            interp.event(S, 'mutate', D(o), T.string(name), *args)
            return NONE
    if o.op == 'file':
        if name == 'write':
            interp.event(S, 'fwrite', o, *args)
            return NONE
        if name in ('flush', 'close', '__exit__', '__enter__'):
            return NONE if name != '__enter__' else o
        return kwcall(interp, 'file.' + name, [o] + list(args), kw, S)
    x = D(o)
    if name in ('keys', 'values', 'items') and (x.op in ('upd', 'dict0', 'get') or True) and not args:
        return T.mk('it', name, x)
    if name == 'copy' and vars_of(x) is not None:
        return S.alloc('dict', T.call('vars', vars_of(x)))
    if name == 'get' and args:
        return T.mk('mcall', 'get', x, tuple(D(a) for a in args))
    if name == 'index' and args:
        return T.call('list.index', x, D(args[0]))
    if x.op == 'frame' or x.op in ('objwith', 'copyof', 'apply') or name in ('dump', 'add_callback', 'read', 'register_callback'):
        return ext_method(interp, None, x, name, args, kw, S, fr, node)
    if name in ('dot', 'sum', 'mean', 'conjugate', 'conj', 'flatten', 'ravel', 'reshape', 'astype', 'transpose', 'repeat', 'var', 'std',
                'max', 'min', 'any', 'all', 'tolist', 'copy', 'round', 'prod'):
        return array_method(interp, x, name, args, kw, S, fr, node)
    if name in STRM:
        return str_method(interp, x, name, args, kw, S, fr, node)
    return T.mk('mcall', name, x, tuple(D(a) for a in args), tuple((k, D(v)) for k, v in sorted(kw.items())))


def list_method(interp, o, name, args, kw, S, fr, node):
    c = S.content(o)
    D = lambda x: interp.deref(x, S)
    if name == 'append':
        S.set_content(o, T.concat([c, T.seq((args[0],))]))
        return NONE
    if name == 'extend':
        list_extend(interp, o, args[0], S, fr, node)
        return NONE
    if name == 'copy':
        return S.alloc('list', c)
    if name == 'clear':
        S.set_content(o, T.seq(()))
        return NONE
    if name == 'index':
        cc, x = D(c), D(args[0])
        if cc.op == 'seq' and T.is_const(x):
            for k, y in enumerate(cc.args[0]):
                if y is x:
                    return T.num(k)
        return T.call('list.index', cc, x)
    if name == 'sort':
        if kw:
            S.set_content(o, T.call('sortedkey', D(c), *[T.mk('kw', k, D(v)) for k, v in sorted(kw.items())]))
        else:
            S.set_content(o, mk_sorted(D(c)))
        return NONE
    if name == 'reverse':
        if c.op == 'seq':
            S.set_content(o, T.seq(tuple(reversed(c.args[0]))))
        else:
            S.set_content(o, T.mk('reversed', D(c)))
        return NONE
    if name == 'count':
        return T.call('list.count', D(c), D(args[0]))
    if name == 'insert':
        i = D(args[0])
        if T.is_num(i) and i.args[0] == 0:
            S.set_content(o, T.concat([T.seq((args[1],)), c]))
            return NONE
        S.set_content(o, T.mk('mutated', 'insert', D(c), (i, D(args[1]))))
        return NONE
    if name == 'pop':
        i = D(args[0]) if args else T.num(-1)
        if c.op == 'seq' and T.is_num(i):
            items = list(c.args[0])
            try:
                v = items.pop(int(i.args[0]))
            except IndexError:
                from .interp import Raised
                raise Raised(T.mk('exc', 'IndexError', NONE))
            S.set_content(o, T.seq(items))
            return v
        cc = D(c)
        n = T.mk_len(cc)
        if T.is_num(i) and i.args[0] == -1:
            S.set_content(o, T.mk_index(cc, T.mk_slice(NONE, T.num(-1), NONE)))
            return index(interp, cc, T.num(-1), S)
        if T.is_num(i) and i.args[0] == 0:
            S.set_content(o, T.mk_index(cc, T.mk_slice(ONE, NONE, NONE)))
            return index(interp, cc, ZERO, S)
        S.set_content(o, T.mk('mutated', 'pop', cc, (i,)))
        return T.mk('popped', cc, (i,))
    if name == 'remove':
        x = D(args[0])
        if c.op == 'seq' and T.is_const(x) and all(T.is_const(y) for y in c.args[0]):
            items = list(c.args[0])
            if x in items:
                items.remove(x)
                S.set_content(o, T.seq(items))
                return NONE
            from .interp import Raised
            raise Raised(T.mk('exc', 'ValueError', NONE))
        S.set_content(o, T.mk('mutated', 'remove', D(c), (x,)))
        return NONE
    return None


def dict_method(interp, o, name, args, kw, S, fr, node):
    c = S.content(o)
    D = lambda x: interp.deref(x, S)
    if name == 'add':
        interp.store(o, (D(args[0]),), 'set', TRUE, S)
        return NONE
    if o in SETREFS and name not in ('copy', 'clear', 'pop'):
        if name != 'update':
            return None
        for x in args:
            from .interp import Flow
            fl = interp.for_over(x, lambda v, S2, p: interp.store(o, (interp.deref(v, S2),), 'set', TRUE, S2), lambda S2: Flow(TRUE, S2), fr, S, node)
            S.become(fl.S)
        return NONE
    if name in ('keys', 'values', 'items'):
        return T.mk('it', name, o)
    if name == 'copy':
        return S.alloc('dict', c)
    if name == 'clear':
        b, g = base_groups(c)
        S.set_content(o, b if b.op == 'dict0' else T.mk('dict0', NONE))
        return NONE
    if name in ('get', 'setdefault', 'pop'):
        k = D(args[0])
        default = args[1] if len(args) > 1 else NONE
        has = contains(interp, k, o, S)
        if name == 'get':
            if has is TRUE:
                return interp.getitem(o, k, S)
            if has is FALSE:
                return default
            v = index(interp, c, k, S)
            if c.op == 'upd' and c.args[0].op == 'dict0' and c.args[0].args[0] is NONE and default is ZERO:
                v = T.mk_get(T.mk_upd(T.mk('dict0', NONE), c.args[1]), (k,))
            return T.ite(has, v, default)
        if name == 'setdefault':
            if has is TRUE:
                return interp.getitem(o, k, S)
            if has is FALSE:
                interp.store(o, (k,), 'set', default, S)
                return default
            d = D(default)
            S.set_content(o, T.mk_upd(c, (T.mk_upd1((), (), TRUE, (k,), 'setd', d),)))
            return interp.getitem(o, k, S)
        if name == 'pop':
            ci = const_items(c)
            if ci is not None and T.const_key(k):
                for kk, v in ci:
                    if kk is k:
                        del_item(interp, o, k, S)
                        return v
                if len(args) > 1:
                    return default
                from .interp import Raised
                raise Raised(T.mk('exc', 'KeyError', k))
            v = T.ite(has, index(interp, c, k, S), default) if len(args) > 1 else index(interp, c, k, S)
            del_item(interp, o, k, S)
            return v
    if name == 'update':
        if args:
            dict_update(interp, o, args[0], S, fr, node)
        for k, v in kw.items():
            interp.store(o, (T.string(k),), 'set', v, S)
        return NONE
    return None


def array_method(interp, x, name, args, kw, S, fr, node):
    D = lambda t: interp.deref(t, S)
    if x.op == 'phi' and not all(y.op == 'bool' for y in T.leaves(x)):
        return T.lift(lambda y: array_method(interp, y, name, args, kw, S, fr, node) if True else None, x)
    ax = D(args[0]) if args else D(kw.get('axis', NONE))
    if name in ('sum', 'mean') and (len(args) > 1 or set(kw) - {'axis'}):
        return kwcall(interp, 'numpy.' + name, [x] + list(args), kw, S)
    if name == 'sum':
        return T.npsum(emap_masks(x), ax)
    if name == 'mean':
        return mean(x, ax)
    if name in ('conjugate', 'conj'):
        return emap(T.conj, x)
    if name == 'dot':
        return np_dot(x, as_array(interp, args[0], S))
    if name == 'copy':
        return S.alloc('array', x)
    if name in ('flatten', 'ravel'):
        if rank(x) == 1:
            return S.alloc('array', x)
        order = D(args[0] if args else kw.get('order', NONE))
        if order is NONE or order.op == 'str' and order.args[0] == 'C':
            return S.alloc('array', T.call('numpy.flatten', x))
        return S.alloc('array', T.call('numpy.flatten', x, order))
    if name == 'tolist':
        return S.alloc('list', x)
    if name in ('any', 'all'):
        return cond_list(x, name == 'all')
    if name == 'astype':
        from .interp import the_obj
        ty = getattr(the_obj(args[0]), 'name', '') if args else ''
        if ty in INT_TYPES:
            return S.alloc('array', int_array(x))
        if ty not in ('float', 'complex', 'numpy.complex128'):
            return kwcall(interp, 'numpy.astype', [x] + list(args), kw, S)
        return S.alloc('array', x)
    if name == 'transpose' and not args:
        return T.call('numpy.transpose', x)
    if name in ('max', 'min') and not args and not kw:
        return minmax_of(name, x)
    if name == 'round' and not args and not kw:
        return emap(T.rint, x)
    return kwcall(interp, 'numpy.' + name, [x] + list(args), kw, S)


def string_list(x):
    """List of strings made by splitting one"""
    while x.op == 'index' and isinstance(x.args[1], T.Term) and x.args[1].op == 'slice':
        x = x.args[0]
    return x.op == 'mcall' and x.args[0] in ('split', 'rsplit', 'splitlines')


def str_method(interp, o, name, args, kw, S, fr, node):
    D = lambda t: interp.deref(t, S)
    if name == 'format':
        return fmt_braces(interp, D(o), args, kw, S, fr)
    o = D(o)
    a = [D(list_content(interp, x, S, fr, node)) if name == 'join' else D(x) for x in args]
    if o.op == 'phi':
        c = T.node(o.args[0], TRUE, FALSE)
        if name in ('split', 'splitlines', 'rsplit'):
            x = T.lift(lambda y: str_raw(y, name, a), o)
            return S.alloc('list', x)
        return T.lift(lambda y: str_raw(y, name, a), o)
    r = T.lift(lambda *aa: str_raw(o, name, list(aa)), *a) if a else str_raw(o, name, a)
    if name in ('split', 'splitlines', 'rsplit'):
        return S.alloc('list', r)
    return r


def str_raw(o, name, a):
    if o.op == 'str' and all(T.is_const(x) for x in a):
        try:
            r = getattr(o.args[0], name)(*[T.const(x) for x in a])
            if isinstance(r, str):
                return T.string(r)
            if isinstance(r, bool):
                return T.boolean(r)
            if isinstance(r, int):
                return T.num(r)
            if isinstance(r, list):
                return T.seq([T.string(x) for x in r])
        except Exception:
            pass
    if name == 'join' and a and a[0].op == 'seq':
        out = []
        for k, x in enumerate(a[0].args[0]):
            if k:
                out.append(o)
            out.append(x)
        return T.strcat(out)
    if name in ('startswith', 'endswith', 'isdigit'):
        return T.node(T.mk('boolcall', name, o, tuple(a)), TRUE, FALSE)
    return T.mk('mcall', name, o, tuple(a), ())


def ext_method(interp, ref, x, name, args, kw, S, fr, node):
    D = lambda t: interp.deref(t, S)
    if name == 'read' and args:
        return index(interp, x, D(args[0]), S)
    if name == 'dump':
        if len(args) == 1 and D(args[0]).op in ('str', 'strcat', 'sym', 'poly', 'phi') and not [k for k in kw if k not in ('order', 'dtype', 'view')]:
            key = D(args[0])
            if key.op == 'strcat' and key.args[0][0].op == 'str' and key.args[0][0].args[0] == 'particle.':
                return T.mk('dump', x, key)
            return mk_dump(x, key)
    if name in ('add_callback', 'register_callback'):
        a = tuple(interp.portable(D(v), S) for v in args)
        k2 = tuple((k, interp.portable(D(v), S)) for k, v in sorted(kw.items()))
        new = T.mk('cbk', x, a, k2)
        if ref is not None:
            if S.content(ref) in TRAJ:
                interp.event(S, 'callback', x, *args)
            S.set_content(ref, new)
        else:
            interp.event(S, 'callback', x, *args)
        return NONE
    if name in ('close', 'flush'):
        return NONE
    return T.mk('mcall', name, x, tuple(D(a) for a in args), tuple((k, D(v)) for k, v in sorted(kw.items())))


def ext_init(interp, r, cls, args, kw, S):
    return
