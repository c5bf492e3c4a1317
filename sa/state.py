"""Abstract states: finite maps from locations to value-graph terms.

Locations are tuples:
  ('v', env, name)    variable of an activation
  ('c', ref)          content of a list, dictionary, array or external object
  ('a', ref, name)    attribute of an instance or of an external object
  ('fx',)             trace of externally visible effects
"""

from . import terms as T

UNDEF = T.mk('undef')
REFKIND = {}    # ref id -> kind
REFCLS = {}     # ref id -> class object (instances)
_n = [0]


def new_ref(kind, cls=None):
    _n[0] += 1
    r = T.mk('ref', _n[0], kind)
    REFKIND[_n[0]] = kind
    REFCLS[_n[0]] = cls
    return r


def watermark():
    return _n[0]


_has = {}


def has_ref(t):
    if isinstance(t, tuple):
        return any(has_ref(x) for x in t)
    if not isinstance(t, T.Term):
        return False
    r = _has.get(t)
    if r is None:
        if t.op == 'ref':
            r = True
        else:
            r = any(has_ref(x) for x in t.args)
        _has[t] = r
    return r


class State(object):
    __slots__ = ('d', 'path')

    def __init__(self, d=None, path=T.TRUE):
        self.d = d if d is not None else {}
        self.path = path

    def copy(self):
        return State(dict(self.d), self.path)

    def become(self, other):
        self.d, self.path = other.d, other.path

    # -- references
    def content(self, ref):
        return self.d[('c', ref.args[0])]

    def set_content(self, ref, val):
        self.d[('c', ref.args[0])] = val

    def alloc(self, kind, content, cls=None):
        r = new_ref(kind, cls)
        self.d[('c', r.args[0])] = content
        return r


def parts_of(t):
    if t.op == 'concat':
        return list(t.args[0])
    if t.op == 'seq' and not t.args[0]:
        return []
    return [t]


def split_prefix(a, b):
    """Common prefix of two list contents: (prefix parts, rest of a, rest of b)"""
    pa, pb = parts_of(a), parts_of(b)
    pre = []
    while pa and pb:
        if pa[0] is pb[0]:
            pre.append(pa.pop(0))
            pb.pop(0)
            continue
        if pa[0].op == 'seq' and pb[0].op == 'seq':
            xa, xb = pa[0].args[0], pb[0].args[0]
            k = 0
            while k < len(xa) and k < len(xb) and xa[k] is xb[k]:
                k += 1
            if k:
                pre.append(T.seq(xa[:k]))
                pa[0] = T.seq(xa[k:])
                pb[0] = T.seq(xb[k:])
                if not pa[0].args[0]:
                    pa.pop(0)
                if not pb[0].args[0]:
                    pb.pop(0)
                if k == len(xa) or k == len(xb):
                    continue
        break
    return pre, pa, pb


def guard_group(g, c):
    if c is T.TRUE:
        return g
    doms, guard, path, kind, val, bvs = T.open_upd1(g)
    return T.mk_upd1(bvs, doms, T.and_(c, guard), path, kind, val)


def base_groups(t):
    if t.op == 'upd':
        return t.args[0], list(t.args[1])
    return t, []


def merge_content(c, a, b, kind):
    if a is b:
        return a
    if kind == 'list':
        pre, ra, rb = split_prefix(a, b)
        if pre or a.op in ('seq', 'concat') or b.op in ('seq', 'concat'):
            x, y = T.concat(ra), T.concat(rb)
            return T.concat(pre + [T.ite(c, x, y)])
    ba, ga = base_groups(a)
    bb, gb = base_groups(b)
    if ba is bb and ba.op not in ('seq',) and (ga or gb):
        pre = []
        while ga and gb and ga[0] is gb[0]:
            pre.append(ga.pop(0))
            gb.pop(0)
        n = T.not_(c)
        return T.mk_upd(ba, tuple(pre) + tuple(guard_group(g, c) for g in ga) + tuple(guard_group(g, n) for g in gb))
    return T.ite(c, a, b)


def merge(c, A, B):
    """State that equals A where c holds and B elsewhere."""
    if A is B:
        return A
    d = {}
    da, db = A.d, B.d
    for loc, x in da.items():
        y = db.get(loc)
        if y is None or y is x or y is UNDEF:
            d[loc] = x
        elif x is UNDEF:
            d[loc] = y
        elif loc[0] == 'c':
            d[loc] = merge_content(c, x, y, REFKIND.get(loc[1]))
        elif loc[0] == 'fx':
            d[loc] = merge_content(c, x, y, 'list')
        else:
            d[loc] = T.ite(c, x, y)
    for loc, y in db.items():
        if loc not in da:
            d[loc] = y
    return State(d, T.or_(A.path, B.path))
