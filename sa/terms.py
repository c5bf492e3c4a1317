"""Hash-consed value graphs with normalising constructors.

A term is the abstract value of an expression of the analysed program: two
program points have the same term only if the normalising constructors below
prove that they compute the same value (global value numbering modulo the
algebra implemented here).  Terms are gated: joins of control flow are `phi`
nodes, kept in the canonical form of a multi-terminal decision diagram.
Iteration is summarised by binding constructs (`comp`, `sum`, `upd` ...) whose
bound variables are numbered by height, so that alpha-equivalent terms are the
same object.  Nothing is ever evaluated on concrete data.
"""

import hashlib
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)
_table = {}
_counter = [0]


class Term(object):
    __slots__ = ('op', 'args', 'key', 'bvs', 'fb', 'hb', 'taint', '__weakref__')

    def __repr__(self):
        return show(self)


def _akey(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_akey(x) for x in a) + ')'
    return type(a).__name__[0] + ':' + str(a)


def _scan(a, acc):
    if isinstance(a, Term):
        acc[0] |= a.bvs
        acc[1] = max(acc[1], a.hb)
        acc[2] = acc[2] or a.taint
        if a.fb:
            acc[3] = acc[3] | a.fb
    elif isinstance(a, tuple):
        for x in a:
            _scan(x, acc)


PLAIN_BINDERS = ('last', 'lam', 'rec', 'evloop', 'vec', 'flat', 'prod', 'minover', 'maxover', 'firsts')
BINDERS = ('comp', 'sum', 'upd1', 'exists', 'first') + PLAIN_BINDERS
COMP_RULES = []
LEN_RULES = []


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.op, t.args = op, args
    acc = [frozenset(), 0, False, frozenset()]
    for a in args:
        _scan(a, acc)
    t.bvs, t.hb, t.taint, t.fb = acc
    if op == 'bv':
        t.bvs = frozenset([args[0]])
        t.key = 'v%08d' % args[0]
    else:
        h = hashlib.blake2b((op + '|' + '|'.join(_akey(a) for a in args)).encode(), digest_size=10)
        t.key = h.hexdigest()
    if op in BINDERS:
        # first argument is the list of binder heights
        t.hb = max([t.hb] + list(args[0]))
        if t.fb and args[0]:
            t.fb = frozenset(b for b in t.fb if b.args[0] not in args[0])
    if op == 'bnd':
        t.fb = frozenset([t])
    if op == 'opaque':
        t.taint = True
    _table[k] = t
    return t


def fresh(hint='v'):
    _counter[0] += 1
    return mk('bv', _counter[0], hint)


def opaque(reason, *args):
    """A value the analysis gives up on: comparisons that involve it are undecided."""
    _counter[0] += 1
    return mk('opaque', _counter[0], str(reason))


# ---------------------------------------------------------------- leaves

def num(x, flt=None):
    if isinstance(x, bool):
        return boolean(x)
    flt = False
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('sym', 'float:%r' % x)
        x = Fraction(repr(x)) if 'e' not in repr(x) else Fraction(repr(x))
    return mk('num', Fraction(x), bool(flt))


TRUE, FALSE, NONE = mk('bool', True), mk('bool', False), mk('none')
ZERO, ONE = mk('num', F0, False), mk('num', F1, False)
IMAG = mk('sym', 'I')
EMPTY = mk('empty')
ELL = mk('ellipsis')


def boolean(x):
    return TRUE if x else FALSE


def string(s):
    return mk('str', s)


def sym(name):
    return mk('sym', name)


def is_num(t):
    return t.op == 'num'


def const(t):
    """Python value of a constant term, or raise ValueError."""
    if t.op == 'num':
        return float(t.args[0]) if t.args[1] else (int(t.args[0]) if t.args[0].denominator == 1 else float(t.args[0]))
    if t.op in ('str', 'bool'):
        return t.args[0]
    if t.op == 'none':
        return None
    raise ValueError(t)


def is_const(t):
    return t.op in ('num', 'str', 'bool', 'none')


def const_key(t):
    """Constants and tuples of constants."""
    return is_const(t) or t.op in ('seq', 'tuple') and all(const_key(x) for x in t.args[0])


# ---------------------------------------------------------------- type hints

# Registry filled in by models: terms known to be integer / nonnegative / real / scalar
KNOWN_INT = set()
KNOWN_REAL = set()


def known_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in ('len', 'toint', 'ceildiv', 'count', 'rint', 'first'):
        return True
    if t.op in ('bv', 'bnd'):
        return len(t.args) > 1 and str(t.args[1]).startswith('i')
    if t.op == 'floordiv':
        return all(known_int(a) for a in t.args)
    if t.op == 'mod':
        return all(known_int(a) for a in t.args)
    if t.op in ('min', 'max'):
        return all(known_int(a) for a in t.args[0])
    if t.op == 'poly':
        for mono, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e.denominator != 1 or e < 0 or not known_int(a):
                    return False
        return True
    if t.op == 'phi':
        return known_int(t.args[1]) and known_int(t.args[2])
    if t.op == 'sum':
        return known_int(t.args[2])
    if t.op == 'attr':
        return t.args[1] in INT_ATTRS
    if t.op == 'index':
        r = t.args[0]
        if r.op == 'attr' and r.args[1] in INT_LISTS:
            return True
        while r.op == 'index':
            r = r.args[0]
        return r.op == 'call' and r.args[0] in INT_CALLS
    if t.op == 'call':
        return t.args[0] in INT_CALLS
    return t in KNOWN_INT


INT_ATTRS = {'block_size', 'frame', 'number_of_dimensions', 'npart'}
INT_CALLS = {'setup_t_grid', 'adjust_skip'}
INT_LISTS = {'steps', 'shape'}


def known_nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('len', 'abs', 'count', 'ceildiv'):
        return True
    if t.op in ('bv', 'bnd'):
        return len(t.args) > 1 and str(t.args[1]).startswith('i')
    if t.op == 'poly':
        return all(c > 0 and all(known_nonneg(a) or (e.denominator == 1 and e % 2 == 0 and known_real(a)) for a, e in m)
                   for m, c in t.args[0])
    if t.op == 'npsum':
        return known_nonneg(t.args[0])
    if t.op == 'sum':
        return known_nonneg(t.args[2])
    if t.op == 'comp':
        return known_nonneg(t.args[3])
    return False


def known_real(t):
    if t.op in ('num', 'len', 'abs', 'toint', 'real', 'imag', 'count', 'ceildiv', 'floordiv', 'rint', 'str',
                'bool', 'cos', 'sin', 'min', 'max', 'lt0', 'eq0', 'bv', 'bnd', 'shape', 'attr', 'log', 'acos'):
        return not (t.op in ('bv', 'bnd') and len(t.args) > 1 and str(t.args[1]).startswith('c'))
    if t.op == 'sym':
        return t is not IMAG
    if t.op == 'poly':
        return all(known_real(a) and (e.denominator == 1 or known_nonneg(a) or True) for m, c in t.args[0] for a, e in m)
    if t.op in ('npsum', 'real'):
        return known_real(t.args[0])
    if t.op == 'exp':
        return known_real(t.args[0])
    if t.op == 'comp':
        return known_real(t.args[3])
    if t.op == 'sum':
        return known_real(t.args[2])
    if t.op == 'phi':
        return known_real(t.args[1]) and known_real(t.args[2])
    if t.op == 'index':
        return known_real(t.args[0])
    if t.op == 'seq':
        return all(known_real(a) for a in t.args[0])
    if t.op == 'range':
        return True
    if t.op == 'get':
        return known_real(t.args[0])
    if t.op == 'upd':
        return known_real(t.args[0]) and all(known_real(g.args[5]) for g in t.args[1])
    if t.op in ('empty', 'zeros', 'dict0'):
        return True
    if t.op == 'call':
        return t.args[0] in REAL_CALLS
    if t.op == 'mcall':
        return True
    return t in KNOWN_REAL


REAL_CALLS = set()


def known_scalar(t):
    if t.op in ('num', 'len', 'toint0', 'bool', 'str', 'count', 'ceildiv'):
        return True
    if t.op == 'npsum':
        return t.args[1] is NONE
    if t.op in ('bv', 'bnd'):
        return len(t.args) > 1 and str(t.args[1]).startswith('i')
    if t.op == 'sum':
        return known_scalar(t.args[2])
    if t.op == 'poly':
        return all(known_scalar(a) for m, c in t.args[0] for a, e in m)
    if t.op in ('real', 'imag', 'abs', 'exp', 'toint', 'rint', 'sin', 'cos'):
        return known_scalar(t.args[0])
    if t.op == 'sym':
        return t is IMAG or t in KNOWN_SCALAR
    if t.op == 'phi':
        return known_scalar(t.args[1]) and known_scalar(t.args[2])
    if t.op in ('attr', 'index', 'get', 'call'):
        return t in KNOWN_SCALAR or bool(RANK_HOOK) and RANK_HOOK[0](t) == 0
    return t in KNOWN_SCALAR


RANK_HOOK = []
KNOWN_SCALAR = set()
KNOWN_SCALAR.add(mk('sym', 'math.pi'))

# ---------------------------------------------------------------- decision diagrams


def is_phi(t):
    return t.op == 'phi'


def ite(c, a, b):
    """phi(c ? a : b) in canonical (ordered, reduced) form; c is a boolean term."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c = as_cond(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return _ite(c, a, b, {})


def _ite(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = memo.get(k)
    if r is not None:
        return r
    tops = [x.args[0] for x in (c, a, b) if x.op == 'phi']
    top = min(tops, key=lambda t: t.key)
    hi = _ite(cof(c, top, True), cof(a, top, True), cof(b, top, True), memo)
    lo = _ite(cof(c, top, False), cof(a, top, False), cof(b, top, False), memo)
    r = node(top, hi, lo)
    memo[k] = r
    return r


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk('phi', atom, hi, lo)


def cof(t, atom, val):
    """Cofactor of the top-level decision diagram t with respect to an atom."""
    if t.op != 'phi':
        return t
    if t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    if t.args[0].key > atom.key:
        return t
    return node(t.args[0], cof(t.args[1], atom, val), cof(t.args[2], atom, val))


def as_cond(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == 'phi':
        def rec(x):
            if x.op == 'phi':
                return _ite(node(x.args[0], TRUE, FALSE), rec(x.args[1]), rec(x.args[2]), {})
            return as_cond(x)
        return rec(t)
    if t.op == 'num':
        return boolean(t.args[0] != 0)
    if t.op == 'str':
        return boolean(t.args[0] != '')
    if t.op == 'none':
        return FALSE
    if t.op in ('seq',):
        return boolean(len(t.args[0]) > 0)
    if t.op in ('empty',):
        return FALSE
    if t.op in ATOMS:
        return node(t, TRUE, FALSE)
    if t.op in ('len', 'poly'):
        return not_(eq0(t))
    return node(mk('truthy', t), TRUE, FALSE)


ATOMS = {'lt0', 'eq0', 'eq', 'in', 'truthy', 'isinstance', 'hasattr', 'exists', 'is', 'boolcall', 'iterable'}


def not_(c):
    return ite(as_cond(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(as_cond(c), r, FALSE) if r is not TRUE else as_cond(c)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(as_cond(c), TRUE, r)
    return r


def atoms_of(c, acc=None):
    """Atomic conditions of a decision diagram (top level only)."""
    if acc is None:
        acc = []
    if c.op == 'phi':
        if c.args[0] not in acc:
            acc.append(c.args[0])
        atoms_of(c.args[1], acc)
        atoms_of(c.args[2], acc)
    return acc


def leaves(t):
    if t.op == 'phi':
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


MAXLEAVES = 64


def lift(fn, *args):
    """Apply fn to args, pushing it inside the decision diagrams of the arguments."""
    phis = [a for a in args if isinstance(a, Term) and a.op == 'phi']
    if not phis:
        return fn(*args)
    n = 1
    for p in phis:
        n *= len(leaves(p))
    if n > MAXLEAVES:
        return opaque('too many joined values')
    top = min((p.args[0] for p in phis), key=lambda t: t.key)
    hi = lift(fn, *[cof(a, top, True) if isinstance(a, Term) else a for a in args])
    lo = lift(fn, *[cof(a, top, False) if isinstance(a, Term) else a for a in args])
    return _ite(node(top, TRUE, FALSE), hi, lo, {})


def lifted(fn):
    def wrap(*args):
        for a in args:
            if isinstance(a, Term) and a.op == 'phi':
                return lift(fn, *args)
        return fn(*args)
    wrap.raw = fn
    return wrap


# ---------------------------------------------------------------- polynomial algebra

def to_poly(t):
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'bool':
        return {(): F1} if t.args[0] else {}
    return {((t, F1),): F1}


def from_poly(d, flt=False):
    flt = False
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return mk('num', F0, flt)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c, flt)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    return mk('poly', tuple(items))


def _mkey(m):
    return tuple((a.key, e) for a, e in m)


def _flt(*ts):
    return any(t.op == 'num' and t.args[1] for t in ts)


@lifted
def add(a, b):
    if a.op in ('seq', 'concat', 'comp') and b.op in ('seq', 'concat', 'comp'):
        # Never reached from list concatenation, which uses concat()
        pass
    if a.op == 'str' or b.op == 'str' or a.op == 'strcat' or b.op == 'strcat':
        return strcat([a, b])
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, F0) + c
    return from_poly(d, _flt(a, b))


@lifted
def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()}, _flt(a))


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """Product of two monomials: returns (coef, mono, expand) where expand is a list of (polyterm, intexp)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, F0) + e
    for a, e in m2:
        d[a] = d.get(a, F0) + e
    return _mono_fix(d)


def _mono_fix(d):
    coef = F1
    expand = []
    exps = []
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a is IMAG:
            if e.denominator == 1:
                k = int(e) % 4
                if k == 0:
                    continue
                if k == 1:
                    out[a] = F1
                elif k == 2:
                    coef = -coef
                else:
                    coef = -coef
                    out[a] = F1
                continue
        if a.op == 'exp':
            exps.append((a, e))
            continue
        if a.op == 'poly' and e.denominator == 1 and e > 0:
            expand.append((a, int(e)))
            continue
        if a.op == 'num':
            r = _num_pow(a.args[0], e)
            if r is not None:
                coef *= r
                continue
        out[a] = e
    if exps:
        arg = ZERO
        for a, e in exps:
            arg = add(arg, mul(num(e), a.args[0]))
        if len(exps) == 1 and exps[0][1] == 1:
            out[exps[0][0]] = F1
        elif is_num(arg) and arg.args[0] == 0:
            pass
        else:
            x = exp(arg)
            if x.op == 'exp':
                out[x] = F1
            else:
                for mm, cc in to_poly(x).items():
                    coef *= cc
                    for aa, ee in mm:
                        out[aa] = out.get(aa, F0) + ee
    return coef, tuple(sorted(out.items(), key=lambda ae: ae[0].key)), expand


def _num_pow(c, e):
    if e.denominator == 1:
        if c == 0 and e < 0:
            return None
        return c ** int(e)
    if c > 0 and e.denominator == 2:
        from math import isqrt
        n, d = c.numerator, c.denominator
        rn, rd = isqrt(n), isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd) ** int(e * 2)
    return None


@lifted
def mul(a, b):
    if a.op == 'num' and b.op == 'num':
        return mk('num', a.args[0] * b.args[0], False)
    pa, pb = to_poly(a), to_poly(b)
    # cancel a multi-term factor against its inverse
    for x, y, X in ((pa, pb, a), (pb, pa, b)):
        if len(x) > 1 and y:
            c, prim = _primitive(X)
            if all(any(at is prim and e < 0 for at, e in m) for m in y):
                out = {}
                pending = []
                for m, k in y.items():
                    d = dict(m)
                    d[prim] = d[prim] + 1
                    cc, mm, ex = _mono_fix(d)
                    out[mm] = out.get(mm, F0) + k * cc
                r = from_poly(out)
                return mul(c, r) if c is not ONE else r
    out = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            cc, mm, ex = _mono_mul(m1, m2)
            if ex:
                t = from_poly({mm: cc * c1 * c2})
                for p, n in ex:
                    for _ in range(n):
                        t = mul(t, p)
                extra.append(t)
            else:
                out[mm] = out.get(mm, F0) + cc * c1 * c2
    r = from_poly(out, _flt(a, b))
    for t in extra:
        r = add(r, t)
    return r


def _primitive(t):
    """Factor a multi-term polynomial as (content term, primitive polynomial).

    The content collects the rational coefficient and the monomial factor
    common to all the terms; the primitive part has a positive unit leading
    coefficient."""
    p = to_poly(t)
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    # common monomial
    common = None
    for m, c in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for a, e in common.items():
                if a in d and (d[a] > 0) == (e > 0):
                    new[a] = min(e, d[a]) if e > 0 else max(e, d[a])
            common = new
    common = {a: e for a, e in (common or {}).items() if a.op != 'exp' and a is not IMAG}
    q = {}
    for m, c in items:
        d = dict(m)
        for a, e in common.items():
            d[a] = d[a] - e
        q[tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].key))] = c
    lead = sorted(q.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    q = {m: c / lead for m, c in q.items()}
    cont = from_poly({tuple(sorted(common.items(), key=lambda ae: ae[0].key)): lead})
    return cont, from_poly(q)


@lifted
def power(a, e):
    if e.op != 'num':
        return mk('pow', a, e)
    return _pow(a, e.args[0])


def _pow(a, e):
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'num':
        r = _num_pow(a.args[0], e)
        if r is not None:
            return mk('num', r, False)
        if a.args[0] == 0:
            return mk('pow', a, num(e))
        return from_poly({((mk('num', a.args[0], False), e),): F1})
    p = to_poly(a)
    if not p:
        return ZERO if e > 0 else mk('pow', ZERO, num(e))
    if len(p) == 1:
        (m, c), = p.items()
        out = {}
        if e.denominator != 1:
            # factors of unknown sign stay together: (-x)^(1/2) is not (-1)^(1/2) x^(1/2)
            odd = [(at, ex) for at, ex in m if ex.denominator == 1 and ex % 2 == 1 and not known_nonneg(at)]
            if odd and (c < 0 or len(odd) > 1):
                prim = from_poly({tuple(sorted(odd, key=lambda ae: ae[0].key)): F1 if c > 0 else -F1})
                rest = from_poly({tuple(ae for ae in m if ae not in odd): abs(c)})
                return mul(_pow(rest, e), from_poly({((prim, e),): F1}))
        for at, ex in m:
            ne = ex * e
            if e.denominator != 1 and ex.denominator == 1 and ex % 2 == 0 and not known_nonneg(at):
                at = absolute(at)
                if at.op == 'poly':
                    out = None
                    break
            out[at] = out.get(at, F0) + ne
        if out is not None:
            cc, mm, ex2 = _mono_fix(out)
            r = from_poly({mm: cc})
            for pp, n in ex2:
                for _ in range(n):
                    r = mul(r, pp)
            if c != 1:
                r = mul(_pow(mk('num', c, False), e), r)
            return r
    if len(p) > 1 and e.denominator == 1 and 0 < e <= 6:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    cont, prim = _primitive(a)
    if e.denominator != 1:
        # only factor out what is certainly nonnegative
        pc = to_poly(cont)
        (m, c), = pc.items()
        keep = {at: ex for at, ex in m if known_nonneg(at)}
        rest = {at: ex for at, ex in m if not known_nonneg(at)}
        cont = from_poly({tuple(sorted(keep.items(), key=lambda ae: ae[0].key)): abs(c)})
        prim = mul(prim, from_poly({tuple(sorted(rest.items(), key=lambda ae: ae[0].key)): F1 if c > 0 else -F1}))
        if prim.op != 'poly':
            return mul(_pow(cont, e), _pow(prim, e))
        return mul(_pow(cont, e), from_poly({((prim, e),): F1}))
    if prim.op != 'poly':
        return mul(_pow(cont, e), _pow(prim, e))
    r = from_poly({((prim, e),): F1})
    if cont is not ONE:
        r = mul(_pow(cont, e), r)
    return r


def div(a, b):
    return mul(a, power(b, num(-1)))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


@lifted
def exp(a):
    if is_num(a) and a.args[0] == 0:
        return ONE
    return mk('exp', a)


@lifted
def conj(a):
    p = to_poly(a)
    if len(p) == 1 and a.op != 'poly' and a is not IMAG:
        return _conj_atom(a)
    r = ZERO
    for m, c in p.items():
        t = num(c)
        for at, e in m:
            t = mul(t, _pow(_conj_atom(at), e))
        r = add(r, t)
    return r


def _conj_atom(a):
    if a is IMAG:
        return neg(IMAG)
    if known_real(a):
        return a
    if a.op == 'conj':
        return a.args[0]
    if a.op == 'exp':
        return exp(conj(a.args[0]))
    if a.op == 'npsum':
        return npsum(conj(a.args[0]), a.args[1])
    if a.op == 'sum':
        doms, body, bvs = open_sum(a)
        return mk_sum(bvs, doms, conj(body))
    if a.op == 'poly':
        return conj(a)
    return mk('conj', a)


@lifted
def real(a):
    if known_real(a):
        return a
    p = to_poly(a)
    r = ZERO
    for m, c in p.items():
        rl, cx = [], []
        for at, e in m:
            (rl if known_real(at) else cx).append((at, e))
        if not cx:
            r = add(r, from_poly({m: c}))
            continue
        x = from_poly({tuple(cx): F1})
        y = _real_mono(x)
        r = add(r, mul(from_poly({tuple(rl): c}), y))
    return r


def _real_mono(x):
    if x is IMAG:
        return ZERO
    if x.op == 'npsum':
        return npsum(real(x.args[0]), x.args[1])
    if x.op == 'sum':
        doms, body, bvs = open_sum(x)
        return mk_sum(bvs, doms, real(body))
    if x.op == 'exp':
        # Re e^{i a} = cos a for real a
        ph = div(x.args[0], IMAG)
        if known_real(ph):
            return cos(ph)
    y = conj(x)
    py = to_poly(y)
    if len(py) == 1:
        (m, c), = py.items()
        if c == -1:
            z = from_poly({m: F1})
            if z.key < x.key:
                return neg(mk('real', z))
            return mk('real', x)
    if y.key < x.key and c_is_one(y):
        return mk('real', y)
    return mk('real', x)


def c_is_one(y):
    p = to_poly(y)
    return len(p) == 1 and list(p.values())[0] == 1


@lifted
def cos(a):
    if is_num(a) and a.args[0] == 0:
        return ONE
    n = neg(a)
    return mk('cos', a if _lead_positive(a) else n)


@lifted
def sin(a):
    if is_num(a) and a.args[0] == 0:
        return ZERO
    if _lead_positive(a):
        return mk('sin', a)
    return neg(mk('sin', neg(a)))


def _lead_positive(a):
    p = to_poly(a)
    if not p:
        return True
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    return items[0][1] > 0


@lifted
def absolute(a):
    if is_num(a):
        return mk('num', abs(a.args[0]), False)
    if known_nonneg(a):
        return a
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if abs(c) != 1 or len(m) > 1 or m[0][1] != 1:
            r = num(abs(c))
            for at, e in m:
                r = mul(r, _pow(absolute(at), e) if not (e.denominator == 1 and e % 2 == 0 and known_real(at)) else _pow(at, e))
            return r
        return mk('abs', m[0][0]) if m[0][0].op != 'abs' else m[0][0]
    return mk('abs', a if _lead_positive(a) else neg(a))


# ---------------------------------------------------------------- comparisons

@lifted
def lt0(p):
    """p < 0"""
    if p.op == 'num':
        return boolean(p.args[0] < 0)
    if p.op == 'poly':
        d = to_poly(p)
        items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
        lead = [c for m, c in items if m != ()][0]
        lead = abs(lead)
        p = from_poly({m: c / lead for m, c in d.items()})
    if known_int(p):
        q = sub(neg(p), ONE)   # p >= 0  <=>  -p-1 < 0
        if q.key < p.key:
            return not_(node(mk('lt0', q), TRUE, FALSE)) if _nonneg_poly(q) is None else (FALSE if _nonneg_poly(q) is False else TRUE)
        if known_nonneg(p):
            return FALSE
    elif known_nonneg(p):
        return FALSE
    if known_nonneg(neg(p)) and False:
        return TRUE
    return node(mk('lt0', p), TRUE, FALSE)


def _nonneg_poly(q):
    return None


def lt(a, b):
    if a.op == 'str' and b.op == 'str':
        return boolean(a.args[0] < b.args[0])
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


@lifted
def eq0(p):
    if p.op == 'num':
        return boolean(p.args[0] == 0)
    if p.op == 'poly':
        d = to_poly(p)
        items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
        lead = [c for m, c in items if m != ()][0]
        p = from_poly({m: c / lead for m, c in d.items()})
    return node(mk('eq0', p), TRUE, FALSE)


NUMERIC = {'num', 'poly', 'len', 'sum', 'npsum', 'abs', 'toint', 'ceildiv', 'floordiv', 'mod', 'bv', 'bnd', 'real'}


NOT_NONE = set()

STRING_METHODS = {'join', 'strip', 'replace', 'split', 'lstrip', 'rstrip', 'lower', 'upper', 'format', 'strftime'}
STRING_CALLS = {'os.path.dirname', 'os.path.basename', 'os.path.join'}


def isnumeric(t):
    return t.op in NUMERIC or t.op == 'sym' and t in KNOWN_REAL and t in KNOWN_SCALAR


@lifted
def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == b.op == 'num':
            return boolean(a.args[0] == b.args[0])
        if {a.op, b.op} <= {'num', 'bool'}:
            return boolean(const(a) == const(b))
        return boolean(a.op == b.op and a.args[0:1] == b.args[0:1])
    if a.op == 'none' or b.op == 'none':
        x = b if a.op == 'none' else a
        if x in NOT_NONE or x.op in NUMERIC or x.op in ('seq', 'comp', 'str', 'strcat', 'range', 'concat', 'objwith', 'upd', 'frame', 'cat', 'tostr', 'strjoin'):
            return FALSE
        if x.op == 'mcall' and x.args[0] in STRING_METHODS or x.op == 'call' and x.args[0] in STRING_CALLS:
            return FALSE
        return node(mk('eq', NONE, x), TRUE, FALSE)
    if isnumeric(a) and b.op in ('str', 'strcat') or isnumeric(b) and a.op in ('str', 'strcat'):
        return FALSE
    if a.op == 'seq' and b.op == 'seq':
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == 'slice' and b.op == 'slice':
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if isnumeric(a) or isnumeric(b):
        return eq0.raw(sub(a, b)) if sub(a, b).op != 'phi' else eq0(sub(a, b))
    if b.key < a.key:
        a, b = b, a
    return node(mk('eq', a, b), TRUE, FALSE)


# ---------------------------------------------------------------- min, max, casts

def mk_minmax(op, items):
    flat = []
    for x in items:
        if x.op == op:
            flat += list(x.args[0])
        else:
            flat.append(x)
    cs = [x for x in flat if is_num(x)]
    rest = sorted({x for x in flat if not is_num(x)}, key=lambda t: t.key)
    if cs:
        v = (min if op == 'min' else max)(c.args[0] for c in cs)
        f = any(c.args[1] for c in cs if c.args[0] == v)
        if not rest:
            return mk('num', v, False)
        if op == 'max' and v <= 0 and all(known_nonneg(x) for x in rest):
            pass
        else:
            rest = rest + [mk('num', v, False)]
    if len(rest) == 1:
        return rest[0]
    return mk(op, tuple(rest))


def minimum(*items):
    return lift(lambda *xs: mk_minmax('min', xs), *items)


def maximum(*items):
    return lift(lambda *xs: mk_minmax('max', xs), *items)


@lifted
def toint(x):
    """Truncation to integer"""
    if x.op == 'num':
        return num(int(x.args[0]))
    if x.op == 'str':
        try:
            return num(int(x.args[0]))
        except ValueError:
            return mk('raise', string('ValueError'))
    if known_int(x):
        return x
    if x.op == 'bool':
        return num(int(x.args[0]))
    return mk('toint', x)


@lifted
def tofloat(x):
    if x.op == 'num':
        return x
    if x.op == 'str':
        try:
            return num(float(x.args[0]))
        except ValueError:
            return mk('raise', string('ValueError'))
    if x.op in NUMERIC:
        return x
    if x.op == 'tofloat':
        return x
    if x.op == 'call' and x.args[0] == 'tofloat':
        return x
    return x if FLOAT_TRANSPARENT(x) else mk('tofloat', x)


def FLOAT_TRANSPARENT(x):
    return x.op not in ('sym',) or not str(x.args[0]).startswith('?')


@lifted
def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if is_num(b) and b.args[0] == 1 and known_int(a):
        return a
    return mk('floordiv', a, b)


@lifted
def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if is_num(b) and b.args[0] == 1 and known_int(a):
        return ZERO
    if known_int(a) and known_int(b):
        q = div(a, b)
        if known_int(q):
            # an exact multiple
            return ZERO
    return mk('mod', a, b)


@lifted
def rint(x):
    if x.op == 'num':
        return num(round(x.args[0]))
    if known_int(x):
        return x
    # rint is odd
    if not _lead_positive(x):
        return neg(mk('rint', neg(x)))
    return mk('rint', x)


# ---------------------------------------------------------------- strings

def strcat(parts):
    return lift(_strcat, *parts)


def _strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            out += list(p.args[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'str':
            if p.args[0] == '':
                continue
            if res and res[-1].op == 'str':
                res[-1] = string(res[-1].args[0] + p.args[0])
                continue
        res.append(p)
    if not res:
        return string('')
    if len(res) == 1 and res[0].op == 'str':
        return res[0]
    if len(res) == 1 and res[0].op in ('tostr', 'strcat'):
        return res[0]
    return mk('strcat', tuple(res))


# ---------------------------------------------------------------- sequences

def seq(items):
    return mk('seq', tuple(items))


def concat(parts):
    out = []
    for p in parts:
        if p.op == 'concat':
            out += list(p.args[0])
        elif p.op == 'empty':
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'seq':
            if not p.args[0]:
                continue
            if res and res[-1].op == 'seq':
                res[-1] = seq(res[-1].args[0] + p.args[0])
                continue
        res.append(p)
    if not res:
        return seq(())
    if len(res) == 1:
        return res[0]
    return mk('concat', tuple(res))


def mk_range(a, b, s=ONE):
    if all(is_num(x) for x in (a, b, s)) and s.args[0] != 0:
        r = range(int(a.args[0]), int(b.args[0]), int(s.args[0]))
        if len(r) <= 12:
            return seq(tuple(num(i) for i in r))
    return lift(lambda x, y, z: mk('range', x, y, z), a, b, s)


FULL = mk('slice', NONE, NONE, NONE)


def mk_slice(a, b, c):
    if is_num(a) and a.args[0] == 0:
        a = NONE
    if is_num(c) and c.args[0] == 1:
        c = NONE
    return mk('slice', a, b, c)


# arrays of known length in the middle of a loop (stores do not change it)
KNOWN_LEN = {}


@lifted
def mk_len(x):
    o = x.op
    if x in KNOWN_LEN:
        return num(KNOWN_LEN[x])
    if o == 'seq':
        return num(len(x.args[0]))
    if o == 'empty':
        return ZERO
    for f in LEN_RULES:
        r = f(x)
        if r is not None:
            return r
    if o == 'str':
        return num(len(x.args[0]))
    if o == 'concat':
        r = ZERO
        for p in x.args[0]:
            r = add(r, mk_len(p))
        return r
    if o == 'range':
        a, b, s = x.args
        n = sub(b, a)
        if s is ONE or (is_num(s) and s.args[0] == 1):
            return n
        return mk('ceildiv', n, s)
    if o == 'comp':
        doms, guard, body, bvs = open_comp(x)
        if guard is TRUE:
            if len(doms) == 1:
                return mk_len(doms[0])
            r = ONE
            return mk_sum(bvs, doms, ONE)
        return mk_sum(bvs, doms, ite(guard, ONE, ZERO))
    if o == 'poly':
        arrs = [a for m, c in x.args[0] for a, e in m if not known_scalar(a)]
        lens = {mk_len(a) for a in arrs if a.op in ('comp', 'seq', 'index', 'get')}
        if len(lens) == 1:
            return lens.pop()
    if o in ('exp', 'conj', 'real', 'abs', 'toint', 'rint', 'sin', 'cos', 'fold1'):
        return mk_len(x.args[0])
    if o in ('sorted', 'reversed', 'list'):
        return mk_len(x.args[0])
    if o == 'sample':
        return x.args[2]
    if o == 'zeros' or o == 'newarr':
        sh = x.args[0]
        if sh.op == 'seq':
            return sh.args[0][0]
        return sh
    if o == 'upd':
        if all(g.args[4] in ('set', 'add') for g in x.args[1]) and x.args[0].op in ('comp', 'seq', 'zeros', 'newarr', 'concat'):
            return mk_len(x.args[0])
    if o == 'index':
        base, idx = x.args
        if idx.op == 'slice':
            a, b, c = idx.args
            if c is NONE:
                n = mk_len(base)
                if a is NONE and b is NONE:
                    return n
                lo = ZERO if a is NONE else (add(n, a) if is_num(a) and a.args[0] < 0 else a)
                if b is NONE:
                    hi = n
                elif is_num(b) and b.args[0] < 0:
                    hi = add(n, b)
                else:
                    hi = minimum(b, n)
                return sub(hi, lo)
        if idx.op == 'tuple' and idx.args[0] and idx.args[0][0].op == 'slice':
            return mk_len(mk_index(base, idx.args[0][0]))
    if o == 'call' and x.args[0] in LEN_MODELS:
        r = LEN_MODELS[x.args[0]](x)
        if r is not None:
            return r
    return mk('len', x)


LEN_MODELS = {}
INDEX_MODELS = {}
ATTR_MODELS = []


@lifted
def mk_index(x, i):
    o = x.op
    if i.op == 'seq':
        i = mk('tuple', i.args[0])
    if i.op == 'tuple':
        items = list(i.args[0])
        while items and items[-1] is FULL:
            items.pop()
        if items and items[-1] is ELL:
            items.pop()
        if not items:
            return x
        i = mk('tuple', tuple(items)) if len(items) > 1 or items[0] is ELL else items[0]
        if i.op == 'tuple':
            # leading plain indices are applied one after the other
            k = 0
            while k < len(items) and items[k].op not in ('slice', 'ellipsis', 'none', 'mask'):
                k += 1
            if 0 < k:
                r = x
                for j in range(k):
                    r = mk_index(r, items[j])
                rest = items[k:]
                if rest:
                    return mk_index(r, mk('tuple', tuple(rest)))
                return r
    if i is FULL or i is ELL:
        return x
    if o in INDEX_MODELS:
        r = INDEX_MODELS[o](x, i)
        if r is not None:
            return r
    if o == 'call' and x.args[0] in INDEX_MODELS:
        r = INDEX_MODELS[x.args[0]](x, i)
        if r is not None:
            return r
    if i.op not in ('slice', 'tuple', 'ellipsis'):
        if o == 'seq' and is_num(i):
            n = int(i.args[0])
            if -len(x.args[0]) <= n < len(x.args[0]):
                return x.args[0][n]
        if o == 'str' and is_num(i):
            try:
                return string(x.args[0][int(i.args[0])])
            except IndexError:
                pass
        if o == 'range':
            a, b, s = x.args
            if is_num(i) and i.args[0] < 0:
                i = add(i, mk_len(x))
            return add(a, mul(s, i))
        if o == 'comp':
            doms, guard, body, bvs = open_comp(x)
            if len(doms) == 1 and guard is TRUE and doms[0].op == 'range':
                if is_num(i) and i.args[0] < 0:
                    i = add(i, mk_len(doms[0]))
                if known_index(i):
                    return subst(body, {bvs[0]: mk_index(doms[0], i)})
        if o == 'concat' and is_num(i):
            n = int(i.args[0])
            if n >= 0:
                for p in x.args[0]:
                    if p.op == 'seq':
                        if n < len(p.args[0]):
                            return p.args[0][n]
                        n -= len(p.args[0])
                    else:
                        break
            else:
                for p in reversed(x.args[0]):
                    if p.op == 'seq':
                        if -n <= len(p.args[0]):
                            return p.args[0][n]
                        n += len(p.args[0])
                    else:
                        break
        if o == 'upd':
            return mk_get(x, (i,))
        if o == 'get':
            return mk_get(x.args[0], x.args[1] + (i,))
        if o == 'index' and x.args[1].op == 'slice':
            a, b, c = x.args[1].args
            if c is NONE and not (is_num(i) and i.args[0] < 0) and known_index(i):
                if a is NONE:
                    return mk_index(x.args[0], i)
                if not (is_num(a) and a.args[0] < 0):
                    return mk_index(x.args[0], add(a, i))
        if o == 'poly' and all(known_scalar(a) or a.op in ARRAYLIKE for m, c in x.args[0] for a, e in m) and known_index(i):
            r = ZERO
            for m, c in x.args[0]:
                t = num(c)
                for a, e in m:
                    t = mul(t, _pow(a if known_scalar(a) else mk_index(a, i), e))
                r = add(r, t)
            return r
        if o == 'zeros' :
            sh = x.args[0]
            if sh.op == 'seq' and len(sh.args[0]) > 1:
                return mk('zeros', seq(sh.args[0][1:]) if len(sh.args[0]) > 2 else sh.args[0][1])
            return ZERO
    if i.op == 'slice' and o == 'seq':
        try:
            a, b, c = [None if t is NONE else int(t.args[0]) for t in i.args if t is NONE or t.op == 'num']
            return seq(x.args[0][a:b:c])
        except ValueError:
            pass
    if i.op == 'slice' and o == 'str':
        try:
            a, b, c = [None if t is NONE else int(t.args[0]) for t in i.args if t is NONE or t.op == 'num']
            return string(x.args[0][a:b:c])
        except ValueError:
            pass
    if i.op == 'slice' and o == 'range' and i.args[0] is NONE and i.args[2] is NONE and False:
        pass
    return mk('index', x, i)


ARRAYLIKE = {'index', 'comp', 'seq', 'get', 'attr'}


def known_index(i):
    return i.op not in ('slice', 'tuple', 'ellipsis', 'seq', 'comp', 'mask') and not (
        i.op == 'index' and False)


@lifted
def mk_attr(x, name):
    for m in ATTR_MODELS:
        r = m(x, name)
        if r is not None:
            return r
    if x.op == 'objwith':
        for n, v in x.args[1]:
            if n == name:
                return v
        return mk_attr(x.args[0], name)
    if x.op == 'get':
        return mk_get(x.args[0], x.args[1] + (mk('attrkey', name),))
    if x.op == 'upd' and all(g.args[3][0].op == 'attrkey' for g in x.args[1]):
        return mk_get(x, (mk('attrkey', name),))
    if name == 'real':
        return real(x)
    if name == 'shape':
        return mk('shape', x)
    if name == 'T':
        return call('numpy.transpose', x)
    return mk('attr', x, name)


def npsum(x, axis=NONE):
    return lift(_npsum, x, axis)


def _npsum(x, axis):
    """numpy.sum"""
    if axis is NONE:
        if known_scalar(x):
            return x
        if x.op == 'seq':
            r = ZERO
            for it in x.args[0]:
                r = add(r, npsum(it, NONE))
            return r
        if x.op == 'comp':
            doms, guard, body, bvs = open_comp(x)
            if body.op == 'phi' and all(y.op == 'bool' for y in leaves(body)):
                body = ite(body, ONE, ZERO)
            inner = npsum(body, NONE)
            return mk_sum(bvs, doms, ite(guard, inner, ZERO))
        if x.op == 'range':
            pass
        if x.op == 'concat':
            r = ZERO
            for it in x.args[0]:
                r = add(r, npsum(it, NONE))
            return r
        if x.op == 'sum':
            doms, body, bvs = open_sum(x)
            return mk_sum(bvs, doms, npsum(body, NONE))
        if x.op == 'npsum':
            return npsum(x.args[0], NONE)
        if x.op == 'index' and x.args[1].op == 'slice' and False:
            pass
    p = to_poly(x)
    # linear over scalar coefficients; additive terms stay together
    if len(p) == 1:
        (m, c), = p.items()
        sc = tuple((a, e) for a, e in m if known_scalar(a))
        ar = tuple((a, e) for a, e in m if not known_scalar(a))
        if (sc or c != 1) and ar:
            return mul(from_poly({sc: c}), npsum(from_poly({ar: F1}), axis))
        if not ar:
            return x
    elif len(p) > 1:
        # pull out the common scalar factor
        cont, prim = _primitive(x)
        pc = to_poly(cont)
        (m, c), = pc.items()
        sc = tuple((a, e) for a, e in m if known_scalar(a))
        ar = tuple((a, e) for a, e in m if not known_scalar(a))
        if sc or c != 1:
            inner = mul(from_poly({ar: F1}), prim)
            if inner is not x:
                return mul(from_poly({sc: c}), npsum(inner, axis))
    return mk('npsum', x, axis)


def call(name, *args):
    return lift(lambda *a: _call(name, a), *args)


CALL_MODELS = {}


def _call(name, a):
    m = CALL_MODELS.get(name)
    if m is not None:
        r = m(*a)
        if r is not None:
            return r
    return mk('call', name, tuple(a))


# ---------------------------------------------------------------- substitution and binding

def subst(t, m):
    """Replace binder variables (bv terms) by terms."""
    ids = frozenset(v.args[0] for v in m if v.op == 'bv')
    general = any(v.op != 'bv' for v in m)
    memo = dict(m)

    def rec(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if not general and not (x.bvs & ids):
            return x
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)


def replace(t, m):
    """Replace arbitrary subterms (m: Term -> Term), rebuilding with the normalising constructors."""
    memo = dict(m)

    def rec(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)


def transform(t, fn):
    """Bottom-up rewriting: fn(term) -> term or None, applied after rebuilding the arguments."""
    memo = {}

    def rec(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, rec)
            y = fn(r)
            if y is not None:
                r = y
            memo[x] = r
        return r
    return rec(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
    return seen


def rebuild(x, rec):
    op = x.op
    a = x.args
    if op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'bnd', 'empty', 'ellipsis', 'opaque'):
        return x
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            t = num(c)
            for at, e in m:
                t = mul(t, power(rec(at), num(e)))
            r = add(r, t)
        return r
    if op == 'phi':
        return ite(rec_cond(a[0], rec), rec(a[1]), rec(a[2]))
    if op == 'comp':
        doms, guard, body, bvs = open_comp(x)
        return mk_comp(bvs, tuple(rec(d) for d in doms), rec(guard), rec(body))
    if op == 'sum':
        doms, body, bvs = open_sum(x)
        return mk_sum(bvs, tuple(rec(d) for d in doms), rec(body))
    if op == 'upd1':
        doms, guard, path, kind, val, bvs = open_upd1(x)
        return mk_upd1(bvs, tuple(rec(d) for d in doms), rec(guard), tuple(rec(p) for p in path), kind, rec(val))
    if op == 'upd':
        return mk_upd(rec(a[0]), tuple(rec(g) for g in a[1]))
    if op in ('exists', 'first'):
        bvs, doms, body = open_binder(x)
        doms = tuple(rec(d) for d in doms)
        if op == 'exists':
            return mk_exists(bvs, doms, rec(body[0]))
        return mk_first(bvs, doms, rec(body[0]))
    if op in PLAIN_BINDERS:
        bvs, doms, body = open_binder(x)
        return close(op, bvs, tuple(rec(d) for d in doms), tuple(rec(b) for b in body))
    args = tuple(rec(y) for y in a)
    return construct(op, args)


def rec_cond(atom, rec):
    r = rec(atom)
    return as_cond(r)


CONSTRUCT = {}


def construct(op, args):
    f = CONSTRUCT.get(op)
    if f is not None:
        return f(*args)
    return lift(lambda *x: mk(op, *x), *args) if any(isinstance(y, Term) and y.op == 'phi' for y in args) and op in LIFTABLE else mk(op, *args)


LIFTABLE = {'len', 'attr', 'index', 'get', 'tostr', 'frame', 'dump', 'shape', 'sorted', 'objwith', 'mcall', 'keys', 'tofloat',
            'hasattr', 'in', 'ceildiv'}

CONSTRUCT.update({
    'exp': lambda a: exp(a), 'conj': lambda a: conj(a), 'real': lambda a: real(a), 'cos': lambda a: cos(a),
    'sin': lambda a: sin(a), 'abs': lambda a: absolute(a), 'lt0': lambda a: lt0(a), 'eq0': lambda a: eq0(a),
    'eq': lambda a, b: eq(a, b), 'min': lambda xs: minimum(*xs), 'max': lambda xs: maximum(*xs),
    'toint': lambda a: toint(a), 'tofloat': lambda a: tofloat(a), 'floordiv': lambda a, b: floordiv(a, b),
    'mod': lambda a, b: mod(a, b), 'rint': lambda a: rint(a), 'strcat': lambda ps: strcat(list(ps)),
    'seq': lambda xs: seq(xs), 'concat': lambda xs: concat(list(xs)), 'range': lambda a, b, c: mk_range(a, b, c),
    'len': lambda a: mk_len(a), 'index': lambda a, b: mk_index(a, b), 'attr': lambda a, n: mk_attr(a, n),
    'npsum': lambda a, b: npsum(a, b), 'call': lambda n, a: call(n, *a), 'get': lambda r, p: mk_get(r, p),
    'pow': lambda a, b: power(a, b), 'truthy': lambda a: as_cond(a),
    'slice': lambda a, b, c: mk_slice(a, b, c),
})


def close(op, bvs, doms, body):
    """Close a binding construct: bvs are bv terms; doms[i] may mention bvs[:i]."""
    h = 1
    for t in doms + tuple(body):
        h = max(h, 1 + _hb(t))
    m = {}
    hs = []
    for k, v in enumerate(bvs):
        m[v] = mk('bnd', h + k, v.args[1])
        hs.append(h + k)
    doms = rename(doms, m)
    body = rename(tuple(body), m)
    return mk(op, tuple(hs), doms, *body)


def rename(x, m):
    """Replace variables (free or bound) by variables: no simplification can follow, except for the
    order of the operands, so that inner binders need not be opened."""
    ids = frozenset(v.args[0] for v in m if v.op == 'bv')
    fbs = frozenset(v for v in m if v.op == 'bnd')
    if not m:
        return x
    memo = dict(m)

    def rec(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple([rec(y) for y in x])
            return x
        if not (x.bvs & ids) and not (x.fb & fbs):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == 'poly':
            d = {}
            for mono, c in x.args[0]:
                new = []
                for at, e in mono:
                    y = rec(at)
                    if y.op in ('poly', 'num', 'phi'):
                        new = None
                        break
                    new.append((y, e))
                if new is None:
                    d = None
                    break
                new.sort(key=lambda ae: ae[0].key)
                new = tuple(new)
                d[new] = d.get(new, F0) + c
            r = from_poly(d) if d is not None else rebuild(x, rec)
        elif op in BINDERS and (op != 'sum' or len(x.args[0]) == 1):
            r = mk(op, x.args[0], *[rec(a) for a in x.args[1:]])
        else:
            r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(x)


def _hb(t):
    if isinstance(t, Term):
        return t.hb
    if isinstance(t, tuple):
        return max([0] + [_hb(x) for x in t])
    return 0


def _subst_any(b, m):
    if isinstance(b, Term):
        return subst(b, m)
    if isinstance(b, tuple):
        return tuple(_subst_any(x, m) for x in b)
    return b


def _open(hs, parts):
    """Replace the bound variables of heights hs by fresh ones in the given parts."""
    occ = {}
    for b in _free_bnd(parts):
        occ[b.args[0]] = b
    bvs, m = [], {}
    for h in hs:
        v = fresh(occ[h].args[1] if h in occ else 'i')
        bvs.append(v)
        if h in occ:
            m[occ[h]] = v
    return tuple(bvs), rename(tuple(parts), m)


def _free_bnd(x):
    if isinstance(x, Term):
        return x.fb
    r = frozenset()
    if isinstance(x, tuple):
        for y in x:
            r = r | _free_bnd(y)
    return r


def open_binder(x):
    hs, doms = x.args[0], x.args[1]
    bvs, out = _open(hs, (doms,) + x.args[2:])
    return bvs, out[0], out[1:]


def open_comp(x):
    bvs, doms, body = open_binder(x)
    return doms, body[0], body[1], bvs


def open_sum(x):
    bvs, doms, body = open_binder(x)
    return doms, body[0], bvs


def open_upd1(x):
    bvs, doms, body = open_binder(x)
    guard, path, kind, val = body
    return doms, guard, path, kind, val, bvs


def norm_dom(bvs, doms, parts):
    """Normalise the domains of a list of binders.

    Every domain becomes range(0, n, step); iteration over a sequence is
    turned into iteration over its indices.  Returns (bvs, doms, parts).
    """
    bvs, doms = list(bvs), list(doms)
    k = 0
    while k < len(bvs):
        d, v = doms[k], bvs[k]
        if d.op == 'range':
            a, b, s = d.args
            if not (is_num(a) and a.args[0] == 0 and s is ONE):
                w = fresh('i')
                new = add(mul(w, s), a)
                m = {v: new}
                doms[k] = mk('range', ZERO, mk_len(d) if s is not ONE else sub(b, a), ONE)
                bvs[k] = w
                doms[k + 1:] = [subst(x, m) for x in doms[k + 1:]]
                parts = _subst_any(parts, m)
        elif d.op == 'idx':
            # indices of a sequence
            n = mk_len(d.args[0])
            doms[k] = mk('range', ZERO, n, ONE)
        k += 1
    return tuple(bvs), tuple(doms), parts


def mk_comp(bvs, doms, guard, body):
    if guard is FALSE:
        return seq(())
    bvs, doms, (guard, body) = norm_dom(bvs, doms, (guard, body))
    for k, d in enumerate(doms):
        if d.op == 'seq':
            # unroll a constant domain
            parts = []
            for it in d.args[0]:
                m = {bvs[k]: it}
                nd = doms[:k] + tuple(subst(x, m) for x in doms[k + 1:])
                nb = bvs[:k] + bvs[k + 1:]
                if k == 0 or not nb[:k]:
                    if nb:
                        parts.append(mk_comp(nb, nd, subst(guard, m), subst(body, m)))
                    else:
                        g = subst(guard, m)
                        x = seq((subst(body, m),))
                        if g is TRUE:
                            parts.append(x)
                        elif g is not FALSE:
                            parts.append(ite(g, x, seq(())))
                else:
                    parts = None
                    break
            if parts is not None:
                if any(p.op == 'phi' for p in parts):
                    return lift(lambda *ps: concat(list(ps)), *parts)
                return concat(parts)
    if any(d.op == 'phi' for d in doms) and len(doms) == 1:
        return lift(lambda d: mk_comp(bvs, (d,), guard, body), doms[0])
    # [x[j] for j in range(len(x))] is x
    if len(bvs) == 1 and guard is TRUE and body.op == 'index' and body.args[1] is bvs[0] \
       and bvs[0].args[0] not in body.args[0].bvs and mk_len(body.args[0]) is mk_len(doms[0]) \
       and (doms[0].op == 'range' and is_num(doms[0].args[2]) and doms[0].args[2].args[0] == 1):
        return body.args[0]
    for f in COMP_RULES:
        r = f(bvs, doms, guard, body)
        if r is not None:
            return r
    return close('comp', bvs, doms, (guard, body))


def mk_sum(bvs, doms, body):
    """Sum over a set of binders; canonical in their order."""
    if body is ZERO or (is_num(body) and body.args[0] == 0):
        return ZERO
    bvs, doms, (body,) = norm_dom(bvs, doms, (body,))
    for k, d in enumerate(doms):
        if d.op == 'seq':
            r = ZERO
            for it in d.args[0]:
                m = {bvs[k]: it}
                nd = doms[:k] + tuple(subst(x, m) for x in doms[k + 1:])
                nb = bvs[:k] + bvs[k + 1:]
                b = subst(body, m)
                r = add(r, mk_sum(nb, nd, b) if nb else b)
            return r
    if not bvs:
        return body
    # merge nested sums that are the whole body
    # split additive terms
    if body.op == 'phi':
        # keep guards as phi(c, x, 0); guards that do not depend on the binders move outside
        ids = frozenset(v.args[0] for v in bvs)
        free = [a for a in atoms_of(body) if not (a.bvs & ids)]
        if free:
            top = free[0]
            return ite(node(top, TRUE, FALSE), mk_sum(bvs, doms, restrict(body, top, True)),
                       mk_sum(bvs, doms, restrict(body, top, False)))
        return _sum1(bvs, doms, body)
    p = to_poly(body)
    ids = frozenset(v.args[0] for v in bvs)
    r = ZERO
    for m, c in p.items():
        inv = tuple((a, e) for a, e in m if not (a.bvs & ids))
        dep = tuple((a, e) for a, e in m if a.bvs & ids)
        r = add(r, mul(from_poly({inv: c}), _sum1(bvs, doms, from_poly({dep: F1}))))
    return r


def restrict(t, atom, val):
    """Cofactor with respect to an atom anywhere in the decision diagram."""
    if t.op != 'phi':
        return t
    if t.args[0] is atom:
        return restrict(t.args[1] if val else t.args[2], atom, val)
    return node_sorted(t.args[0], restrict(t.args[1], atom, val), restrict(t.args[2], atom, val))


def node_sorted(atom, hi, lo):
    return _ite(mk('phi', atom, TRUE, FALSE), hi, lo, {})


def _sum1(bvs, doms, body):
    bvs, doms = list(bvs), list(doms)
    if body.op == 'sum':
        d2, b2, v2 = open_sum(body)
        return mk_sum(tuple(bvs) + tuple(v2), tuple(doms) + tuple(d2), b2)
    # drop binders the body and the other domains do not depend on
    k = len(bvs) - 1
    factor = ONE
    while k >= 0:
        v = bvs[k]
        used = v.args[0] in body.bvs or v.args[0] in factor.bvs or any(v.args[0] in d.bvs for d in doms)
        if not used:
            factor = mul(factor, mk_len(doms[k]))
            del bvs[k], doms[k]
        k -= 1
    if not bvs:
        return mul(factor, body)
    for f in SUM_RULES:
        r = f(tuple(bvs), tuple(doms), body)
        if r is not None:
            return mul(factor, r)
    # factor may depend on remaining binders: then it must stay inside
    ids = frozenset(v.args[0] for v in bvs)
    if factor.bvs & ids:
        return mk_sum(tuple(bvs), tuple(doms), mul(factor, body))
    return mul(factor, _close_sum(bvs, doms, body))


SUM_RULES = []


def _close_sum(bvs, doms, body):
    """Close a sum choosing a canonical order of the binders."""
    n = len(bvs)
    if n == 1:
        return close('sum', tuple(bvs), tuple(doms), (body,))
    import itertools
    best = None
    ids = {v.args[0]: k for k, v in enumerate(bvs)}
    deps = [set(ids[b] for b in d.bvs if b in ids) for d in doms]
    # signature: domain with the binders anonymised
    anon = {v: mk('bnd', 0, 'i') for v in bvs}
    sigs = [subst(d, anon).key for d in doms]
    orders = []

    def rec(done, rest):
        if not rest:
            orders.append(tuple(done))
            return
        ready = [k for k in rest if deps[k] <= set(done)]
        m = min(sigs[k] for k in ready)
        for k in ready:
            if sigs[k] == m:
                rec(done + [k], [r for r in rest if r != k])
    rec([], list(range(n)))
    for o in orders[:24]:
        t = close('sum', tuple(bvs[k] for k in o), tuple(doms[k] for k in o), (body,))
        if best is None or t.key < best.key:
            best = t
    return best


def mk_exists(bvs, doms, cond):
    if cond is FALSE:
        return FALSE
    bvs, doms, (cond,) = norm_dom(bvs, doms, (cond,))
    if len(bvs) == 1 and doms[0].op == 'seq':
        return or_(*[subst(cond, {bvs[0]: it}) for it in doms[0].args[0]])
    return node(close('exists', bvs, doms, (cond,)), TRUE, FALSE)


def mk_first(bvs, doms, cond):
    """Value of the binder (single) at the first element of the domain where cond holds"""
    w, doms2, (cond2,) = norm_dom(bvs, doms, (cond,))
    t = close('first', w, doms2, (cond2,))
    # norm_dom may have shifted the binder
    d = doms[0]
    if d.op == 'range':
        return add(mul(t, d.args[2]), d.args[0])
    return t


# ---------------------------------------------------------------- records of keyed updates

def mk_upd1(bvs, doms, guard, path, kind, val):
    bvs, doms, (guard, path, val) = norm_dom(bvs, doms, (guard, path, val))
    return close('upd1', bvs, doms, (guard, path, kind, val))


def mk_upd(base, groups):
    """A container `base` modified by groups of keyed updates, in order."""
    groups = [g for g in groups if g.args[2] is not FALSE]
    if base.op == 'upd':
        return mk_upd(base.args[0], base.args[1] + tuple(groups))
    if not groups:
        return base
    # constant-index stores on a short sequence
    if base in KNOWN_LEN and all(g.args[0] == () and g.args[2] is TRUE and len(g.args[3]) >= 1 and is_num(g.args[3][0]) for g in groups) and \
       {int(g.args[3][0].args[0]) for g in groups if g.args[4] == 'set' and len(g.args[3]) == 1} == set(range(KNOWN_LEN[base])):
        base = seq([opaque('overwritten')] * KNOWN_LEN[base])
    if base.op in ('zeros', 'newarr') and is_num(base.args[0]) and 0 < base.args[0].args[0] <= 8 and \
       all(g.args[0] == () and g.args[2] is TRUE and len(g.args[3]) >= 1 and is_num(g.args[3][0]) for g in groups):
        n = int(base.args[0].args[0])
        if base.op == 'zeros':
            base = seq([ZERO] * n)
        elif {int(g.args[3][0].args[0]) for g in groups if g.args[4] == 'set' and len(g.args[3]) == 1} == set(range(n)):
            base = seq([opaque('uninitialised')] * n)
    out = []
    for g in groups:
        if g.args[0] == () and g.args[2] is TRUE and len(g.args[3]) >= 1 and not out and base.op == 'seq' and is_num(g.args[3][0]):
            k = int(g.args[3][0].args[0])
            items = list(base.args[0])
            if -len(items) <= k < len(items):
                path, kind, val = g.args[3], g.args[4], g.args[5]
                if len(path) == 1:
                    if kind == 'set':
                        items[k] = val
                    elif kind == 'add':
                        items[k] = add(items[k], val)
                    else:
                        out.append(g)
                        continue
                    base = seq(items)
                    continue
                items[k] = mk_upd(items[k], (mk('upd1', (), (), TRUE, path[1:], kind, val),))
                base = seq(items)
                continue
        out.append(g)
    if not out:
        return base
    kinds = {g.args[4] for g in out}
    if kinds == {'add'}:
        out = _merge_adds(out)
    return mk('upd', base, tuple(out))


def _merge_adds(groups):
    """Additions commute: sort them, and merge the ones with the same domains and path."""
    acc = {}
    for g in groups:
        k = g.args[:5]
        acc.setdefault(k, []).append(g)
    out = []
    for k, gs in acc.items():
        if len(gs) == 1:
            out.append(gs[0])
        else:
            v = ZERO
            for g in gs:
                v = add(v, g.args[5])
            out.append(mk('upd1', *(k + (v,))))
    return sorted(out, key=lambda t: t.key)


def match(pat, t, pvars, m):
    """First-order matching of pat (over the bv terms pvars) against t. Extends m or returns None."""
    if pat in pvars:
        if pat in m:
            return m if m[pat] is t else None
        m = dict(m)
        m[pat] = t
        return m
    if pat is t:
        return m
    ids = frozenset(v.args[0] for v in pvars)
    if not (pat.bvs & ids):
        return None
    if pat.op == 'poly':
        # linear in exactly one unsolved pattern variable with unit coefficient
        rest = subst(pat, m) if m else pat
        if not (rest.bvs & ids):
            return m if rest is t else None
        d = to_poly(rest)
        lin = [(mm, c) for mm, c in d.items() if any(a in pvars for a, e in mm)]
        if len(lin) == 1 and lin[0][1] in (1, -1) and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
            v = lin[0][0][0][0]
            c = lin[0][1]
            others = from_poly({mm: cc for mm, cc in d.items() if mm != lin[0][0]})
            if not (others.bvs & ids):
                val = sub(t, others)
                if c == -1:
                    val = neg(val)
                m = dict(m)
                m[v] = val
                return m
        return None
    if t.op != pat.op or len(t.args) != len(pat.args):
        return None
    for a, b in zip(pat.args, t.args):
        m = _match_any(a, b, pvars, m)
        if m is None:
            return None
    return m


def _match_any(a, b, pvars, m):
    if isinstance(a, Term):
        if not isinstance(b, Term):
            return None
        return match(a, b, pvars, m)
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return None
        for x, y in zip(a, b):
            m = _match_any(x, y, pvars, m)
            if m is None:
                return None
        return m
    return m if a == b else None


def _distinct(p, q):
    """Paths that certainly differ (constant keys)."""
    for a, b in zip(p, q):
        if a.op == 'attrkey' or b.op == 'attrkey':
            if a is not b:
                return True
            continue
        if is_const(a) and is_const(b) and eq(a, b) is FALSE:
            return True
        if a is not b and a.op == 'seq' and b.op == 'seq' and len(a.args[0]) == len(b.args[0]) and \
           any(x.op == 'str' and y.op == 'str' and x is not y for x, y in zip(a.args[0], b.args[0])):
            # names of species
            return True
        if known_int(a) and known_int(b):
            d = sub(a, b)
            if is_num(d) and d.args[0] != 0:
                return True
    return False


def mk_get(rec, path):
    return lift(lambda r: _get(r, path), rec)


def step(x, p):
    if p.op == 'attrkey':
        return mk_attr(x, p.args[0])
    return mk_index(x, p)


def _get(rec, path):
    if not path:
        return rec
    if rec.op != 'upd':
        r = rec
        for p in path:
            r = step(r, p)
        return r
    base, groups = rec.args
    kinds = {g.args[4] for g in groups}
    if is_num(path[0]) and path[0].args[0] < 0:
        n = mk_len(base)
        if n.op != 'len' or True:
            path = (add(path[0], n),) + tuple(path[1:])
    # walk backwards
    acc = None
    for k in range(len(groups) - 1, -1, -1):
        g = groups[k]
        doms, guard, gpath, kind, val, bvs = open_upd1(g)
        if len(gpath) <= len(path):
            m = {}
            for a, b in zip(gpath, path):
                m = match(a, b, bvs, m)
                if m is None:
                    break
            if m is None:
                if _distinct(gpath, path):
                    continue
                if kind == 'add' and len(gpath) == len(path) == 1 and base.op == 'dict0' and is_num(base.args[0]):
                    # every contribution whose key coincides with the requested one
                    cc = ite(and_(guard, eq(gpath[0], path[0])), val, ZERO)
                    c = mk_sum(tuple(bvs), tuple(doms), cc) if bvs else cc
                    acc = c if acc is None else add(acc, c)
                    continue
                break
            if kind == 'set' and len(m) == len(bvs):
                # The key determines the iteration: substitute
                if guard is TRUE:
                    v = subst(val, m) if m else val
                    r = v
                    for p in path[len(gpath):]:
                        r = step(r, p)
                    if acc is not None:
                        r = add(acc, r)
                    return r
                gd = subst(guard, m) if m else guard
                v = subst(val, m) if m else val
                for p in path[len(gpath):]:
                    v = step(v, p)
                low = mk_get(mk_upd(base, groups[:k]), path)
                r = ite(gd, v, low)
                if acc is not None:
                    r = add(acc, r)
                return r
            if kind == 'add' and len(gpath) == len(path):
                # contributions: binders fixed by the key are substituted, the others are summed over
                free = [v for v in bvs if v not in m]
                fixed = [v for v in bvs if v in m]
                if free and not fixed:
                    # the key is constant
                    if all(not (p.bvs) or True for p in gpath) and all(a is b for a, b in zip(gpath, path)):
                        c = mk_sum(tuple(free), tuple(doms[bvs.index(v)] for v in free), ite(guard, val, ZERO))
                        acc = c if acc is None else add(acc, c)
                        continue
                    break
                gd, vv = subst(guard, m), subst(val, m)
                fd = [subst(doms[bvs.index(v)], m) for v in free]
                c = ite(gd, vv, ZERO)
                if free:
                    c = mk_sum(tuple(free), tuple(fd), c)
                acc = c if acc is None else add(acc, c)
                continue
            break
        else:
            # update below the requested path
            m = {}
            for a, b in zip(gpath, path):
                m = match(a, b, bvs, m)
                if m is None:
                    break
            if m is None and _distinct(gpath, path):
                continue
            if m is not None:
                # all the groups must be of this kind to be narrowed
                sub_groups = []
                ok = True
                for g2 in groups[:k + 1]:
                    d2, gu2, p2, k2, v2, b2 = open_upd1(g2)
                    if len(p2) <= len(path):
                        ok = False
                        break
                    m2 = {}
                    for a, b in zip(p2, path):
                        m2 = match(a, b, b2, m2)
                        if m2 is None:
                            break
                    if m2 is None:
                        if _distinct(p2, path):
                            continue
                        ok = False
                        break
                    free = [v for v in b2 if v not in m2]
                    fd = [subst(d2[b2.index(v)], m2) for v in free]
                    sub_groups.append(mk_upd1(tuple(free), tuple(fd), subst(gu2, m2),
                                              tuple(subst(p, m2) for p in p2[len(path):]), k2, subst(v2, m2)))
                if ok and acc is None:
                    b = base
                    for p in path:
                        b = step(b, p)
                    return mk_upd(b, tuple(sub_groups))
            break
    else:
        r = base
        if base.op == 'dict0':
            r = base.args[0] if base.args[0] is not NONE else None
        if r is None:
            if acc is not None:
                return acc
        elif base.op == 'dict0':
            return r if acc is None else add(r, acc)
        else:
            for p in path:
                r = step(r, p)
            if acc is None:
                return r
            return add(r, acc)
    return mk('get', rec, tuple(path))


CONSTRUCT['upd'] = lambda b, gs: mk_upd(b, gs)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.args
    if o == 'num':
        f = a[0]
        return str(f) if f.denominator == 1 else '%s/%s' % (f.numerator, f.denominator)
    if o in ('sym',):
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o in ('bool',):
        return str(a[0])
    if o == 'none':
        return 'None'
    if o == 'bv':
        return '%s%d' % (a[1], a[0])
    if o == 'bnd':
        return '%s_%d' % (a[1], a[0])
    if o == 'poly':
        out = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for at, e in m:
                s = show(at, depth + 1)
                if at.op == 'poly':
                    s = '(' + s + ')'
                f.append(s if e == 1 else '%s^%s' % (s, e if e.denominator == 1 and e > 0 else '(%s)' % e))
            out.append('*'.join(f))
        return ' + '.join(out)
    if o == 'phi':
        return 'phi(%s ? %s : %s)' % tuple(show(x, depth + 1) for x in a)
    if o == 'index':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if o == 'tuple':
        return ', '.join(show(x) for x in a[0])
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x) for x in a[:2]) + ('' if a[2] is NONE else ':' + show(a[2]))
    if o == 'ellipsis':
        return '...'
    if o == 'attr':
        return '%s.%s' % (show(a[0]), a[1])
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1]))
    if o == 'seq':
        return '[' + ', '.join(show(x) for x in a[0]) + ']'
    if o == 'comp':
        return '[%s for %s%s]' % (show(a[3]), _binders(t), '' if a[2] is TRUE else ' if ' + show(a[2]))
    if o == 'sum':
        return 'SUM{%s}(%s)' % (_binders(t), show(a[2]))
    if o == 'upd1':
        return '{%s%s: %s %s %s}' % (_binders(t), '' if a[2] is TRUE else ' if ' + show(a[2]),
                                     '.'.join('[' + show(p) + ']' for p in a[3]), a[4], show(a[5]))
    if o == 'upd':
        return 'UPD(%s; %s)' % (show(a[0]), '; '.join(show(g) for g in a[1]))
    if o == 'opaque':
        return '<?%s>' % a[1]
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) for x in a))


def _binders(t):
    return ', '.join('_%d in %s' % (h, show(d)) for h, d in zip(t.args[0], t.args[1]))


def short(t, n=400):
    s = show(t)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]
