"""Obligations: pairs of functions whose value graphs must coincide.

A specification module holds, for every obligation `x`, a driver `impl_x` that
goes through the public interface of the package and a reference `spec_x`
written from the property. Neither is ever executed: both are interpreted
over the same abstract arguments, and the normal forms of the results, of the
effects and of the exceptional conditions are compared.
"""

import ast
import os
import time
import traceback

from . import terms as T
from . import interp as I
from . import models as M
from .state import State, UNDEF, has_ref
from .terms import NONE, TRUE, FALSE, ZERO, ONE

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'atooms.postprocessing'


def roots():
    return [(PKG, os.path.join(REPO, 'atooms', 'postprocessing')), ('specs', os.path.join(HERE, 'specs'))]


class Result(object):
    def __init__(self, name, status, detail='', where=(), info=None):
        self.name, self.status, self.detail, self.where = name, status, detail, where
        self.info = info or {}


class Outcome(object):
    def __init__(self, value, fx, exc, S):
        self.value, self.fx, self.exc, self.S = value, fx, exc, S


# ---------------------------------------------------------------- contracts

def passthrough(k=0):
    def h(interp, S, func, vals):
        return list(vals.values())[k]
    return h


def uninterpreted(name, listlike=False):
    def h(interp, S, func, vals):
        t = T.call(name, *[interp.deref(v, S) for v in vals.values()])
        return S.alloc('list', t) if listlike else t
    return h


def replaced_by(modname, name):
    """A function of the package taken as its reference definition, which another property decides."""
    def h(interp, S, func, vals):
        f = interp.module(modname).vars[name]
        # in the order of the parameters
        order = [a.arg for a in func.node.args.args + func.node.args.kwonlyargs]
        return interp.call_func(f, [vals[k] for k in order if k in vals] + [v for k, v in vals.items() if k not in order], {}, S)
    return h


def external(modname, name):
    """A function of another package, by its documented behavior."""
    def h(interp, S, args, kw):
        return interp.call_func(interp.module(modname).vars[name], list(args), dict(kw), S)
    return h


def assume_contract(interp, S, func, vals):
    c = interp.truth(list(vals.values())[0], S)
    known = {}

    def force(c):
        # a conjunction of literals
        while c.op == 'phi':
            if c.args[2] is FALSE:
                known[c.args[0]] = True
                c = c.args[1]
            elif c.args[1] is FALSE:
                known[c.args[0]] = False
                c = c.args[2]
            else:
                raise I.GiveUp('assumption is not a conjunction of literals')
        return c
    whole = c
    if force(c) is FALSE:
        raise I.GiveUp('contradictory assumption')
    interp.assumed.append(whole)
    interp.facts.append(lambda a: known.get(a))
    return NONE


CONTRACTS = {
    'specs.prelude.assume': assume_contract,
}


HELPERS = {
    PKG + '.helpers.setup_t_grid': uninterpreted('setup_t_grid', True),
    PKG + '.helpers.adjust_skip': uninterpreted('adjust_skip'),
    PKG + '.helpers.linear_grid': uninterpreted('linear_grid', True),
    PKG + '.helpers.logx_grid': uninterpreted('logx_grid', True),
}
M.CALL_RANK['setup_t_grid'] = lambda t: 2
M.CALL_RANK['adjust_skip'] = lambda t: 0
M.CALL_RANK['linear_grid'] = lambda t: 1
M.CALL_RANK['logx_grid'] = lambda t: 1
T.REAL_CALLS |= {'setup_t_grid', 'adjust_skip', 'linear_grid', 'logx_grid'}


def assumed(t):
    """Helpers assumed in a result."""
    return {x.args[0] for x in T.subterms((t.value, t.fx or NONE) + tuple(t.exc.values())) if x.op == 'call'} & {k.rpartition('.')[2] for k in HELPERS}


def std_contracts(interp):
    interp.contracts.update(HELPERS)
    interp.contracts.update(CONTRACTS)
    plain_progress(interp)


def plain_progress(interp):
    # Property P30 decides that progress bars leave the iteration as it is
    if not interp.config.get('progress'):
        interp.config.setdefault('symbolic_globals', {})[PKG + '.progress'] = {'progress': I.obj_term(I.Builtin('progress'))}


# ---------------------------------------------------------------- abstract arguments

def make_arg(interp, S, name, ann):
    """Abstract value of a parameter from its annotation."""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        k = ann.value
    elif ann is None:
        k = 'num'
    elif isinstance(ann, ast.Tuple):
        e = getattr(interp, 'choice', {}).get(name, ann.elts[0])
        return interp.ev(e, I.Frame(None, (), interp.module('specs.prelude')), S)
    else:
        return interp.ev(ann, I.Frame(None, (), interp.module('specs.prelude')), S)
    k, _, opt = k.partition(':')
    if k == 'traj':
        c = T.sym(name)
        M.TRAJ.add(c)
        M.KIND[c] = 'obj'
        return S.alloc('ext', c)
    if k == 'system':
        c = T.sym(name)
        M.KIND[c] = 'obj'
        return S.alloc('ext', c)
    s = T.sym(name)
    T.NOT_NONE.add(s)
    if k in ('num', 'real', 'int', 'nonneg'):
        M.KIND[s] = 'num'
        M.RANK[s] = 0
        T.KNOWN_SCALAR.add(s)
        T.KNOWN_REAL.add(s)
        if k == 'int':
            T.KNOWN_INT.add(s)
        return s
    if k == 'str':
        M.KIND[s] = 'str'
        T.KNOWN_SCALAR.add(s)
        return s
    if k == 'bool':
        M.KIND[s] = 'bool'
        T.KNOWN_SCALAR.add(s)
        return T.node(T.mk('truthy', s), TRUE, FALSE)
    if k == 'list':
        M.KIND[s] = 'list'
        M.RANK[s] = int(opt or 1)
        T.KNOWN_REAL.add(s)
        return S.alloc('list', s)
    if k.startswith('array'):
        M.KIND[s] = 'array'
        M.RANK[s] = int(k[5:] or 1)
        if opt != 'complex':
            T.KNOWN_REAL.add(s)
        return S.alloc('array', s)
    if k == 'func':
        M.KIND[s] = 'func'
        if opt == 'filter':
            M.FILTERS.add(s)
        return s
    if k == 'obj':
        M.KIND[s] = 'obj'
        return s
    raise ValueError('unknown annotation %s' % k)


# ---------------------------------------------------------------- running one side

def run(interp, modname, fname):
    m = interp.module(modname)
    f = m.vars.get(fname)
    if f is None:
        raise KeyError(fname)
    func = I.the_obj(f)
    S = interp.base.copy()
    S.d[('fx',)] = T.seq(())
    S.path = TRUE
    interp.pending = []
    args = []
    for a in func.node.args.args:
        args.append(make_arg(interp, S, a.arg, a.annotation))
    exc = []
    try:
        r = interp.call_func(f, args, {}, S)
        value = interp.deref(r, S)
    except I.Raised as e:
        exc.append((TRUE, e.exc))
        value = NONE
    done = FALSE
    ex = {}
    for c, S2, e in interp.pending:
        c = T.and_(c, T.not_(done))
        done = T.or_(done, c)
        for n in exc_names(e):
            ex[n] = T.or_(ex.get(n, FALSE), c)
    for c, e in exc:
        c = T.not_(done)
        for n in exc_names(e):
            ex[n] = T.or_(ex.get(n, FALSE), c)
    interp.pending = []
    return Outcome(value, S.d.get(('fx',)), {k: v for k, v in ex.items() if v is not FALSE}, S)


def exc_names(e):
    out = set()
    for x in T.leaves(e):
        out.add(x.args[0] if x.op == 'exc' else 'Exception')
    return out


def simplify(interp, t):
    return t


# ---------------------------------------------------------------- comparing both sides

class Mismatch(object):
    def __init__(self, case, what, impl, spec):
        self.case, self.what, self.impl, self.spec = case, what, impl, spec


def enum_params(func):
    """Parameters whose annotation is a tuple of constants: every value is a case of its own."""
    out = []
    for a in func.node.args.args:
        if isinstance(a.annotation, ast.Tuple):
            out.append((a.arg, a.annotation.elts))
    return out


def closed_atoms(t, acc, seen, refs=False):
    """Conditions without bound variables, by number of occurrences."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            a = x.args[0]
            if not a.bvs and not has_bnd(a) and not has_ref(a):
                acc[a] = acc.get(a, 0) + 1
        stack.extend(x.args)


_hb = {}


def has_bnd(t):
    if isinstance(t, tuple):
        return any(has_bnd(x) for x in t)
    if not isinstance(t, T.Term):
        return False
    r = _hb.get(t)
    if r is None:
        r = t.op == 'bnd' or any(has_bnd(x) for x in t.args)
        _hb[t] = r
    return r


def restrict_all(t, facts):
    for a, v in facts:
        t = T.restrict(t, a, v)
    return t


class Obligation(object):
    """One obligation `name` of a specification module."""

    def __init__(self, modname, name, config=None, contracts=True, extra=None, maxcases=96, hints=None):
        self.modname, self.name, self.config, self.contracts = modname, name, config or {}, contracts
        self.extra = extra or {}
        self.maxcases = maxcases
        self.stats = {'functions': set(), 'callsites': 0, 'loops': 0, 'cases': 0, 'terms': 0}
        self.origin = {}
        self.gaveup = []
        self.random = []
        self.hints = hints or {}

    def interp(self, facts):
        own = self.config.get('progress')
        it = I.Interp(roots() + ([('tqdm', os.path.join(HERE, 'specs', 'tqdm_stub'))] if own and 'tqdm' not in self.config.get('missing', ()) else []),
                      dict({'missing': ('medepy',)}, **self.config))
        if self.contracts:
            std_contracts(it)
        else:
            it.contracts.update(CONTRACTS)
            plain_progress(it)
        it.contracts.update(self.extra)
        it.facts = list(facts)
        it.assumed = []
        return it

    def both(self, facts, choice):
        known = dict(facts)
        outs = []
        for side in ('impl', 'spec'):
            it = self.interp([lambda a: known.get(a)] if known else [])
            it.choice = choice
            o = run(it, self.modname, side + '_' + self.name)
            o.assumed = list(it.assumed)
            if side == 'impl':
                self.stats['functions'] |= it.functions
                self.stats['callsites'] += it.callsites
                self.stats['loops'] += it.loops
            self.origin.update(it.origin)
            self.gaveup += [(side,) + tuple(g) for g in it.gaveup]
            o.value = restrict_all(o.value, facts)
            o.fx = restrict_all(o.fx, facts)
            o.exc = {k: restrict_all(v, facts) for k, v in o.exc.items()}
            o.exc = {k: v for k, v in o.exc.items() if v is not FALSE}
            outs.append(o)
        return outs

    def diff(self, a, b):
        """First difference between two outcomes."""
        for k in sorted(set(a.exc) | set(b.exc)):
            x, y = a.exc.get(k, FALSE), b.exc.get(k, FALSE)
            if x is not y:
                return ('raises ' + k, x, y)
        bad = FALSE
        for c in a.exc.values():
            bad = T.or_(bad, c)
        if bad is TRUE:
            return None
        x, y = a.value, b.value
        if x is not y:
            if bad is not FALSE:
                x, y = T.ite(bad, NONE, x), T.ite(bad, NONE, y)
            if x is not y:
                return ('value', x, y)
        if a.fx is not b.fx:
            return ('effects', a.fx, b.fx)
        return None

    def choices(self):
        it = self.interp([])
        f = it.module(self.modname).vars['impl_' + self.name]
        en = enum_params(I.the_obj(f))
        choices = [{}]
        for n, elts in en:
            choices = [dict(c, **{n: e}) for c in choices for e in elts]
        return choices

    def decide(self, stage2=True):
        """List of mismatches (empty when the obligation holds).

        self.status becomes 'proved' (same normal forms), 'equal' (the remaining
        differences agree under random interpretation), 'different' or 'undecided'."""
        self.status = 'proved'
        self.witness = None
        rank = ['proved', 'equal', 'undecided', 'different']
        out = []
        for ch in self.choices():
            st, mm, wit = self.decide1(ch, stage2)
            if rank.index(st) > rank.index(self.status):
                self.status, self.witness = st, wit
            out += mm
            if st == 'different':
                break
        return out if self.status in ('different', 'undecided') else []

    def decide1(self, choice, stage2):
        self.stats['cases'] += 1
        a, b = self.both((), choice)
        d = self.diff(a, b)
        if d is None:
            return 'proved', [], None
        st = info = None
        top = Mismatch(((), choice), d[0], d[1], d[2])
        if stage2:
            from . import rand
            st, info = rand.decide(a, b, a.assumed + b.assumed, hints=self.hints)
            if st == 'different':
                self.same_helpers = assumed(a) == assumed(b)
                return st, [top], info
        mm = self.split((), choice, 0, (a, b, d))
        if not mm:
            return 'proved', [], None
        if not stage2:
            return 'different', mm, None
        if st == 'equal':
            self.random.append((self.name, info))
            return 'equal', mm, info
        return 'undecided', mm, info

    def split(self, facts, choice, depth, first=None):
        if first is not None:
            a, b, d = first
        else:
            self.stats['cases'] += 1
            a, b = self.both(facts, choice)
            d = self.diff(a, b)
        if d is None:
            return []
        acc = {}
        seen = set()
        closed_atoms((a.value, b.value, a.fx or NONE, b.fx or NONE) + tuple(a.exc.values()) + tuple(b.exc.values()), acc, seen)
        known = dict(facts)
        cand = [x for x in acc if x not in known]
        if depth >= 7 or not cand or self.stats['cases'] > self.maxcases:
            return [Mismatch((facts, choice), d[0], d[1], d[2])]
        cand.sort(key=lambda x: (-acc[x], x.key))
        out = []
        for v in (True, False):
            if not consistent(facts, cand[0], v):
                continue
            out += self.split(facts + ((cand[0], v),), choice, depth + 1)
            if out:
                break
        return out


def consistent(facts, atom, val):
    """Quick refutation of contradictory cases."""
    c = T.node(atom, TRUE, FALSE) if val else T.node(atom, FALSE, TRUE)
    for a, v in facts:
        c = T.and_(c, T.node(a, TRUE, FALSE) if v else T.node(a, FALSE, TRUE))
    if c is FALSE:
        return False
    # x = c1 and x = c2
    vals = {}
    for a, v in facts + ((atom, val),):
        if v and a.op == 'eq0':
            p = a.args[0]
            if p.op == 'poly':
                cst = dict(p.args[0]).get((), 0)
                rest = T.sub(p, T.num(cst))
                n = T.neg(rest)
                key, x = (rest, cst) if rest.key < n.key else (n, -cst)
                if vals.setdefault(key, x) != x:
                    return False
        if v and a.op == 'eq' and any(T.is_const(x) for x in a.args):
            k = [x for x in a.args if not T.is_const(x)]
            cst = [x for x in a.args if T.is_const(x)]
            if len(k) == 1 and vals.setdefault(k[0], cst[0]) is not cst[0]:
                return False
    return True


def narrow(a, b):
    """Smallest pair of differing subterms, when a single path leads to it."""
    while True:
        if not (isinstance(a, T.Term) and isinstance(b, T.Term)) or a.op != b.op or len(a.args) != len(b.args):
            return a, b
        ds = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(ds) != 1:
            return a, b
        x, y = ds[0]
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return a, b
            es = [(p, q) for p, q in zip(x, y) if p is not q and p != q]
            if len(es) == 0:
                return a, b
            x, y = es[0]
            if isinstance(x, tuple):
                es = [(p, q) for p, q in zip(x, y) if p is not q and p != q]
                if not es or len(x) != len(y):
                    return a, b
                x, y = es[0]
        if not isinstance(x, T.Term) or not isinstance(y, T.Term):
            return a, b
        a, b = x, y


def show_case(case):
    facts, choice = case
    out = ['%s is %s' % (T.short(a, 80), v) for a, v in facts]
    out += ['%s = %s' % (k, ast.unparse(v)) for k, v in choice.items()]
    return ', '.join(out)


def locate(ob, m, x):
    """Source positions of the expressions that build a term."""
    out = []
    for t in (x, m.impl):
        if not isinstance(t, T.Term):
            continue
        for s in T.subterms(t):
            if s in ob.origin:
                w = '%s:%s %s' % tuple(ob.origin[s])
                if '/specs/' not in w and w not in out:
                    out.append(w)
            if len(out) > 8:
                return out
    return out
