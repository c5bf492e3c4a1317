"""Abstract interpreter: Python syntax trees of /repo to value graphs.

Every function of the analysed package is interpreted over the value-graph
domain of `terms`: branches are joined with gated phi nodes, loops are
summarised by binding constructs (sums, comprehensions, keyed updates, first
and last elements), and no path is ever enumerated or executed.
"""

import ast
import os

from . import fortran, loops
from . import terms as T
from .state import State, UNDEF, merge, new_ref, has_ref, watermark, REFKIND, REFCLS, parts_of, base_groups
from .terms import NONE, TRUE, FALSE, ZERO, ONE

OBJ = []


class Raised(Exception):
    """All the paths through an expression raise."""

    def __init__(self, exc):
        self.exc = exc


class GiveUp(Exception):
    pass


def obj_term(o):
    OBJ.append(o)
    return T.mk('obj', len(OBJ) - 1)


def the_obj(t):
    return OBJ[t.args[0]] if t.op == 'obj' else None


class Func(object):
    def __init__(self, name, node, module, envs, defaults, kwdefaults, cls=None):
        self.name, self.node, self.module, self.envs = name, node, module, envs
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.kind = 'function'

    @property
    def qual(self):
        return '%s.%s%s' % (self.module.name, (self.cls.name + '.') if self.cls else '', self.name)


class Class(object):
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def mro(self):
        out = [self]
        seqs = [b.mro() if isinstance(b, Class) else [b] for b in self.bases]
        for s in seqs:
            for c in s:
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro()


class Module(object):
    def __init__(self, name, path=None, ext=False):
        self.name, self.path, self.ext = name, path, ext
        self.vars = {}
        self.loaded = False


class Builtin(object):
    def __init__(self, name):
        self.name = name


class Bound(object):
    def __init__(self, recv, func):
        self.recv, self.func = recv, func


class Meth(object):
    """Method `name` of a built-in or external value."""

    def __init__(self, recv, name, node=None):
        self.recv, self.name, self.node = recv, name, node


class Super(object):
    def __init__(self, recv, cls, start):
        self.recv, self.cls, self.start = recv, cls, start


class Prop(object):
    def __init__(self, get, set=None):
        self.get, self.set = get, set


class Static(object):
    def __init__(self, func):
        self.func = func


class ClassM(object):
    def __init__(self, func):
        self.func = func


class Frame(object):
    def __init__(self, env, envs, module, func=None):
        self.env, self.envs, self.module, self.func = env, envs, module, func
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


class Flow(object):
    """Outcomes of a block; every condition is relative to the entry of the block."""

    def __init__(self, live=TRUE, S=None):
        self.live, self.S = live, S
        self.ret = []     # (cond, S, value)
        self.brk = []     # (cond, S)
        self.cont = []    # (cond, S)
        self.exc = []     # (cond, S, exc term)

    def shifted(self, c):
        f = Flow(T.and_(c, self.live) if self.S is not None else FALSE, self.S)
        for k in ('ret', 'brk', 'cont', 'exc'):
            setattr(f, k, [(T.and_(c, x[0]),) + tuple(x[1:]) for x in getattr(self, k)])
        return f

    def absorb(self, g):
        for k in ('ret', 'brk', 'cont', 'exc'):
            getattr(self, k).extend(x for x in getattr(g, k) if x[0] is not FALSE)


def merge_list(items):
    """Merge [(cond, S, ...vals)] of exclusive outcomes into one."""
    items = list(items)
    out = items[-1]
    for it in reversed(items[:-1]):
        S = merge(it[0], it[1], out[1])
        vals = tuple(T.ite(it[0], a, b) for a, b in zip(it[2:], out[2:]))
        out = (T.or_(it[0], out[0]), S) + vals
    return out


_env = [0]

# functions that return iterators
ONCE = {'iter', 'zip', 'map', 'filter', 'enumerate', 'reversed'}

PYBUILTINS = {'len', 'range', 'enumerate', 'zip', 'sum', 'min', 'max', 'abs', 'sorted', 'list', 'tuple', 'dict', 'set',
              'int', 'float', 'str', 'bool', 'complex', 'isinstance', 'hasattr', 'getattr', 'setattr', 'print', 'round',
              'map', 'filter', 'iter', 'any', 'all', 'open', 'reversed', 'super', 'object', 'type', 'eval', 'id',
              'ValueError', 'TypeError', 'ImportError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'AttributeError',
              'Exception', 'RuntimeError', 'NotImplementedError', 'AssertionError', 'OSError', 'IOError', 'StopIteration',
              'ModuleNotFoundError', 'property', 'staticmethod', 'classmethod', 'repr', 'divmod', 'pow', 'frozenset',
              'callable', 'next', 'slice', 'vars', 'NameError', 'FileNotFoundError', 'DeprecationWarning', 'UserWarning'}

EXC_PARENTS = {'ValueError': ('Exception',), 'TypeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'),
               'IndexError': ('LookupError', 'Exception'), 'ZeroDivisionError': ('ArithmeticError', 'Exception'),
               'ModuleNotFoundError': ('ImportError', 'Exception'), 'ImportError': ('Exception',),
               'AttributeError': ('Exception',), 'OSError': ('Exception',), 'IOError': ('OSError', 'Exception'),
               'RuntimeError': ('Exception',), 'AssertionError': ('Exception',), 'NotImplementedError': ('RuntimeError', 'Exception')}


class Interp(object):

    def __init__(self, roots, config=None):
        """roots: list of (package prefix, directory)"""
        self.roots = roots
        self.config = config or {}
        self.modules = {}
        self.base = State({('fx',): T.seq(())})
        self.depth = 0
        self.pending = []           # conditional raises of the current statement
        self.origin = {}
        self.stack = []
        self.contracts = {}         # qualified name -> handler(interp, S, args, kwargs)
        self.carried_init = {}
        self.facts = []             # functions atom -> bool or None
        self.missing_modules = set(self.config.get('missing', ()))
        self.gaveup = []
        self.functions = set()
        self.generated = set()      # lists that are made by generator functions
        self.callsites = 0
        self.loops = 0
        from . import models
        self.models = models
        models.setup(self)

    # ------------------------------------------------------------ modules

    def find_module(self, name):
        for prefix, d in self.roots:
            if name == prefix or name.startswith(prefix + '.'):
                rel = name[len(prefix):].strip('.').replace('.', '/')
                base = os.path.join(d, rel) if rel else d
                if os.path.isfile(base + '.py'):
                    return base + '.py'
                if os.path.isfile(os.path.join(base, '__init__.py')):
                    return os.path.join(base, '__init__.py')
                if os.path.isdir(base):
                    return ''
                if base.endswith('_wrap') and os.path.isfile(base[:-5] + '.f90') and not self.config.get('no_extensions'):
                    return base[:-5] + '.f90'
                return None
        return None

    def is_internal(self, name):
        return any(name == p or name.startswith(p + '.') for p, d in self.roots)

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name and self.is_internal(name) and self.is_internal(name.rpartition('.')[0]):
            self.module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        path = self.find_module(name)
        if path is None or path == '':
            if path is None and self.is_internal(name):
                if name in self.config.get('extensions', ()):
                    m = Module(name, ext=True)
                    self.modules[name] = m
                    return m
                raise Raised(T.mk('exc', 'ImportError', T.string(name)))
            if name.split('.')[0] in self.missing_modules or name in self.missing_modules:
                raise Raised(T.mk('exc', 'ImportError', T.string(name)))
            m = Module(name, ext=True)
            self.modules[name] = m
            return m
        m = Module(name, path)
        self.modules[name] = m
        if path.endswith('.f90'):
            try:
                tree, _ = fortran.translate(path)
            except fortran.Unsupported as e:
                raise GiveUp('Fortran: %s' % e)
        else:
            with open(path) as fh:
                src = fh.read()
            tree = loops.canonical(ast.parse(src, path))
        m.tree = tree
        find_inplace(tree)
        m.vars['__name__'] = T.string(name)
        m.vars['__doc__'] = NONE
        m.vars['__file__'] = T.string(path)
        fr = Frame(None, (), m)
        S = self.base
        saved = self.pending
        self.pending = []
        fl = self.block(tree.body, fr, S)
        self.pending = saved
        if fl.S is None and fl.exc:
            # the module cannot be imported
            del self.modules[name]
            raise Raised(fl.exc[-1][2])
        if fl.S is not None:
            self.base.become(fl.S)
            self.base.path = TRUE
        m.loaded = True
        for k, v in self.config.get('symbolic_globals', {}).get(name, {}).items():
            if k in m.vars:
                m.vars[k] = v
        return m

    def module_attr(self, m, name, S):
        if name in m.vars:
            return m.vars[name]
        full = m.name + '.' + name
        if m.ext:
            return self.models.ext_attr(self, m, name)
        # submodule
        p = self.find_module(full)
        if p is not None or full in self.config.get('extensions', ()):
            return obj_term(self.module(full))
        raise Raised(T.mk('exc', 'ImportError', T.string(full)))

    def import_from(self, fr, modname, level, S):
        if level:
            pkg = fr.module.name.split('.')
            if not (fr.module.path or '').endswith('__init__.py'):
                pkg = pkg[:-1]
            if level > 1:
                pkg = pkg[:-(level - 1)]
            modname = '.'.join(pkg + ([modname] if modname else []))
        return self.module(modname)

    # ------------------------------------------------------------ helpers

    def debug(self, *a):
        if os.environ.get('SA_DEBUG'):
            print(*a)

    def assume(self, c, S=None):
        """Simplify a condition with the facts of the scenario and the path."""
        c = T.as_cond(c) if S is None else self.truth(c, S)
        for a in T.atoms_of(c):
            for f in self.facts:
                r = f(a)
                if r is not None:
                    c = T.restrict(c, a, r)
                    break
        if S is not None and c.op == 'phi' and S.path.op == 'phi':
            if T.and_(S.path, c) is FALSE:
                return FALSE
            if T.and_(S.path, T.not_(c)) is FALSE:
                return TRUE
        return c

    def deref(self, t, S):
        """Value of a term: references are replaced by their contents."""
        if not has_ref(t):
            return t
        if isinstance(t, tuple):
            return tuple(self.deref(x, S) for x in t)
        if t.op == 'ref':
            return self.deref(self.embed1(t, S), S)
        if t.op == 'phi':
            return T.ite(T.node(t.args[0], TRUE, FALSE), self.deref(t.args[1], S), self.deref(t.args[2], S))
        sub = {}
        for x in T.subterms(t):
            if x.op == 'ref':
                sub[x] = self.deref(self.embed1(x, S), S)
        return T.replace(t, sub)

    def embed1(self, r, S, _busy=set()):
        """Content of one reference as a value."""
        i = r.args[0]
        kind = r.args[1]
        if kind == 'inst':
            if i in _busy:
                return T.mk('cyclic')
            _busy.add(i)
            try:
                attrs = tuple(sorted(((k[2], self.deref(v, S)) for k, v in S.d.items() if k[0] == 'a' and k[1] == i),
                                     key=lambda kv: kv[0]))
            finally:
                _busy.discard(i)
            return T.mk('instv', REFCLS[i].name, attrs)
        c = S.d.get(('c', i), UNDEF)
        if kind == 'ext':
            attrs = tuple(sorted(((k[2], v) for k, v in S.d.items() if k[0] == 'a' and k[1] == i and v is not UNDEF),
                                 key=lambda kv: kv[0]))
            if attrs:
                return T.mk('objwith', self.deref(c, S), tuple((k, self.deref(v, S)) for k, v in attrs))
        return c

    def event(self, S, name, *args):
        args = tuple(self.portable(self.deref(a, S), S) for a in args)
        S.d[('fx',)] = T.concat([S.d.get(('fx',), T.seq(())), T.seq((T.mk('ev', name, args),))])

    def portable(self, t, S):
        """Functions and classes by name (and captured values), rather than by identity."""
        sub = {}
        for x in T.subterms(t):
            if x.op == 'obj':
                o = the_obj(x)
                if isinstance(o, (Func, Class, Builtin)) and x not in sub:
                    if isinstance(o, Func) and o.envs:
                        names = sorted({n.id for n in ast.walk(o.node) if isinstance(n, ast.Name)})
                        captured = []
                        for name in names:
                            for e in reversed(o.envs):
                                v = S.d.get(('v', e, name))
                                if v is not None and v is not UNDEF:
                                    if v.op != 'obj':
                                        captured.append((name, self.deref(v, S)))
                                    break
                        sub[x] = T.mk('closure', '%s:%s' % (o.module.name, getattr(o.node, 'lineno', 0)), tuple(captured))
                    else:
                        sub[x] = T.mk('global', getattr(o, 'qual', None) or '%s.%s' % (o.module.name, o.name) if not isinstance(o, Builtin) else o.name)
        return T.replace(t, sub) if sub else t

    def where(self, node, fr):
        return '%s:%s' % (fr.module.path or fr.module.name, getattr(node, 'lineno', 0))

    def note(self, t, node, fr):
        if isinstance(t, T.Term) and t.op not in ('num', 'str', 'bool', 'none', 'sym', 'bv') and t not in self.origin:
            self.origin[t] = (fr.module.path, getattr(node, 'lineno', 0), fr.func.qual if fr.func else fr.module.name)
        return t

    def opaque(self, why, node=None, fr=None):
        self.gaveup.append((why, self.where(node, fr) if node is not None else ''))
        return T.opaque(why)

    # ------------------------------------------------------------ variables

    def lookup(self, name, fr, S):
        if fr.env is not None and name not in fr.globals:
            v = S.d.get(('v', fr.env, name))
            if v is not None and v is not UNDEF:
                return v
            for e in reversed(fr.envs):
                v = S.d.get(('v', e, name))
                if v is not None and v is not UNDEF:
                    return v
        if name in fr.module.vars:
            return fr.module.vars[name]
        if name in PYBUILTINS:
            return self.builtin(name)
        if name == '__name__':
            return T.string(fr.module.name)
        if name == '__giveup__':
            raise GiveUp('Fortran procedure that could not be translated')
        raise Raised(T.mk('exc', 'NameError', T.string(name)))

    _bi = {}

    def builtin(self, name):
        t = self._bi.get(name)
        if t is None:
            t = obj_term(Builtin(name))
            self._bi[name] = t
        return t

    def assign_name(self, name, val, fr, S, prov=None):
        if fr.env is None:
            fr.module.vars[name] = val
            return
        if name in fr.globals:
            fr.module.vars[name] = val
            return
        env = fr.env
        if name in fr.nonlocals:
            for e in reversed(fr.envs):
                if ('v', e, name) in S.d:
                    env = e
                    break
        S.d[('v', env, name)] = val
        if prov is not None and val.op != 'ref':
            S.d[('p', env, name)] = prov
        else:
            S.d.pop(('p', env, name), None)

    # ------------------------------------------------------------ statements

    def block(self, stmts, fr, S):
        out = Flow(TRUE, S)
        for st in stmts:
            if out.S is None:
                break
            fl = self.stmt(st, fr, out.S)
            fl = fl.shifted(out.live)
            out.absorb(fl)
            out.live, out.S = fl.live, fl.S
            if out.live is FALSE:
                out.S = None
        return out

    def stmt(self, st, fr, S):
        saved, self.pending = self.pending, []
        m = getattr(self, 's_' + type(st).__name__, None)
        try:
            if m is None:
                raise GiveUp('statement %s' % type(st).__name__)
            fl = m(st, fr, S)
            if fl is None:
                fl = Flow(TRUE, S)
        except Raised as e:
            fl = Flow(FALSE, None)
            fl.exc.append((TRUE, S, e.exc))
        pend, self.pending = self.pending, saved
        if pend:
            # exceptions raised under a condition by the expressions of the statement
            ok = TRUE
            g = Flow(TRUE, None)
            for c, S2, exc in pend:
                g.exc.append((T.and_(ok, c), S2, exc))
                ok = T.and_(ok, T.not_(c))
            f2 = fl.shifted(ok)
            f2.exc = g.exc + f2.exc
            fl = f2
        return fl

    def s_Expr(self, st, fr, S):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value, fr, S)
            return
        self.ev(st.value, fr, S)

    def s_Pass(self, st, fr, S):
        return

    def s_Global(self, st, fr, S):
        fr.globals.update(st.names)

    def s_Nonlocal(self, st, fr, S):
        fr.nonlocals.update(st.names)

    def s_Import(self, st, fr, S):
        for a in st.names:
            m = self.module(a.name)
            if a.asname:
                self.assign_name(a.asname, obj_term(m), fr, S)
            else:
                top = a.name.split('.')[0]
                mt = self.module(top)
                # make submodules reachable
                parts = a.name.split('.')
                for k in range(1, len(parts)):
                    parent = self.module('.'.join(parts[:k]))
                    child = self.module('.'.join(parts[:k + 1]))
                    parent.vars.setdefault(parts[k], obj_term(child))
                self.assign_name(top, obj_term(mt), fr, S)

    def s_ImportFrom(self, st, fr, S):
        m = self.import_from(fr, st.module, st.level, S)
        for a in st.names:
            if a.name == '*':
                names = None
                if '__all__' in m.vars:
                    al = self.deref(m.vars['__all__'], S)
                    if al.op == 'seq':
                        names = [T.const(x) for x in al.args[0]]
                if names is None:
                    names = [k for k in m.vars if not k.startswith('_')]
                for n in names:
                    if n not in m.vars:
                        raise Raised(T.mk('exc', 'AttributeError', T.string(n)))
                    self.assign_name(n, m.vars[n], fr, S)
                continue
            self.assign_name(a.asname or a.name, self.module_attr(m, a.name, S), fr, S)

    def s_FunctionDef(self, st, fr, S):
        f = self.make_func(st, fr, S)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, fr, S)
        self.assign_name(st.name, f, fr, S)

    def make_func(self, node, fr, S, name=None, cls=None):
        a = node.args
        defaults = [self.ev(d, fr, S) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr, S) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        envs = fr.envs + ((fr.env,) if fr.env is not None else ())
        return obj_term(Func(name or getattr(node, 'name', '<lambda>'), node, fr.module, envs, defaults, kwd, cls))

    def decorate(self, d, f, fr, S):
        if isinstance(d, ast.Name) and d.id == 'property':
            return obj_term(Prop(f))
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            return obj_term(Static(f))
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            return obj_term(ClassM(f))
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.ev(d.value, fr, S)
            o = the_obj(p)
            if isinstance(o, Prop):
                return obj_term(Prop(o.get, f))
        return self.call(self.ev(d, fr, S), [f], {}, fr, S, d)

    def s_ClassDef(self, st, fr, S):
        bases = []
        for b in st.bases:
            o = the_obj(self.ev(b, fr, S))
            bases.append(o if o is not None else Builtin('?'))
        c = Class(st.name, bases, {}, fr.module)
        # the body runs in its own activation
        _env[0] += 1
        env = _env[0]
        f2 = Frame(env, fr.envs + ((fr.env,) if fr.env is not None else ()), fr.module, fr.func)
        fl = self.block(st.body, f2, S)
        S2 = fl.S or S
        for k in list(S2.d):
            if k[0] == 'v' and k[1] == env:
                v = S2.d.pop(k)
                c.attrs[k[2]] = v
                self.own(v, c, env)
        self.assign_name(st.name, obj_term(c), fr, S2)
        return Flow(TRUE, S2)

    def own(self, v, c, env):
        o = the_obj(v)
        if isinstance(o, Func):
            o.cls = c
            o.envs = tuple(e for e in o.envs if e != env)
        elif isinstance(o, Prop):
            self.own(o.get, c, env)
            if o.set is not None:
                self.own(o.set, c, env)
        elif isinstance(o, (Static, ClassM)):
            self.own(o.func, c, env)

    def once(self, v, node, S):
        """An iterator that is kept: it can be consumed only once."""
        if isinstance(node, ast.GeneratorExp) or isinstance(node, ast.Call) and (isinstance(node.func, ast.Name) and node.func.id in ONCE or v.op == 'ref' and v.args[0] in self.generated):
            if v.op == 'it' or v.op == 'ref' and v.args[1] in ('list', 'array', 'dict') or v.op not in ('ref', 'phi') and not self.is_object(v):
                return S.alloc('once', v)
        return v

    def is_object(self, v):
        return the_obj(v) is not None

    def s_Return(self, st, fr, S):
        v = self.ev(st.value, fr, S) if st.value is not None else NONE
        v = self.once(v, st.value, S)
        fl = Flow(FALSE, None)
        fl.ret.append((TRUE, S, v))
        return fl

    def s_Break(self, st, fr, S):
        fl = Flow(FALSE, None)
        fl.brk.append((TRUE, S))
        return fl

    def s_Continue(self, st, fr, S):
        fl = Flow(FALSE, None)
        fl.cont.append((TRUE, S))
        return fl

    def s_Raise(self, st, fr, S):
        if st.exc is None:
            raise Raised(getattr(fr, 'handling', None) or T.mk('exc', 'Exception', NONE))
        e = self.ev(st.exc, fr, S)
        o = the_obj(e)
        if isinstance(o, Builtin):
            e = T.mk('exc', o.name, NONE)
        raise Raised(e)

    def s_Assert(self, st, fr, S):
        c = self.assume(self.ev(st.test, fr, S), S)
        if c is FALSE:
            raise Raised(T.mk('exc', 'AssertionError', NONE))
        if c is not TRUE:
            self.pending.append((T.not_(c), S.copy(), T.mk('exc', 'AssertionError', NONE)))
            S.path = T.and_(S.path, c)

    def s_Delete(self, st, fr, S):
        for t in st.targets:
            if isinstance(t, ast.Name):
                S.d.pop(('v', fr.env, t.id), None)
            elif isinstance(t, ast.Subscript):
                r = self.lv(t.value, fr, S)
                i = self.deref(self.ev(t.slice, fr, S), S)
                if r is not None and r[1] == ():
                    self.models.del_item(self, r[0], i, S)
                else:
                    raise GiveUp('del')

    def s_Assign(self, st, fr, S):
        prov = None
        v = self.ev(st.value, fr, S)
        if not isinstance(st.targets[0], (ast.Tuple, ast.List)):
            v = self.once(v, st.value, S)
        if v.op != 'ref':
            prov = self.provenance(st.value, fr, S)
        for t in st.targets:
            if prov is None and fr.func is not None and isinstance(t, ast.Name) and t.id in stored_names(fr.func.node) and built_array(v, st.value):
                # an array that is modified in place later
                v = S.alloc('array', v)
            self.assign(t, v, fr, S, prov, fresh=isinstance(st.value, ast.Call) and len(st.targets) == 1)

    def s_AnnAssign(self, st, fr, S):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr, S), fr, S)

    def provenance(self, node, fr, S):
        """Location inside a mutable container from which a value was read."""
        if isinstance(node, (ast.Subscript, ast.Attribute)):
            try:
                r = self.lv(node, fr, S)
            except (GiveUp, Raised):
                return None
            if r is not None and r[1]:
                return T.mk('lref', r[0], r[1])
        if isinstance(node, ast.Name):
            return self.prov_of(node.id, fr, S)
        return None

    def prov_of(self, name, fr, S):
        p = S.d.get(('p', fr.env, name))
        if p is None:
            for e in reversed(fr.envs):
                p = S.d.get(('p', e, name))
                if p is not None:
                    break
        return p if p is not None and p.op == 'lref' else None

    def adopt_fresh(self, v, S):
        """Own the results of recursive calls where the alternatives are owned containers."""
        if v.op != 'phi':
            return v
        kinds = {x.args[1] for x in T.leaves(v) if x.op == 'ref'}
        if len(kinds) != 1 or not kinds <= {'list', 'array'}:
            return v
        kind = kinds.pop()

        def fresh(x):
            while x.op in ('index', 'get'):
                x = x.args[0]
            return x.op == 'reccall'
        return map_leaves(v, lambda x: S.alloc(kind, x) if x.op != 'ref' and fresh(x) else x)

    def assign(self, t, v, fr, S, prov=None, fresh=False):
        if v.op == 'phi':
            v = self.adopt_fresh(v, S)
        if isinstance(t, ast.Name):
            if fr.func is not None:
                self.note(v, t, fr)
            self.assign_name(t.id, v, fr, S, prov)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vv = v
            if v.op == 'ref' and v.args[1] in ('list', 'array'):
                vv = S.content(v)
            if vv.op == 'phi':
                pass
            if star:
                k = star[0]
                for j in range(k):
                    self.assign(t.elts[j], self.getitem(v, T.num(j), S), fr, S)
                m = n - k - 1
                self.assign(t.elts[k].value, S.alloc('list', T.mk_index(self.deref(vv, S), T.mk_slice(T.num(k), T.num(-m) if m else NONE, NONE))), fr, S)
                for j in range(k + 1, n):
                    self.assign(t.elts[j], self.getitem(v, T.num(j - n), S), fr, S)
                return
            provs = prov.args[0] if prov is not None and prov.op == 'ltuple' else ()
            for j, e in enumerate(t.elts):
                p = provs[j] if j < len(provs) else NONE
                self.assign(e, self.getitem(v, T.num(j), S), fr, S, p if p is not NONE else None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, S)
            self.setattr(o, t.attr, v, fr, S, t)
        elif isinstance(t, ast.Subscript):
            r = self.lv(t.value, fr, S)
            i = self.deref(self.ev(t.slice, fr, S), S)
            if r is None:
                base, keys = t.value, []
                while isinstance(base, ast.Subscript):
                    keys.insert(0, base.slice)
                    base = base.value
                o = self.ev(base, fr, S)
                if keys and o.op == 'phi' and all(x.op == 'ref' for x in T.leaves(o)):
                    # a container chosen among several
                    path = tuple(self.deref(self.ev(k, fr, S), S) for k in keys) + (i,)
                    self.note(self.deref(v, S), t, fr)

                    def put_below(x, S):
                        self.store(x, path, 'set', v, S)
                        return NONE
                    self.fork1(o, S, put_below)
                    return
                o = self.ev(t.value, fr, S)

                def put(x, S):
                    if x.op == 'ref':
                        self.note(self.deref(v, S), t, fr)
                        self.store(x, (i,), 'set', v, S)
                    else:
                        self.event(S, 'mutate', x, i)
                    return NONE
                self.fork1(o, S, put)
                return
            self.note(self.deref(v, S), t, fr)
            if not r[1] and r[0].args[1] == 'array' and i is T.ELL and T_rank(S.content(r[0])) == 0:
                S.set_content(r[0], self.deref(v, S))
                return
            if fresh and v.op == 'ref' and v.args[1] == 'array' and r[0].args[1] == 'dict' and i.op not in ('str', 'num'):
                # nothing else refers to it
                v = S.content(v)
            if not r[1] and r[0].args[1] == 'array' and i.op == 'slice' and all(x is NONE for x in i.args) and T.known_scalar(self.deref(v, S)):
                # the whole array
                old = self.deref(S.content(r[0]), S)
                z = old if old.op == 'zeros' else T.mk('zeros', T.mk('shape', old) if old.op != 'newarr' else old.args[0])
                x = self.deref(v, S)
                S.set_content(r[0], z if x is ZERO else T.add(z, x))
                return
            self.store(r[0], r[1] + (i,), 'set', v, S)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, S)
        else:
            raise GiveUp('assignment target')

    def setattr(self, o, name, v, fr, S, node=None):
        if o.op == 'phi':
            c = T.node(o.args[0], TRUE, FALSE)
            d = self.assume(c, S)
            if d is TRUE or d is FALSE:
                return self.setattr(o.args[1] if d is TRUE else o.args[2], name, v, fr, S, node)
            A, B = S.copy(), S.copy()
            self.setattr(o.args[1], name, v, fr, A, node)
            self.setattr(o.args[2], name, v, fr, B, node)
            S.become(merge(c, A, B))
            return
        if o.op == 'ref' and o.args[1] == 'inst':
            cls = REFCLS[o.args[0]]
            p, c = cls.find(name)
            p = the_obj(p) if p is not None else None
            if isinstance(p, Prop) and p.set is not None:
                self.call(p.set, [o, v], {}, fr, S, node)
                return
            if fr.func is not None:
                self.note(self.deref(v, S), node, fr)
            S.d[('a', o.args[0], name)] = v
            return
        if o.op == 'ref' and o.args[1] == 'ext':
            if ('own', o.args[0]) not in S.d:
                self.event(S, 'setattr', S.content(o), T.string(name), v)
            S.d[('a', o.args[0], name)] = v
            return
        ob = the_obj(o)
        if isinstance(ob, Module):
            ob.vars[name] = v
            self.event(S, 'setglobal', T.string(ob.name + '.' + name), v)
            return
        if isinstance(ob, Class):
            ob.attrs[name] = v
            return
        if isinstance(ob, Func):
            return
        # a value read from a container: update it in place if the container owns it
        if node is not None and isinstance(node, ast.Attribute):
            r = self.lv(node.value, fr, S)
            if r is not None and r[1]:
                el = T.mk_get(self.deref(S.content(r[0]), S), r[1]) if False else self.peek(r, S)
                if owned(self.at_entry(el)):
                    self.store(r[0], r[1] + (T.mk('attrkey', name),), 'set', self.deref(v, S), S)
                    return
        self.event(S, 'setattr', o, T.string(name), v)
        S.d[('m', o, name)] = v

    def at_entry(self, t):
        """The term with the carried locations at their values on loop entry."""
        for _ in range(8):
            m = {c: v for c, v in self.carried_init.items() if c.args[0] in t.bvs}
            if not m:
                return t
            t = T.subst(t, m)
        return t

    def peek(self, r, S):
        c = S.content(r[0])
        for p in r[1]:
            c = T.mk_get(c, (p,)) if p.op != 'attrkey' else T.mk_attr(c, p.args[0])
        return c

    def s_AugAssign(self, st, fr, S):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr, S)
            val = self.ev(st.value, fr, S)
            prov = self.prov_of(t.id, fr, S)
            if cur.op == 'ref' and cur.args[1] == 'list' and op == 'Add':
                self.models.list_extend(self, cur, val, S, fr, st)
                return
            if cur.op == 'ref' and cur.args[1] == 'array':
                new = self.binop(op, cur, val, S, st, fr)
                S.set_content(cur, self.deref(new, S))
                return
            new = self.binop(op, cur, val, S, st, fr)
            if prov is not None and T_rank(self.deref(cur, S)) not in (0, None):
                # numpy arrays are modified in place
                field = integer_field(self.at_entry(self.deref(cur, S)))
                if field and op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
                    # and keep their type
                    new = T.mk('keeptype', field, self.deref(new, S))
                self.store(prov.args[0], prov.args[1], 'set', self.deref(new, S), S)
                self.assign_name(t.id, new, fr, S, prov)
                return
            if cur.op not in ('ref', 'num', 'str', 'bv') and T_rank(cur) not in (0, None) and owned_ext(cur):
                self.event(S, 'mutate', cur)
            self.note(new, st, fr)
            self.assign_name(t.id, new, fr, S)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, S)
            cur = self.getattr(o, t.attr, fr, S, t)
            val = self.ev(st.value, fr, S)
            if cur.op == 'ref' and cur.args[1] == 'list' and op == 'Add':
                self.models.list_extend(self, cur, val, S, fr, st)
                return
            if cur.op == 'ref' and cur.args[1] == 'array':
                new = self.binop(op, cur, val, S, st, fr)
                S.set_content(cur, self.deref(new, S))
                return
            new = self.binop(op, cur, val, S, st, fr)
            self.setattr(o, t.attr, new, fr, S, t)
            return
        if isinstance(t, ast.Subscript):
            i = self.deref(self.ev(t.slice, fr, S), S)
            r = self.lv(t.value, fr, S)
            if r is None:
                o = self.ev(t.value, fr, S)
                val = self.ev(st.value, fr, S)
                self.event(S, 'mutate', o, i)
                return
            cur = self.getitem_path(r[0], r[1] + (i,), S)
            val = self.ev(st.value, fr, S)
            if cur.op == 'ref' and cur.args[1] == 'list' and op == 'Add':
                self.models.list_extend(self, cur, val, S, fr, st)
                return
            val = self.deref(val, S)
            curv = self.deref(cur, S)
            if op == 'Add' and self.is_listval(curv, S):
                self.store(r[0], r[1] + (i,), 'extend', val, S)
                return
            if op in ('Add', 'Sub') and i.op not in ('slice', 'tuple', 'ellipsis') and not strlike(curv) and not strlike(val):
                self.note(val, st, fr)
                self.store(r[0], r[1] + (i,), 'add', val if op == 'Add' else T.neg(val), S)
                return
            new = self.deref(self.binop(op, cur, val, S, st, fr), S)
            self.note(new, st, fr)
            self.store(r[0], r[1] + (i,), 'set', new, S)
            return
        raise GiveUp('augmented assignment')

    def is_listval(self, v, S):
        return v.op in ('seq', 'concat')

    def s_If(self, st, fr, S):
        c = self.assume(self.ev(st.test, fr, S), S)
        if c is TRUE:
            return self.block(st.body, fr, S)
        if c is FALSE:
            return self.block(st.orelse, fr, S)
        if tainted(c):
            c = T.node(T.opaque('condition'), TRUE, FALSE)
        A, B = S.copy(), S.copy()
        A.path, B.path = T.and_(S.path, c), T.and_(S.path, T.not_(c))
        fa = self.block(st.body, fr, A).shifted(c)
        fb = self.block(st.orelse, fr, B).shifted(T.not_(c))
        return join_flows(c, fa, fb)

    def s_With(self, st, fr, S):
        for item in st.items:
            v = self.ev(item.context_expr, fr, S)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr, S)
        return self.block(st.body, fr, S)

    def s_Try(self, st, fr, S):
        entry = S.copy()
        fl = self.block(st.body, fr, S)
        out = Flow(fl.live, fl.S)
        out.absorb(fl)
        excs, out.exc = out.exc, []
        if st.orelse and out.S is not None:
            f2 = self.block(st.orelse, fr, out.S).shifted(out.live)
            out.absorb(f2)
            out.live, out.S = f2.live, f2.S
        for c, S2, e in excs:
            handled = False
            for h in st.handlers:
                if self.handles(h, e, fr, S):
                    S3 = S2.copy()
                    if h.name:
                        self.assign_name(h.name, e, fr, S3)
                    fr.handling = e
                    f3 = self.block(h.body, fr, S3).shifted(c)
                    out2 = Flow(FALSE, None)
                    out2.absorb(f3)
                    out.absorb(out2)
                    if f3.S is not None and f3.live is not FALSE:
                        if out.S is None:
                            out.live, out.S = f3.live, f3.S
                        else:
                            out.S = merge(c, f3.S, out.S)
                            out.live = T.or_(f3.live, out.live)
                    handled = True
                    break
            if not handled:
                out.exc.append((c, S2, e))
        if st.finalbody and out.S is not None:
            f4 = self.block(st.finalbody, fr, out.S).shifted(out.live)
            out.absorb(f4)
            out.live, out.S = f4.live, f4.S
        return out

    def handles(self, h, e, fr, S):
        if h.type is None:
            return True
        names = []
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            if isinstance(t, ast.Name):
                names.append(t.id)
            elif isinstance(t, ast.Attribute):
                names.append(t.attr)
        en = e.args[0] if e.op == 'exc' else 'Exception'
        return en in names or any(p in names for p in EXC_PARENTS.get(en, ())) or 'BaseException' in names

    s_TryStar = s_Try

    # ------------------------------------------------------------ loops

    def s_For(self, st, fr, S):
        it = self.ev(st.iter, fr, S)
        prov = None
        return self.for_over(it, lambda v, S2, p: self.assign(st.target, v, fr, S2, p),
                             lambda S2: self.block(st.body, fr, S2), fr, S, st, st.orelse)

    def for_over(self, it, bind, body, fr, S, node, orelse=(), depth=0):
        """Interpret a loop over the abstract iterable `it`."""
        if it.op == 'ref' and it.args[1] == 'once':
            inner = self.models.take_once(self, it, S)
            S.set_content(it, UNDEF)
            out = self.for_over(inner, bind, body, fr, S, node, orelse, depth)
            if out.S is not None and not (isinstance(node, ast.For) and any(isinstance(x, ast.Break) for x in ast.walk(node))):
                out.S.set_content(it, T.seq(()))
            return out
        it2 = self.models.iterate(self, it, S, fr, node)
        # it2: list of segments, each is ('items', [(value, prov)...]) or
        # ('sym', bvs, doms, guard, value fn(S) -> (value, prov))
        out = Flow(TRUE, S)
        broke = []
        for seg in it2:
            if out.S is None:
                break
            if seg[0] == 'items':
                for v, p in seg[1]:
                    if out.S is None:
                        break
                    bind(v, out.S, p)
                    fl = body(out.S).shifted(out.live)
                    out.ret += fl.ret
                    out.exc += fl.exc
                    broke += fl.brk
                    live = []
                    if fl.S is not None:
                        live.append((fl.live, fl.S))
                    live += fl.cont
                    live = [x for x in live if x[0] is not FALSE]
                    if live:
                        m = merge_list(live)
                        out.live, out.S = m[0], m[1]
                    else:
                        out.live, out.S = FALSE, None
            else:
                fl = self.sym_loop(seg, bind, body, fr, out.S, node).shifted(out.live)
                out.ret += fl.ret
                out.exc += fl.exc
                broke += fl.brk
                out.live, out.S = fl.live, fl.S
        if orelse and out.S is not None:
            f2 = self.block(orelse, fr, out.S).shifted(out.live)
            out.absorb(f2)
            out.live, out.S = f2.live, f2.S
        for c, S2 in broke:
            if c is FALSE:
                continue
            if out.S is None:
                out.live, out.S = c, S2
            else:
                out.S = merge(c, S2, out.S)
                out.live = T.or_(c, out.live)
        return out

    def sym_loop(self, seg, bind, body, fr, S, node):
        _, bvs, doms, guard, valfn = seg
        self.loops += 1
        entry = S.copy()
        carried = {}
        mark = watermark()
        pend_base = len(self.pending)
        for attempt in range(12):
            if attempt == 11:
                self.debug('unstable', self.where(node, fr), [repr(l)[:300] for l in new])
            del self.pending[pend_base:]
            S1 = entry.copy()
            for loc, c in carried.items():
                S1.d[loc] = c
            if guard is not TRUE:
                S1.path = T.and_(S1.path, guard)
            v, p = valfn(S1)
            bind(v, S1, p)
            try:
                fl = body(S1)
            except Raised as e:
                fl = Flow(FALSE, None)
                fl.exc.append((TRUE, S1, e.exc))
            live = [(fl.live, fl.S)] if fl.S is not None and fl.live is not FALSE else []
            live += [x for x in fl.cont if x[0] is not FALSE]
            outs = [x[1] for x in live] + [x[1] for x in fl.brk if x[0] is not FALSE] + [x[1] for x in fl.ret if x[0] is not FALSE]
            new = set()
            for So in outs:
                for loc, val in So.d.items():
                    if loc[0] == 'p' or loc in carried:
                        continue
                    if not self.entry_loc(loc, entry, mark, fr):
                        continue
                    old = entry.d.get(loc, UNDEF)
                    if old is not val:
                        new.add(loc)
            if not new:
                break
            for loc in new:
                carried[loc] = T.fresh('c')
                init = entry.d.get(loc, UNDEF)
                if init is not UNDEF:
                    self.carried_init[carried[loc]] = init
                    if loc[0] == 'c' and REFKIND.get(loc[1]) == 'array' and isinstance(init, T.Term):
                        n = T.mk_len(init)
                        if T.is_num(n) and 0 < n.args[0] <= 4:
                            T.KNOWN_LEN[carried[loc]] = int(n.args[0])
                    r = T_rank(init) if isinstance(init, T.Term) and init.op not in ('ref', 'phi') else None
                    if r is not None and r > 1:
                        self.models.RANK[carried[loc]] = r
        else:
            raise GiveUp('loop does not stabilise')
        exc = [(c, S2, e) for c, S2, e in fl.exc if c is not FALSE]
        if live:
            nx = merge_list(live)
            # exits and continues are exclusive: the state that goes on
            nxt = nx[1]
        else:
            nxt = None
        vals = {}
        for loc in carried:
            vals[loc] = self.escape(nxt.d.get(loc, UNDEF), nxt, mark) if nxt is not None else carried[loc]
        exits = [('brk', c, S2, None) for c, S2 in fl.brk if c is not FALSE] + \
                [('ret', c, S2, v) for c, S2, v in fl.ret if c is not FALSE]
        if exits:
            return self.loop_with_exits(seg, entry, carried, vals, exits, exc, nxt, mark, fr, node)
        R = entry.copy()
        closed = self.summarise(carried, vals, entry, bvs, doms, guard, node, fr)
        for loc, val in closed.items():
            if val is UNDEF:
                R.d.pop(loc, None)
            else:
                R.d[loc] = val
        self.adopt(R, nxt, mark)
        out = Flow(TRUE, R)
        for c, S2, e in exc:
            ec = T.mk_exists(bvs, doms, T.and_(guard, c)) if not self.dep(c, carried) else T.node(T.opaque('raise in loop'), TRUE, FALSE)
            out.exc.append((ec, entry.copy(), e))
            out.live = T.and_(out.live, T.not_(ec))
        return out

    def adopt(self, R, nxt, mark):
        """Keep the objects created by the loop body that may still be referred to."""
        if nxt is None:
            return
        for loc, val in nxt.d.items():
            if loc not in R.d and loc[0] in ('a', 'c', 'own') and loc[1] > mark:
                R.d[loc] = val

    def entry_loc(self, loc, entry, mark, fr):
        k = loc[0]
        if k == 'v':
            return loc in entry.d or loc[1] == fr.env
        if k in ('a', 'c', 'own'):
            return loc[1] <= mark
        if k in ('fx', 'm'):
            return True
        return False

    def dep(self, t, carried):
        ids = frozenset(c.args[0] for c in carried.values())
        return bool(t.bvs & ids)

    def escape(self, t, S, mark):
        """Replace references to objects created by the loop body by their values."""
        if not has_ref(t):
            return t
        if t.op == 'ref':
            if t.args[0] <= mark:
                return t
            return self.escape(self.embed_fresh(t, S), S, mark)
        if t.op == 'phi':
            return T.ite(T.node(t.args[0], TRUE, FALSE), self.escape(t.args[1], S, mark), self.escape(t.args[2], S, mark))
        sub = {}
        for x in T.subterms(t):
            if x.op == 'ref' and x.args[0] > mark:
                sub[x] = self.escape(self.embed_fresh(x, S), S, mark)
        return T.replace(t, sub) if sub else t

    def embed_fresh(self, r, S):
        v = self.embed1(r, S)
        if r.args[1] == 'ext' and v.op != 'objwith' and ('own', r.args[0]) in S.d:
            return T.mk('copyof', v)
        return v

    # -- closed forms

    def summarise(self, carried, vals, entry, bvs, doms, guard, node, fr, need=None):
        """Closed forms of the carried locations after the whole loop."""
        todo = dict(vals)
        closed = {}
        sub = {}
        if len(bvs) == 1 and guard is TRUE:
            # values at the beginning of an iteration, for simple inductions
            progress = True
            known = {}
            while progress:
                progress = False
                for loc, v in list(todo.items()):
                    if loc in known:
                        continue
                    v2 = T.subst(v, sub) if sub else v
                    c = carried[loc]
                    pre = self.prefix_value(loc, c, v2, entry, bvs, doms, carried, sub)
                    if pre is not None:
                        known[loc] = pre
                        sub[c] = pre
                        # earlier forms may mention c
                        progress = True
        for loc, v in todo.items():
            c = carried[loc]
            s2 = {k: x for k, x in sub.items() if k is not c}
            v2 = T.subst(v, s2) if s2 and (v.bvs & frozenset(k.args[0] for k in s2)) else v
            others = {l: x for l, x in carried.items() if l != loc}
            if self.dep(v2, others):
                closed[loc] = None
                continue
            try:
                closed[loc] = self.closed_form(loc, c, v2, entry.d.get(loc, UNDEF), bvs, doms, guard, node, fr)
            except GiveUp:
                closed[loc] = None
        rest = [loc for loc in closed if closed[loc] is None]
        more = list(rest)
        while more:
            # whatever the entangled locations read takes part in the fold
            v = T.subst(vals[more[0]], sub) if sub else vals[more[0]]
            del more[0]
            for l in todo:
                if l not in rest and carried[l].args[0] in v.bvs:
                    rest.append(l)
                    more.append(l)
        keep = dict(closed)
        if rest:
            rest.sort(key=repr)
            # a joint fold of the entangled locations; its components are identified by
            # their own initial value and step, not by name
            init = tuple(entry.d.get(l, UNDEF) for l in rest)
            step = tuple(T.subst(vals[l], {k: x for k, x in sub.items()
                                           if k not in [carried[q] for q in rest]}) for l in rest)
            order = sorted(range(len(rest)), key=lambda k: (init[k].key, rest[k][0]))
            cs = tuple(carried[rest[k]] for k in order)
            ini = tuple(init[k] for k in order)
            stp = tuple(step[k] for k in order)
            for pos, k in enumerate(order):
                if keep.get(rest[k]) is not None:
                    continue
                closed[rest[k]] = T.close('rec', tuple(bvs) + cs, tuple(doms) + tuple(NONE for _ in cs),
                                          (guard, T.mk('tuple', ini), T.mk('tuple', stp), T.num(pos)))
                self.gaveup.append(('fold', self.where(node, fr) + ' ' + repr(rest[k])))
        return closed

    def prefix_value(self, loc, c, v, entry, bvs, doms, carried, sub):
        """Value of a carried location at the beginning of an iteration."""
        i, D = bvs[0], doms[0]
        if D.op != 'range' or D.args[2] is ZERO:
            return None
        init = entry.d.get(loc, UNDEF)
        if init is UNDEF:
            return None
        if loc[0] == 'c' or init.op in ('ref', 'obj'):
            if loc[0] == 'c' and REFKIND.get(loc[1]) == 'list':
                # appended lists
                parts = parts_of(v)
                if len(parts) >= 2 and parts[0] is c:
                    rest = T.concat(parts[1:])
                    if not (rest.bvs & frozenset([c.args[0]])) and not self.dep(rest, carried):
                        w = T.fresh('i')
                        lo, st = D.args[0], D.args[2]
                        dom = T.mk('range', lo, i, st)
                        return T.concat([init] + self.comp_of((w,), (dom,), TRUE, T.subst(rest, {i: w})))
            return None
        delta = T.sub(v, c)
        if (delta.bvs & frozenset([c.args[0]])) or self.dep(delta, carried):
            return None
        if not (delta.bvs & frozenset([i.args[0]])):
            k = T.div(T.sub(i, D.args[0]), D.args[2])
            return T.add(init, T.mul(delta, k))
        w = T.fresh('i')
        dom = T.mk('range', D.args[0], i, D.args[2])
        return T.add(init, T.mk_sum((w,), (dom,), T.subst(delta, {i: w})))

    def comp_of(self, bvs, doms, guard, appended):
        """Parts of the list obtained by appending `appended` (a list content) at every iteration."""
        if appended.op == 'phi':
            # guarded appends
            leaves = T.leaves(appended)
            empty = T.seq(())
            if len(leaves) == 2 and empty in leaves:
                other = [x for x in leaves if x is not empty][0]
                c = cond_of(appended, other)
                return self.comp_of(bvs, doms, T.and_(guard, c), other)
            if all(x.op == 'seq' and len(x.args[0]) == 1 for x in leaves):
                val = map_leaves(appended, lambda x: x.args[0][0])
                return [T.mk_comp(bvs, doms, guard, val)]
        if appended.op == 'seq':
            if len(appended.args[0]) == 1:
                return [T.mk_comp(bvs, doms, guard, appended.args[0][0])]
            if not appended.args[0]:
                return []
        if appended.op == 'comp':
            d2, g2, b2, v2 = T.open_comp(appended)
            return [T.mk_comp(tuple(bvs) + tuple(v2), tuple(doms) + tuple(d2), T.and_(guard, g2), b2)]
        if appended.op not in ('concat', 'phi', 'seq'):
            w = T.fresh('i')
            n = T.mk_len(appended)
            return [T.mk_comp(tuple(bvs) + (w,), tuple(doms) + (T.mk_range(ZERO, n, ONE),), guard, T.mk_index(appended, w))]
        return [T.close('flat', tuple(bvs), tuple(doms), (guard, appended))]

    def closed_form(self, loc, c, v, init, bvs, doms, guard, node, fr):
        ids = frozenset([c.args[0]])
        binders = frozenset(b.args[0] for b in bvs)
        if v is c:
            return init
        if not (v.bvs & ids):
            return self.last_value(v, init, bvs, doms, guard)
        kind = REFKIND.get(loc[1]) if loc[0] == 'c' else None
        if loc[0] == 'fx':
            kind = 'list'
        # appended lists
        if kind == 'list' or v.op == 'concat':
            parts = parts_of(v)
            if parts and parts[0] is c:
                rest = T.concat(parts[1:])
                if not (rest.bvs & ids):
                    return T.concat([init] + self.comp_of(bvs, doms, guard, rest))
                raise GiveUp('list')
        if loc[0] == 'c':
            b, groups = base_groups(v)
            if b is c:
                return self.close_groups(c, groups, init, bvs, doms, guard)
        # accumulations
        delta = T.sub(v, c) if not strlike(v) else None
        if delta is not None and not (delta.bvs & ids):
            return T.add(init, T.mk_sum(bvs, doms, T.ite(guard, delta, ZERO)))
        if v.op == 'strcat' and v.args[0][0] is c:
            rest = T.strcat(list(v.args[0][1:]))
            if not (rest.bvs & ids):
                return T.strcat([init, T.mk('strjoin', T.concat(self.comp_of(bvs, doms, guard, T.seq((rest,)))))])
        ratio = T.div(v, c) if v.op == 'poly' else None
        if ratio is not None and not (ratio.bvs & ids):
            return T.mul(init, T.close('prod', bvs, doms, (guard, ratio)))
        if v.op == 'phi':
            # conditional overwriting: value of the last iteration where it happens
            lv = T.leaves(v)
            if c in lv and not any(x.bvs & ids for x in lv if x is not c):
                keep = cond_of(v, c)
                if not (keep.bvs & ids):
                    upd = T.not_(keep)
                    val = map_leaves(v, lambda x: UNDEF if x is c else x)
                    return T.close('last', bvs, doms, (T.and_(guard, upd), val, init))
        if v.op in ('min', 'max') and c in v.args[0]:
            rest = [x for x in v.args[0] if x is not c]
            if not any(x.bvs & ids for x in rest):
                return T.mk(v.op, tuple(sorted([init, T.close(v.op + 'over', bvs, doms, (guard, T.mk_minmax(v.op, rest)))],
                                               key=lambda t: t.key)))
        raise GiveUp('recurrence')

    def last_value(self, v, init, bvs, doms, guard):
        binders = frozenset(b.args[0] for b in bvs)
        if not (v.bvs & binders) and guard is TRUE and len(bvs) == 1:
            n = T.mk_len(doms[0])
            return v if init is UNDEF or init is v else T.ite(T.lt(ZERO, n), v, init)
        if len(bvs) == 1 and guard is TRUE:
            n = T.mk_len(doms[0])
            x = T.subst(v, {bvs[0]: T.mk_index(doms[0], T.sub(n, ONE))})
            if init is UNDEF:
                return x
            return T.ite(T.lt(ZERO, n), x, init)
        return T.close('last', bvs, doms, (guard, v, init))

    def close_groups(self, c, groups, init, bvs, doms, guard):
        ids = frozenset([c.args[0]])
        out = []
        for g in groups:
            d2, gu, path, kind, val, v2 = T.open_upd1(g)
            if any(p.bvs & ids for p in path) or any(d.bvs & ids for d in d2):
                raise GiveUp('keys')
            kind2, gu2, val2 = self.normal_store(c, path, kind, gu, val)
            if (gu2.bvs & ids) or (val2.bvs & ids):
                if len(groups) != 1 or kind2 != 'set' or v2 or len(bvs) != 1:
                    raise GiveUp('reads of the container')
                val2 = self.resolve_reads(c, path, gu2, val2, init, bvs, doms, guard)
                gu2 = self.resolve_reads(c, path, gu2, gu2, init, bvs, doms, guard)
            out.append(T.mk_upd1(tuple(bvs) + tuple(v2), tuple(doms) + tuple(d2), T.and_(guard, gu2), path, kind2, val2))
            if kind2 in ('add', 'append') and init.op == 'dict0' and init.args[0] is NONE:
                init = T.mk('dict0', ZERO if kind2 == 'add' else T.seq(()))
        kinds = {g.args[4] for g in out}
        if len(out) > 1 and kinds != {'add'}:
            # the groups of one iteration are interleaved: keys must be disjoint
            for a in range(len(out)):
                for b in range(a):
                    if not T._distinct(self.gpath(out[a]), self.gpath(out[b])):
                        if not (out[a].args[4] == out[b].args[4] == 'append' or out[a].args[4] == out[b].args[4] == 'add'):
                            if not self.same_iteration(out[a], out[b]):
                                raise GiveUp('interleaved updates')
        return T.mk_upd(init, tuple(out))

    def gpath(self, g):
        return T.open_upd1(g)[2]

    def same_iteration(self, a, b):
        """Keys of the two groups coincide only within the same iteration."""
        da, ga, pa, ka, va, ba = T.open_upd1(a)
        db, gb, pb, kb, vb, bb = T.open_upd1(b)
        # path must determine the binders
        m = {}
        for x, y in zip(pa, pb):
            m2 = T.match(x, y, ba, m)
            if m2 is None:
                return False
            m = m2
        return len(m) == len(ba) and all(m[x] in bb for x in ba)

    def normal_store(self, c, path, kind, gu, val):
        """Turn reads-then-writes of the same key into additions or appends."""
        if kind != 'set':
            return kind, gu, val
        cur = T.mk_get(c, path)
        if cur not in T.subterms(val):
            # first-wins insertion
            key = self.models.in_term(path[-1], c if len(path) == 1 else T.mk_get(c, path[:-1]))
            if key.op == 'phi' and gu.op == 'phi' and gu is T.not_(key):
                return 'setd', TRUE, val
            if key.op == 'phi' and T.and_(gu, key) is FALSE and len(T.atoms_of(key)) == 1:
                rest = T.restrict(gu, T.atoms_of(key)[0], False)
                return 'setd', rest, val
            return kind, gu, val
        if val.op in ('concat',):
            ps = parts_of(val)
            if ps[0] is cur and len(ps) == 2 and ps[1].op == 'seq' and len(ps[1].args[0]) == 1:
                if cur not in T.subterms(ps[1]):
                    return 'append', gu, ps[1].args[0][0]
        d = T.sub(val, cur)
        if cur not in T.subterms(d):
            return 'add', gu, d
        if val.op == 'phi':
            key = self.models.in_term(path[-1], c if len(path) == 1 else T.mk_get(c, path[:-1]))
            if key.op == 'phi':
                at = T.atoms_of(key)[0]
                hi, lo = T.restrict(val, at, True), T.restrict(val, at, False)
                d = T.sub(hi, cur)
                if cur not in T.subterms(d) and d is lo:
                    return 'add', gu, d
        return kind, gu, val

    def resolve_reads(self, c, path, gu, val, init, bvs, doms, guard, depth=0):
        """Reads of a container while its entries are overwritten one per iteration."""
        i = bvs[0]
        reads = [t for t in T.subterms(val) if t.op == 'get' and t.args[0] is c]
        lens = [t for t in T.subterms(val) if t.op == 'len' and t.args[0] is c]
        if depth > 2:
            raise GiveUp('reads')
        sub = {}
        for t in lens:
            sub[t] = T.mk_len(init)
        for t in reads:
            p2 = t.args[1]
            m = {}
            for a, b in zip(path, p2):
                m = T.match(a, b, (i,), m)
                if m is None:
                    break
            if m is None:
                if T._distinct(path, p2):
                    sub[t] = T.mk_get(init, p2)
                    continue
                raise GiveUp('reads')
            if i not in m:
                raise GiveUp('reads')
            j0 = m[i]
            if j0.bvs & frozenset([c.args[0]]):
                raise GiveUp('reads')
            before = T.lt(j0, i)
            ini = T.mk_get(init, p2)
            if before is FALSE:
                sub[t] = ini
            else:
                # must be covered by the domain
                v0 = T.subst(val, {i: j0})
                v0 = self.resolve_reads(c, path, gu, v0, init, bvs, doms, guard, depth + 1) if depth == 0 and v0 is not val else None
                if v0 is None or (v0.bvs & frozenset([c.args[0]])) or len(p2) != len(path) or gu is not TRUE or guard is not TRUE:
                    raise GiveUp('reads')
                sub[t] = T.ite(before, v0, ini)
        r = T.replace(val, sub) if sub else val
        if r.bvs & frozenset([c.args[0]]):
            raise GiveUp('reads')
        return r

    # -- loops with exits

    def loop_with_exits(self, seg, entry, carried, vals, exits, exc, nxt, mark, fr, node):
        _, bvs, doms, guard, valfn = seg
        if len(bvs) != 1:
            # several binders: only an existence test can be summarised
            if nxt is None or all(vals[l] is carried[l] for l in carried if l[0] != 'v'):
                pass
            bvs2 = bvs
        i, D = bvs[0], doms[0]
        E = FALSE
        for kind, c, S2, v in exits:
            E = T.or_(E, c)
        # values at the beginning of the iteration
        sub = {}
        if len(bvs) == 1 and guard is TRUE and D.op == 'range':
            progress = True
            while progress:
                progress = False
                for loc in carried:
                    c = carried[loc]
                    if c in sub:
                        continue
                    v2 = T.subst(vals[loc], sub) if sub else vals[loc]
                    if v2 is c:
                        pre = entry.d.get(loc, UNDEF)
                    else:
                        pre = self.prefix_value(loc, c, v2, entry, bvs, doms, carried, sub)
                        if pre is None and loc[0] in ('c', 'fx', 'a', 'v') and not self.dep(v2, {l: x for l, x in carried.items() if l != loc}):
                            # prefix by truncation of the domain
                            w = T.fresh('i')
                            dom = T.mk('range', D.args[0], i, D.args[2])
                            try:
                                pre = self.closed_form(loc, c, T.subst(v2, {i: w}), entry.d.get(loc, UNDEF), (w,), (dom,), guard, node, fr)
                            except GiveUp:
                                pre = None
                    if pre is not None:
                        sub[c] = pre
                        progress = True
        E2 = T.subst(E, sub) if sub else E
        if self.dep(E2, carried):
            self.gaveup.append(('loop exit', self.where(node, fr)))
            R = entry.copy()
            for loc in carried:
                R.d[loc] = T.opaque('loop exit')
            out = Flow(TRUE, R)
            for kind, c, S2, v in exits:
                if kind == 'ret':
                    out.ret.append((T.node(T.opaque('loop exit'), TRUE, FALSE), R.copy(), T.opaque('loop exit')))
            return out
        cond = T.and_(guard, E2)
        ex = self.assume(T.mk_exists(bvs, doms, cond))
        out = Flow(T.not_(ex), None)
        # no exit: the whole domain
        R = entry.copy()
        if nxt is not None:
            closed = self.summarise(carried, vals, entry, bvs, doms, guard, node, fr)
            for loc, val in closed.items():
                if val is UNDEF:
                    R.d.pop(loc, None)
                else:
                    R.d[loc] = val
            self.adopt(R, nxt, mark)
        out.S = R
        if len(bvs) == 1:
            f = T.mk_first(bvs, doms, cond)
            at = {i: f}
        else:
            f = T.close('firsts', bvs, doms, (cond,))
            at = {b: T.mk_index(f, T.num(k)) for k, b in enumerate(bvs)}
        for kind, c, S2, v in exits:
            c2 = T.subst(T.subst(c, sub), at) if len(exits) > 1 else TRUE
            X = entry.copy()
            bad = False
            for loc in carried:
                val = self.escape(S2.d.get(loc, UNDEF), S2, mark)
                val = T.subst(val, sub)
                val = T.subst(val, at)
                if self.dep(val, carried):
                    val = T.opaque('value at loop exit')
                    self.gaveup.append(('value at loop exit', self.where(node, fr)))
                if val is UNDEF:
                    X.d.pop(loc, None)
                else:
                    X.d[loc] = val
            self.adopt(X, S2, mark)
            if kind == 'brk':
                out.brk.append((T.and_(ex, c2), X))
            else:
                v = self.escape(v, S2, mark)
                v = T.subst(T.subst(v, sub), at)
                if self.dep(v, carried):
                    v = T.opaque('value at loop exit')
                out.ret.append((T.and_(ex, c2), X, v))
        for c, S2, e in exc:
            c2 = T.subst(c, sub)
            ec = T.mk_exists(bvs, doms, T.and_(guard, c2)) if not self.dep(c2, carried) else T.node(T.opaque('raise in loop'), TRUE, FALSE)
            out.exc.append((ec, entry.copy(), e))
        return out

    def s_While(self, st, fr, S):
        """Loops controlled by an induction variable, or left by break/return."""
        self.loops += 1
        # concrete unrolling
        S0 = S
        n = 0
        out = Flow(TRUE, S)
        broke = []
        trial = S.copy()
        while n < 64 and out.S is not None:
            saved = list(self.pending)
            c = self.assume(self.ev(st.test, fr, out.S), out.S)
            if c is FALSE:
                break
            if c is not TRUE:
                n = -1
                break
            if isinstance(st.test, ast.Constant):
                n = -1
                break
            fl = self.block(st.body, fr, out.S).shifted(out.live)
            out.ret += fl.ret
            out.exc += fl.exc
            broke += fl.brk
            live = ([(fl.live, fl.S)] if fl.S is not None else []) + fl.cont
            live = [x for x in live if x[0] is not FALSE]
            if live:
                m = merge_list(live)
                out.live, out.S = m[0], m[1]
            else:
                out.live, out.S = FALSE, None
            n += 1
        if n != -1 and n < 64:
            return self.finish_loop(out, broke, st.orelse, fr)
        S = trial
        # symbolic: k counts the iterations
        k = T.fresh('i')

        def probe(nmax):
            seg = ('sym', (k,), (T.mk('range', ZERO, nmax, ONE),), TRUE, lambda S2: (NONE, None))
            return seg
        info = {}

        def body(S2):
            c = self.assume(self.ev(st.test, fr, S2), S2)
            info['cond'] = c
            A = S2
            A.path = T.and_(A.path, c)
            fl = self.block(st.body, fr, A).shifted(c)
            nc = T.not_(c)
            if nc is not FALSE:
                # leaving through the condition is a break
                fl.brk.append((nc, S2.copy() if fl.S is S2 else S2.copy()))
            return fl
        # The number of iterations is found as the first index at which an exit is taken
        big = T.sym('#unbounded')
        entry_copy = S.copy()

        def body2(S2):
            c = self.assume(self.ev(st.test, fr, S2), S2)
            B = S2.copy()
            S2.path = T.and_(S2.path, c)
            fl = self.block(st.body, fr, S2).shifted(c)
            nc = T.not_(c)
            if nc is not FALSE:
                fl.brk.append((nc, B))
            return fl
        fl = self.sym_loop(('sym', (k,), (T.mk('range', ZERO, big, ONE),), TRUE, lambda S2: (NONE, None)),
                           lambda v, S2, p: None, body2, fr, S, st)
        o = Flow(FALSE, None)
        o.ret, o.exc = fl.ret, fl.exc
        # the loop ends: existence of the exit holds
        ex = None
        for c, S2 in fl.brk:
            pass
        brks = [(TRUE if len(fl.brk) + len(fl.ret) == 1 else self.always(c), S2) for c, S2 in fl.brk]
        o.ret = [(TRUE if len(fl.brk) + len(fl.ret) == 1 else self.always(c), S2, v) for c, S2, v in fl.ret]
        for c, S2 in brks:
            if o.S is None:
                o.live, o.S = c, S2
            else:
                o.S = merge(c, S2, o.S)
                o.live = T.or_(c, o.live)
        return o

    def always(self, c):
        for a in T.atoms_of(c):
            if a.op == 'exists':
                c = T.restrict(c, a, True)
        return c

    def finish_loop(self, out, broke, orelse, fr):
        if orelse and out.S is not None:
            f2 = self.block(orelse, fr, out.S).shifted(out.live)
            out.absorb(f2)
            out.live, out.S = f2.live, f2.S
        for c, S2 in broke:
            if c is FALSE:
                continue
            if out.S is None:
                out.live, out.S = c, S2
            else:
                out.S = merge(c, S2, out.S)
                out.live = T.or_(c, out.live)
        return out

    # ------------------------------------------------------------ containers

    def getitem(self, o, i, S, node=None, fr=None):
        if o.op == 'phi' and has_ref(o):
            return self.fork(o, S, lambda x, S2: self.getitem(x, i, S2, node, fr))
        if o.op == 'ref':
            return self.getitem_path(o, (i,), S, node, fr)
        return self.models.index(self, o, i, S)

    def getitem_path(self, ref, path, S, node=None, fr=None):
        kind = ref.args[1]
        if kind == 'inst':
            f = self.find_method(ref, '__getitem__')
            if f is not None:
                return self.call_func(f, [ref, path[0]], {}, S)
            raise GiveUp('subscript of an instance')
        c = S.content(ref)
        if kind == 'ext':
            c = self.embed1(ref, S)
        r = c
        for k, p in enumerate(path):
            if r.op == 'ref':
                return self.getitem_path(r, path[k:], S, node, fr)
            if r.op == 'phi' and has_ref(r):
                rest = path[k:]
                return self.fork(r, S, lambda x, S2: self.getitem_any(x, rest, S2))
            if k == 0 and kind == 'dict' and p.op in ('seq', 'tuple') and r.op not in ('dict0', 'phi') and not (r.op == 'upd' and r.args[0].op == 'dict0'):
                # a key, not a list of indices
                r = T.mk_get(r, (p,))
                continue
            r = self.models.index(self, r, p, S)
        return r

    def getitem_any(self, x, path, S):
        if x.op == 'ref':
            return self.getitem_path(x, path, S)
        for p in path:
            x = self.models.index(self, x, p, S)
        return x

    def fork(self, t, S, fn):
        """Evaluate fn on the alternatives of a phi value."""
        c = T.node(t.args[0], TRUE, FALSE)
        d = self.assume(c, S)
        if d is TRUE:
            return self.fork1(t.args[1], S, fn)
        if d is FALSE:
            return self.fork1(t.args[2], S, fn)
        A, B = S.copy(), S.copy()
        A.path, B.path = T.and_(S.path, c), T.and_(S.path, T.not_(c))
        ra = rb = None
        try:
            ra = self.guarded(lambda: self.fork1(t.args[1], A, fn), c)
        except Raised as e:
            ea = e
        try:
            rb = self.guarded(lambda: self.fork1(t.args[2], B, fn), T.not_(c))
        except Raised as e:
            if ra is None:
                raise
            self.pending.append((T.not_(c), B, e.exc))
            S.become(A)
            return ra
        if ra is None:
            self.pending.append((c, A, ea.exc))
            S.become(B)
            return rb
        path = S.path
        S.become(merge(c, A, B))
        S.path = path
        return T.ite(c, ra, rb)

    def fork1(self, t, S, fn):
        if t.op == 'phi':
            return self.fork(t, S, fn)
        return fn(t, S)

    def store(self, ref, path, kind, val, S):
        """Update the entry at `path` below the container `ref`."""
        # nested references
        c = S.content(ref)
        for k in range(1, len(path)):
            sub = c
            try:
                for p in path[:k]:
                    sub = self.models.peek_index(sub, p)
            except GiveUp:
                break
            if sub.op == 'ref':
                return self.store(sub, path[k:], kind, val, S)
            if sub.op == 'phi' and has_ref(sub):
                cnd = T.node(sub.args[0], TRUE, FALSE)
                raise GiveUp('store through joined references')
        if ref.args[1] == 'inst':
            f = self.find_method(ref, '__setitem__')
            raise GiveUp('store into an instance')
        if ref.args[1] == 'ext':
            self.event(S, 'mutate', S.content(ref), T.mk('tuple', path))
            return
        S.set_content(ref, self.models.update(self, ref.args[1], c, path, kind, val, S))

    def lv(self, node, fr, S):
        """(reference, path) designated by an expression, or None"""
        if isinstance(node, ast.Name):
            v = self.lookup(node.id, fr, S)
            if v.op == 'ref':
                return (v, ())
            p = self.prov_of(node.id, fr, S)
            if p is not None:
                return (p.args[0], p.args[1])
            return None
        if isinstance(node, ast.Subscript):
            r = self.lv(node.value, fr, S)
            if r is None:
                return None
            i = self.deref(self.ev(node.slice, fr, S), S)
            v = self.getitem_path(r[0], r[1] + (i,), S)
            if v.op == 'ref':
                return (v, ())
            return (r[0], r[1] + (i,))
        if isinstance(node, ast.Attribute):
            o = self.ev(node.value, fr, S)
            v = self.getattr(o, node.attr, fr, S, node)
            if v.op == 'ref':
                return (v, ())
            if o.op == 'ref':
                return None
            r = self.lv(node.value, fr, S)
            if r is not None and r[1]:
                return (r[0], r[1] + (T.mk('attrkey', node.attr),))
            return None
        v = self.ev(node, fr, S)
        if v.op == 'ref':
            return (v, ())
        return None

    # ------------------------------------------------------------ expressions

    def ev(self, node, fr, S):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise GiveUp('expression %s' % type(node).__name__)
        v = m(node, fr, S)
        return v

    def e_Constant(self, n, fr, S):
        v = n.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return T.ELL
        if isinstance(v, bool):
            return T.boolean(v)
        if isinstance(v, (int, float)):
            return T.num(v)
        if isinstance(v, str):
            return T.string(v)
        if isinstance(v, complex):
            return T.add(T.num(v.real), T.mul(T.num(v.imag), T.IMAG))
        return T.mk('sym', 'const:%r' % (v,))

    def e_Name(self, n, fr, S):
        return self.lookup(n.id, fr, S)

    def e_Tuple(self, n, fr, S):
        return self.seq_literal(n.elts, fr, S)

    def seq_literal(self, elts, fr, S):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(self.models.list_content(self, self.ev(e.value, fr, S), S, fr, e))
            else:
                parts.append(T.seq((self.ev(e, fr, S),)))
        c = T.concat(parts)
        return c

    def e_List(self, n, fr, S):
        return S.alloc('list', self.seq_literal(n.elts, fr, S))

    def e_Set(self, n, fr, S):
        return T.call('set', self.deref(self.seq_literal(n.elts, fr, S), S))

    def e_Dict(self, n, fr, S):
        r = S.alloc('dict', T.mk('dict0', NONE))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(self, r, self.ev(v, fr, S), S, fr, n)
                continue
            kk = self.deref(self.ev(k, fr, S), S)
            self.store(r, (kk,), 'set', self.ev(v, fr, S), S)
        return r

    def e_JoinedStr(self, n, fr, S):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(T.string(v.value))
            else:
                x = self.deref(self.ev(v.value, fr, S), S)
                spec = ''
                if v.format_spec is not None:
                    s = self.e_JoinedStr(v.format_spec, fr, S)
                    spec = T.const(s) if s.op == 'str' else '?'
                if v.conversion not in (-1, 115):
                    spec = '!' + chr(v.conversion) + spec
                parts.append(self.models.tostr(x, spec))
        return T.strcat(parts)

    def e_Lambda(self, n, fr, S):
        return self.make_func(n, fr, S)

    def e_IfExp(self, n, fr, S):
        c = self.assume(self.ev(n.test, fr, S), S)
        if c is TRUE:
            return self.ev(n.body, fr, S)
        if c is FALSE:
            return self.ev(n.orelse, fr, S)
        return self.fork2(c, S, lambda S2: self.ev(n.body, fr, S2), lambda S2: self.ev(n.orelse, fr, S2))

    def fork2(self, c, S, fa, fb):
        return self.fork(T.ite(c, TRUE, FALSE) if False else self._bphi(c), S,
                         lambda x, S2: fa(S2) if x is TRUE else fb(S2))

    def _bphi(self, c):
        return c

    def e_BoolOp(self, n, fr, S):
        is_and = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr, S)
        for x in n.values[1:]:
            c = self.assume(self.truth(v, S), S)
            if is_and:
                if c is FALSE:
                    return v if v.op != 'phi' else FALSE
                if c is TRUE:
                    v = self.ev(x, fr, S)
                    continue
                S2 = S.copy()
                S2.path = T.and_(S.path, c)
                try:
                    w = self.guarded(lambda: self.ev(x, fr, S2), c)
                except Raised as e:
                    # only the short-circuited evaluation goes on
                    self.pending.append((c, S2, e.exc))
                    w = FALSE
                else:
                    self.take_effects(c, S2, S)
                v = T.ite(c, self.truth_or(w, S, v), FALSE if self.boolish(v) else v)
            else:
                if c is TRUE:
                    return v if v.op != 'phi' or not self.boolish(v) else TRUE
                if c is FALSE:
                    v = self.ev(x, fr, S)
                    continue
                S2 = S.copy()
                S2.path = T.and_(S.path, T.not_(c))
                try:
                    w = self.guarded(lambda: self.ev(x, fr, S2), T.not_(c))
                except Raised as e:
                    self.pending.append((T.not_(c), S2, e.exc))
                    w = FALSE
                else:
                    self.take_effects(T.not_(c), S2, S)
                v = T.ite(c, TRUE if self.boolish(v) else v, self.truth_or(w, S, v))
        return v

    def guarded(self, fn, c):
        """Evaluate an operand that is only reached under a condition."""
        k = len(self.pending)
        r = fn()
        for j in range(k, len(self.pending)):
            p = self.pending[j]
            self.pending[j] = (T.and_(c, p[0]), p[1], p[2])
        return r

    def take_effects(self, c, S2, S):
        if any(S.d.get(k) is not v for k, v in S2.d.items()):
            p = S.path
            S.become(merge(c, S2, S.copy()))
            S.path = p

    def boolish(self, v):
        return all(x.op == 'bool' for x in T.leaves(v))

    def truth_or(self, w, S, v):
        return self.truth(w, S) if self.boolish(v) else w

    def truth(self, v, S):
        """Truth value of an abstract value."""
        if v.op == 'phi' and has_ref(v):
            return T.ite(T.node(v.args[0], TRUE, FALSE), self.truth(v.args[1], S), self.truth(v.args[2], S))
        if v.op == 'ref':
            k = v.args[1]
            if k == 'list':
                return T.not_(T.eq0(T.mk_len(S.content(v)))) if S.content(v).op not in ('seq',) else T.boolean(len(S.content(v).args[0]) > 0)
            if k == 'dict':
                return T.not_(T.eq0(self.models.dict_len(S.content(v))))
            if k in ('inst', 'ext', 'once'):
                return TRUE
            return T.as_cond(self.deref(v, S))
        if v.op == 'obj':
            return TRUE
        return T.as_cond(v)

    def e_UnaryOp(self, n, fr, S):
        if isinstance(n.op, ast.Not):
            return T.not_(self.truth(self.ev(n.operand, fr, S), S))
        v = self.deref(self.ev(n.operand, fr, S), S)
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.models.invert(v)
        raise GiveUp('unary')

    def e_BinOp(self, n, fr, S):
        a = self.ev(n.left, fr, S)
        b = self.ev(n.right, fr, S)
        return self.note(self.binop(type(n.op).__name__, a, b, S, n, fr), n, fr)

    def binop(self, op, a, b, S, node, fr):
        return self.models.binop(self, op, a, b, S, node, fr)

    def e_Compare(self, n, fr, S):
        left = self.ev(n.left, fr, S)
        r = None
        for op, rhs in zip(n.ops, n.comparators):
            right = self.ev(rhs, fr, S)
            c = self.models.compare(self, type(op).__name__, left, right, S)
            if c.op == 'phi' and self.facts:
                c = self.assume(c)
            r = c if r is None else T.and_(r, c)
            left = right
        return self.note(r, n, fr)

    def e_Subscript(self, n, fr, S):
        o = self.ev(n.value, fr, S)
        i = self.deref(self.ev(n.slice, fr, S), S)
        r = self.getitem(o, i, S, n, fr)
        return self.note(r, n, fr)

    def e_Slice(self, n, fr, S):
        def g(x):
            return NONE if x is None else self.deref(self.ev(x, fr, S), S)
        return T.mk_slice(g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, fr, S):
        return self.ev(n.value, fr, S)

    def e_ExtSlice(self, n, fr, S):
        return T.seq([self.ev(x, fr, S) for x in n.dims])

    def e_Attribute(self, n, fr, S):
        o = self.ev(n.value, fr, S)
        return self.note(self.getattr(o, n.attr, fr, S, n), n, fr)

    def e_Starred(self, n, fr, S):
        raise GiveUp('starred')

    def e_NamedExpr(self, n, fr, S):
        v = self.ev(n.value, fr, S)
        self.assign(n.target, v, fr, S)
        return v

    def e_Yield(self, n, fr, S):
        v = self.ev(n.value, fr, S) if n.value is not None else NONE
        if v.op == 'ref' and v.args[1] == 'array':
            v = self.deref(v, S)
        r = fr.yields
        S.set_content(r, T.concat([S.content(r), T.seq((v,))]))
        return NONE

    def e_YieldFrom(self, n, fr, S):
        v = self.ev(n.value, fr, S)
        self.models.list_extend(self, fr.yields, v, S, fr, n)
        return NONE

    def comp_loop(self, gens, emit, fr, S):
        """Comprehensions are loops that append to a hidden list."""
        saved = {}
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        # comprehension variables live in a fresh activation nested in the current one
        _env[0] += 1
        f2 = Frame(_env[0], fr.envs + ((fr.env,) if fr.env is not None else ()), fr.module, fr.func)
        f2.yields = fr.yields
        if fr.env is None:
            f2.envs = fr.envs

        def level(k, S1):
            if k == len(gens):
                emit(f2, S1)
                return Flow(TRUE, S1)
            g = gens[k]
            it = self.ev(g.iter, f2 if k else f2, S1)

            def body(S2):
                if g.ifs:
                    c = TRUE
                    for x in g.ifs:
                        c = T.and_(c, self.assume(self.truth(self.ev(x, f2, S2), S2), S2))
                    if c is FALSE:
                        return Flow(TRUE, S2)
                    if c is not TRUE:
                        A, B = S2.copy(), S2.copy()
                        A.path, B.path = T.and_(S2.path, c), T.and_(S2.path, T.not_(c))
                        fa = level(k + 1, A).shifted(c)
                        fb = Flow(T.not_(c), B)
                        return join_flows(c, fa, fb)
                return level(k + 1, S2)
            return self.for_over(it, lambda v, S2, p: self.assign(g.target, v, f2, S2, p), body, f2, S1, g.iter)
        fl = level(0, S)
        if fl.S is None:
            raise Raised(fl.exc[0][2] if fl.exc else T.mk('exc', 'Exception', NONE))
        for c, S2, e in fl.exc:
            self.pending.append((c, S2, e))
        p = S.path
        S.become(fl.S)
        S.path = p
        for k in [k for k in S.d if k[0] in ('v', 'p') and k[1] == f2.env]:
            del S.d[k]

    def e_ListComp(self, n, fr, S):
        r = S.alloc('list', T.seq(()))

        def emit(f2, S2):
            v = self.ev(n.elt, f2, S2)
            S2.set_content(r, T.concat([S2.content(r), T.seq((v,))]))
        self.comp_loop(n.generators, emit, fr, S)
        self.note(self.deref(r, S), n, fr)
        return r

    def e_GeneratorExp(self, n, fr, S):
        return self.e_ListComp(n, fr, S)

    def e_SetComp(self, n, fr, S):
        return T.call('set', self.deref(self.e_ListComp(n, fr, S), S))

    def e_DictComp(self, n, fr, S):
        r = S.alloc('dict', T.mk('dict0', NONE))

        def emit(f2, S2):
            k = self.deref(self.ev(n.key, f2, S2), S2)
            self.store(r, (k,), 'set', self.ev(n.value, f2, S2), S2)
        self.comp_loop(n.generators, emit, fr, S)
        return r

    # ------------------------------------------------------------ attributes

    def getattr(self, o, name, fr, S, node=None):
        if o.op == 'phi':
            return self.fork(o, S, lambda x, S2: self.getattr(x, name, fr, S2, node))
        if o.op == 'ref':
            i, kind = o.args
            v = S.d.get(('a', i, name))
            if v is not None and v is not UNDEF:
                return v
            if kind == 'inst':
                cls = REFCLS[i]
                v, c = cls.find(name)
                if v is not None:
                    ob = the_obj(v)
                    if isinstance(ob, Func):
                        return obj_term(Bound(o, v))
                    if isinstance(ob, Prop):
                        return self.call(ob.get, [o], {}, fr, S, node)
                    if isinstance(ob, Static):
                        return ob.func
                    if isinstance(ob, ClassM):
                        return obj_term(Bound(obj_term(cls), ob.func))
                    return v
                if name == '__class__':
                    return obj_term(cls)
                if name == '__dict__':
                    return self.embed1(o, S)
                r = self.models.inst_attr(self, o, cls, name, S)
                if r is not None:
                    return r
                raise Raised(T.mk('exc', 'AttributeError', T.string(name)))
            return self.models.ref_attr(self, o, name, S, fr, node)
        if o.op == 'obj':
            ob = the_obj(o)
            if isinstance(ob, Module):
                return self.module_attr(ob, name, S)
            if isinstance(ob, Class):
                v, c = ob.find(name)
                if v is None:
                    if name == '__name__':
                        return T.string(ob.name)
                    r = self.models.inst_attr(self, o, ob, name, S)
                    if r is not None:
                        return r
                    raise Raised(T.mk('exc', 'AttributeError', T.string(name)))
                x = the_obj(v)
                if isinstance(x, Static):
                    return x.func
                if isinstance(x, ClassM):
                    return obj_term(Bound(o, x.func))
                return v
            if isinstance(ob, Super):
                seen = False
                for c in ob.cls.mro():
                    if c is ob.start:
                        seen = True
                        continue
                    if seen and isinstance(c, Class) and name in c.attrs:
                        v = c.attrs[name]
                        x = the_obj(v)
                        if isinstance(x, Func):
                            return obj_term(Bound(ob.recv, v))
                        if isinstance(x, Prop):
                            return self.call(x.get, [ob.recv], {}, fr, S, node)
                        return v
                return obj_term(Meth(ob.recv, 'object.' + name))
            if isinstance(ob, Builtin):
                return self.models.ext_attr(self, ob, name)
            if isinstance(ob, Func):
                if name == '__name__':
                    return T.string(ob.name)
                return T.mk('sym', 'fattr:' + name)
            if isinstance(ob, Bound):
                return self.getattr(ob.func, name, fr, S, node)
        if o.op == 'slice' and name in ('start', 'stop', 'step'):
            return o.args[('start', 'stop', 'step').index(name)]
        m = S.d.get(('m', o, name))
        if m is not None:
            return m
        return self.models.value_attr(self, o, name, S, fr, node)

    def find_method(self, ref, name):
        v, c = REFCLS[ref.args[0]].find(name)
        return v

    # ------------------------------------------------------------ calls

    def e_Call(self, n, fr, S):
        self.callsites += 1
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if n.args:
                cls = the_obj(self.ev(n.args[0], fr, S))
                recv = self.ev(n.args[1], fr, S)
            else:
                cls = fr.func.cls
                recv = self.lookup(fr.func.node.args.args[0].arg, fr, S)
            real = REFCLS[recv.args[0]] if recv.op == 'ref' else cls
            return obj_term(Super(recv, real, cls))
        f = self.ev(n.func, fr, S)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                c = self.models.list_content(self, self.ev(a.value, fr, S), S, fr, a)
                if c.op != 'seq':
                    args.append(T.mk('starargs', c))
                else:
                    args.extend(c.args[0])
            else:
                args.append(self.ev(a, fr, S))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr, S)
                items = self.models.dict_items(self, d, S)
                if items is None:
                    kw['**'] = self.deref(d, S)
                else:
                    for kk, vv in items:
                        kw[T.const(kk)] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr, S)
        r = self.call(f, args, kw, fr, S, n)
        return self.note(r, n, fr)

    def call(self, f, args, kw, fr, S, node=None):
        if f.op == 'phi':
            return self.fork(f, S, lambda x, S2: self.call(x, args, kw, fr, S2, node))
        ob = the_obj(f)
        if ob is None and f.op == 'ref' and f.args[1] == 'inst':
            g = self.find_method(f, '__call__')
            if g is not None:
                return self.call(g, [f] + list(args), kw, fr, S, node)
        if ob is None and any(x.op == 'ref' and x.args[1] == 'once' for x in list(args) + list(kw.values())):
            raise GiveUp('iterator given to an unknown function')
        if ob is None:
            return self.models.call_value(self, f, args, kw, S, fr, node)
        if isinstance(ob, Func):
            if isinstance(node, ast.Call) and len(node.args) <= len(args) and not any(isinstance(a, ast.Starred) for a in node.args):
                off = len(args) - len(node.args)
                args = list(args[:off]) + [self.once(v, a, S) for v, a in zip(args[off:], node.args)]
            return self.call_func(f, args, kw, S, node, fr)
        if any(x.op == 'ref' and x.args[1] == 'once' for x in list(args) + list(kw.values())):
            if isinstance(ob, Builtin) and ob.name in ('isinstance', 'callable', 'print', 'hasattr', 'getattr', 'type', 'id', 'next', 'len'):
                pass
            elif isinstance(ob, Builtin) and ob.name == 'iter':
                return args[0]
            elif isinstance(ob, Builtin) and ob.name in ('itertools.islice', 'itertools.takewhile', 'itertools.groupby', 'itertools.tee') or len(set(args)) < len(args):
                raise GiveUp('iterator that is used in parts')
            elif not isinstance(ob, Class):
                def taken(x):
                    if x.op == 'ref' and x.args[1] == 'once':
                        c = self.models.take_once(self, x, S)
                        S.set_content(x, T.seq(()))
                        return c
                    return x
                args = [taken(x) for x in args]
                kw = {k: taken(x) for k, x in kw.items()}
        if isinstance(ob, Bound):
            return self.call(ob.func, [ob.recv] + list(args), kw, fr, S, node)
        if isinstance(ob, Class):
            return self.instantiate(ob, args, kw, fr, S, node)
        if isinstance(ob, Static):
            return self.call(ob.func, args, kw, fr, S, node)
        if isinstance(ob, Meth):
            return self.models.method(self, ob, args, kw, S, fr, node)
        if isinstance(ob, Builtin):
            h = self.contracts.get(ob.name)
            return self.models.builtin(self, ob.name, args, kw, S, fr, node)
        if isinstance(ob, (Prop, Module)):
            raise Raised(T.mk('exc', 'TypeError', NONE))
        raise GiveUp('call of %r' % ob)

    def instantiate(self, cls, args, kw, fr, S, node=None):
        h = self.contracts.get(cls.module.name + '.' + cls.name)
        if h is not None:
            return h(self, S, args, kw)
        r = S.alloc('inst', UNDEF, cls)
        init, c = cls.find('__init__')
        if init is not None:
            self.call(init, [r] + list(args), kw, fr, S, node)
        else:
            self.models.ext_init(self, r, cls, args, kw, S)
        return r

    def bind_args(self, func, args, kw, S):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kw = dict(kw)
        extra = []
        for k, v in enumerate(args):
            if v.op == 'starargs':
                raise GiveUp('star arguments')
            if k < len(names):
                vals[names[k]] = v
            else:
                extra.append(v)
        if a.vararg is None and extra:
            raise Raised(T.mk('exc', 'TypeError', T.string('too many arguments for %s' % func.name)))
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise Raised(T.mk('exc', 'TypeError', T.string('multiple values for %s' % k)))
                vals[k] = kw.pop(k)
        nd = len(func.defaults)
        for k, n in enumerate(names):
            if n not in vals:
                j = k - (len(names) - nd)
                if j >= 0:
                    vals[n] = func.defaults[j]
                elif '**' in kw:
                    vals[n] = T.mk_get(kw['**'], (T.string(n),))
                else:
                    raise Raised(T.mk('exc', 'TypeError', T.string('missing argument %s of %s' % (n, func.name))))
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in func.kwdefaults:
                    vals[x.arg] = func.kwdefaults[x.arg]
                else:
                    raise Raised(T.mk('exc', 'TypeError', T.string('missing argument %s' % x.arg)))
        if a.vararg is not None:
            vals[a.vararg.arg] = T.seq(tuple(extra))
        if a.kwarg is not None:
            r = S.alloc('dict', kw.pop('**', T.mk('dict0', NONE)))
            for k, v in kw.items():
                self.store(r, (T.string(k),), 'set', v, S)
            vals[a.kwarg.arg] = r
        elif kw and set(kw) != {'**'}:
            raise Raised(T.mk('exc', 'TypeError', T.string('unexpected argument %s of %s' % (sorted(kw)[0], func.name))))
        return vals

    def call_func(self, f, args, kw, S, node=None, fr=None):
        func = the_obj(f)
        q = func.qual
        h = self.contracts.get(q)
        vals = self.bind_args(func, args, kw, S)
        if h is not None:
            r = h(self, S, func, vals)
            if r is not None:
                return r
        self.functions.add(q)
        # methods of objects of other classes, e.g. a base class that uses another one of its
        # subclasses, are not recursive calls
        active = func.node
        if args and args[0].op == 'ref' and args[0].args[1] == 'inst' and vals and next(iter(vals.values())) is args[0]:
            active = (func.node, REFCLS[args[0].args[0]].name)
        if func.node is not None and active in self.stack:
            # recursion: uninterpreted
            vs = tuple(self.deref(v, S) for v in vals.values())
            return T.mk('reccall', T.mk('tuple', vs))
        if len(self.stack) > 60:
            raise GiveUp('call depth')
        _env[0] += 1
        env = _env[0]
        f2 = Frame(env, func.envs, func.module, func)
        for k, v in vals.items():
            S.d[('v', env, k)] = v
        # provenance of arguments
        if node is not None and isinstance(node, ast.Call) and fr is not None:
            names = [x.arg for x in func.node.args.args]
            off = len(args) - len(node.args)
            for k, a in enumerate(node.args):
                if isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)) and 0 <= k + off < len(names) and args[k + off].op != 'ref':
                    p = self.provenance(a, fr, S)
                    if p is not None:
                        S.d[('p', env, names[k + off])] = p
        self.stack.append(active)
        try:
            if isinstance(func.node, ast.Lambda):
                r = self.ev(func.node.body, f2, S)
                return r
            gen = is_generator(func.node)
            if gen:
                f2.yields = S.alloc('list', T.seq(()))
            entry_path = S.path
            fl = self.block(func.node.body, f2, S)
        finally:
            self.stack.pop()
        outs = [x for x in fl.ret if x[0] is not FALSE]
        if fl.S is not None and fl.live is not FALSE:
            outs.append((fl.live, fl.S, NONE))
        excs = [x for x in fl.exc if x[0] is not FALSE]
        if not outs:
            if excs:
                if len(excs) > 1:
                    for c, S2, e in excs[:-1]:
                        self.pending.append((c, S2, e))
                raise Raised(excs[-1][2])
            raise Raised(T.mk('exc', 'Exception', NONE))
        for c, S2, e in excs:
            self.pending.append((c, S2, e))
        m = merge_list(outs)
        okc = m[0]
        S.become(m[1])
        S.path = T.and_(entry_path, okc) if excs else entry_path
        if not has_nested(func.node):
            for k in [k for k in S.d if k[0] in ('v', 'p') and k[1] == env]:
                del S.d[k]
        if gen:
            self.generated.add(f2.yields.args[0])
            return f2.yields
        return m[2]


_gen = {}


def is_generator(node):
    r = _gen.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _gen[node] = r
    return r


_nest = {}


def has_nested(node):
    r = _nest.get(node)
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not node for x in ast.walk(node))
        _nest[node] = r
    return r


def join_flows(c, fa, fb):
    out = Flow(FALSE, None)
    out.absorb(fa)
    out.absorb(fb)
    if fa.S is None and fb.S is None:
        return out
    if fa.S is None or fa.live is FALSE:
        out.live, out.S = fb.live, fb.S
    elif fb.S is None or fb.live is FALSE:
        out.live, out.S = fa.live, fa.S
    else:
        out.S = merge(c, fa.S, fb.S)
        out.live = T.or_(fa.live, fb.live)
    return out


def cond_of(diagram, leaf):
    """Condition under which the diagram takes the value `leaf`."""
    if diagram is leaf:
        return TRUE
    if diagram.op != 'phi':
        return FALSE
    return T.ite(T.node(diagram.args[0], TRUE, FALSE), cond_of(diagram.args[1], leaf), cond_of(diagram.args[2], leaf))


def map_leaves(t, fn):
    if t.op == 'phi':
        a, b = map_leaves(t.args[1], fn), map_leaves(t.args[2], fn)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return T.ite(T.node(t.args[0], TRUE, FALSE), a, b)
    return fn(t)


def tainted(t):
    return t.taint


def strlike(t):
    return t.op in ('str', 'strcat', 'tostr') or (t.op == 'call' and t.args[0] in ('format',))


def owned(t):
    """Copies made by the analysed program may be modified."""
    if t.op in ('copyof', 'objwith'):
        return True
    if t.op == 'upd':
        return owned(t.args[0])
    if t.op == 'get':
        return owned(t.args[0])
    if t.op == 'phi':
        return owned(t.args[1]) and owned(t.args[2])
    return False


# Functions that store into their arguments (by name), over the modules read so far
INPLACE = set()


def find_inplace(tree):
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            params = {a.arg for a in f.args.args + f.args.kwonlyargs}
            if params & stored_names(f):
                INPLACE.add(f.name)


def stored_names(f):
    """Names through which a function may modify arrays in place."""
    out = getattr(f, '_stored', None)
    if out is not None and f._stored_at == len(INPLACE):
        return out
    out = set()
    for n in ast.walk(f):
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, ast.AugAssign):
            targets = [n.target]
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            args = list(n.value.args) + [k.value for k in n.value.keywords]
            if isinstance(n.value.func, ast.Attribute):
                args.append(n.value.func.value)
            out |= {a.id for a in args if isinstance(a, ast.Name)}
        elif isinstance(n, ast.Call):
            g = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if g in INPLACE:
                out |= {a.id for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Name)}
        for t in targets:
            for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                if isinstance(x, ast.Subscript):
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Name):
                        out.add(x.id)
    # other names of the same arrays
    alias = [(t.id, n.value.id) for n in ast.walk(f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name)
             for t in n.targets if isinstance(t, ast.Name)]
    more = True
    while more:
        more = {b for a, b in alias if a in out} - out
        out |= more
    f._stored, f._stored_at = out, len(INPLACE)
    return out


def built_array(v, node):
    if v.op in ('num', 'poly') and T_rank(v) == 0 and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('array', 'asarray', 'int32', 'int64', 'float64'):
        # an array without dimensions
        return node.func.attr in ('array', 'asarray')
    if not isinstance(node, (ast.BinOp, ast.UnaryOp, ast.Call, ast.IfExp)) or has_ref(v) or tainted(v):
        return False
    if v.op in ('ref', 'num', 'str', 'bool', 'none', 'bv', 'sym', 'attr', 'index', 'get', 'bnd', 'obj', 'seq', 'concat', 'comp', 'flat', 'exc', 'instv'):
        return False
    r = T_rank(v)
    return r not in (0, None) or (r is None and v.op == 'poly' and isinstance(node, ast.BinOp))


REAL_FIELDS = {'position', 'velocity', 'position_unfolded', 'radius', 'mass', 'charge', 'force'}


def integer_field(t):
    """Name of the particle field, possibly an integer one, dumped in an array."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'dump' and x.args[1].op == 'str':
            name = M_dump_attr(x.args[1].args[0])
            return name if name not in REAL_FIELDS else None
        stack.extend(x.args)
    return None


def M_dump_attr(key):
    from .models import dump_attr
    return dump_attr(key)


def owned_ext(t):
    return t.op == 'attr'


def T_rank(t):
    from .models import rank
    return rank(t)
