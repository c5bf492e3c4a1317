"""Translate the Fortran 90 kernels into the Python syntax trees that the abstract interpreter analyses.

The translation follows the conventions of the f2py wrappers: procedures are
attributes of an object named after the Fortran module, arguments with
intent(out) are returned, arrays are 0-based. Only the subset of the language
that numerical kernels use is covered; anything else raises Unsupported, and
the procedure is then unknown to the analysis.
"""

import ast
import re

TOKEN = re.compile(r"""\s*(?:
    (?P<num>(?:\d+\.(?![a-zA-Z]+\.)\d*|\.\d+|\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?)
  | (?P<str>'[^']*'|"[^"]*")
  | (?P<dot>\.(?:and|or|not|true|false|lt|gt|le|ge|eq|ne|eqv|neqv)\.)
  | (?P<name>[A-Za-z]\w*)
  | (?P<op>\*\*|==|/=|<=|>=|//|=>|::|\(/|/\)|[-+*/<>=(),:%\[\]])
)""", re.X | re.I)

RELATIONS = {'==': '==', '/=': '!=', '<=': '<=', '>=': '>=', '<': '<', '>': '>', '.lt.': '<', '.gt.': '>', '.le.': '<=', '.ge.': '>=', '.eq.': '==', '.ne.': '!='}


class Unsupported(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == '':
            break
        m = TOKEN.match(s, i)
        if m is None:
            raise Unsupported('token at %r' % s[i:i + 20])
        kind = m.lastgroup
        t = m.group(kind)
        out.append((kind, t.lower() if kind in ('name', 'dot') else t))
        i = m.end()
    return out


def lines(src):
    """Logical lines with their numbers; comments removed and continuations joined."""
    out, cur, first = [], '', None
    for k, raw in enumerate(src.split('\n'), 1):
        text, quote = '', None
        for c in raw:
            if quote:
                quote = None if c == quote else quote
            elif c in '\'"':
                quote = c
            elif c == '!':
                break
            text += c
        text = text.strip()
        if not text:
            continue
        if text.startswith('&'):
            text = text[1:].strip()
        if first is None:
            first = k
        if text.endswith('&'):
            cur += text[:-1] + ' '
            continue
        cur += text
        for part in split_top(cur, ';'):
            if part.strip():
                out.append((first, part.strip()))
        cur, first = '', None
    return out


def split_top(s, sep):
    """Split at separators outside parentheses and strings."""
    out, depth, quote, cur = [], 0, None, ''
    for c in s:
        if quote:
            quote = None if c == quote else quote
        elif c in '\'"':
            quote = c
        elif c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        if c == sep and depth == 0 and quote is None:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


class Var(object):
    def __init__(self, name, kind, rank=0, dims=None, intent=None, dummy=False, parameter=None):
        self.name, self.kind, self.rank, self.dims, self.intent, self.dummy, self.parameter = name, kind, rank, dims, intent, dummy, parameter


class Expr(object):
    """Python text of an expression with its type and rank."""

    def __init__(self, text, kind, rank=0, plain=False):
        self.text, self.kind, self.rank, self.plain = text, kind, rank, plain


def arith(a, b):
    order = ['integer', 'real', 'complex']
    if a.kind not in order or b.kind not in order:
        raise Unsupported('arithmetic of %s and %s' % (a.kind, b.kind))
    return order[max(order.index(a.kind), order.index(b.kind))]


class Parser(object):

    def __init__(self, proc, tokens):
        self.p, self.t, self.i = proc, tokens, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def take(self, x=None):
        t = self.peek()
        if x is not None and t[1] != x:
            raise Unsupported('expected %r, found %r' % (x, t[1]))
        self.i += 1
        return t

    def done(self):
        if self.i != len(self.t):
            raise Unsupported('trailing %r' % (self.t[self.i][1],))

    def expr(self):
        return self.binary_logical(['.or.'], 'or', lambda: self.binary_logical(['.and.'], 'and', self.negation))

    def binary_logical(self, ops, py, sub):
        a = sub()
        while self.peek()[1] in ops:
            self.take()
            b = sub()
            rank = max(a.rank, b.rank)
            if rank:
                a = Expr('(%s %s %s)' % (a.text, '|' if py == 'or' else '&', b.text), 'logical', rank)
            else:
                a = Expr('(%s %s %s)' % (a.text, py, b.text), 'logical')
        return a

    def negation(self):
        if self.peek()[1] == '.not.':
            self.take()
            a = self.negation()
            return Expr('(~%s)' % a.text if a.rank else '(not %s)' % a.text, 'logical', a.rank)
        return self.relation()

    def relation(self):
        a = self.sum()
        if self.peek()[1] in RELATIONS:
            op = RELATIONS[self.take()[1]]
            b = self.sum()
            return Expr('(%s %s %s)' % (a.text, op, b.text), 'logical', max(a.rank, b.rank))
        return a

    def sum(self):
        sign = None
        if self.peek()[1] in ('+', '-'):
            sign = self.take()[1]
        a = self.product()
        if sign == '-':
            a = Expr('(-%s)' % a.text, a.kind, a.rank)
        while self.peek()[1] in ('+', '-'):
            op = self.take()[1]
            b = self.product()
            a = Expr('(%s %s %s)' % (a.text, op, b.text), arith(a, b), max(a.rank, b.rank))
        return a

    def product(self):
        a = self.power()
        while self.peek()[1] in ('*', '/'):
            op = self.take()[1]
            b = self.power()
            kind = arith(a, b)
            text = '(%s %s %s)' % (a.text, op, b.text)
            rank = max(a.rank, b.rank)
            if op == '/' and kind == 'integer':
                if rank:
                    raise Unsupported('division of integer arrays')
                text = 'int(%s)' % text
            a = Expr(text, kind, rank)
        return a

    def power(self):
        a = self.unary()
        if self.peek()[1] == '**':
            self.take()
            b = self.power()
            kind = a.kind if b.kind == 'integer' else arith(a, b)
            if kind == 'integer' and not b.text.isdigit():
                raise Unsupported('integer power')
            return Expr('(%s**%s)' % (a.text, b.text), kind, max(a.rank, b.rank))
        return a

    def unary(self):
        if self.peek()[1] in ('+', '-'):
            op = self.take()[1]
            a = self.unary()
            return Expr('(%s%s)' % (op, a.text), a.kind, a.rank)
        return self.primary()

    def primary(self):
        kind, t = self.peek()
        if t in ('(/', '['):
            self.take()
            close = '/)' if t == '(/' else ']'
            items = [self.expr()]
            while self.peek()[1] == ',':
                self.take()
                items.append(self.expr())
            self.take(close)
            return Expr('numpy.array([%s])' % ', '.join(x.text for x in items), items[0].kind, 1)
        if t == '(':
            self.take()
            a = self.expr()
            self.take(')')
            return Expr(a.text, a.kind, a.rank)
        if kind == 'num':
            self.take()
            base = t.split('_')[0].lower().replace('d', 'e')
            if '.' in base or 'e' in base:
                return Expr(repr(float(base)), 'real')
            return Expr(base, 'integer')
        if kind == 'str':
            self.take()
            return Expr(repr(t[1:-1]), 'character')
        if t in ('.true.', '.false.'):
            self.take()
            return Expr('True' if t == '.true.' else 'False', 'logical')
        if kind == 'name':
            return self.name()
        raise Unsupported('expression at %r' % (t,))

    def arguments(self):
        """Arguments of an intrinsic or function, with keywords."""
        self.take('(')
        out, kw = [], {}
        while self.peek()[1] != ')':
            if self.peek()[0] == 'name' and self.peek(1)[1] == '=':
                k = self.take()[1]
                self.take()
                kw[k] = self.expr()
            else:
                out.append(self.expr())
            if self.peek()[1] == ',':
                self.take()
        self.take(')')
        return out, kw

    def subscripts(self, v):
        """Subscript list of an array: Python text and rank."""
        self.take('(')
        parts, rank = [], 0
        while True:
            lo = hi = None
            if self.peek()[1] not in (':', ',', ')'):
                lo = self.expr()
            if self.peek()[1] == ':':
                self.take()
                if self.peek()[1] not in (',', ')', ':'):
                    hi = self.expr()
                if self.peek()[1] == ':':
                    raise Unsupported('stride')
                parts.append('%s:%s' % ('' if lo is None else minus_one(lo.text), '' if hi is None else hi.text))
                rank += 1
            else:
                if lo.rank:
                    raise Unsupported('vector subscript')
                parts.append(minus_one(lo.text))
            if self.peek()[1] == ',':
                self.take()
                continue
            break
        self.take(')')
        if len(parts) != v.rank:
            raise Unsupported('rank of %s' % v.name)
        return parts, rank

    def name(self):
        n = self.take()[1]
        v = self.p.var(n)
        if v is not None:
            if v.rank and self.peek()[1] == '(':
                parts, rank = self.subscripts(v)
                whole = all(p == ':' for p in parts)
                return Expr(ident(n) if whole else '%s[%s]' % (ident(n), ', '.join(parts)), v.kind, rank, plain=True)
            return Expr(ident(n), v.kind, v.rank, plain=True)
        if self.peek()[1] == '(':
            if n in self.p.module.procs:
                f = self.p.module.procs[n]
                if f.result is None:
                    raise Unsupported('subroutine in an expression')
                a, kw = self.arguments()
                return Expr('%s.%s(%s)' % (self.p.module.name, n, ', '.join(x.text for x in a)), f.var(f.result).kind, f.var(f.result).rank)
            return self.intrinsic(n)
        raise Unsupported('undeclared %s' % n)

    def intrinsic(self, n):
        a, kw = self.arguments()
        n = {'dmax1': 'max', 'dmin1': 'min', 'amax1': 'max', 'amin1': 'min', 'max0': 'max', 'min0': 'min', 'dsqrt': 'sqrt', 'dabs': 'abs', 'iabs': 'abs', 'cabs': 'abs', 'dacos': 'acos', 'dcos': 'cos',
             'dsin': 'sin', 'dexp': 'exp', 'dlog': 'log', 'dconjg': 'conjg', 'idint': 'int', 'idnint': 'nint', 'dnint': 'anint', 'dsign': 'sign', 'dmod': 'mod', 'dble': 'real', 'dreal': 'real',
             'dfloat': 'real', 'float': 'real'}.get(n, n)
        x = a[0] if a else None
        t = [e.text for e in a]
        rank = max([e.rank for e in a] or [0])
        if n == 'size':
            dim = a[1] if len(a) > 1 else kw.get('dim')
            if dim is None:
                return Expr('%s.size' % t[0] if x.rank > 1 else 'len(%s)' % t[0], 'integer')
            return Expr('%s.shape[%s]' % (t[0], minus_one(dim.text)), 'integer')
        if n in ('sum', 'product', 'maxval', 'minval', 'any', 'all', 'count'):
            mask = kw.get('mask')
            dim = kw.get('dim')
            for e in a[1:]:
                if e.kind == 'logical':
                    mask = e
                else:
                    dim = e
            arg = t[0]
            if mask is not None:
                if n != 'sum':
                    raise Unsupported('mask')
                arg = 'numpy.where(%s, %s, 0)' % (mask.text, arg)
            f = {'sum': 'sum', 'product': 'prod', 'maxval': 'max', 'minval': 'min', 'any': 'any', 'all': 'all', 'count': 'sum'}[n]
            kind = 'integer' if n == 'count' else x.kind
            if dim is not None:
                return Expr('numpy.%s(%s, axis=%s)' % (f, arg, minus_one(dim.text)), kind, x.rank - 1)
            return Expr('numpy.%s(%s)' % (f, arg), kind)
        if n == 'dot_product':
            return Expr('numpy.sum(%s * %s)' % (t[0], t[1]), arith(a[0], a[1]))
        if n == 'abs':
            return Expr('abs(%s)' % t[0], 'real' if x.kind == 'complex' else x.kind, rank)
        if n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan'):
            return Expr('numpy.%s(%s)' % (n, t[0]), x.kind, rank)
        if n in ('acos', 'asin', 'atan'):
            return Expr('numpy.arc%s(%s)' % (n[1:], t[0]), x.kind, rank)
        if n == 'conjg':
            return Expr('numpy.conj(%s)' % t[0], 'complex', rank)
        if n in ('real', 'aimag'):
            if x.kind == 'complex':
                return Expr('%s.%s' % (t[0], 'real' if n == 'real' else 'imag'), 'real', rank)
            return Expr('(1.0 * %s)' % t[0], 'real', rank)
        if n == 'int':
            return Expr('(%s).astype(int)' % t[0] if rank else 'int(%s)' % t[0], 'integer', rank)
        if n in ('floor', 'ceiling'):
            f = {'floor': 'floor', 'ceiling': 'ceil'}[n]
            return Expr('numpy.%s(%s).astype(int)' % (f, t[0]) if rank else 'int(numpy.%s(%s))' % (f, t[0]), 'integer', rank)
        if n == 'nint':
            # halves away from zero
            if rank:
                raise Unsupported('nint of an array')
            return Expr('(int(%s + 0.5) if %s >= 0 else -int(0.5 - %s))' % (t[0], t[0], t[0]), 'integer')
        if n == 'anint':
            return Expr('numpy.rint(%s)' % t[0], 'real', rank)
        if n in ('max', 'min'):
            if rank:
                f = {'max': 'maximum', 'min': 'minimum'}[n]
                e = t[0]
                for y in t[1:]:
                    e = 'numpy.%s(%s, %s)' % (f, e, y)
                return Expr(e, x.kind, rank)
            return Expr('%s(%s)' % (n, ', '.join(t)), x.kind)
        if n == 'mod':
            if x.kind != 'integer' or rank:
                raise Unsupported('mod')
            return Expr('(%s - %s * int(%s / %s))' % (t[0], t[1], t[0], t[1]), 'integer')
        if n == 'modulo':
            return Expr('(%s %% %s)' % (t[0], t[1]), x.kind, rank)
        if n == 'sign':
            if rank:
                return Expr('numpy.where(%s >= 0, abs(%s), -abs(%s))' % (t[1], t[0], t[0]), x.kind, rank)
            return Expr('(abs(%s) if %s >= 0 else -abs(%s))' % (t[0], t[1], t[0]), x.kind)
        if n == 'merge':
            if rank:
                return Expr('numpy.where(%s, %s, %s)' % (t[2], t[0], t[1]), x.kind, rank)
            return Expr('(%s if %s else %s)' % (t[0], t[2], t[1]), x.kind)
        if n == 'transpose':
            return Expr('numpy.transpose(%s)' % t[0], x.kind, 2)
        if n == 'cmplx':
            im = t[1] if len(a) > 1 and a[1].kind != 'integer' or len(a) > 2 else '0.0'
            return Expr('(%s + 1j * %s)' % (t[0], im), 'complex', rank)
        raise Unsupported('intrinsic %s' % n)


KEYWORDS = {'and', 'as', 'assert', 'class', 'def', 'del', 'elif', 'except', 'finally', 'for', 'from', 'global', 'import', 'in', 'is', 'lambda', 'not', 'or', 'pass', 'raise', 'try', 'with', 'yield',
            'int', 'len', 'abs', 'max', 'min', 'range', 'numpy', 'none', 'compute'}


def ident(n):
    return n + '_' if n in KEYWORDS else n


def minus_one(t):
    if t.isdigit():
        return str(int(t) - 1)
    m = re.match(r'^\((\w+) \+ 1\)$', t)
    if m:
        return m.group(1)
    return '%s - 1' % t


class Procedure(object):

    def __init__(self, module, name, args, line, result=None):
        self.module, self.name, self.args, self.line, self.result = module, name, args, line, result
        self.vars, self.order, self.body = {}, [], []

    def var(self, n):
        return self.vars.get(n) or self.module.params.get(n)

    def declare(self, n, text):
        head, _, names = text.partition('::')
        if not _:
            # declaration without attributes
            m = re.match(r'^(\w+\s*(?:\([^)]*\))?)\s+(.*)$', text)
            head, names = m.group(1), m.group(2)
        attrs = [x.strip().lower() for x in split_top(head, ',')]
        kind = re.match(r'^(double\s+precision|double\s+complex|\w+)', attrs[0]).group(1)
        kind = {'double precision': 'real', 'double complex': 'complex'}.get(re.sub(r'\s+', ' ', kind), kind)
        intent = dims = None
        parameter = False
        for x in attrs[1:]:
            m = re.match(r'^intent\s*\(\s*(in|out|in\s*out)\s*\)$', x)
            if m:
                intent = m.group(1).replace(' ', '')
            elif x.startswith('dimension'):
                dims = x[len('dimension'):].strip()
            elif x == 'parameter':
                parameter = True
            elif x in ('save', 'allocatable', 'pointer', 'optional', 'target', 'value'):
                raise Unsupported('attribute ' + x)
        for item in split_top(names, ','):
            m = re.match(r'^\s*(\w+)\s*(\(.*\))?\s*(?:\*\s*\d+)?\s*(?:=\s*(.*))?$', item.strip())
            if m is None:
                raise Unsupported('declaration %r' % item)
            name = m.group(1).lower()
            d = m.group(2) or dims
            if kind == 'character':
                d = None
            dd = None
            if d:
                dd = [x.strip() for x in split_top(d.strip()[1:-1], ',')]
            v = Var(name, kind, len(dd) if dd else 0, dd, intent, name in self.args, m.group(3) if parameter else None)
            if m.group(3) and not parameter:
                raise Unsupported('initialized (saved) variable')
            self.vars[name] = v
            self.order.append(name)

    def parse(self, text):
        p = Parser(self, tokenize(text))
        e = p.expr()
        p.done()
        return e

    # -- code generation

    def emit(self, depth, text, line):
        self.out.append(('    ' * depth + text, line))

    def code(self, out):
        self.out = out
        params = [a for a in self.args if self.vars[a].intent != 'out']
        self.emit(1, '@staticmethod', self.line)
        self.emit(1, 'def %s(%s):' % (self.name, ', '.join(ident(a) for a in params)), self.line)
        for n in self.order:
            v = self.vars[n]
            if v.parameter is not None:
                self.emit(2, '%s = %s' % (ident(n), self.parse(v.parameter).text), self.line)
            elif v.rank and (not v.dummy or v.intent == 'out'):
                self.emit(2, '%s = numpy.empty(%s)' % (ident(n), self.shape(v)), self.line)
        self.block(self.body, 2)
        outs = [ident(a) for a in self.args if self.vars[a].intent == 'out']
        if self.result is not None:
            outs = [ident(self.result)] + outs
        self.emit(2, 'return %s' % (', '.join(outs) if outs else 'None'), self.line)

    def shape(self, v):
        dd = []
        for d in v.dims:
            if ':' in d:
                raise Unsupported('shape of %s' % v.name)
            dd.append(self.parse(d).text)
        return dd[0] if len(dd) == 1 else '(%s)' % ', '.join(dd)

    def block(self, stmts, depth):
        if not stmts:
            self.emit(depth, 'pass', self.line)
        for s in stmts:
            self.stmt(s, depth)

    def stmt(self, s, depth):
        line, kind = s[0], s[1]
        if kind == 'do':
            lo, hi, st = s[3]
            args = [self.parse(lo).text, plus_one(self.parse(hi).text)]
            if st is not None:
                if not re.match(r'^\s*\d+\s*$', st):
                    raise Unsupported('stride')
                args.append(st.strip())
            self.emit(depth, 'for %s in range(%s):' % (ident(s[2]), ', '.join(args)), line)
            self.block(s[4], depth + 1)
        elif kind == 'while':
            self.emit(depth, 'while %s:' % self.parse(s[2]).text, line)
            self.block(s[3], depth + 1)
        elif kind == 'if':
            for k, (c, body, ln) in enumerate(s[2]):
                if c is None:
                    self.emit(depth, 'else:', ln)
                else:
                    self.emit(depth, '%s %s:' % ('elif' if k else 'if', self.parse(c).text), ln)
                self.block(body, depth + 1)
        elif kind == 'where':
            neg = None
            for k, (c, body, ln) in enumerate(s[2]):
                m = '_where%d' % ln
                if c is not None:
                    t = self.parse(c).text
                    self.emit(depth, '%s = %s%s' % (m, t, '' if neg is None else ' & ' + neg), ln)
                else:
                    self.emit(depth, '%s = %s' % (m, neg), ln)
                neg = '(~%s)' % m if neg is None else '(%s & ~%s)' % (neg, m)
                for b in body:
                    if b[1] != 'assign':
                        raise Unsupported('statement in where')
                    self.assign(b[2], b[3], depth, b[0], mask=m)
        elif kind == 'call':
            self.call(s[2], s[3], depth, line)
        elif kind == 'assign':
            self.assign(s[2], s[3], depth, line)
        elif kind in ('continue', 'break'):
            self.emit(depth, kind, line)
        elif kind == 'return':
            outs = [ident(a) for a in self.args if self.vars[a].intent == 'out']
            if self.result is not None:
                outs = [ident(self.result)] + outs
            self.emit(depth, 'return %s' % (', '.join(outs) if outs else 'None'), line)
        elif kind == 'pass':
            self.emit(depth, 'pass', line)
        else:
            raise Unsupported(kind)

    def call(self, name, args, depth, line):
        f = self.module.procs.get(name)
        if f is None:
            raise Unsupported('call of ' + name)
        actual = [self.parse(a) for a in args]
        if len(actual) != len(f.args):
            raise Unsupported('arguments of ' + name)
        ins, outs = [], []
        for a, formal in zip(actual, f.args):
            v = f.vars[formal]
            if v.intent == 'out':
                outs.append(a.text)
                continue
            if v.intent != 'in' and (not v.rank or not re.match(r'^\w+$', a.text)):
                raise Unsupported('argument %s of %s' % (formal, name))
            ins.append(a.text)
        call = '%s.%s(%s)' % (self.module.name, name, ', '.join(ins))
        self.emit(depth, '%s = %s' % (', '.join(outs), call) if outs else call, line)

    def assign(self, left, right, depth, line, mask=None):
        p = Parser(self, tokenize(left))
        target = p.name()
        p.done()
        v = self.var(re.match(r'\w+', left.strip()).group(0).lower())
        e = self.parse(right)
        if e.rank not in (0, target.rank):
            raise Unsupported('rank of the assignment of %s' % left)
        text = e.text
        if v.kind == 'integer' and e.kind == 'real':
            text = '(%s).astype(int)' % text if e.rank else 'int(%s)' % text
        elif v.kind in ('logical', 'character') and v.kind != e.kind or e.kind in ('logical', 'character') and v.kind != e.kind or (v.kind in ('integer', 'real') and e.kind == 'complex'):
            raise Unsupported('conversion in the assignment of %s' % left)
        if v.rank == 0:
            if v.intent == 'inout':
                # a 0-dimensional array of the caller
                self.emit(depth, '%s[...] = %s' % (target.text, text), line)
                return
            if mask:
                raise Unsupported('where')
            self.emit(depth, '%s = %s' % (target.text, text), line)
            return
        whole = re.match(r'^\w+$', target.text)
        if mask:
            text = 'numpy.where(%s, %s, %s)' % (mask, text, target.text)
        if whole:
            local = not v.dummy
            if local and (e.rank or mask):
                if e.plain and not mask:
                    text = 'numpy.array(%s)' % text
                self.emit(depth, '%s = %s' % (target.text, text), line)
            else:
                self.emit(depth, '%s[%s] = %s' % (target.text, ', '.join(':' * v.rank), text), line)
            return
        self.emit(depth, '%s = %s' % (target.text, text), line)


def plus_one(t):
    if t.isdigit():
        return str(int(t) + 1)
    m = re.match(r'^\((\w+) - 1\)$', t)
    if m:
        return m.group(1)
    return '%s + 1' % t


class FModule(object):

    def __init__(self, name):
        self.name, self.params, self.procs, self.failed = name, {}, {}, {}
        self.order = []


TYPES = r'^(integer|real|logical|complex|character|double\s+precision|double\s+complex)\b'


class Reader(object):

    def __init__(self, src):
        self.lines, self.i = lines(src), 0
        self.modules = []

    def run(self):
        mod = None
        while self.i < len(self.lines):
            n, s = self.lines[self.i]
            low = s.lower()
            m = re.match(r'^module\s+(\w+)$', low)
            if m:
                mod = FModule(m.group(1))
                self.modules.append(mod)
                self.i += 1
                continue
            m = re.match(r'^(?:(?:pure|elemental|recursive)\s+)*(subroutine)\s+(\w+)\s*(?:\((.*?)\))?\s*$', low) or \
                re.match(r'^(?:(?:pure|elemental|recursive)\s+)*(?:[\w() ]*?\s+)?(function)\s+(\w+)\s*\((.*?)\)\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$', low)
            if m and not low.startswith('end'):
                self.procedure(mod, m, n)
                continue
            if mod is not None and re.match(TYPES, low) and 'parameter' in low:
                tmp = Procedure(mod, '', [], n)
                tmp.declare(n, s)
                for name, v in tmp.vars.items():
                    mod.params[name] = v
            self.i += 1
        return self.modules

    def procedure(self, mod, m, n):
        if mod is None:
            raise Unsupported('procedure outside of a module')
        kind, name = m.group(1), m.group(2)
        args = [a.strip() for a in (m.group(3) or '').split(',') if a.strip()]
        result = None
        if kind == 'function':
            result = m.group(4) or name
        p = Procedure(mod, name, args, n, result)
        start = self.i
        self.i += 1
        try:
            while self.i < len(self.lines):
                ln, s = self.lines[self.i]
                if re.match(TYPES, s.lower()) and not re.match(r'^\w+\s*(\([^)]*\))?\s*=', s):
                    p.declare(ln, s)
                    self.i += 1
                elif re.match(r'^(implicit|use|intrinsic)\b', s.lower()):
                    self.i += 1
                else:
                    break
            p.body = self.stmts(('end subroutine', 'end function', 'endsubroutine', 'endfunction', 'end'))
            self.i += 1
            for a in args:
                if a not in p.vars:
                    raise Unsupported('undeclared argument ' + a)
            mod.procs[name] = p
            mod.order.append(name)
        except Unsupported as e:
            mod.failed[name] = str(e)
            self.i = start + 1
            while self.i < len(self.lines) and not re.match(r'^end\s*(subroutine|function)\b|^end$', self.lines[self.i][1].lower()):
                self.i += 1
            self.i += 1

    def stmts(self, ends):
        out = []
        while self.i < len(self.lines):
            n, s = self.lines[self.i]
            low = re.sub(r'\s+', ' ', s.lower())
            if any(low == e or low.startswith(e + ' ') and e != 'end' or e in ('else', 'elsewhere') and low.startswith(e) or e in ('else if', 'elseif') and low.startswith(e) for e in ends):
                return out
            out.append(self.one(n, s, low))
        raise Unsupported('unterminated block')

    def one(self, n, s, low):
        m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', s, re.I)
        if m:
            bounds = split_top(m.group(2), ',')
            self.i += 1
            body = self.stmts(('end do', 'enddo'))
            self.i += 1
            return (n, 'do', m.group(1).lower(), (bounds[0], bounds[1], bounds[2] if len(bounds) > 2 else None), body)
        m = re.match(r'^do\s+while\s*\((.*)\)$', s, re.I)
        if m:
            self.i += 1
            body = self.stmts(('end do', 'enddo'))
            self.i += 1
            return (n, 'while', m.group(1), body)
        if low == 'do':
            self.i += 1
            body = self.stmts(('end do', 'enddo'))
            self.i += 1
            return (n, 'while', '.true.', body)
        m = re.match(r'^(if|where)\s*\(', s, re.I)
        if m:
            kind = m.group(1).lower()
            cond, rest = balanced(s[m.end() - 1:])
            rest = rest.strip()
            if kind == 'if' and rest.lower() != 'then':
                inner = self.simple(n, rest)
                self.i += 1
                return (n, 'if', [(cond, [inner], n)])
            if kind == 'where' and rest:
                inner = self.simple(n, rest)
                self.i += 1
                return (n, 'where', [(cond, [inner], n)])
            branches = []
            ends = ('end if', 'endif', 'else') if kind == 'if' else ('end where', 'endwhere', 'elsewhere', 'else where')
            self.i += 1
            ln = n
            while True:
                body = self.stmts(ends)
                branches.append((cond, body, ln))
                ln, t = self.lines[self.i]
                tl = re.sub(r'\s+', ' ', t.lower())
                self.i += 1
                if tl.startswith('end'):
                    return (n, kind, branches)
                mm = re.match(r'^(?:else\s*if|else\s*where)\s*(\(.*)$', t, re.I)
                cond = balanced(mm.group(1))[0] if mm else None
        out = self.simple(n, s)
        self.i += 1
        return out

    def simple(self, n, s):
        low = s.lower().strip()
        m = re.match(r'^call\s+(\w+)\s*(?:\((.*)\))?$', s, re.I)
        if m:
            return (n, 'call', m.group(1).lower(), [a for a in split_top(m.group(2) or '', ',') if a.strip()])
        if low == 'cycle':
            return (n, 'continue')
        if low == 'exit':
            return (n, 'break')
        if low == 'return':
            return (n, 'return')
        if low == 'continue' or low.startswith('print') or re.match(r'^write\s*\(', low) and '=' not in low.split(')')[0]:
            return (n, 'pass')
        parts = split_assign(s)
        if parts:
            return (n, 'assign', parts[0], parts[1])
        raise Unsupported('statement %r' % s)


def balanced(s):
    """'(cond) rest' -> cond, rest"""
    depth = 0
    for k, c in enumerate(s):
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth == 0:
                return s[1:k], s[k + 1:]
    raise Unsupported('parentheses')


def split_assign(s):
    depth = 0
    for k, c in enumerate(s):
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        elif c == '=' and depth == 0:
            if s[k + 1:k + 2] == '=' or s[k - 1] in '=/<>':
                continue
            return s[:k].strip(), s[k + 1:].strip()
    return None


def read(path):
    with open(path) as fh:
        src = fh.read()
    try:
        return Reader(src).run()
    except Unsupported:
        raise
    except Exception as e:
        raise Unsupported('cannot read %s: %s' % (path, e))


def translate(path):
    """Python syntax tree of the module that f2py would make of a file; lines are those of the file."""
    out = [('import numpy', 1)]
    for mod in read(path):
        for n, v in mod.params.items():
            out.append(('%s = %s' % (n, Procedure(mod, '', [], 1).parse(v.parameter).text), 1))
        out.append(('class %s(object):' % mod.name, 1))
        out.append(('    pass', 1))
        for n in mod.order:
            part = []
            try:
                mod.procs[n].code(part)
            except Unsupported as e:
                mod.failed[n] = str(e)
                continue
            out.extend(part)
        for n in mod.failed:
            out.append(('    @staticmethod', 1))
            out.append(('    def %s(*args):' % n, 1))
            out.append(('        return __giveup__', 1))
    tree = ast.parse('\n'.join(t for t, _ in out))
    for node in ast.walk(tree):
        if hasattr(node, 'lineno'):
            node.lineno = out[node.lineno - 1][1]
            node.end_lineno = node.lineno
    return tree, '\n'.join(t for t, _ in out)


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        print(translate(p)[1])
        for m in read(p):
            print(m.failed)
