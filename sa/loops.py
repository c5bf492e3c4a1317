"""While loops controlled by a counter are read as for loops over a range."""

import ast

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
NOT = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def canonical(tree):
    return Loops().visit(tree)


def level(stmts, kinds):
    """Statements of these kinds that refer to the loop with this body."""
    for s in stmts:
        if isinstance(s, kinds):
            yield s
        if isinstance(s, (ast.For, ast.While)):
            for x in level(s.orelse, kinds):
                yield x
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, f, None)
                if isinstance(sub, list):
                    for x in level(sub, kinds):
                        yield x
            for h in getattr(s, 'handlers', []):
                for x in level(h.body, kinds):
                    yield x


def stored(stmts):
    return [x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


def negated(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NOT:
        return ast.Compare(e.left, [NOT[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def invariant(e, body):
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    attrs = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    if names & set(stored(body)):
        return False
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in attrs:
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in names \
               and x.func.attr in ('append', 'extend', 'pop', 'remove', 'insert', 'clear', 'add', 'update', 'discard', 'popleft'):
                return False
    return True


def step_of(s, name):
    """Increment of the counter, if this is what the statement does."""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
        if isinstance(s.op, ast.Add):
            return s.value
        if isinstance(s.op, ast.Sub):
            return ast.UnaryOp(ast.USub(), s.value)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and isinstance(s.value, ast.BinOp):
        l, r = s.value.left, s.value.right
        if isinstance(s.value.op, ast.Add) and isinstance(l, ast.Name) and l.id == name:
            return r
        if isinstance(s.value.op, ast.Add) and isinstance(r, ast.Name) and r.id == name:
            return l
        if isinstance(s.value.op, ast.Sub) and isinstance(l, ast.Name) and l.id == name:
            return ast.UnaryOp(ast.USub(), r)
    return None


class Loops(ast.NodeTransformer):

    def __init__(self):
        self.n = 0

    def visit_While(self, node):
        self.generic_visit(node)
        body, test = node.body, node.test
        if isinstance(test, ast.Constant) and test.value and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 \
           and isinstance(body[0].body[0], ast.Break) and len(body) > 1 and not node.orelse:
            test, body = negated(body[0].test), body[1:]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test = negated(test.operand) if not isinstance(test.operand, ast.UnaryOp) else test
        parts = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        if len(parts) > 1 and node.orelse:
            return node
        for k, c in enumerate(parts):
            out = self.counted(node, c, parts[:k] + parts[k + 1:], body)
            if out is not None:
                return out
        return node

    def counted(self, node, c, rest, body):
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in FLIP):
            return None
        for left, op, right in ((c.left, type(c.ops[0]), c.comparators[0]), (c.comparators[0], FLIP[type(c.ops[0])], c.left)):
            if not isinstance(left, ast.Name):
                continue
            i = left.id
            at = [k for k, s in enumerate(body) if step_of(s, i) is not None]
            if len(at) != 1 or stored(body).count(i) != 1 or not invariant(right, body):
                continue
            if i in {x.id for x in ast.walk(right) if isinstance(x, ast.Name)}:
                continue
            step = step_of(body[at[0]], i)
            if not invariant(step, body) or any(True for _ in level(body[:at[0]], ast.Continue)):
                continue
            down = isinstance(step, ast.UnaryOp) and isinstance(step.op, ast.USub)
            if down != (op in (ast.Gt, ast.GtE)):
                continue
            if op in (ast.LtE, ast.GtE):
                right = ast.BinOp(right, ast.Add() if op is ast.LtE else ast.Sub(), ast.Constant(1))
            self.n += 1
            v = '%s counter %d' % (i, self.n)
            head = [ast.Assign([ast.Name(i, ast.Store())], ast.Name(v, ast.Load()))]
            if rest:
                cond = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
                head.append(ast.If(ast.UnaryOp(ast.Not(), cond), [ast.Break()], []))
            new = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), right, step], []), head + body, node.orelse)
            for x in ast.walk(new):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                    ast.copy_location(x, node)
            return ast.fix_missing_locations(new)
        return None
