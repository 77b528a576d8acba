"""refactor.py DIR: rewrites the package in DIR/src/pyRFtk without changing what it does
(development tool: the checks have to stay quiet on the result)"""
import ast
import os
import sys

NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
        ast.NotEq: ast.NotEq}


def locals_of(f):
    """names bound in f and nowhere else"""
    args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
    for a in (f.args.vararg, f.args.kwarg):
        if a:
            args.add(a.arg)
    names, bad = set(), set(args)
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f:
            if hasattr(n, 'name'):
                bad.add(n.name)
            if hasattr(n, 'args'):
                bad |= {a.arg for a in n.args.args}
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    bad.add(m.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(a.asname or a.name).split('.')[0] for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('locals', 'eval', 'exec', 'vars'):
            return set()
    return names - bad


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_v'
        return n


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(self.neg(n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(self.neg(n.test), n.orelse, n.body)

    def neg(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return t.operand
        return ast.UnaryOp(ast.Not(), t)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and not any(
                isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n

    def temp(self):
        self.k += 1
        return '_t%d' % self.k

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        t = self.temp()
        return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=0),
                ast.Return(ast.Name(t, ast.Load()))]

    def visit_For(self, n):
        self.generic_visit(n)
        t = self.temp()
        return [ast.Assign([ast.Name(t, ast.Store())], n.iter, lineno=0),
                ast.For(n.target, ast.Name(t, ast.Load()), n.body, n.orelse, lineno=0)]

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = 1 if ast.get_docstring(n) is not None else 0
        n.body[doc:doc] = ast.parse('_unused = None').body
        return n


class Funs(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        names = locals_of(n)
        if names:
            r = Rename(names)
            n.body = [r.visit(s) for s in n.body]
        return n


def main(root):
    d = root + '/src/pyRFtk'
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('__init__.py', 'codebase.py', 'circuit.py'):
            t = ast.parse(open(d + '/' + f).read())
            t = Rewrite().visit(t)
            t = Funs().visit(t)
            ast.fix_missing_locations(t)
            open(d + '/' + f, 'w').write(ast.unparse(t) + '\n')


main(sys.argv[1])
