#!/usr/bin/env python3
"""Rewrite the whole library in a behaviour-preserving way: autorefac.py KIND DEST (KIND: a, b or c).

a: flipped comparisons, inverted if/else, 'while' as 'while True' with a break, named return values, plain assignments for augmented ones, f-strings
b: helpers for struct.unpack, for loops over ranges as while loops, nested functions' conditions as helper lambdas, conditions split by De Morgan
c: int.from_bytes instead of struct.unpack for single integers, conditional expressions, slices through slice objects, 'in' lists as tuples
Development tool, no check uses it."""
import ast, os, shutil, subprocess, sys
kind, dest = sys.argv[1], sys.argv[2]
src = os.environ.get('VERIF_REPO', '/repo')
shutil.rmtree(dest, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', src, dest])
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
SIZES = {'B': 1, 'H': 2, 'L': 4, 'Q': 8, 'I': 4}

def simple(n):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for x in ast.walk(n))

class A(ast.NodeTransformer):
    k = 0
    def fresh(self, p):
        A.k += 1
        return '%s_%d' % (p, A.k)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and simple(n.left) and simple(n.comparators[0]):
            return ast.Compare(left=n.comparators[0], ops=[FLIP[type(n.ops[0])]()], comparators=[n.left])
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n
    def visit_While(self, n):
        self.generic_visit(n)
        if not n.orelse and not isinstance(n.test, ast.Constant):
            n.body = [ast.If(test=ast.UnaryOp(ast.Not(), n.test), body=[ast.Break()], orelse=[])] + n.body
            n.test = ast.Constant(True)
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            v = self.fresh('result')
            return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=n.value), ast.Return(ast.Name(v, ast.Load()))]
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
            return ast.Assign(targets=[n.target], value=ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not n.keywords:
            parts = f.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and '{' not in ''.join(parts):
                vals = []
                for i, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(n.args):
                        vals.append(ast.FormattedValue(n.args[i], -1))
                return ast.JoinedStr(vals)
        return n

class B(A):
    def visit_Compare(self, n):
        self.generic_visit(n)
        return n
    def visit_While(self, n):
        self.generic_visit(n)
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp) and all(isinstance(v, ast.Compare) and len(v.ops) == 1 for v in t.values):
            vs = [ast.Compare(v.left, [NEG[type(v.ops[0])]()], v.comparators) for v in t.values]
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(t.op, ast.Or) else ast.Or(), vs))
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'unpack' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'struct':
            return ast.Call(ast.Name('_unpack_values', ast.Load()), n.args, n.keywords)
        return n
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and isinstance(n.target, ast.Name) and not n.orelse and len(c.args) < 3:
            v, e = self.fresh('position'), self.fresh('stop')
            lo = c.args[0] if len(c.args) == 2 else ast.Constant(0)
            hi = c.args[-1]
            N = lambda x: ast.Name(x, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                    ast.While(ast.Compare(N(v), [ast.Lt()], [N(e)]), [ast.Assign([n.target], N(v)), ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]
        return n

class C(A):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.List):
            n.comparators = [ast.Tuple(n.comparators[0].elts, ast.Load())]
        return n
    def visit_While(self, n):
        self.generic_visit(n)
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            x, y = n.body[0], n.orelse[0]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == len(y.targets) == 1 and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                return ast.Assign(x.targets, ast.IfExp(n.test, x.value, y.value))
            if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                return ast.Return(ast.IfExp(n.test, x.value, y.value))
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'unpack' and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(v.args[0], ast.Constant) and len(v.args[0].value) == 2 and v.args[0].value[1] in SIZES:
            return ast.Call(ast.Name('_little_endian', ast.Load()), [v.args[1], ast.Constant(SIZES[v.args[0].value[1]])], [])
        return n

HELP = {'a': '', 'b': '''
def _unpack_values(layout, data):
    values = struct.unpack(layout, data)
    return values
''', 'c': '''
def _little_endian(data, size):
    if len(data) != size:
        raise struct.error('unpack requires a buffer of {} bytes'.format(size))
    return int.from_bytes(bytes(data), byteorder='little')
'''}
T = {'a': A, 'b': B, 'c': C}[kind]
for base, _, files in os.walk(os.path.join(dest, 'dfir_ntfs')):
    for f in files:
        if not f.endswith('.py') or f == '__init__.py':
            continue
        p = os.path.join(base, f)
        tree = ast.parse(open(p).read())
        tree = ast.fix_missing_locations(T().visit(tree))
        s = ast.unparse(tree)
        if 'import struct' in s and HELP[kind]:
            s = s.replace('import struct\n', 'import struct\n' + HELP[kind], 1)
        open(p, 'w').write(s + '\n')
print(dest)
