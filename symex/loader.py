"""Loads Python source for symbolic execution: parses the current file, rewrites the AST so that operations CPython
performs on concrete types only are routed through shims.py, and executes it with substituted builtins."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
from . import shims

METHODS = {'join', 'format', 'startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'replace', 'strip', 'lstrip', 'rstrip', 'split', 'partition', 'ljust', 'translate'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infn = 0

    def _call(self, fn, *args):
        return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.infn += 1
        self._returns(node.body)
        self.generic_visit(node)
        self.infn -= 1
        q = self.mod + '.' + '.'.join(self.stack)
        self.stack.pop()
        e = ast.Expr(self._call('_sx_enter_', ast.Constant(q)))
        body = node.body
        pos = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)) else 0
        body.insert(pos, e)
        node.decorator_list = node.decorator_list
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        n, self.infn = self.infn, 0
        self.generic_visit(node)
        self.infn = n
        self.stack.pop()
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return self._call('_sx_in_', node.left, r)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), self._call('_sx_in_', node.left, r))
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value in (True, False) and isinstance(r.value, bool):
                c = self._call('_sx_isb_', node.left, r)
                return c if isinstance(op, ast.Is) else ast.UnaryOp(ast.Not(), c)
        return node

    # An if statement whose branches only give a value to the same variable: both values are computed and merged when
    # the harness asks for it (ctx.merge()); otherwise, and whenever that is not possible, the condition forks the path.
    def _pure(self, e):
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Subscript):
            return not isinstance(e.slice, ast.Slice) and self._pure(e.value) and self._pure(e.slice)
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name)
        if isinstance(e, ast.IfExp):
            return self._pure_test(e.test) and self._pure(e.body) and self._pure(e.orelse)
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, (ast.Invert, ast.USub)) and self._pure(e.operand)
        return isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Add, ast.Sub, ast.LShift, ast.RShift)) and self._pure(e.left) and self._pure(e.right)

    def _pure_test(self, e):
        if isinstance(e, ast.Compare):
            return all(self._pure(x) for x in [e.left] + e.comparators)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self._pure_test(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self._pure_test(x) for x in e.values)
        return self._pure(e)

    def _test(self, e):
        """The condition, with negations that do not fork."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self._call('_sx_not_', self._test(e.operand))
        return e

    def _value(self, body):
        """(variable, value) of a single assignment"""
        if len(body) != 1:
            return None, None
        a = body[0]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and self._pure(a.value):
            return a.targets[0].id, a.value
        if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
            v = ast.BinOp(ast.Name(id=a.target.id, ctx=ast.Load()), a.op, a.value)
            if self._pure(v):
                return a.target.id, v
        return None, None

    def _lambda(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def visit_IfExp(self, node):
        if self.infn and self._pure(node.body) and self._pure(node.orelse):
            node.test = self._test(node.test)
            self.generic_visit(node)
            return self._call('_sx_ifexp_', node.test, self._lambda(node.body), self._lambda(node.orelse))
        self.generic_visit(node)
        return node

    def _returned(self, body):
        if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and self._pure(body[0].value):
            return body[0].value

    def _returns(self, body):
        """An if statement whose branches only return a value becomes a conditional expression."""
        if len(body) >= 2 and isinstance(body[-2], ast.If) and not body[-2].orelse and isinstance(body[-1], ast.Return):
            i, r = body[-2:]
            a, b = self._returned(i.body), self._returned([r])
            if a is not None and b is not None:
                body[-2:] = [ast.Return(ast.IfExp(i.test, a, b))]
        elif body and isinstance(body[-1], ast.If) and body[-1].orelse:
            i = body[-1]
            a, b = self._returned(i.body), self._returned(i.orelse)
            if a is not None and b is not None:
                body[-1:] = [ast.Return(ast.IfExp(i.test, a, b))]

    def visit_If(self, node):
        name, v = self._value(node.body)
        if name is not None and self.infn:
            other, w = self._value(node.orelse) if node.orelse else (name, ast.Name(id=name, ctx=ast.Load()))
            if other == name:
                node.test = self._test(node.test)
                self.generic_visit(node)
                cond = ast.NamedExpr(target=ast.Name(id='_sx_c_', ctx=ast.Store()), value=self._call('_sx_ite_', node.test, self._lambda(v), self._lambda(w)))
                # _sx_ite_ gives a tuple with the merged value, or the (forked) truth value of the condition
                return [ast.If(test=self._call('_sx_merged_', cond), body=[ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=ast.Subscript(value=ast.Name(id='_sx_c_', ctx=ast.Load()), slice=ast.Constant(0), ctx=ast.Load()))],
                               orelse=[ast.If(test=ast.Name(id='_sx_c_', ctx=ast.Load()), body=node.body, orelse=node.orelse)])]
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = node.slice
            if isinstance(k, ast.Slice):
                none = ast.Constant(None)
                k = self._call('slice', k.lower or none, k.upper or none, k.step or none)
            return self._call('_sx_get_', node.value, k)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.Call(func=ast.Name(id='_sx_call_', ctx=ast.Load()), args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                args.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                args.append(v)
        return self._call('_sx_fstr_', *args)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return self._call('_sx_mod_', node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self._call('_sx_dict_', node) if all(k is not None for k in node.keys) and self._plain(node) else self._dict_items(node)

    def _plain(self, node):
        return all(isinstance(k, ast.Constant) for k in node.keys)

    def _dict_items(self, node):
        if any(k is None for k in node.keys):
            return self._call('_sx_dict_', node)
        return self._call('_sx_dict_', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call('_sx_dict_', ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('_sx_set_', ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('_sx_set_', ast.GeneratorExp(node.elt, node.generators))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node

    def visit_AnnAssign(self, node):
        # annotations are not evaluated for effect
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


SHIMMED = shims.build_modules()


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMMED:
        return SHIMMED[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = shims.build_builtins(sx_import)


def rewrite(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__['__builtins__'] = BUILTINS
        module.__file__ = self.path
        name = module.__name__
        if name.startswith('dfir_ntfs.'):
            name = name[len('dfir_ntfs.'):]
        exec(rewrite(src, self.path, name), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Symbolic versions of the repo's package (and of harness modules, which run on the same proxies)."""

    def __init__(self, roots):
        self.roots = roots  # {top-level package or module prefix: directory}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        base = self.roots.get(top)
        if base is None:
            return None
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
