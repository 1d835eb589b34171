"""Load /repo/openleadr (and the harnesses) with instrumented operations."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import runtime

RT = '__rt__'
SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'isinstance', 'issubclass', 'hasattr',
              'callable', 'id', 'breakpoint'}


def _rt(name):
    return ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, args):
    return ast.Call(func=_rt(name), args=args, keywords=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.mod = modname
        self.track = track
        self.stack = []

    # -- functions
    def _func(self, node):
        self.stack.append(node.name)
        # decorators, defaults and annotations belong to the outer scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        if self.track:
            qn = self.mod + '.' + '.'.join(self.stack)
            stmt = ast.Expr(_call('enter', [ast.Constant(qn)]))
            at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str) else 0
            body.insert(at, stmt)
        node.body = body
        self.stack.pop()
        if node.name in ('__repr__', '__str__', '__format__'):
            node.decorator_list.append(_rt('textual'))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_Assign(self, node):
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Attribute) and t.attr in ('text', 'tail'):
            return ast.copy_location(ast.Expr(_call('set_text', [self.visit(t.value), ast.Constant(t.attr),
                                                                 self.visit(node.value)])), node)
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('text', 'tail') and isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('get_text', [node.value, ast.Constant(node.attr)]), node)
        return node

    def visit_arg(self, node):
        return node

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            return node
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == RT:
            return node
        return ast.copy_location(ast.Call(func=_rt('call'), args=[f] + node.args, keywords=node.keywords), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        star = any(k is None for k in node.keys)
        for k, v in zip(node.keys, node.values):
            elts.append(ast.Tuple(elts=[_rt('STAR') if k is None else k, v], ctx=ast.Load()))
        return ast.copy_location(_call('mkdict_star' if star else 'mkdict',
                                       [ast.Tuple(elts=elts, ctx=ast.Load())]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('mkset', [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call('mkdict', [lc]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('mkset', [ast.ListComp(elt=node.elt, generators=node.generators)]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call('fstr', parts), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, right = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_call('contains', [node.left, right]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=_call('contains', [node.left, right])), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(right, ast.Constant) \
                    and isinstance(right.value, bool):
                c = _call('is_', [node.left, right])
                return ast.copy_location(c if isinstance(op, ast.Is) else ast.UnaryOp(op=ast.Not(), operand=c), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', [node.left, node.right]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
                return node
            return ast.copy_location(_call('getitem', [node.value, node.slice]), node)
        return node


def transform(source, path, modname, track=True):
    tree = ast.parse(source, path)
    tree = Transform(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, track):
        super().__init__(name, path)
        self.track = track

    def get_code(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return transform(f.read(), self.path, fullname, self.track)

    def exec_module(self, module):
        module.__dict__[RT] = runtime
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots          # {top-level name: (directory containing it, track)}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base, track = self.roots[top]
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f, track), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f, track))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
