"""AST instrumentation of the modules under test."""
import ast


class R(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # helpers
    def _h(self, name):
        return ast.Attribute(ast.Name('_sx_', ast.Load()), name, ast.Load())

    def _call(self, name, *args):
        return ast.Call(self._h(name), list(args), [])

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        q = self.mod + ':' + '.'.join(self.stack)
        self.stack.pop()
        call = ast.Expr(self._call('enter', ast.Constant(q)))
        i = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and \
                isinstance(n.body[0].value.value, str):
            i = 1
        n.body.insert(i, call)
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        parts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                parts.append(ast.Tuple([v], ast.Load()))
            else:
                parts.append(ast.Tuple([k, v], ast.Load()))
        return self._call('mkdict2', ast.List(parts, ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._call('dict', ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call('set', ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call('set', ast.GeneratorExp(n.elt, n.generators))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = 'contains' if isinstance(n.ops[0], ast.In) else 'not_contains'
            # keep evaluation order: left first
            return ast.Call(
                ast.Lambda(ast.arguments([], [ast.arg('_a'), ast.arg('_b')], None, [], [], None, []),
                           self._call(f, ast.Name('_b', ast.Load()), ast.Name('_a', ast.Load()))),
                [n.left, n.comparators[0]], [])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            if isinstance(n.slice, ast.Constant):
                return n
            return self._call('getitem', n.value, n.slice)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in _STRM:
            return self._call('attr', n.value, ast.Constant(n.attr))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self._call('guard')))
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = ast.Constant('') if spec is None else self.visit(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return self._call('fstr', ast.List(parts, ast.Load()))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._call('percent', n.left, n.right)
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return n


_STRM = frozenset('join find rfind index count startswith endswith replace split strip lstrip rstrip partition '
                  'format removeprefix removesuffix translate ljust rjust'.split())


def compile_module(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = R(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


def compile_eval(src):
    tree = ast.parse(src.strip(), '<expr>', 'eval')
    tree = R('<expr>').visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, '<expr>', 'eval')
