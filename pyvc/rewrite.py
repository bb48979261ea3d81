"""Mechanical instrumentation of the real source of `hypershell` at import time.

Every module `hypershell.*` is parsed from /repo's current tree, rewritten function by function and
compiled; nothing is dropped.  The rewriting preserves Python semantics on concrete values; it only
gives the verifier a hook where CPython would insist on a concrete value:
  * `for` loops and comprehensions go through `__vc__.forloop` / `__vc__.comp`, so that a loop over an
    arbitrary sequence is summarised by its generic element instead of being unrolled;
  * `while` loops go through `__vc__.whileloop` (native unless the contract states an invariant);
  * calls of builtins that must return machine values (len, int, str, isinstance ...), f-strings,
    `in`, `is`, str.join and list displays go through helpers that are native on concrete values;
  * each function reports its entry (evidence: which real functions were under contract).
Module level code, class bodies, decorators, defaults and annotations are left alone."""
import ast
import sys
import importlib.abc
import importlib.util
import importlib.machinery

BUILTINS = {'len', 'isinstance', 'str', 'int', 'float', 'bool', 'round', 'print', 'list', 'tuple', 'dict', 'zip',
            'map', 'filter', 'enumerate', 'sum', 'any', 'all', 'sorted', 'min', 'max', 'range', 'iter', 'next',
            'repr', 'open', 'input', 'set', 'reversed', 'abs', 'hash', 'type', 'callable', 'getattr'}
SKIP_MODULES = set()


def load(name):
    return ast.Name(id=name, ctx=ast.Load())


def vc(attr):
    return ast.Attribute(value=load('__vc__'), attr=attr, ctx=ast.Load())


def call(attr, *args, **kw):
    return ast.Call(func=vc(attr), args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


def const(v):
    return ast.Constant(value=v)


class Has(ast.NodeVisitor):
    """Does the code (not entering nested functions) contain one of the node types?"""
    def __init__(self, *types):
        self.types, self.found = types, False
    def visit(self, n):
        if isinstance(n, self.types):
            self.found = True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        self.generic_visit(n)


def has(nodes, *types):
    h = Has(*types)
    for n in nodes:
        h.visit(n)
    return h.found


def uses_super(nodes):
    return any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for n in nodes for x in ast.walk(n))


def assigned(nodes):
    """Names bound by the statements (not inside nested functions / comprehensions)."""
    out = set()
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return out


def declared(nodes, kind):
    out = set()
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, kind):
            out.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return out


class LoopExits(ast.NodeTransformer):
    """continue / break / return inside a loop body turned into results of the body closure."""
    def __init__(self):
        self.depth = 0
    def visit_FunctionDef(self, n): return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n
    visit_While = visit_For
    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(value=const(None)), n)
    def visit_Break(self, n):
        return n if self.depth else ast.copy_location(ast.Return(value=vc('BREAK')), n)
    def visit_Return(self, n):
        return ast.copy_location(ast.Return(value=call('Ret', n.value or const(None))), n)


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []            # qualified name parts
        self.in_func = 0
        self.scopes = []           # per function: dict(bound, globals, nonlocals, extra)
        self.n = 0

    # ---- structure
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        inf, self.in_func = self.in_func, 0
        n.body = [self.visit(s) for s in n.body]
        self.in_func = inf
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        args = n.args
        params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        for a in (args.vararg, args.kwarg):
            if a:
                params.add(a.arg)
        sc = {'bound': params | assigned(n.body), 'params': params, 'globals': declared(n.body, ast.Global),
              'nonlocals': declared(n.body, ast.Nonlocal), 'extra': set(), 'gen': has(n.body, ast.Yield, ast.YieldFrom),
              'qual': '.'.join([self.module] + self.stack)}
        self.scopes.append(sc)
        self.in_func += 1
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        decls = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        rest = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal))]
        new = []
        for s in rest:
            r = self.visit(s)
            new.extend(r if isinstance(r, list) else [r])
        self.in_func -= 1
        self.scopes.pop()
        pre = [ast.Expr(value=call('enter', const(sc['qual']), const(n.lineno)))]
        extra = sorted(sc['extra'] - params - sc['globals'] - sc['nonlocals'])
        if extra:
            pre.append(ast.If(test=const(0), body=[ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store()) for x in extra], value=const(None))], orelse=[]))
        n.body = doc + decls + pre + new
        self.stack.pop()
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        if not self.in_func:
            return n
        n.body = self.visit(n.body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def generic_body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    # ---- loops
    def closure(self, name, params, body, node):
        """def name(params): body   with the outer function's variables nonlocal."""
        sc = self.scopes[-1]
        names = assigned(body)
        gl = sorted(names & sc['globals'])
        nl = sorted(names - sc['globals'])
        sc['extra'].update(n for n in nl)
        pre = []
        if gl:
            pre.append(ast.Global(names=gl))
        if nl:
            pre.append(ast.Nonlocal(names=nl))
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[],
                             kw_defaults=[], defaults=[]), body=pre + body, decorator_list=[], returns=None, type_params=[])
        return ast.copy_location(fn, node)

    def loop_ok(self, n):
        body = n.body + n.orelse + ([n.test] if isinstance(n, ast.While) else [])
        return (self.in_func and not (n.orelse and isinstance(n, ast.While)) and not has(body, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)
                and not uses_super(body) and not self.scopes[-1]['gen'])

    def visit_For(self, n):
        if not self.loop_ok(n):
            self.generic_visit(n)
            return n
        self.n += 1
        b, r = f'__vc_body{self.n}', f'__vc_res{self.n}'
        body = [LoopExits().visit(s) for s in n.body]
        it = self.visit(n.iter)
        body = self.generic_body(body)
        assign = ast.copy_location(ast.Assign(targets=[n.target], value=load('__vc_item')), n)
        fn = self.closure(b, ['__vc_item'], [assign] + body, n)
        if not n.orelse:
            return self.finish(n, fn, r, call('forloop', it, load(b), const(self.scopes[-1]['qual'])))
        els = self.generic_body(n.orelse)
        st = self.finish(n, fn, r, call('forloop', it, load(b), const(self.scopes[-1]['qual']), const(True)))
        st[2].test = ast.BoolOp(op=ast.And(), values=[st[2].test, ast.Compare(left=load(r), ops=[ast.IsNot()], comparators=[vc('BREAK')])])
        return st + [ast.copy_location(ast.If(test=ast.Compare(left=load(r), ops=[ast.Is()], comparators=[const(None)]), body=els, orelse=[]), n)]

    def visit_While(self, n):
        if not self.loop_ok(n):
            self.generic_visit(n)
            return n
        self.n += 1
        b, t, r = f'__vc_body{self.n}', f'__vc_test{self.n}', f'__vc_res{self.n}'
        body = [LoopExits().visit(s) for s in n.body]
        body = self.generic_body(body)
        test = self.visit(n.test)
        fb = self.closure(b, [], body, n)
        ft = self.closure(t, [], [ast.copy_location(ast.Return(value=test), n)], n)
        out = self.finish(n, fb, r, call('whileloop', load(t), load(b), const(self.scopes[-1]['qual'])))
        return [ft] + out

    def finish(self, n, fn, r, value):
        st = [fn,
              ast.Assign(targets=[ast.Name(id=r, ctx=ast.Store())], value=value),
              ast.If(test=ast.Compare(left=load(r), ops=[ast.IsNot()], comparators=[const(None)]),
                     body=[ast.Return(value=ast.Attribute(value=load(r), attr='value', ctx=ast.Load()))], orelse=[])]
        return [ast.copy_location(s, n) for s in st]

    # ---- comprehensions
    def comp(self, n, kind, elts):
        if self.in_func and len(n.generators) > 1 and kind == 'list' and not any(g.is_async for g in n.generators):
            inner = ast.copy_location(ast.ListComp(elt=n.elt, generators=n.generators[1:]), n)
            outer = ast.copy_location(ast.ListComp(elt=inner, generators=n.generators[:1]), n)
            return ast.copy_location(call('flat', self.comp(outer, 'list', [inner])), n)
        if not self.in_func or len(n.generators) != 1:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        t = g.target
        ok = isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts))
        if not ok or g.is_async or has([n], ast.NamedExpr, ast.Await, ast.Yield) or uses_super([n]):
            self.generic_visit(n)
            return n
        star = isinstance(t, ast.Tuple)
        names = [e.id for e in t.elts] if star else [t.id]
        it = self.visit(g.iter)
        def lam(e):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[],
                              kw_defaults=[], defaults=[]), body=e)
        body = self.visit(elts[0]) if len(elts) == 1 else ast.Tuple(elts=[self.visit(e) for e in elts], ctx=ast.Load())
        cond = const(None)
        if g.ifs:
            c = [self.visit(x) for x in g.ifs]
            cond = lam(c[0] if len(c) == 1 else ast.BoolOp(op=ast.And(), values=c))
        return ast.copy_location(call('comp', const(kind), it, lam(body), cond, const(star)), n)

    def visit_ListComp(self, n): return self.comp(n, 'list', [n.elt])
    def visit_GeneratorExp(self, n): return self.comp(n, 'gen', [n.elt])
    def visit_SetComp(self, n): return self.comp(n, 'set', [n.elt])
    def visit_DictComp(self, n): return self.comp(n, 'dict', [n.key, n.value])

    # ---- expressions
    def visit_JoinedStr(self, n):
        if not self.in_func:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = const('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(call('fstr', *parts), n)

    def visit_Call(self, n):
        if not self.in_func:
            return n
        if isinstance(n.func, ast.Name) and n.func.id in BUILTINS and not any(n.func.id in s['bound'] for s in self.scopes):
            self.generic_visit(n)
            n.func = ast.copy_location(vc('b_' + n.func.id), n.func)
            return n
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            self.generic_visit(n)
            return ast.copy_location(call('join', n.func.value, n.args[0]), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            self.generic_visit(n)
            return ast.copy_location(ast.Call(func=vc('strformat'), args=[n.func.value] + n.args, keywords=n.keywords), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) in (1, 2) and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            self.generic_visit(n)
            return ast.copy_location(call('dictget', n.func.value, *n.args), n)
        if isinstance(n.func, ast.Name) and any(n.func.id in s['bound'] for s in self.scopes):
            self.generic_visit(n)                        # a local name may stand for a builtin
            n.func = ast.copy_location(call('callee', n.func), n.func)
            return n
        self.generic_visit(n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.in_func and isinstance(n.op, ast.Mod):
            return ast.copy_location(call('mod', n.left, n.right), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.in_func and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(call('getitem', n.value, n.slice), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if self.in_func and isinstance(n.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                parts = [ast.Tuple(elts=[const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in n.elts]
                return ast.copy_location(call('liststar', *parts), n)
            return ast.copy_location(call('mklist', n), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if self.in_func and len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                # a, *b, c = e   becomes   (a, b, c) = unpack(e, 1, 1)
                n.value = ast.copy_location(call('unpack', n.value, const(star[0]), const(len(t.elts) - star[0] - 1)), n.value)
                n.targets = [ast.copy_location(ast.Tuple(elts=[e.value if isinstance(e, ast.Starred) else e for e in t.elts], ctx=ast.Store()), t)]
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.in_func:
            pairs = [ast.Tuple(elts=[const(k is None), const(None) if k is None else k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
            return ast.copy_location(call('mkdict', *pairs), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.in_func and len(n.ops) == 1:
            op = n.ops[0]
            name = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_', ast.NotIn: 'not_in'}.get(type(op))
            if name:
                return ast.copy_location(call(name, n.left, n.comparators[0]), n)
        return n

    def visit_ExceptHandler(self, n):
        if not self.in_func:
            return n
        n.body = self.generic_body(n.body)
        n.body = [ast.copy_location(ast.Expr(value=call('caught')), n)] + n.body
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.generic_body(n.body)
        n.orelse = self.generic_body(n.orelse)
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = self.generic_body(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.generic_body(n.body)
        n.handlers = [self.visit(h) for h in n.handlers]
        n.orelse = self.generic_body(n.orelse)
        n.finalbody = self.generic_body(n.finalbody)
        return n


def transform(source, filename, module):
    tree = ast.parse(source, filename)
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, runtime):
        self.root, self.runtime = root, runtime
    def find_spec(self, fullname, path, target=None):
        if not (fullname == 'hypershell' or fullname.startswith('hypershell.')):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path or [self.root])
        if spec is None or not (spec.origin or '').endswith('.py'):
            return spec
        spec.loader = Loader(fullname, spec.origin, self.runtime)
        return spec


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, runtime):
        super().__init__(name, path)
        self.runtime = runtime
    def get_code(self, fullname):
        source = self.get_data(self.path)
        if fullname in SKIP_MODULES:
            return compile(source, self.path, 'exec', dont_inherit=True)
        tree = transform(source.decode(), self.path, fullname)
        return compile(tree, self.path, 'exec', dont_inherit=True)
    def exec_module(self, module):
        module.__dict__['__vc__'] = self.runtime
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


def install(root, runtime):
    sys.meta_path.insert(0, Finder(root, runtime))
    sys.dont_write_bytecode = True
