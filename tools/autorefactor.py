#!/usr/bin/env python3
"""Mechanical behaviour-preserving transformations of all of /repo's Python; every
check has to stay quiet on each.  usage: autorefactor.py [transformation..]"""
import warnings
warnings.simplefilter('ignore')
import ast, copy, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['environment.py', 'evolution.py', 'kawano.py', 'semianalytic.py'] + \
    [os.path.relpath(p, '/repo') for d in ('common', 'particles', 'interactions', 'library') for p in glob.glob('/repo/%s/**/*.py' % d, recursive=True)
     if 'test' not in p and '/cpp/' not in p]


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class T(ast.NodeTransformer):
    n = 0

    def tmp(self):
        T.n += 1
        return 'tmp_%d' % T.n

    def visit_Lambda(self, node):
        return node


class SwapIf(T):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            node.test = ast.UnaryOp(op=ast.Not(), operand=node.test)
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=node.orelse, orelse=node.body)


class ReturnTmp(T):
    """return e -> tmp = e; return tmp"""
    def visit_Return(self, node):
        if node.value is None:
            return node
        t = self.tmp()
        return [ast.Assign(targets=[name(t, ast.Store())], value=node.value), ast.Return(value=name(t))]


class FlipCompare(T):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M:
            return ast.Compare(left=node.comparators[0], ops=[self.M[type(node.ops[0])]()], comparators=[node.left])
        return node


class Commute(T):
    """a * b -> b * a for products that are not obviously repetitions"""
    def visit_BinOp(self, node):
        self.generic_visit(node)

        def seqish(x):
            return isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes))
        if isinstance(node.op, ast.Mult) and not seqish(node.left) and not seqish(node.right):
            return ast.BinOp(left=node.right, op=node.op, right=node.left)
        return node


class Square(T):
    """x**2 -> x * x"""
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and node.right.value == 2 and isinstance(node.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(left=copy.deepcopy(node.left), op=ast.Mult(), right=node.left)
        return node


class UnAug(T):
    """x += e -> x = x + e for plain local numbers and attributes (not lists)"""
    def visit_AugAssign(self, node):
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and isinstance(node.target, (ast.Name, ast.Attribute)) \
                and not isinstance(node.value, (ast.List, ast.ListComp)) and ast.unparse(node.target) not in ('self.particles', 'self.interactions', 'inters', 'interactions', 'old_M'):
            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            return ast.Assign(targets=[node.target], value=ast.BinOp(left=load, op=node.op, right=node.value))
        return node


class HoistArgs(T):
    """e(f(x)) in a simple statement -> tmp = f(x); e(tmp) for the first nested call argument"""
    def _stmt(self, node, expr):
        if not isinstance(expr, ast.Call) or not expr.args or not isinstance(expr.args[0], (ast.Call, ast.BinOp)):
            return node
        if isinstance(expr.func, ast.Call) or any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(expr)):
            return node
        t = self.tmp()
        a = ast.Assign(targets=[name(t, ast.Store())], value=expr.args[0])
        expr.args[0] = name(t)
        return [a, node]

    def visit_Assign(self, node):
        return self._stmt(node, node.value)

    def visit_Return(self, node):
        return self._stmt(node, node.value)

    def visit_Expr(self, node):
        return self._stmt(node, node.value)


class CompToLoop(T):
    """x = [e for v in c if g] -> explicit loop, inside functions"""
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in node.body]
        return node

    def visit_Module(self, node):
        node.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in node.body]
        return node

    def _loop(self, comp, t):
        inner = ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[comp.elt], keywords=[]))
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                inner = ast.If(test=c, body=[inner], orelse=[])
            inner = ast.For(target=g.target, iter=g.iter, body=[inner], orelse=[], type_comment=None)
        return [ast.Assign(targets=[name(t, ast.Store())], value=ast.List(elts=[], ctx=ast.Load())), inner]

    def visit_Assign(self, node):
        if isinstance(node.value, ast.ListComp) and len(node.targets) == 1 and not isinstance(node.targets[0], ast.Subscript):
            t = self.tmp()
            r = self._loop(node.value, t)
            node.value = name(t)
            return r + [node]
        return node

    def visit_Return(self, node):
        v = node.value
        if isinstance(v, ast.ListComp):
            t = self.tmp()
            return self._loop(v, t) + [ast.Return(value=name(t))]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'sum' and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
            t = self.tmp()
            g = v.args[0]
            inner = ast.AugAssign(target=name(t, ast.Store()), op=ast.Add(), value=g.elt)
            for q in reversed(g.generators):
                for c in reversed(q.ifs):
                    inner = ast.If(test=c, body=[inner], orelse=[])
                inner = ast.For(target=q.target, iter=q.iter, body=[inner], orelse=[], type_comment=None)
            return [ast.Assign(targets=[name(t, ast.Store())], value=ast.Constant(0)), inner, ast.Return(value=name(t))]
        return node


class ElseAfterReturn(T):
    """if c: ..return; rest -> if c: ..return else: rest"""
    def _body(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self._body(body[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self._body(node.body)
        return node


class NestAnd(T):
    """if a and b: A (no else) -> if a: if b: A"""
    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And):
            body = node.body
            for c in reversed(node.test.values):
                body = [ast.If(test=c, body=body, orelse=[])]
            return body[0]
        return node


class DeMorgan(T):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        # only where the value is used as a truth value
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp):
            op = ast.Or() if isinstance(node.test.op, ast.And) else ast.And()
            node.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in node.test.values]))
        return node


class Rename(T):
    """locals of every function get other names"""
    def visit_FunctionDef(self, node):
        params = {a.arg for a in node.args.args + node.args.kwonlyargs} | ({node.args.vararg.arg} if node.args.vararg else set()) | \
            ({node.args.kwarg.arg} if node.args.kwarg else set())
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node)):
            return node
        stores = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        inner = set()
        for x in ast.walk(node):
            if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                inner |= {a.arg for a in x.args.args}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in stores - inner:
                x.id = x.id + '_v'
        return node


class Wrap(T):
    """def f(a): body -> def f(a): return _f_impl(a), with the body in a helper beside it"""
    def _split(self, node, method):
        a = node.args
        if node.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or node.name.startswith('__') or not a.args and method:
            return [node]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return [node]
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(node)):
            return [node]
        impl = copy.deepcopy(node)
        impl.name = '_%s_impl' % node.name
        impl.args.defaults = []
        args = [name(x.arg) for x in a.args]
        f = ast.Attribute(value=args[0], attr=impl.name, ctx=ast.Load()) if method else name(impl.name)
        node.body = [ast.Return(value=ast.Call(func=f, args=args[1:] if method else args, keywords=[]))]
        return [impl, node]

    def _body(self, body, method):
        out = []
        for b in body:
            if isinstance(b, ast.FunctionDef):
                if method and (b.decorator_list or b.args.args and b.args.args[0].arg != 'self'):
                    out.append(b)
                    continue
                out += self._split(b, method)
            elif isinstance(b, ast.ClassDef):
                b.body = self._body(b.body, True)
                out.append(b)
            else:
                out.append(b)
        return out

    def visit_Module(self, node):
        node.body = self._body(node.body, False)
        return node


class Dead(T):
    """a statement that does nothing at the start of every function"""
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, ast.Assign(targets=[name('unused_local', ast.Store())], value=ast.Constant(0)))
        return node


class ForIndex(T):
    """for x in name: body -> for i in range(len(name)): x = name[i]; body"""
    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, ast.Name) and node.iter.id != 'kwargs' and isinstance(node.target, ast.Name) and not node.orelse:
            t = self.tmp()
            first = ast.Assign(targets=[node.target], value=ast.Subscript(value=name(node.iter.id), slice=name(t), ctx=ast.Load()))
            return ast.For(target=name(t, ast.Store()), iter=ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[name(node.iter.id)], keywords=[])], keywords=[]),
                           body=[first] + node.body, orelse=[], type_comment=None)
        return node


class SelfParams(T):
    """self.params.x used three times or more in a function that never stores params -> local p"""
    def visit_FunctionDef(self, node):
        src = ast.unparse(node)
        if node.args.args and node.args.args[0].arg == 'self' and src.count('self.params.') >= 3 and 'self.params =' not in src and not node.decorator_list \
                and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node for x in ast.walk(node)):
            class S(ast.NodeTransformer):
                def visit_Attribute(s, n):
                    if isinstance(n.ctx, ast.Load) and ast.unparse(n) == 'self.params':
                        return name('cosmo')
                    s.generic_visit(n)
                    return n
            S().visit(node)
            i = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(i, ast.Assign(targets=[name('cosmo', ast.Store())],
                                           value=ast.Attribute(value=name('self'), attr='params', ctx=ast.Load())))
        return node


class Mixed(T):
    """several of the above one after the other"""
    def visit(self, node):
        for c in (Commute, CompToLoop, ForIndex, SelfParams, HoistArgs, UnAug, SwapIf, NestAnd, Wrap, ReturnTmp, Rename):
            node = ast.fix_missing_locations(c().visit(node))
        return node


ALL = {c.__name__: c for c in (SwapIf, ReturnTmp, FlipCompare, Commute, Square, UnAug, HoistArgs, CompToLoop, ElseAfterReturn, NestAnd, DeMorgan,
                               Rename, Wrap, Dead, ForIndex, SelfParams, Mixed)}


def prepare(t):
    d = tempfile.mkdtemp(prefix='auto', dir='/tmp')
    subprocess.check_call(['cp', '-r', '/repo/.', d])
    n = 0
    for f in FILES:
        p = os.path.join(d, f)
        src = open(p, encoding='utf-8').read()
        tree = ast.parse(src)
        before = ast.dump(tree)
        tree = ast.fix_missing_locations(ALL[t]().visit(tree))
        if ast.dump(tree) != before:
            out = ast.unparse(tree)
            compile(out, f, 'exec')
            open(p, 'w', encoding='utf-8').write(out + '\n')
            n += 1
    return d, n


def one(job):
    t, d, c = job
    try:
        q = subprocess.run([sys.executable, 'check.py', c], cwd=H, env=dict(os.environ, PYBBN_REPO=d), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True, timeout=900)
    except subprocess.TimeoutExpired:
        return t, '    %s TIMEOUT' % c
    u = [l.strip()[:int(os.environ.get('W', '300'))] for l in q.stdout.splitlines() if l.strip().startswith(('undecided', 'violated', 'UNDECIDED'))]
    if q.returncode or u:
        return t, '    %s rc=%d %d: %s' % (c, q.returncode, len(u), ' | '.join(u[:2]))
    return t, None


if __name__ == '__main__':
    checks = (os.environ.get('CHECKS') or '').split() or sorted(os.path.basename(p)[:3] for p in glob.glob(H + '/props/P??.py') if os.path.basename(p)[:3] not in ('P15', 'P16', 'P33', 'P34', 'P35'))
    names = sys.argv[1:] or list(ALL)
    dirs = {t: prepare(t) for t in names}
    try:
        with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
            res = list(ex.map(one, [(t, dirs[t][0], c) for t in names for c in checks]))
        for t in names:
            bad = [x for n, x in res if n == t and x]
            print('%-16s (%d files) %s' % (t, dirs[t][1], 'quiet' if not bad else 'NOT QUIET'))
            for b in bad:
                print(b)
    finally:
        if not os.environ.get('KEEP'):
            for d, n in dirs.values():
                shutil.rmtree(d)
        else:
            print(dirs)
