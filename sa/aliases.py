"""Arrays several objects hold: which functions change one in place, directly, through a
view of it, or through an argument they were passed.  Flow-sensitive per function, with
summaries (what a parameter may be, what a function returns) iterated over the package.

A value is a set of origins.  ('grid',) is a momentum grid, ('history',) a stored row or
column of a history table, ('state', name) an array attribute of a species,
('param', i) the i-th parameter; the second component of an element of the set tells an
array or view ('v') from a container holding one ('c')."""
import ast

GRID, HISTORY = ('grid',), ('history',)
STATE = ('_distribution', 'collision_integral', 'old_distribution')
VIEWS = {'view', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d',
         'ascontiguousarray', 'broadcast_to', 'expand_dims', 'diagonal', 'real'}
INPLACE_METHODS = {'sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setfield', 'byteswap'}
INPLACE_FUNCTIONS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis'}
CONTAINERS = {'list', 'tuple', 'zip', 'dict', 'enumerate', 'reversed', 'sorted', 'iter', 'deque'}
NOTHING = frozenset()


class Hit(object):
    def __init__(self, where, line, text, origin, how):
        self.where, self.line, self.text, self.origin, self.how = where, line, text, origin, how


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


def sliced(s):
    """does the subscript give a view rather than an element or a copy?"""
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Tuple):
        return any(sliced(x) for x in s.elts)
    return isinstance(s, ast.Constant) and s.value in (None, Ellipsis) or isinstance(s, ast.Attribute) and s.attr == 'newaxis'


class Package(object):
    def __init__(self, modules):
        """modules: {module name: syntax tree}"""
        self.fns, self.byname = {}, {}
        for mod, tree in modules.items():
            self.collect(tree, mod, False)
        self.taint = {q: {} for q in self.fns}       # parameter index -> origins from call sites
        self.returns = {q: NOTHING for q in self.fns}
        self.tuples = {q: {} for q in self.fns}      # the same by position, where every return gives a tuple
        self.touched = {q: set() for q in self.fns}
        self.hits = {}
        self.sites = 0
        self.statements = 0
        for q, (f, _, _) in self.fns.items():
            rs = [n.value for n in ast.walk(f) if isinstance(n, ast.Return)]
            if not rs or not all(isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts) for r in rs) \
                    or len({len(r.elts) for r in rs}) > 1:
                self.tuples[q] = None
        for _ in range(6):
            before = repr((sorted((q, sorted(t.items(), key=repr)) for q, t in self.taint.items()), sorted(self.returns.items(), key=repr)))
            self.hits = {}
            self.sites = self.statements = 0
            for q in sorted(self.fns):
                Walk(self, q).run()
            if repr((sorted((q, sorted(t.items(), key=repr)) for q, t in self.taint.items()), sorted(self.returns.items(), key=repr))) == before:
                break

    def collect(self, node, q, method):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                static = any(name_of(d) == 'staticmethod' for d in c.decorator_list)
                prop = any(name_of(d) == 'property' for d in c.decorator_list)
                a = c.args
                params = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs]
                qq = q + '.' + c.name
                self.fns[qq] = (c, params, method and not static)
                if not prop:
                    self.byname.setdefault(c.name, []).append(qq)
                self.collect(c, qq, False)
            elif isinstance(c, ast.ClassDef):
                self.collect(c, q + '.' + c.name, True)
            else:
                self.collect(c, q, method)


class Walk(object):
    def __init__(self, pkg, q):
        self.pkg, self.q = pkg, q
        self.node, self.params, self.method = pkg.fns[q]
        self.env = {}
        for i, p in enumerate(self.params):
            self.env[p] = frozenset({(('param', i), 'v')}) | frozenset(pkg.taint[q].get(i, NOTHING))
        # array attributes this function created afresh, and what else holds a state array
        self.fresh = set()
        self.holders = {}

    def run(self):
        self.block(self.node.body)

    # -- values --------------------------------------------------------------------
    def ev(self, e):
        if e is None:
            return NOTHING
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NOTHING)
        if isinstance(e, ast.Attribute):
            base = self.ev(e.value)
            if dotted(e) in self.fresh:
                return NOTHING
            if e.attr == 'TEMPLATE':
                return frozenset({(GRID, 'v')})
            if e.attr in STATE:
                return frozenset({(('state', e.attr), 'v')})
            if e.attr == 'T' and any(k == 'v' and o in (GRID, HISTORY) for o, k in base):
                return base
            return NOTHING
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value)
            self.ev(e.slice) if not isinstance(e.slice, ast.Slice) else None
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'data' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                return frozenset({(HISTORY, 'h')})
            out = set()
            for o, k in base:
                if k == 'h':
                    out.add((o, 'v'))
                elif k == 'c':
                    out.add((o, 'c' if sliced(e.slice) else 'v'))
                elif sliced(e.slice):
                    out.add((o, 'v'))
                elif o == HISTORY and not isinstance(e.slice, (ast.Compare, ast.BoolOp)):
                    out.add((o, 'v'))        # a row of a two-dimensional table
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            r = NOTHING
            for x in e.values:
                r |= self.ev(x)
            return r
        if isinstance(e, ast.NamedExpr):
            r = self.ev(e.value)
            self.env[e.target.id] = r
            return r
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            r = set()
            for x in e.elts:
                r |= {(o, 'c') for o, k in self.ev(x)}
            return frozenset(r)
        if isinstance(e, ast.Dict):
            r = set()
            for x in e.values:
                r |= {(o, 'c') for o, k in self.ev(x)}
            return frozenset(r)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            old = dict(self.env)
            for g in e.generators:
                self.bind(g.target, self.element(self.ev(g.iter)))
            r = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt)
            self.env = old
            return frozenset((o, 'c') for o, k in r)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            return NOTHING
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            # joined lists hold the elements of both; a sum of arrays is a new one
            return frozenset(x for x in self.ev(e.left) | self.ev(e.right) if x[1] == 'c')
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NOTHING

    def element(self, r):
        """what iterating over the value gives"""
        return frozenset((o, 'v') for o, k in r if k in ('c', 'h') or o == HISTORY)

    def call(self, e):
        n = name_of(e.func)
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        recv = self.ev(e.func.value) if isinstance(e.func, ast.Attribute) else NOTHING
        if isinstance(kw.get('out'), frozenset):
            for k in e.keywords:
                if k.arg == 'out':
                    self.change(kw['out'], e, 'out=', k.value)
        if isinstance(e.func, ast.Attribute) and n in INPLACE_METHODS and any(k == 'v' for o, k in recv):
            self.change(recv, e, '.%s()' % n, e.func.value)
        if n in INPLACE_FUNCTIONS and args and n not in self.pkg.byname:
            self.change(args[0], e, '%s()' % n, e.args[0])
        self.pkg.sites += 1
        out = set()
        for q in self.pkg.byname.get(n, ()):
            f, params, method = self.pkg.fns[q]
            shift = 1 if method and isinstance(e.func, ast.Attribute) else 0
            given = {}
            for i, a in enumerate(args):
                if isinstance(e.args[i], ast.Starred):
                    break
                if i + shift < len(params):
                    given[i + shift] = a
            for k, a in kw.items():
                if k in params:
                    given[params.index(k)] = a
            for i, a in given.items():
                t = frozenset((o, k) for o, k in a if o[0] != 'param')
                own = {x for o, k in a if o[0] == 'param' for x in self.pkg.taint[self.q].get(o[1], NOTHING)}
                t |= own
                if t - self.pkg.taint[q].get(i, NOTHING):
                    self.pkg.taint[q][i] = self.pkg.taint[q].get(i, NOTHING) | t
            for o, k in self.pkg.returns[q]:
                if o[0] == 'param':
                    for oo, kk in given.get(o[1], NOTHING):
                        out.add((oo, k if kk == 'v' else kk))
                else:
                    out.add((o, k))
        if n in VIEWS:
            out |= set(args[0] if args and isinstance(e.func, ast.Attribute) and not recv else recv)
            if isinstance(e.func, ast.Name) and args:
                out |= set(args[0])
        if n == 'array' and args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
            out |= set(args[0])
        if n in CONTAINERS and isinstance(e.func, ast.Name):
            for a in args:
                out |= {(o, 'c') for o, k in a if k in ('c', 'h') or o == HISTORY}
        if n in ('get', 'pop', 'values', 'items', 'setdefault', 'popleft') and isinstance(e.func, ast.Attribute):
            out |= {(o, 'c' if n in ('values', 'items') else 'v') for o, k in recv if k == 'c'}
        if n in ('append', 'add', 'insert', 'extend', 'appendleft') and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                and e.func.value.id not in self.params and args:
            v = e.func.value.id
            put = {(o, 'c') for o, k in args[-1]}
            self.env[v] = self.env.get(v, NOTHING) | put
            self.hold(v, put, e)
        return frozenset(out)

    # -- effects -------------------------------------------------------------------
    def report(self, node, origin, how):
        key = (self.q, node.lineno, origin)
        self.pkg.hits[key] = Hit(self.q, node.lineno, ast.unparse(node).split('\n')[0][:100], origin, how)

    def change(self, r, node, how, target):
        d = dotted(target)
        for o, k in r:
            if k == 'v' and o in (GRID, HISTORY):
                self.report(node, o, how)
        for o, k in r:
            if k == 'v' and o[0] == 'state':
                for h, line in self.holders.get(o[1], {}).items():
                    if h != d and self.read_later(h, node, target):
                        self.report(node, ('state', o[1], h), how)

    def read_later(self, holder, node, target):
        """an attribute outlives the function; a local variable matters where it is read afterwards"""
        if '.' in holder:
            return True
        if isinstance(target, ast.Name):
            return False
        loops = [n for n in ast.walk(self.node) if isinstance(n, (ast.For, ast.While)) and n.lineno <= node.lineno <= n.end_lineno]
        start = min([n.lineno for n in loops] + [node.lineno])
        return any(isinstance(n, ast.Name) and n.id == holder and isinstance(n.ctx, ast.Load) and (n.lineno > node.lineno or n.lineno >= start)
                   for n in ast.walk(self.node))

    def hold(self, holder, r, node):
        for h in self.holders.values():
            h.pop(holder, None)
        for o, k in r:
            if o[0] == 'state':
                self.holders.setdefault(o[1], {})[holder] = node.lineno

    def bind(self, t, r, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = r
            self.hold(t.id, r, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, v in [(x, self.ev(v)) for x, v in zip(t.elts, value.elts)]:
                    self.bind(x, v)
            else:
                qs = self.pkg.byname.get(name_of(value.func), ()) if isinstance(value, ast.Call) else ()
                if qs and all(self.pkg.tuples[q] is not None for q in qs):
                    # a function returning a tuple: what each position may be, arguments aside
                    for i, x in enumerate(t.elts):
                        self.bind(x, frozenset(y for q in qs for y in self.pkg.tuples[q].get(i, NOTHING) if y[0][0] != 'param'))
                    return
                for x in t.elts:
                    self.bind(x, frozenset((o, 'v') for o, k in r))
        elif isinstance(t, ast.Attribute):
            d = dotted(t)
            if t.attr in STATE or t.attr == 'TEMPLATE':
                # a new array takes the place of the old one
                if d and not any(o[0] != 'param' or self.pkg.taint[self.q].get(o[1]) for o, k in r):
                    self.fresh.add(d)
                elif d:
                    self.fresh.discard(d)
                if t.attr in STATE:
                    self.holders.pop(t.attr, None)
            if d:
                self.hold(d, frozenset(x for x in r if x[0] != ('state', t.attr)), t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            if any(k == 'v' for o, k in base):
                self.change(base, t, 'stores into it', t.value)
            if isinstance(t.value, ast.Name) and not any(k == 'v' for o, k in base):
                put = {(o, 'c') for o, k in r}
                self.env[t.value.id] = self.env.get(t.value.id, NOTHING) | put
                self.hold(t.value.id, put, t)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, r)

    def block(self, body):
        for s in body:
            self.pkg.statements += 1
            self.stmt(s)

    def both(self, *bodies):
        env, fresh = dict(self.env), set(self.fresh)
        outs = []
        for b in bodies:
            self.env, self.fresh = dict(env), set(fresh)
            self.block(b)
            outs.append((self.env, self.fresh))
        merged = {}
        for e, _ in outs:
            for k, v in e.items():
                merged[k] = merged.get(k, NOTHING) | v
        self.env = merged
        self.fresh = set.intersection(*[f for _, f in outs])

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            r = self.ev(s.value)
            for t in s.targets:
                self.bind(t, r, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            r = self.ev(s.target)
            if any(k == 'v' for o, k in r):
                self.change(r, s, 'in-place operator', s.target)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None and self.pkg.tuples[self.q] is not None and isinstance(s.value, ast.Tuple):
                at = self.pkg.tuples[self.q]
                for i, x in enumerate(s.value.elts):
                    at[i] = at.get(i, NOTHING) | self.ev(x)
            if s.value is not None:
                self.pkg.returns[self.q] = self.pkg.returns[self.q] | self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.both(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            r = self.ev(s.iter)
            for _ in range(2):
                self.bind(s.target, self.element(r))
                self.both(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                self.both(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                r = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, r)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.both(s.body + s.orelse, *[s.body[:0] + h.body for h in s.handlers]) if s.handlers else self.block(s.body)
            self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)
