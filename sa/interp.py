"""Abstract interpreter over the Python syntax tree: flow-sensitive,
interprocedural (calls are summarised by inlining), joins at every control-flow
merge into decision diagrams.  No path is enumerated and nothing of /repo is
imported or executed."""
import ast
import builtins
import os
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
from fractions import Fraction
from . import terms as T
from .terms import atom, Unk, Poly
from .values import *
from . import values as VV

REPO = os.environ.get('PYBBN_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _All(object):
    def __contains__(self, x):
        return True


class Program(object):
    def __init__(self, root=REPO):
        self.root = root
        self.trees = {}
        self.src = {}
        self.virtual = set()

    def find(self, name):
        if name in self.virtual:
            return name
        top = name.split('.')[0]
        p = os.path.join(HERE if top == 'specs' else self.root, *name.split('.'))
        for cand in (os.path.join(p, '__init__.py'), p + '.py'):
            if os.path.isfile(cand):
                return cand
        return None

    def tree(self, name):
        if name not in self.trees:
            f = self.find(name)
            if f is None:
                self.trees[name] = None
            else:
                s = open(f, encoding='utf8').read()
                self.src[name] = s
                self.trees[name] = ast.parse(s, f)
        return self.trees[name]


COLUMN = ast.dump(ast.parse('x[:, None]').body[0].value.slice)


# opaque array values: their truth value is an error
WHOLE_ARRAYS = set()


def nleaves(v):
    return sum(1 for _ in leaves(v)) if isinstance(v, Ite) else 1


def linear(v):
    """a conditional sequence as one sequence of guarded items"""
    if isinstance(v, Ite):
        a, b = linear(v.hi), linear(v.lo)
        if a is None or b is None or a.kind != b.kind:
            return None
        return merge_seqs(Ite(v.c, TRUE, FALSE), a, b)
    return v if isinstance(v, Seq) else None


def merge_seqs(c, a, b):
    def same(p, q):
        return p.v.key == q.v.key and p.star == q.star and [(x.key, y.key) for x, y in p.binders] == [(x.key, y.key) for x, y in q.binders]
    out = []
    i = 0
    while i < len(a.parts) and i < len(b.parts) and same(a.parts[i], b.parts[i]):
        p, q = a.parts[i], b.parts[i]
        out.append(Part(p.v, p.binders, ite(c, p.guard, q.guard), p.star))
        i += 1
    for s, g in ((a, c), (b, bnot(c))):
        for p in s.parts[i:]:
            h = band(g, p.guard)
            if h.key != 'False':
                out.append(Part(p.v, p.binders, h, p.star))
    return Seq(out, a.kind)


def merge_dicts(c, x, y):
    if any(e[2] for e in x.e + y.e):
        return None
    i = 0
    out = []
    while i < len(x.e) and i < len(y.e) and x.e[i][0].key == y.e[i][0].key and x.e[i][1].key == y.e[i][1].key:
        out.append((x.e[i][0], x.e[i][1], (), ite(c, x.e[i][3], y.e[i][3])))
        i += 1
    for s, g in ((x, c), (y, bnot(c))):
        for k, v, b, h in s.e[i:]:
            h = band(g, h)
            if h.key == 'False':
                continue
            at = [j for j, e in enumerate(out) if e[0].key == k.key]
            if not at:
                out.append((k, v, (), h))
            else:
                o = out[at[0]]
                out[at[0]] = (k, v if v.key == o[1].key else ite(h, v, o[1]), (), bor(o[3], h))
    return DictV(out)


def is_cond(v):
    return all(is_bool(x) for _, x in leaves(v))


def not_iterable(v):
    """(condition under which v cannot be unpacked, v with those cases as errors)"""
    if isinstance(v, Ite):
        (a, x), (b, y) = not_iterable(v.hi), not_iterable(v.lo)
        c = Ite(v.c, TRUE, FALSE)
        return ite(c, a, b), (v if a.key == b.key == 'False' else ite(c, x, y))
    if isinstance(v, K) and not isinstance(v.v, str):
        return TRUE, BOT
    return FALSE, v


def scopes(tree):
    """names used in functions -> names bound in the enclosing functions (other than the innermost)
    and the module; a name the innermost function binds is its own"""
    FUN = (ast.FunctionDef, ast.Lambda)
    out = {}
    glob = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob.update(x.names)

    def binds(body, acc):
        for x in body:
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                acc.add(x.id)
            elif isinstance(x, ast.alias):
                acc.add((x.asname or x.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                acc.add(x.name)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                acc.add(x.name)
                binds(x.decorator_list, acc)
            elif not isinstance(x, ast.Lambda):
                binds(list(ast.iter_child_nodes(x)), acc)
        return acc

    def walk(n, outer, own, incls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUN):
                a = c.args
                mine = {y.arg for y in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', [])} | {y.arg for y in (a.vararg, a.kwarg) if y}
                if isinstance(c, ast.FunctionDef):
                    mine |= binds(c.body, set())
                walk(c, outer if own is None or incls else outer | own, mine, False)
            elif isinstance(c, ast.ClassDef):
                walk(c, outer if own is None else outer | own, None, True)
            else:
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and own is not None:
                    out[id(c)] = (outer | glob) - own if c.id in own and c.id not in glob else outer | own | glob
                walk(c, outer, own, incls)
    walk(tree, binds(tree.body, set()), None, False)
    return out


def absent(v):
    """the condition under which v is None"""
    if isinstance(v, Ite):
        return ite(Ite(v.c, TRUE, FALSE), absent(v.hi), absent(v.lo))
    return TRUE if isinstance(v, K) and v.v is None else FALSE


def assigned(v):
    """(condition under which a variable is bound, its value then)"""
    if v is UNBOUND:
        return FALSE, None
    if isinstance(v, Ite):
        c = Ite(v.c, TRUE, FALSE)
        (c1, v1), (c2, v2) = assigned(v.hi), assigned(v.lo)
        if v1 is None or v2 is None:
            return ite(c, c1, c2), v2 if v1 is None else v1
        return ite(c, c1, c2), ite(c, v1, v2)
    return TRUE, v


class State(object):
    __slots__ = ('frames', 'attrs', 'cells', 'events', 'ret', 'rv', 'brk', 'cnt', 'pc', 'owned')

    def __init__(self):
        self.owned = set()       # frames this state may write without copying
        self.frames = {}
        self.attrs = {}
        self.cells = {}
        self.events = ()
        self.ret = FALSE
        self.rv = NONE
        self.brk = FALSE
        self.cnt = FALSE
        self.pc = TRUE

    def copy(self):
        s = State()
        s.frames = dict(self.frames)
        self.owned = set()
        s.attrs = dict(self.attrs)
        s.cells = dict(self.cells)
        s.events = self.events
        s.ret, s.rv, s.brk, s.cnt = self.ret, self.rv, self.brk, self.cnt
        s.pc = self.pc
        return s


class Event(object):
    __slots__ = ('kind', 'data', 'loc', 'fn')

    def __init__(self, kind, data, loc=None, fn=None):
        self.kind, self.data, self.loc, self.fn = kind, data, loc, fn

    def __repr__(self):
        if self.kind == 'branch':
            return 'if(%s){%s}{%s}' % (self.data[0].key[:60], self.data[1], self.data[2])
        if self.kind in ('foreach', 'while'):
            return '%s(%s){%s}' % (self.kind, self.data[0].key[:60], list(self.data[1]))
        return '%s(%s)' % (self.kind, ', '.join(getattr(x, 'key', str(x))[:60] for x in self.data))


PURE_ROOTS = ('numpy', 'scipy', 'math', 'itertools', 'collections', 'functools', 'copy', 'operator', 'builtins')

ATTR_CLS = {}     # attribute name -> class qualname of the value
ELEM_CLS = {}     # attribute name -> class qualname of elements
DERIVED = {}      # (class-ish attr name) -> function(interp, obj) -> value


class Interp(object):
    def __init__(self, program=None, prims=None, uninterpreted=(), maxdepth=60):
        self.prog = program or Program()
        self.boundcache = {}
        self.scopecache = {}
        self.dynattrs = set()
        self.standin = {}
        self.st = State()
        self.n = 0
        self.prims = dict(prims or {})
        self.uninterpreted = set(uninterpreted)
        self.maxdepth = maxdepth
        self.stack = []
        self.binder_depth = {}
        self.int_depth = 0
        self.notes = []
        self.stats = {'calls': 0, 'functions': set(), 'stmts': 0, 'sites': set()}
        self.reads = []          # stack of read logs
        self.loading = set()
        self._dups = {}
        self.cfg = {}
        self.noevents = False

    # -- bookkeeping -----------------------------------------------------------
    def wframe(self, fid):
        st = self.st
        if fid not in st.owned:
            st.frames[fid] = dict(st.frames[fid])
            st.owned.add(fid)
        return st.frames[fid]

    def fresh(self, p='o'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def unk(self, why, node=None):
        self.notes.append(why)
        return SymV(atom('unk', self.fresh('u'), why[:60]))

    def event(self, kind, *data, node=None):
        if self.noevents:
            return
        loc = (self.stack[-1][0] if self.stack else '?', getattr(node, 'lineno', 0))
        self.st.events = self.st.events + (Event(kind, data, loc, self.stack[-1][0] if self.stack else '?'),)

    # -- modules ---------------------------------------------------------------
    def module(self, name):
        fid = 'mod:' + name
        if fid in self.st.frames:
            return ModV(name, False)
        t = self.prog.tree(name)
        if t is None:
            return None
        # parents first
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if 'mod:' + parent not in self.st.frames:
                self.module(parent)
            if fid in self.st.frames:
                return ModV(name, False)
        self.st.frames[fid] = {'__name__': K(name)}
        self.st.owned.add(fid)
        saved = (self.st.ret, self.st.rv)
        self.stack.append((name, None))
        try:
            self.block(t.body, fid, name)
        finally:
            self.stack.pop()
        self.st.ret, self.st.rv = saved
        if '.' in name:
            parent, short = name.rsplit('.', 1)
            self.wframe('mod:' + parent).setdefault(short, ModV(name, False))
        return ModV(name, False)

    def modget(self, modname, attr):
        fr = self.st.frames.get('mod:' + modname)
        if fr is None:
            m = self.module(modname)
            if m is None:
                raise Unk('no module ' + modname)
            fr = self.st.frames['mod:' + modname]
        if attr in fr:
            return fr[attr]
        sub = modname + '.' + attr
        if self.prog.find(sub):
            m = self.module(sub)
            if m is not None:
                return m
        raise Unk('no attribute %s in module %s' % (attr, modname))

    def lookup_qual(self, qual):
        """'pkg.mod:Class.attr' or 'pkg.mod:func' """
        mod, _, path = qual.partition(':')
        v = None
        parts = path.split('.')
        v = self.modget(mod, parts[0])
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    # -- state merging -----------------------------------------------------------
    def merge(self, c, s1, s2, base_events):
        s = State()
        s.pc = TRUE
        for fid in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(fid), s2.frames.get(fid)
            if a is None or b is None:
                s.frames[fid] = a if a is not None else b
                continue
            if a is b:
                s.frames[fid] = a
                continue
            d = {}
            for n in set(a) | set(b):
                x, y = a.get(n, UNBOUND), b.get(n, UNBOUND)
                d[n] = x if x is y else self.vmerge(c, x, y, s1, s2, s)
            s.frames[fid] = d
        for k in set(s1.attrs) | set(s2.attrs):
            x, y = s1.attrs.get(k), s2.attrs.get(k)
            if x is None or y is None:
                o = (k[0], '%obj', None)
                if k[2] is None and (o in s1.attrs) != (o in s2.attrs):
                    # made in one branch only
                    s.attrs[k] = y if x is None else x
                    continue
            if x is None:
                x = self.initial_attr(k)
            if y is None:
                y = self.initial_attr(k)
            s.attrs[k] = x if x is y else self.vmerge(c, x, y, s1, s2, s)
        for k in set(s1.cells) | set(s2.cells):
            x, y = s1.cells.get(k), s2.cells.get(k)
            if x is None:
                s.cells[k] = y
            elif y is None:
                s.cells[k] = x
            else:
                s.cells[k] = x if x is y else self.cmerge(c, x, y)
        n = len(base_events)
        e1, e2 = s1.events[n:], s2.events[n:]
        s.events = base_events
        if e1 or e2:
            s.events = base_events + (Event('branch', (c, e1, e2)),)
        s.ret = ite(c, s1.ret, s2.ret)
        if s1.ret.key == 'False':
            s.rv = s2.rv
        elif s2.ret.key == 'False':
            s.rv = s1.rv
        else:
            s.rv = self.vmerge(c, s1.rv, s2.rv, s1, s2, s)
        s.brk = ite(c, s1.brk, s2.brk)
        s.cnt = ite(c, s1.cnt, s2.cnt)
        return s

    def cmerge(self, c, x, y):
        """containers of two branches: entries present in one of them get its condition"""
        if x.key == y.key and x.__class__ is y.__class__:
            return x
        if isinstance(x, DictV) and isinstance(y, DictV):
            m = merge_dicts(c, x, y)
            if m is not None:
                return m
        if nleaves(x) + nleaves(y) > 8:
            a, b = linear(x), linear(y)
            if a is not None and b is not None and a.kind == b.kind:
                return merge_seqs(c, a, b)
        return ite(c, x, y)

    def vmerge(self, c, x, y, s1, s2, s):
        if x.key == y.key and x.__class__ is y.__class__:
            return x
        return ite(c, x, y)

    def initial_attr(self, k):
        okey, attr, base = k
        return self.sym_attr(base, attr)

    # -- statements -----------------------------------------------------------------
    def block(self, stmts, fid, mod):
        for s in stmts:
            st = self.st
            flags = bor(bor(st.ret, st.brk), st.cnt)
            if flags.key == 'True':
                return
            self.stats['stmts'] += 1
            if flags.key == 'False':
                self.stmt(s, fid, mod)
            else:
                pc = band(st.pc, bnot(flags))
                if pc.key == 'False':
                    # never reached
                    return
                base = st.events
                before = st.copy()
                saved_rv = st.rv
                st.ret, st.brk, st.cnt = FALSE, FALSE, FALSE
                st.pc = pc
                self.stmt(s, fid, mod)
                after = self.st
                # states where a flag was set keep `before`
                m = self.merge(flags, before, after, base)
                # return value: old rv where already returned
                m.ret = bor(before.ret, band(bnot(flags), after.ret))
                m.rv = ite(before.ret, saved_rv, after.rv) if after.ret.key != 'False' else saved_rv
                m.brk = bor(before.brk, band(bnot(flags), after.brk))
                m.cnt = bor(before.cnt, band(bnot(flags), after.cnt))
                m.pc = before.pc
                self.st = m

    def stmt(self, s, fid, mod):
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None:
            raise Unk('statement %s' % s.__class__.__name__)
        m(s, fid, mod)

    def s_Expr(self, s, fid, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid, mod)

    def s_Pass(self, s, fid, mod):
        pass

    def s_Global(self, s, fid, mod):
        self.wframe(fid).setdefault('%globals', Seq([], 'tuple'))
        old = [p.v for p in self.st.frames[fid]['%globals'].parts]
        self.wframe(fid)['%globals'] = Seq([Part(v) for v in old] + [Part(K(n)) for n in s.names], 'tuple')

    s_Nonlocal = s_Global

    def s_Assert(self, s, fid, mod):
        try:
            c = self.truth(self.ev(s.test, fid, mod))
        except Unk:
            return
        self.event('assert', c, node=s)

    def s_Delete(self, s, fid, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wframe(fid).pop(t.id, None)
            else:
                self.event('delete', node=s)

    def s_Import(self, s, fid, mod):
        for a in s.names:
            if self.prog.find(a.name) and self.module(a.name) is not None:
                top = a.name.split('.')[0]
                if a.asname:
                    self.setname(a.asname, ModV(a.name, False), fid)
                else:
                    self.setname(top, ModV(top, False), fid)
            else:
                if a.asname:
                    self.setname(a.asname, ModV(a.name, True), fid)
                else:
                    self.setname(a.name.split('.')[0], ModV(a.name.split('.')[0], True), fid)

    def s_ImportFrom(self, s, fid, mod):
        base = s.module or ''
        if s.level:
            pk = mod.split('.')
            isp = (self.prog.find(mod) or '').endswith('__init__.py')
            pk = pk if isp else pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        if base == '__future__':
            return
        internal = self.prog.find(base) is not None
        if internal:
            self.module(base)
        for a in s.names:
            if a.name == '*':
                if internal:
                    for n, v in list(self.st.frames['mod:' + base].items()):
                        if not n.startswith('_'):
                            self.setname(n, v, fid)
                continue
            nm = a.asname or a.name
            if internal:
                try:
                    self.setname(nm, self.modget(base, a.name), fid)
                except Unk:
                    self.event('importerror', K(base), K(a.name), node=s)
                    self.setname(nm, self.unk('import %s from %s' % (a.name, base)), fid)
            else:
                full = base + '.' + a.name
                if base in STUBBED:
                    self.setname(nm, STUBBED[base](self, a.name), fid)
                elif a.name in ('integrators', 'statistics') or full in EXTMODS:
                    self.setname(nm, ModV(full, True), fid)
                else:
                    self.setname(nm, self.extattr(base, a.name), fid)

    def extattr(self, base, name):
        full = base + '.' + name
        if full in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return Num(T.PI)
        if full in ('numpy.inf', 'math.inf'):
            return SymV(atom('sym', 'inf'))
        if full in ('numpy.nan', 'math.nan'):
            return SymV(atom('sym', 'nan'))
        if full in EXTMODS:
            return ModV(full, True)
        return Builtin(full)

    def s_FunctionDef(self, s, fid, mod):
        f = self.mkfn(s, fid, mod, s.name)
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                v = Wrap(d.id, v)
                continue
            dec = self.ev(d, fid, mod)
            v = self.call(dec, [v], {}, d)
        self.setname(s.name, v, fid)

    s_AsyncFunctionDef = s_FunctionDef

    def mkfn(self, node, fid, mod, name):
        a = node.args
        defaults = [self.ev(d, fid, mod) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d, fid, mod)
        owner = None
        fr = self.st.frames[fid]
        if fid.startswith('mod:'):
            key = 'fn:%s.%s' % (mod, name)
        elif '%class' in fr:
            owner = fr['%class'].v
            key = 'fn:%s.%s' % (owner, name)
        else:
            key = 'fn:%s.%s@%s' % (mod, name, self.fresh('c'))
        if fid.startswith('mod:') and name in self.dups(mod):
            key += '@L%d' % node.lineno
        return Fn(node, mod, fid, defaults, kwd, name, key, owner)

    def dups(self, mod):
        d = self._dups.get(mod)
        if d is None:
            seen, d = set(), set()
            for x in ast.walk(self.prog.tree(mod)):
                if isinstance(x, ast.FunctionDef):
                    (d if x.name in seen else seen).add(x.name)
            self._dups[mod] = d
        return d

    def s_ClassDef(self, s, fid, mod):
        bases = [self.ev(b, fid, mod) for b in s.bases]
        qual = mod + '.' + s.name
        cls = ClsV(s.name, qual, bases)
        cf = 'cls:' + qual
        self.st.frames[cf] = {'%class': K(qual)}
        self.wframe(cf)['%outer'] = K(fid)
        self.block(s.body, cf, mod)
        for n, v in self.st.frames[cf].items():
            if not n.startswith('%'):
                self.st.attrs[(cls.key, n, None)] = v
        self.setname(s.name, cls, fid)
        hook = CLASS_HOOKS.get(qual)
        if hook:
            hook(self, cls)

    def s_Return(self, s, fid, mod):
        v = NONE if s.value is None else self.ev(s.value, fid, mod)
        st = self.st
        st.rv = v if st.ret.key == 'False' else ite(st.ret, st.rv, v)
        st.ret = TRUE

    def s_Raise(self, s, fid, mod):
        self.event('raise', K(ast.dump(s.exc)[:80] if s.exc else ''), node=s)
        self.st.rv = BOT
        self.st.ret = TRUE

    def s_Break(self, s, fid, mod):
        self.st.brk = TRUE

    def s_Continue(self, s, fid, mod):
        self.st.cnt = TRUE

    def s_Assign(self, s, fid, mod):
        v = self.ev(s.value, fid, mod)
        for t in s.targets:
            self.assign(t, v, fid, mod)
            if isinstance(t, ast.Name):
                # a local name for an array a species holds
                if isinstance(s.value, ast.Attribute) and s.value.attr in ('_distribution', 'collision_integral'):
                    self.standin[(fid, t.id)] = s.value
                else:
                    self.standin.pop((fid, t.id), None)

    def inplace(self, t, v, fid, mod):
        """the array `t` stands for now has the value v"""
        at = self.standin.get((fid, t.id)) if isinstance(t, ast.Name) else None
        if at is not None and self.freeze(self.ev(at, fid, mod)).key == self.freeze(self.ev(_load(t), fid, mod)).key:
            self.assign(at, v, fid, mod)
        self.assign(t, v, fid, mod)

    def s_AnnAssign(self, s, fid, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid, mod), fid, mod)

    def s_AugAssign(self, s, fid, mod):
        t = s.target
        load = _load(t)
        old = self.ev(load, fid, mod)
        v = self.ev(s.value, fid, mod)
        if isinstance(old, Ref) and old.cls is not None and old.cls.key.startswith('cls:'):
            nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(s.op.__class__.__name__)
            f = self.cls_lookup(old.cls, nm) if nm else None
            if f is not None:
                self.assign(t, self.call(Bound(f, old), [v], {}, s), fid, mod)
                return
        if isinstance(old, Ref) and old.id in self.st.cells and isinstance(s.op, ast.Add):
            cell = self.st.cells[old.id]
            if isinstance(cell, (Seq, Ite)):
                self.list_extend(old, v)
                self.assign(t, old, fid, mod)
                return
        if isinstance(old, SymV) and old.cls is not None:
            nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(s.op.__class__.__name__)
            f = self.cls_lookup(old.cls, nm) if nm else None
            if f is not None:
                self.assign(t, self.call(Bound(f, old), [v], {}, s), fid, mod)
                return
        self.inplace(t, self.binop(s.op, old, v, s), fid, mod)

    def s_If(self, s, fid, mod):
        c = self.truth(self.ev(s.test, fid, mod))
        if isinstance(c, K):
            self.block(s.body if c.v else s.orelse, fid, mod)
            return
        base = self.st
        s1, s2 = base.copy(), base.copy()
        s1.pc = band(base.pc, c)
        s2.pc = band(base.pc, bnot(c))
        if s1.pc.key == 'False':
            self.block(s.orelse, fid, mod)
            return
        if s2.pc.key == 'False':
            self.block(s.body, fid, mod)
            return
        self.st = s1
        self.block(s.body, fid, mod)
        s1 = self.st
        self.st = s2
        self.block(s.orelse, fid, mod)
        s2 = self.st
        self.st = self.merge(c, s1, s2, base.events)
        self.st.pc = base.pc

    def s_With(self, s, fid, mod):
        for it in s.items:
            v = self.ev(it.context_expr, fid, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fid, mod)
        self.block(s.body, fid, mod)

    def s_Try(self, s, fid, mod):
        # library exceptions are not modelled; an explicit raise reaches the first handler
        self.block(s.body, fid, mod)
        st = self.st
        exc = band(st.ret, self.raises(st.rv)) if st.ret.key != 'False' else FALSE
        if exc.key == 'False' or not s.handlers:
            self.block(s.orelse, fid, mod)
        else:
            base = st.events
            a, b = st.copy(), st.copy()
            a.ret = band(a.ret, bnot(exc))
            a.pc = band(st.pc, bnot(exc))
            self.st = a
            self.block(s.orelse, fid, mod)
            a = self.st
            b.ret, b.rv = FALSE, NONE
            b.pc = band(st.pc, exc)
            self.st = b
            if s.handlers[0].name:
                self.setname(s.handlers[0].name, self.unk('exception', s), fid)
            self.block(s.handlers[0].body, fid, mod)
            b = self.st
            pc = st.pc
            self.st = self.merge(exc, b, a, base)
            self.st.pc = pc
        self.block(s.finalbody, fid, mod)

    def s_While(self, s, fid, mod):
        for _ in range(64):
            c = self.truth(self.ev(s.test, fid, mod))
            if isinstance(c, K):
                if not c.v:
                    return
                self.block(s.body, fid, mod)
                b = self.st.brk
                self.st.cnt = FALSE
                if b.key == 'True':
                    self.st.brk = FALSE
                    return
                if b.key != 'False' or self.st.ret.key not in ('True', 'False'):
                    raise Unk('symbolic exit from while')
                if self.st.ret.key == 'True':
                    return
                continue
            break
        # symbolic loop: havoc what the body assigns, record its events
        self.generic_loop(s, c, lambda: None, fid, mod, None)

    def generic_loop(self, s, c, bind, fid, mod, coll):
        """loop whose iterations are not modelled element-wise"""
        base = self.st
        probe = base.copy()
        self.st = probe
        bind()
        self.block(s.body, fid, mod)
        after = self.st
        self.st = base
        changed = self.changed(base, after, fid)
        for loc in changed:
            if loc[0] == 'attr' and loc[2][2] is not None:
                # state of a symbolic object at the loop head: named by the object, the
                # attribute and its value before the loop, so that two analyses agree on it
                v0 = self.getloc(base, loc)
                self.setloc(loc, SymV(atom('fn', 'loopvar', K('%s.%s' % (loc[2][0], loc[1])), self.freeze(v0))))
            else:
                self.setloc(loc, self.unk('loop-carried %s' % loc[1], s))
        # body once more from the havocked header for its events
        hdr = self.st
        ev0 = hdr.events
        probe = hdr.copy()
        probe.events = ()
        self.st = probe
        if isinstance(s, ast.While):
            cc = self.truth(self.ev(s.test, fid, mod))
        else:
            cc = c
        bind()
        self.block(s.body, fid, mod)
        evs = self.st.events
        ret = self.st.ret
        for loc in changed:
            if loc[0] == 'attr' and loc[2][2] is not None:
                evs = evs + (Event('next', (K('%s.%s' % (loc[2][0], loc[1])), self.freeze(self.getloc(self.st, loc)))),)
        self.st = hdr
        if evs:
            hdr.events = ev0 + (Event('while', (cc, evs), (self.stack[-1][0] if self.stack else '?', s.lineno)),)
        if ret.key != 'False':
            raise Unk('return inside an unmodelled loop')

    def changed(self, a, b, fid):
        out = []
        fa, fb = a.frames, b.frames
        for f in fb:
            if f not in fa:
                continue
            if fa[f] is fb[f]:
                continue
            for n in fb[f]:
                x, y = fa[f].get(n), fb[f][n]
                if x is None:
                    out.append(('new', n, f))
                elif x is not y and x.key != y.key:
                    out.append(('var', n, f))
        for k in b.attrs:
            x, y = a.attrs.get(k), b.attrs[k]
            if x is None or (x is not y and x.key != y.key):
                out.append(('attr', k[1], k))
        for k in b.cells:
            if k in a.cells and a.cells[k] is not b.cells[k] and a.cells[k].key != b.cells[k].key:
                out.append(('cell', k, k))
        return out

    def setloc(self, loc, v):
        kind, n, w = loc
        if kind in ('var', 'new'):
            self.wframe(w)[n] = v
        elif kind == 'attr':
            self.st.attrs[w] = v
        else:
            self.st.cells[w] = v

    def getloc(self, st, loc):
        kind, n, w = loc
        if kind in ('var', 'new'):
            return st.frames[w].get(n)
        if kind == 'attr':
            v = st.attrs.get(w)
            return v if v is not None else self.initial_attr(w)
        return st.cells.get(w)

    def s_For(self, s, fid, mod):
        self.for_over(s, self.loop_source(s.iter, fid, mod), fid, mod)

    def loop_source(self, e, fid, mod):
        """what a loop runs over; range(len(X)): the positions in X"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and len(e.args) == 1 and not e.keywords:
            a = e.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and not a.keywords \
                    and not isinstance(a.args[0], ast.Starred):
                x = self.ev(a.args[0], fid, mod)
                c = self.cell(x)
                if isinstance(c, Seq) and not c.concrete() and not any(p.star for p in c.parts):
                    from . import lib
                    r = lib.b_enumerate(self, [x], {}, e)
                    return Seq([Part(p.v.parts[0].v, p.binders, p.guard) for p in r.parts])
        return self.ev(e, fid, mod)

    def for_over(self, s, it, fid, mod):
        seq = self.iterate(it)
        if isinstance(seq, Ite):
            base = self.st
            s1, s2 = base.copy(), base.copy()
            c = Ite(seq.c, TRUE, FALSE)
            self.st = s1
            self.for_over(s, seq.hi, fid, mod)
            s1 = self.st
            self.st = s2
            self.for_over(s, seq.lo, fid, mod)
            s2 = self.st
            self.st = self.merge(c, s1, s2, base.events)
            return
        if len(seq.parts) > 400:
            raise Unk('loop too long to unroll')
        for p in seq.parts:
            if self.st.ret.key == 'True' or self.st.brk.key == 'True':
                break
            if p.star:
                self.loop_part(s, p, fid, mod)
            elif p.binders:
                self.loop_part(s, p, fid, mod)
            else:
                g = p.guard
                fl = bor(self.st.ret, self.st.brk)
                run = band(g, bnot(fl))
                if run.key == 'True':
                    self.assign(s.target, p.v, fid, mod)
                    self.block(s.body, fid, mod)
                    self.st.cnt = FALSE
                elif run.key == 'False':
                    continue
                else:
                    base = self.st
                    s1, s2 = base.copy(), base.copy()
                    s1.ret = s1.brk = FALSE
                    self.st = s1
                    self.assign(s.target, p.v, fid, mod)
                    self.block(s.body, fid, mod)
                    self.st.cnt = FALSE
                    s1 = self.st
                    rv1, rv0 = s1.rv, base.rv
                    m = self.merge(run, s1, s2, base.events)
                    m.ret = bor(band(run, s1.ret), base.ret)
                    m.rv = ite(base.ret, rv0, rv1) if s1.ret.key != 'False' else rv0
                    m.brk = bor(band(run, s1.brk), base.brk)
                    self.st = m
        brk = self.st.brk
        if s.orelse:
            # only where the loop was not left by `break`
            self.block(s.orelse, fid, mod)
            self.st.brk = band(self.st.brk, bnot(brk))
        else:
            self.st.brk = FALSE

    def enter_binders(self, p):
        for c, b in p.binders:
            pass

    def loop_part(self, s, p, fid, mod):
        """symbolic per-element iteration: recognise reductions"""
        if p.star:
            coll = p.v
            binder = self.elem_of(coll)
            binders = [(coll, binder.a if isinstance(binder, SymV) else binder)]
            elem = binder
        else:
            binders = list(p.binders)
            elem = p.v
        keys = []
        for c, b in binders:
            self.binder_depth[c.key] = self.binder_depth.get(c.key, 0) + 1
            keys.append(c.key)
        batoms = [b for c, b in binders]
        try:
            base = self.st
            probe = base.copy()
            self.st = probe
            self.assign(s.target, elem, fid, mod)
            self.block(s.body, fid, mod)
            after = self.st
            if after.brk.key != 'False' or after.ret.key != 'False':
                self.st = base
                # first-match search: results unknown, effects recorded
                def bind():
                    self.assign(s.target, elem, fid, mod)
                self.search_loop(s, binders, elem, fid, mod, p)
                return
            changed = self.changed(base, after, fid)
            hdrs = {}
            run = base.copy()
            for loc in changed:
                if loc[0] == 'new':
                    continue
                if loc[0] == 'attr' and any(b.key in loc[2][0] for b in batoms):
                    continue
                h = atom('hdr', self.fresh('h'), loc[1] if isinstance(loc[1], str) else str(loc[1]))
                hv = SymV(h)
                old = self.getloc(base, loc)
                if loc[0] == 'cell':
                    if isinstance(old, DictV):
                        hv = DictV([(SymV(h), SymV(h), (), TRUE)])
                    else:
                        hv = Seq([Part(SymV(h), star=True)])
                elif isinstance(old, (Num, SymV)) or (isinstance(old, Ite)):
                    hv = SymV(h)
                hdrs[loc] = (h, hv, old)
            self.st = run
            for loc, (h, hv, old) in hdrs.items():
                self.setloc(loc, hv)
            run.events = ()
            self.reads.append(set())
            self.assign(s.target, elem, fid, mod)
            g = p.guard
            self.st.pc = band(self.st.pc, g)
            self.block(s.body, fid, mod)
            end = self.st
            readlog = self.reads.pop()
            hatoms = set(h for h, _, _ in hdrs.values())
            self.st = base
            evs = end.events
            for loc in self.changed(base, end, fid):
                new = self.getloc(end, loc)
                if loc[0] != 'cell' and isinstance(new, Ref) and new.id not in base.cells:
                    self.st = end
                    new = self.freeze(new)
                    self.st = base
                if loc[0] == 'new':
                    if not self.mentions(new, hatoms) and not self.mentions(new, set(batoms)):
                        self.setloc(loc, new)
                    elif not self.mentions(new, hatoms):
                        # bound by the last iteration that assigns it
                        cond, val = assigned(new)
                        self.setloc(loc, SymV(atom('last', Seq([Part(val, binders, band(g, cond))]))))
                    else:
                        self.setloc(loc, SymV(atom('unk', self.fresh('last'), 'last-iteration value')))
                    continue
                if loc not in hdrs:
                    # attribute of the element itself
                    okey, at, ob = loc[2]
                    v = new
                    if g.key != 'True':
                        v = ite(g, new, self.initial_attr(loc[2]))
                    if self.mentions(v, hatoms):
                        v = SymV(atom('seqdep', K(at), K('loop-carried')))
                    # other elements of the same collection read while being rewritten?
                    for (rk, ra) in readlog:
                        if ra == at and rk != okey and self.same_coll(rk, okey, binders):
                            v = SymV(atom('seqdep', K(at), K(rk)))
                            break
                    self.st.attrs[loc[2]] = v
                    continue
                h, hv, old = hdrs[loc]
                self.setloc(loc, self.reduction(h, hv, old, new, binders, g, loc, hatoms))
            if evs:
                base.events = base.events + (Event('foreach', (Seq([p]), evs), (self.stack[-1][0] if self.stack else '?', s.lineno)),)
        finally:
            for k in keys:
                self.binder_depth[k] -= 1

    def same_coll(self, rk, okey, binders):
        for c, b in binders:
            pre = 'elem[' + c.key
            if rk.startswith(pre) or (rk.startswith('elem[')):
                return True
        return False

    def search_loop(self, s, binders, elem, fid, mod, p):
        base = self.st
        probe = base.copy()
        probe.events = ()
        self.st = probe
        self.assign(s.target, elem, fid, mod)
        self.block(s.body, fid, mod)
        after = self.st
        self.st = base
        for loc in self.changed(base, after, fid):
            if loc[0] == 'attr' and any(b.key in loc[2][0] for c, b in binders):
                self.setloc(loc, self.unk('search-loop'))
                continue
            new = self.getloc(after, loc)
            old = self.getloc(base, loc)
            self.setloc(loc, self.search_value(binders, band(p.guard, after.brk), new, old))
        if after.events:
            base.events = base.events + (Event('foreach', (Seq([p]), after.events), (self.stack[-1][0] if self.stack else '?', s.lineno)),)
        if after.ret.key != 'False':
            c = cond_atom('exists', Seq([Part(after.ret, binders, p.guard)]))
            rv = after.rv
            if not self.mentions(rv, set(b for _, b in binders)):
                val = rv
            else:
                val = SymV(atom('first', Seq([Part(rv, binders, band(p.guard, after.ret))])))
            # flow on with a conditional return
            self.st.ret = c
            self.st.rv = val

    def search_value(self, binders, brk, new, old):
        if old is None:
            return SymV(atom('first', Seq([Part(new, binders, brk)])))
        # value assigned in the breaking iteration only
        return SymV(atom('firstor', Seq([Part(new, binders, brk)]), old))

    def mentions(self, v, atoms_):
        if not atoms_:
            return False
        acc = set()
        v.deep_atoms(acc)
        return any(a in acc for a in atoms_)

    def reduction(self, h, hv, old, new, binders, guard, loc, hatoms):
        batoms = [b for c, b in binders]
        if loc[0] == 'cell' and isinstance(hv, Seq):
            parts = self.cell_delta(new, h)
            if parts is not None and isinstance(old, (Seq,)):
                out = list(old.parts)
                for g2, v, bs in parts:
                    if self.mentions(v, hatoms) or self.mentions(g2, hatoms):
                        return Seq([Part(self.unk('loop-carried list'), star=True)])
                    out.append(Part(v, list(binders) + list(bs), band(guard, g2)))
                return Seq(out, old.kind)
            return Seq([Part(self.unk('loop list'), star=True)])
        if loc[0] == 'cell' and isinstance(hv, DictV):
            if isinstance(new, DictV) and isinstance(old, DictV) and new.e and isinstance(new.e[0][0], SymV) and new.e[0][0].a is h:
                ents = []
                ok = True
                for k, v, b, g in new.e[1:]:
                    if self.mentions(k, hatoms) or self.mentions(v, hatoms):
                        ok = False
                    ents.append((k, v, tuple(binders) + tuple(b), band(guard, g)))
                if ok:
                    return DictV(list(old.e) + ents)
            return DictV([(self.unk('loop dict'), self.unk('loop dict'), (), TRUE)])
        try:
            hp = T.from_atom(h)

            def delta(v):
                p = as_poly(v)
                if p is None:
                    raise Unk('non-numeric loop variable')
                return Num(T.sub(p, hp))
            d = apply1(None, delta, new)
            if not self.mentions(d, hatoms):
                if guard.key != 'True':
                    d = ite(guard, d, num(0))
                s = self.sum_over(d, binders)
                return self.binop(ast.Add(), old, s)

            def ratio(v):
                p = as_poly(v)
                return Num(T.div(p, hp))
            d = apply1(None, ratio, new)
            if not self.mentions(d, hatoms):
                if guard.key != 'True':
                    d = ite(guard, d, num(1))
                pr = Num(T.from_atom(atom('PROD', Seq([Part(d, binders)]))))
                return self.binop(ast.Mult(), old, pr)
        except Unk:
            pass
        if isinstance(new, SymV) and new.a is h:
            return old
        # boolean accumulators: x = x or c / x = x and c
        try:
            # flag set:  new = ite(cond, const, h)
            conds = conds_of(new)
            kset = []
            for path, leaf in leaves(new):
                kset.append(leaf)
            consts = [l for l in kset if not (isinstance(l, SymV) and l.a is h)]
            if consts and all(x.key == consts[0].key for x in consts) and not self.mentions(consts[0], set(batoms) | hatoms):
                g = FALSE
                for path, leaf in leaves(new):
                    if isinstance(leaf, SymV) and leaf.a is h:
                        continue
                    c = TRUE
                    for a, b in path:
                        c = band(c, Ite(a, TRUE, FALSE) if b else Ite(a, FALSE, TRUE))
                    g = bor(g, c)
                if not self.mentions(g, hatoms):
                    ex = cond_atom('exists', Seq([Part(g, binders, guard)]))
                    return ite(ex, consts[0], old)
            if not self.mentions(new, hatoms):
                g = guard
                return SymV(atom('lastor', Seq([Part(new, binders, guard)]), old))
            # new = ite(g, v, h): last match wins
            g = FALSE
            val = None
            ok = True
            for path, leaf in leaves(new):
                if isinstance(leaf, SymV) and leaf.a is h:
                    continue
                c = TRUE
                for a, b in path:
                    c = band(c, Ite(a, TRUE, FALSE) if b else Ite(a, FALSE, TRUE))
                g = bor(g, c)
                if val is None:
                    val = leaf
                elif val.key != leaf.key:
                    ok = False
            if ok and val is not None and not self.mentions(g, hatoms) and not self.mentions(val, hatoms):
                return SymV(atom('lastor', Seq([Part(val, binders, band(guard, g))]), old))
        except Unk:
            pass
        return self.unk('loop-carried %s' % (loc[1],))

    def cell_delta(self, new, h):
        """list cell after one iteration -> [(guard, value, binders)] appended to header"""
        if isinstance(new, Seq):
            if new.parts and new.parts[0].star and isinstance(new.parts[0].v, SymV) and new.parts[0].v.a is h:
                return [(p.guard, p.v, p.binders) for p in new.parts[1:] if not p.star] if not any(p.star for p in new.parts[1:]) else None
            return None
        if isinstance(new, Ite):
            a, b = self.cell_delta(new.hi, h), self.cell_delta(new.lo, h)
            if a is None or b is None:
                return None
            c = Ite(new.c, TRUE, FALSE)
            return [(band(c, g), v, bs) for g, v, bs in a] + [(band(bnot(c), g), v, bs) for g, v, bs in b]
        return None

    def sum_over(self, v, binders):
        for c, b in reversed(list(binders)):
            f = reduce_atom('SUM', [b], (c, b))

            def f2(p, f=f, c=c, b=b):
                return f(p)
            v = lift_reduce(v, [b], f2)
        return v

    # -- names -----------------------------------------------------------------------
    def setname(self, n, v, fid):
        fr = self.st.frames[fid]
        g = fr.get('%globals')
        if g is not None and any(p.v.v == n for p in g.parts):
            mod = fid
            owner = self.st.frames[fid].get('%mod')
            if owner is not None:
                self.wframe('mod:' + owner.v)[n] = v
                return
        self.wframe(fid)[n] = v

    def name(self, n, fid, mod, node=None):
        f = fid
        while f is not None:
            fr = self.st.frames.get(f)
            if fr is None:
                break
            if n in fr and not (f.startswith('cls:') and f != fid):
                v = fr[n]
                if v is UNBOUND:
                    break
                if isinstance(v, Ite) and self.st.pc.key != 'True':
                    c, b = assigned(v)
                    if c.key != 'True' and b is not None and band(self.st.pc, bnot(c)).key == 'False':
                        v = b
                    return under(v, self.st.pc)
                return v
            o = fr.get('%outer')
            f = o.v if o is not None else None
        fr = self.st.frames.get('mod:' + mod, {})
        if n in fr:
            return fr[n]
        if n in BUILTINS:
            return Builtin('builtins.' + n)
        if n in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[n]
        self.event('nameerror', K(n), node=node)
        if n not in self.visible(mod, node) and n not in dir(builtins):
            self.throw(TRUE)
            return BOT
        raise Unk('undefined name ' + n)

    def visible(self, mod, node):
        """the names that could be bound where this one is used"""
        every = self.bound_names(mod)
        if isinstance(every, _All) or node is None:
            return every
        if mod not in self.scopecache:
            self.scopecache[mod] = scopes(self.prog.tree(mod))
        s = self.scopecache[mod].get(id(node))
        return every if s is None else s

    def opaque_base(self, cls):
        return any(not isinstance(b, ClsV) and getattr(b, 'name', '') != 'builtins.object' or isinstance(b, ClsV) and self.opaque_base(b)
                   for b in cls.bases)

    def bound_names(self, mod):
        """every name the module binds anywhere"""
        if mod not in self.boundcache:
            out = set()
            for x in ast.walk(self.prog.tree(mod) or ast.Module([], [])):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler)):
                    out.add(x.name)
                elif isinstance(x, ast.arg):
                    out.add(x.arg)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    out.update(x.names)
                elif isinstance(x, ast.alias):
                    out.add((x.asname or x.name).split('.')[0])
            self.boundcache[mod] = out
        return self.boundcache[mod] if '*' not in self.boundcache[mod] else _All()

    def assign(self, t, v, fid, mod):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, K) and not isinstance(v.v, str) and v.v not in ('<raises>', '<unbound>'):
                self.throw(TRUE)
                return
            if isinstance(v, Ite):
                exc, v = not_iterable(v)
                if exc.key != 'False':
                    self.throw(exc)
                    if all(isinstance(e, ast.Name) for e in t.elts):
                        # nothing is assigned where unpacking fails
                        fr = self.st.frames[fid]
                        old = [fr.get(e.id, UNBOUND) for e in t.elts]
                        for i, e in enumerate(t.elts):
                            new = apply1(None, lambda x: self.index(x, num(i)), v)
                            self.assign(e, ite(exc, old[i], new), fid, mod)
                        return
            if isinstance(v, Ite):
                n = len(t.elts)
                for i, e in enumerate(t.elts):
                    self.assign(e, apply1(None, lambda x: self.index(x, num(i)), v), fid, mod)
                return
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unk('starred assignment')
            if isinstance(v, (SymV, Num)):
                for i, e in enumerate(t.elts):
                    self.assign(e, self.index(v, num(i)), fid, mod)
                return
            if isinstance(v, K) and v.v == '<raises>':
                for e in t.elts:
                    self.assign(e, v, fid, mod)
                return
            seq = self.iterate(v)
            if not seq.concrete() or len(seq.parts) != len(t.elts):
                if seq.concrete():
                    raise Unk('unpack arity %d != %d' % (len(seq.parts), len(t.elts)))
                for i, e in enumerate(t.elts):
                    self.assign(e, self.index(v, num(i)), fid, mod)
                return
            for e, p in zip(t.elts, seq.parts):
                self.assign(e, p.v, fid, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid, mod)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, fid, mod)
        else:
            raise Unk('assign target')

    def store_sub(self, t, v, fid, mod):
        o = self.ev(t.value, fid, mod)
        if isinstance(o, Ite):
            # bound on the paths that get here
            bound = {l.key: l for _, l in leaves(o) if not (isinstance(l, K) and l.v == '<unbound>')}
            if len(bound) == 1 and isinstance(list(bound.values())[0], Ref):
                o = list(bound.values())[0]
        sl = t.slice
        if isinstance(sl, ast.Slice):
            if sl.lower is None and sl.upper is None:
                if not isinstance(o, Ref):
                    self.inplace(t.value, v, fid, mod)
                    return
            ends = [NONE if e is None else self.ev(e, fid, mod) for e in (sl.lower, sl.upper, sl.step)]
            cell = self.st.cells.get(o.id) if isinstance(o, Ref) else None
            at = [None if e is NONE else self.cint(e) for e in ends]
            if isinstance(cell, Seq) and cell.kind == 'list' and cell.concrete() and ends[2] is NONE \
                    and all(e is NONE or n is not None for e, n in zip(ends, at)):
                new = self.iterate(v)
                if isinstance(new, Seq):
                    parts = list(cell.parts)
                    lo, hi, _ = slice(*at).indices(len(parts))
                    self.st.cells[o.id] = Seq(parts[:lo] + list(new.parts) + parts[max(lo, hi):], 'list')
                    return
            raise Unk('slice store')
        i = self.ev(sl, fid, mod)
        if isinstance(o, ObjDict) and isinstance(i, K):
            self.rawset(o.obj, i.v, v)
            return
        if isinstance(o, Ref) and o.id in self.st.cells:
            cell = self.st.cells[o.id]
            if isinstance(cell, DictV):
                k = self.freeze(i)
                if any(e[0].key == k.key and not e[2] for e in cell.e):
                    self.st.cells[o.id] = DictV([(k, v, (), TRUE) if e[0].key == k.key and not e[2] else e for e in cell.e])
                else:
                    es = [e for e in cell.e if e[0].key != k.key]
                    self.st.cells[o.id] = DictV(es + [(k, v, (), TRUE)])
                return
            if isinstance(cell, Seq) and cell.kind == 'Counter':
                n = self.cint(v)
                k = self.freeze(i)
                if n is None or n < 0 or not cell.concrete() or not isinstance(k, K):
                    raise Unk('count of a multiset')
                self.st.cells[o.id] = Seq(sorted([p for p in cell.parts if p.v.key != k.key] + [Part(k)] * n, key=lambda p: p.v.key), 'Counter')
                return
            fi = self.freeze(i)
            if all(isinstance(l, Seq) and l.concrete() for _, l in leaves(cell)) and all(self.cint(l) is not None for _, l in leaves(fi)):
                def put(c, n):
                    items = list(c.parts)
                    if not -len(items) <= self.cint(n) < len(items):
                        raise Unk('index out of range')
                    items[self.cint(n)] = Part(v)
                    return Seq(items, c.kind)
                self.st.cells[o.id] = apply2(None, put, cell, fi) if isinstance(cell, Ite) or isinstance(fi, Ite) else put(cell, fi)
                return
            self.st.cells[o.id] = Seq([Part(SymV(atom('store', cell, self.freeze(i), self.freeze(v))), star=True)])
            return
        if isinstance(o, ModV) and o.ext:
            self.event('extstore', o, self.freeze(i), self.freeze(v), node=t)
            return
        if isinstance(o, Builtin):
            self.event('extstore', o, self.freeze(i), self.freeze(v), node=t)
            return
        # numeric arrays: boolean mask
        if is_bool(i) or (isinstance(i, Ite) and all(is_bool(l) for _, l in leaves(i))):
            new = ite(i, v, o)
            self.inplace(t.value, new, fid, mod)
            return
        if isinstance(o, Ite) and all(isinstance(l, (SymV, Num)) for _, l in leaves(o)):
            fi, fv = self.freeze(i), self.freeze(v)
            self.event('store', self.freeze(o), fi, fv, node=t)
            self.assign(t.value, apply1(None, lambda x: SymV(atom('store', x, fi, fv), getattr(x, 'cls', None)), o), fid, mod)
            return
        if isinstance(o, (SymV, Num)):
            try:
                self.event('store', self.freeze(o), self.freeze(i), self.freeze(v), node=t)
                if isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    self.assign(t.value, SymV(atom('store', o, self.freeze(i), self.freeze(v)), getattr(o, 'cls', None)), fid, mod)
            except Unk:
                raise
            return
        raise Unk('subscript store on %s' % [(l.key[:60],type(l)) for _,l in leaves(o)])

    # -- attributes ------------------------------------------------------------------
    def cls_lookup(self, cls, name):
        """MRO lookup -> value or None"""
        seen = []
        def walk(c):
            if isinstance(c, ClsV):
                if c in seen:
                    return None
                seen.append(c)
                v = self.st.attrs.get((c.key, name, None))
                if v is not None:
                    return v
                for b in c.bases:
                    r = walk(b)
                    if r is not None:
                        return r
            return None
        return walk(cls)

    def sym_attr(self, base, name):
        """initial symbolic value of attribute `name` of opaque object `base`"""
        if base is None:
            return UNBOUND
        a = attr_atom(base, name)
        d = DERIVED.get(name)
        if d is not None:
            r = d(self, base)
            if r is not None:
                return r
        cls = None
        q = ATTR_CLS.get(name)
        if q:
            cls = self.cls_by_qual(q)
        return SymV(a, cls)

    def cls_by_qual(self, q):
        mod, n = q.rsplit('.', 1)
        try:
            v = self.modget(mod, n)
        except Unk:
            return None
        return v if isinstance(v, ClsV) else None

    def getattr(self, o, name, node=None):
        if o is UNBOUND or o is BOT:
            return o
        if isinstance(o, Ite):
            if self.st.pc.key != 'True' and self.st.pc.key != 'False':
                # a side that is never reached
                if band(self.st.pc, Ite(o.c, TRUE, FALSE)).key == 'False':
                    return self.getattr(o.lo, name, node)
                if band(self.st.pc, Ite(o.c, FALSE, TRUE)).key == 'False':
                    return self.getattr(o.hi, name, node)
            hi = self.guarded(Ite(o.c, TRUE, FALSE), lambda: self.getattr(o.hi, name, node))
            lo = self.guarded(Ite(o.c, FALSE, TRUE), lambda: self.getattr(o.lo, name, node))
            return ite(Ite(o.c, TRUE, FALSE), hi, lo)
        if isinstance(o, ModV):
            if o.ext:
                return self.extattr(o.name, name)
            return self.modget(o.name, name)
        if isinstance(o, ClsV):
            v = self.cls_lookup(o, name)
            if v is not None:
                if isinstance(v, Wrap):
                    if v.kind == 'classmethod':
                        return Bound(v.f, o)
                    return v.f
                return v
            if name == '__name__':
                return K(o.name)
            for b in o.bases:
                if isinstance(b, Builtin):
                    return MethodOf(o, name)
            raise Unk('class %s has no attribute %s' % (o.name, name))
        if name == '__dict__' and isinstance(o, (Ref, SymV)) and o.cls is not None:
            return ObjDict(o)
        if isinstance(o, ObjDict):
            return MethodOf(o, name)
        if isinstance(o, Ref):
            v = self.st.attrs.get((o.key, name, None))
            if isinstance(v, Ite) and o.cls is not None and any(l.key == UNBOUND.key for _, l in leaves(v)):
                d = self.cls_lookup(o.cls, name)
                if d is not None:
                    d = self.bind(d, o, node)
                    v = subst_leaf(v, UNBOUND.key, d)
            if v is not None and v is not UNBOUND:
                if isinstance(v, Ite) and self.st.pc.key != 'True' and any(l.key == NONE.key for _, l in leaves(v)):
                    return under(v, self.st.pc, 400)
                return v
            if o.cls is not None:
                v = self.cls_lookup(o.cls, name)
                if v is not None:
                    return self.bind(v, o, node)
                if o.cls.fields and name in ('_replace', '_asdict', 'index', 'count'):
                    return MethodOf(o, name)
                if o.id not in self.st.cells:
                    if not name.startswith('__') and not o.cls.fields and o.key not in self.dynattrs and not self.opaque_base(o.cls) and \
                            all(self.cls_lookup(o.cls, g) is None for g in ('__getattr__', '__getattribute__')):
                        self.event('noattr', o, K(name), node=node)
                        self.throw(TRUE)
                        return BOT
                    raise Unk('no attribute %s on %s' % (name, o.cls.name))
            return MethodOf(o, name)
        if isinstance(o, SymV):
            for r in self.reads:
                r.add((o.key, name))
            v = self.st.attrs.get((o.key, name, o.a))
            if v is not None:
                if isinstance(v, Ite) and self.st.pc.key != 'True':
                    return under(v, self.st.pc)
                return v
            if o.cls is not None:
                v = self.cls_lookup(o.cls, name)
                if v is not None and isinstance(v, (Fn, Wrap, Ite, PyFn)):
                    if not (isinstance(v, Ite) and not any(isinstance(l, Fn) for _, l in leaves(v))):
                        return self.bind(v, o, node)
            if name in GENERIC_METHODS and o.cls is None:
                return MethodOf(o, name)
            return self.sym_attr(o.a, name)
        if isinstance(o, (Num, K, Seq, DictV, Builtin, Bound, Fn, PyFn, MethodOf)):
            if isinstance(o, Builtin):
                return self.extattr(o.name, name)
            if isinstance(o, Num):
                if name == 'shape' or name == 'T' or name == 'dtype' or name == 'size':
                    return SymV(atom('fn', 'np.' + name, o))
            if isinstance(o, Fn) and name == '__name__':
                return K(o.name)
            return MethodOf(o, name)
        raise Unk('attribute %s of %s' % (name, o.key[:40]))

    def guarded(self, c, f):
        old = self.st.pc
        self.st.pc = band(old, c)
        try:
            return f()
        finally:
            self.st.pc = old

    def bind(self, v, o, node=None):
        if isinstance(v, Wrap):
            if v.kind == 'property':
                return self.call(v.f, [o], {}, node)
            if v.kind == 'staticmethod':
                return v.f
            if v.kind == 'classmethod':
                return Bound(v.f, o.cls)
        if isinstance(v, (Fn, PyFn)):
            return Bound(v, o)
        if isinstance(v, Ite):
            return apply1(None, lambda x: self.bind(x, o, node), v)
        return v

    def rawset(self, o, name, v):
        self.st.attrs[(o.key, name, o.a if isinstance(o, SymV) else None)] = v

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Ite):
            c = Ite(o.c, TRUE, FALSE)
            base = self.st
            s1, s2 = base.copy(), base.copy()
            self.st = s1
            self.setattr(o.hi, name, v, node)
            s1 = self.st
            self.st = s2
            self.setattr(o.lo, name, v, node)
            s2 = self.st
            self.st = self.merge(c, s1, s2, base.events)
            self.st.pc = base.pc
            return
        if isinstance(o, Ref):
            if o.cls is not None:
                f = self.cls_lookup(o.cls, '__setattr__')
                if f is not None and not (self.stack and self.stack[-1][0].endswith('.__setattr__')):
                    self.call(Bound(f, o), [K(name), v], {}, node)
                    return
            self.st.attrs[(o.key, name, None)] = v
        elif isinstance(o, ClsV):
            self.st.attrs[(o.key, name, None)] = v
            self.event('clsset', o, K(name), self.freeze(v), node=node)
        elif isinstance(o, SymV):
            self.st.attrs[(o.key, name, o.a)] = v
            self.event('set', o, K(name), v, node=node)
        elif isinstance(o, ModV):
            if o.ext:
                self.event('extset', o, K(name), self.freeze(v), node=node)
            else:
                self.wframe('mod:' + o.name)[name] = v
                self.event('modset', o, K(name), self.freeze(v), node=node)
        elif isinstance(o, K) and o.v in ('<raises>', '<unbound>'):
            pass
        else:
            raise Unk('attribute store on %s' % o.key[:40])

    # -- heap values ---------------------------------------------------------------
    def newlist(self, parts, kind='list'):
        r = Ref(self.fresh('L'))
        self.st.cells[r.id] = Seq(parts, kind)
        return r

    def newdict(self, entries):
        r = Ref(self.fresh('D'))
        self.st.cells[r.id] = DictV(entries)
        return r

    def freeze(self, v, depth=0):
        """resolve references to plain values (for keys and comparisons)"""
        if depth > 12:
            return v
        if isinstance(v, Ref):
            c = self.st.cells.get(v.id)
            if c is not None:
                return self.freeze(c, depth + 1)
            if v.cls is not None and v.cls.fields:
                return Seq([Part(self.freeze(self.st.attrs[(v.key, f, None)], depth + 1)) for f in v.cls.fields], v.cls.name)
            return v
        if isinstance(v, Seq):
            if any(isinstance(p.v, (Ref, Seq, Ite, DictV, Bound)) for p in v.parts):
                return Seq([Part(self.freeze(p.v, depth + 1), p.binders, p.guard, p.star) for p in v.parts], v.kind)
            return v
        if isinstance(v, DictV):
            return DictV([(self.freeze(k, depth + 1), self.freeze(x, depth + 1), b, g) for k, x, b, g in v.e])
        if isinstance(v, Ite):
            memo = {}

            def go(x):
                if not isinstance(x, Ite):
                    return self.freeze(x, depth + 1)
                r = memo.get(x.key)
                if r is None:
                    r = memo[x.key] = ite(Ite(x.c, TRUE, FALSE), go(x.hi), go(x.lo))
                return r
            return go(v)
        return v

    def cell(self, v):
        if isinstance(v, Ref):
            return self.st.cells.get(v.id)
        return v

    def list_append(self, r, v):
        def app(c):
            if isinstance(c, Ite):
                return ite(Ite(c.c, TRUE, FALSE), app(c.hi), app(c.lo))
            return Seq(list(c.parts) + [Part(v)], c.kind)
        self.st.cells[r.id] = app(self.st.cells[r.id])

    def list_extend(self, r, v):
        c = self.st.cells.get(r.id)
        if isinstance(c, Seq) and c.kind == 'Counter':
            v = self.freeze(v)
            s = v if isinstance(v, Seq) else self.iterate(v)
            if not isinstance(s, Seq) or not s.concrete() or not c.concrete():
                raise Unk('update of a multiset')
            self.st.cells[r.id] = Seq(sorted(c.parts + s.parts, key=lambda p: p.v.key), 'Counter')
            return
        s = self.iterate(v)

        def app(c, s):
            if isinstance(c, Ite):
                return ite(Ite(c.c, TRUE, FALSE), app(c.hi, s), app(c.lo, s))
            if isinstance(s, Ite):
                return ite(Ite(s.c, TRUE, FALSE), app(c, s.hi), app(c, s.lo))
            return Seq(list(c.parts) + list(s.parts), c.kind)
        self.st.cells[r.id] = app(self.st.cells[r.id], s)

    def elem_of(self, coll):
        k = self.binder_depth.get(coll.key, 0)
        cls = None
        nm = None
        if isinstance(coll, SymV):
            a = coll.a
            if a.kind == 'sym':
                nm = a.key.split('.')[-1]
            elif a.kind == 'attr':
                nm = a.args[1]
        if nm and nm in ELEM_CLS:
            cls = self.cls_by_qual(ELEM_CLS[nm])
        return SymV(atom('elem', coll, str(k)), cls)

    def iterate(self, v):
        """value -> Seq (or Ite of Seqs)"""
        if isinstance(v, Ite):
            exc = absent(v)
            if exc.key != 'False':
                self.throw(exc)
                v = subst_leaf(v, NONE.key, Seq([], 'list'))
        elif v.key in STRICTK:
            return Seq([], 'list')
        elif isinstance(v, K) and v.v is None:
            self.throw(TRUE)
            return Seq([], 'list')
        if isinstance(v, Ite):
            return ite(Ite(v.c, TRUE, FALSE), self.iterate(v.hi), self.iterate(v.lo))
        if isinstance(v, Ref):
            c = self.st.cells.get(v.id)
            if c is not None:
                return self.iterate(c)
            if v.cls is not None and v.cls.fields:
                return Seq([Part(self.st.attrs[(v.key, f, None)]) for f in v.cls.fields], 'tuple')
            if v.cls is not None:
                f = self.cls_lookup(v.cls, '__iter__')
                if f is not None:
                    return self.iterate(self.call(Bound(f, v), [], {}, None))
            raise Unk('iterate object')
        if isinstance(v, Seq) and v.kind == 'Counter':
            seen = []
            for p in v.parts:
                if not p.plain():
                    raise Unk('items of a multiset')
                if p.v.key not in [q.v.key for q in seen]:
                    seen.append(p)
            return Seq(seen, 'list')
        if isinstance(v, Seq):
            out = []
            for p in v.parts:
                if p.star:
                    inner = p.v
                    if isinstance(inner, (Seq, Ref)):
                        out.extend(self.iterate(inner).parts)
                    elif isinstance(inner, SymV) and inner.a.kind not in ('hdr', 'unk', 'store'):
                        e = self.elem_of(inner)
                        out.append(Part(e, [(inner, e.a)], p.guard))
                    else:
                        out.append(p)
                else:
                    out.append(p)
            return Seq(out, v.kind)
        if isinstance(v, DictV):
            return Seq([Part(k, b, g) for k, x, b, g in v.e])
        if isinstance(v, K) and isinstance(v.v, str):
            return Seq([Part(K(c)) for c in v.v])
        if isinstance(v, (SymV, Num)):
            if isinstance(v, Num):
                s = v.p.single()
                if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
                    v = SymV(s[1][0][0])
                else:
                    v = SymV(atom('arr', v))
            c = self.range_over(v)
            if c is not None:
                e = self.elem_of(c)
                return Seq([Part(Num(T.from_atom(atom('pos', e.a))), [(c, e.a)])])
            e = self.elem_of(v)
            return Seq([Part(e, [(v, e.a)])])
        raise Unk('iterate %s' % v.key[:40])

    def range_over(self, v):
        """the collection X of range(len(X))"""
        if isinstance(v, SymV) and v.a.kind == 'range':
            s = v.a.args[0].single()
            if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
                a = s[1][0][0]
                if a.kind == 'fn' and a.args[0] == 'len' and isinstance(a.args[1], SymV) and a.args[1].a.kind not in ('slice', 'range', 'fn', 'store'):
                    return a.args[1]
        return None

    def position(self, i):
        """the element atom an index is the position of"""
        if isinstance(i, Num):
            s = i.p.single()
            if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1 and s[1][0][0].kind == 'pos':
                return s[1][0][0].args[0]
        return None

    def cint(self, v):
        if isinstance(v, Num):
            c = v.p.const()
            if c is not None and c.denominator == 1:
                return int(c)
        if is_bool(v):
            return int(v.v)
        return None

    # -- truth ------------------------------------------------------------------------
    def throw(self, c):
        """an exception leaves the current block where c"""
        st = self.st
        st.rv = ite(c, BOT, ite(st.ret, st.rv, NONE))
        st.ret = bor(st.ret, c)

    def truth(self, v):
        r = self.truth0(v)
        if isinstance(r, K) and r.v == '<raises>' or isinstance(r, Ite) and not is_cond(r):
            exc = self.raises(r)
            if exc.key != 'False':
                if self.raising_truth:
                    self.throw(exc)
                r = subst_leaf(r, BOT.key, FALSE)
        return r

    raising_truth = True
    cpp_ignored = frozenset()

    def truth0(self, v):
        if isinstance(v, K):
            if v.v == '<raises>':
                return FALSE
            return K(bool(v.v))
        if isinstance(v, Ite):
            return ite(Ite(v.c, TRUE, FALSE), self.truth0(v.hi), self.truth0(v.lo))
        if isinstance(v, Num):
            return bnot(cond_eq0(v.p))
        if isinstance(v, SymV):
            if v.a.kind == 'fn' and v.a.args[0] in WHOLE_ARRAYS:
                return BOT
            if v.a.kind == 'cfgv':
                return cond_atom('cfg', v.a.args[0])
            if v.cls is not None:
                return TRUE
            return bnot(cond_eq0(T.from_atom(v.a)))
        if isinstance(v, Seq):
            if not v.parts:
                return FALSE
            if any(p.plain() for p in v.parts):
                return TRUE
            return bnot(cond_eq0(self.length(v)))
        if isinstance(v, DictV):
            return K(bool(v.e))
        if isinstance(v, Ref):
            c = self.st.cells.get(v.id)
            if c is not None:
                return self.truth(c)
            if v.cls is not None:
                f = self.cls_lookup(v.cls, '__len__')
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}, None))
            return TRUE
        return TRUE

    def length(self, v):
        """Poly length"""
        if isinstance(v, Ref):
            v = self.cell(v) if self.cell(v) is not None else v
        if isinstance(v, Seq):
            n = T.ZERO
            for p in v.parts:
                if p.plain():
                    n = T.add(n, T.ONE)
                elif p.star:
                    n = T.add(n, T.from_atom(atom('fn', 'len', p.v)))
                else:
                    x = self.sum_over(ite(p.guard, num(1), num(0)), p.binders) if p.binders else ite(p.guard, num(1), num(0))
                    n = T.add(n, linearize(x))
            return n
        if isinstance(v, DictV):
            return T.const(len(v.e))
        if isinstance(v, K) and isinstance(v.v, str):
            return T.const(len(v.v))
        return T.from_atom(atom('fn', 'len', v))

    # -- expressions ------------------------------------------------------------------
    def ev(self, e, fid, mod):
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            raise Unk('expression %s' % e.__class__.__name__)
        return m(e, fid, mod)

    def e_Constant(self, e, fid, mod):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return K(v)
        if isinstance(v, int):
            return Num(T.const(v), 'int')
        if isinstance(v, float):
            return Num(T.const(Fraction(repr(v))), 'float')
        raise Unk('constant %r' % (v,))

    def e_Name(self, e, fid, mod):
        return self.name(e.id, fid, mod, e)

    def e_Attribute(self, e, fid, mod):
        return self.getattr(self.ev(e.value, fid, mod), e.attr, e)

    def e_Tuple(self, e, fid, mod):
        return Seq(self.elts(e.elts, fid, mod), 'tuple')

    def elts(self, es, fid, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.iterate(self.ev(x.value, fid, mod))
                if isinstance(s, Ite):
                    raise Unk('conditional star')
                out.extend(s.parts)
            else:
                out.append(Part(self.ev(x, fid, mod)))
        return out

    def e_List(self, e, fid, mod):
        return self.newlist(self.elts(e.elts, fid, mod))

    def e_Set(self, e, fid, mod):
        return self.newlist(self.elts(e.elts, fid, mod), 'set')

    def e_Dict(self, e, fid, mod):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.cell(self.ev(v, fid, mod))
                if isinstance(d, DictV):
                    ents.extend(d.e)
                    continue
                raise Unk('dict splat')
            kk = self.freeze(self.ev(k, fid, mod))
            vv = self.ev(v, fid, mod)
            ents = [x for x in ents if x[0].key != kk.key]
            ents.append((kk, vv, (), TRUE))
        return self.newdict(ents)

    def e_Lambda(self, e, fid, mod):
        return self.mkfn(e, fid, mod, '<lambda>')

    def e_IfExp(self, e, fid, mod):
        c = self.truth(self.ev(e.test, fid, mod))
        if isinstance(c, K):
            return self.ev(e.body if c.v else e.orelse, fid, mod)
        base = self.st
        s1, s2 = base.copy(), base.copy()
        s1.pc, s2.pc = band(base.pc, c), band(base.pc, bnot(c))
        self.st = s1
        a = self.ev(e.body, fid, mod)
        s1 = self.st
        self.st = s2
        b = self.ev(e.orelse, fid, mod)
        s2 = self.st
        self.st = self.merge(c, s1, s2, base.events)
        self.st.pc = base.pc
        return ite(c, a, b)

    def e_BoolOp(self, e, fid, mod):
        v = self.ev(e.values[0], fid, mod)
        for x in e.values[1:]:
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if t.key == 'False':
                    return v
                w = self.guarded(t, lambda: self.ev(x, fid, mod))
                v = ite(t, w, v) if not self.boolish(v) else ite(t, w, FALSE)
            else:
                if t.key == 'True':
                    return v
                w = self.guarded(bnot(t), lambda: self.ev(x, fid, mod))
                v = ite(t, v, w) if not self.boolish(v) else ite(t, TRUE, w)
        return v

    def boolish(self, v):
        return all(is_bool(l) for _, l in leaves(v)) if isinstance(v, Ite) and v.size < 200 else is_bool(v)

    def e_UnaryOp(self, e, fid, mod):
        v = self.ev(e.operand, fid, mod)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.binop(ast.Mult(), num(-1), v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if self.boolish(v):
                return bnot(self.truth(v))
        raise Unk('unary op')

    def e_BinOp(self, e, fid, mod):
        a = self.ev(e.left, fid, mod)
        b = self.ev(e.right, fid, mod)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node=None):
        n = op.__class__.__name__

        def f(x, y):
            return self.binop1(n, op, x, y, node)
        if n in ('Add', 'Sub', 'Mult', 'Div', 'Pow') and not isinstance(self.leaf1(a), (Ref, Seq)) and not isinstance(self.leaf1(b), (Ref, Seq)):
            return apply2(n, f, a, b)
        return apply2(None, f, a, b)

    def leaf1(self, v):
        while isinstance(v, Ite):
            v = v.hi
        return v

    def binop1(self, n, op, x, y, node):
        if x is BOT or y is BOT:
            return BOT
        for s, o, r in ((x, y, False), (y, x, True)):
            if isinstance(s, (Ref, SymV)) and s.cls is not None and s.cls.key.startswith('cls:'):
                nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow'}.get(n)
                if nm:
                    f = self.cls_lookup(s.cls, ('__r%s__' if r else '__%s__') % nm)
                    if f is not None:
                        return self.call(Bound(f, s), [o], {}, node)
        sx = self.cell(x) if isinstance(x, Ref) else x
        sy = self.cell(y) if isinstance(y, Ref) else y
        if isinstance(sx, Ite) or isinstance(sy, Ite):
            return apply2(None, lambda p, q: self.binop1(n, op, p, q, node), sx if sx is not None else x, sy if sy is not None else y)
        if isinstance(sx, Seq) or isinstance(sy, Seq):
            return self.seqop(n, op, x, y, sx, sy, node)
        if isinstance(x, K) and isinstance(x.v, str) or isinstance(y, K) and isinstance(y.v, str):
            if n == 'Mod' and isinstance(x, K) and isinstance(x.v, str):
                from . import lib
                return lib.percent(self, x.v, y)
            if n == 'Add' and isinstance(x, K) and isinstance(y, K):
                return K(x.v + y.v)
            if n == 'Mult' and isinstance(x, K) and self.cint(y) is not None:
                return K(x.v * self.cint(y))
            if n == 'Add' and all(isinstance(v, SymV) or isinstance(v, K) and isinstance(v.v, str) for v in (x, y)):
                from . import lib
                return lib.formatted(self, [('', '', x), ('', '', y)])
            return SymV(atom('fn', 'str' + n, x, y))
        if n == 'Add' and all(isinstance(v, SymV) for v in (x, y)) and any(v.a.kind == 'fn' and v.a.args[0] == 'format' for v in (x, y)):
            from . import lib
            return lib.formatted(self, [('', '', x), ('', '', y)])
        if n in ('BitAnd', 'BitOr', 'BitXor') and self.boolish(x) and self.boolish(y):
            if n == 'BitAnd':
                return band(x, y)
            if n == 'BitOr':
                return bor(x, y)
            return ite(x, bnot(y), y)
        p, q = as_poly(x), as_poly(y)
        if (p is None) != (q is None) and any(isinstance(v, K) and v.v is None for v in (x, y)):
            return BOT   # TypeError
        if p is None or q is None:
            raise Unk('arith %s on %s, %s' % (n, x.key[:40], y.key[:40]))
        if n == 'Add':
            return Num(T.add(p, q))
        if n == 'Sub':
            return Num(T.sub(p, q))
        if n == 'Mult':
            return Num(T.mul(p, q))
        if n == 'Div':
            return Num(T.div(p, q))
        if n == 'Pow':
            return Num(self.npow(p, q))
        if n == 'FloorDiv':
            cp, cq = p.const(), q.const()
            if cp is not None and cq is not None and cq != 0:
                return num(cp // cq)
            return Num(T.from_atom(atom('fn', 'floordiv', p, q)))
        if n == 'Mod':
            cp, cq = p.const(), q.const()
            if cp is not None and cq is not None and cq != 0:
                return num(cp % cq)
            return Num(T.from_atom(atom('fn', 'mod', p, q)))
        if n == 'MatMult':
            return self.call(Builtin('numpy.dot'), [x, y], {}, node)
        raise Unk('operator ' + n)

    def npow(self, p, q):
        c = q.const()
        if c is not None:
            return T.power(p, c)
        s = p.single()
        if s and len(s[1]) == 1 and s[0] == 1 and s[1][0][0].kind == 'exp':
            return T.mk_exp(T.mul(s[1][0][0].args[0], q))
        # symbolic exponent, e.g. ((y_power - 1)/2) or base ** arange
        return T.from_atom(atom('fn', 'pow', p, q))

    def seqop(self, n, op, x, y, sx, sy, node):
        def whole(v):
            return isinstance(v, Seq) and v.kind == 'array' and any(p.star for p in v.parts)
        if whole(sx) or whole(sy):
            # an array of unknown composition: one opaque element-wise value
            return self.binop(op, SymV(atom('fn', 'np.array', self.freeze(sx))) if whole(sx) else x,
                              SymV(atom('fn', 'np.array', self.freeze(sy))) if whole(sy) else y, node)
        if isinstance(sx, Seq) and isinstance(sy, Seq):
            if sx.kind == 'array' or sy.kind == 'array':
                if sx.concrete() and sy.concrete() and len(sx.parts) == len(sy.parts):
                    return Seq([Part(self.binop(op, a, b, node)) for a, b in zip(sx.items(), sy.items())], 'array')
                raise Unk('array op')
            if n == 'Add':
                parts = list(sx.parts) + list(sy.parts)
                if sx.kind == 'tuple':
                    return Seq(parts, 'tuple')
                return self.newlist(parts, sx.kind)
            if n == 'Sub' and sx.kind == 'set':
                raise Unk('set difference')
            raise Unk('sequence op')
        seq, other = (sx, y) if isinstance(sx, Seq) else (sy, x)
        left = isinstance(sx, Seq)
        if seq.kind == 'array':
            if seq.concrete():
                return Seq([Part(self.binop(op, v, other, node) if left else self.binop(op, other, v, node)) for v in seq.items()], 'array')
            out = []
            for p in seq.parts:
                if p.star:
                    raise Unk('array op on unknown parts')
                out.append(Part(self.binop(op, p.v, other, node) if left else self.binop(op, other, p.v, node), p.binders, p.guard))
            return Seq(out, 'array')
        if n == 'Mult':
            c = self.cint(other)
            if c is not None:
                parts = list(seq.parts) * max(c, 0)
                return Seq(parts, 'tuple') if seq.kind == 'tuple' else self.newlist(parts, seq.kind)
            # [v] * n
            if len(seq.parts) == 1 and as_poly(other) is not None:
                cnt = SymV(atom('range', as_poly(other)))
                return self.newlist([Part(seq.parts[0].v, [(cnt, atom('elem', cnt, '0'))])])
            raise Unk('sequence repeat')
        if n == 'Add' and isinstance(other, (SymV, Num)):
            # list + opaque sequence or list + ndarray: treated as concatenation only for lists known opaque
            if isinstance(other, SymV):
                parts = (list(seq.parts) + [Part(other, star=True)]) if left else ([Part(other, star=True)] + list(seq.parts))
                return Seq(parts, 'tuple') if seq.kind == 'tuple' else self.newlist(parts, seq.kind)
        raise Unk('sequence op %s' % n)

    def e_Compare(self, e, fid, mod):
        left = self.ev(e.left, fid, mod)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fid, mod)
            r = band(r, self.compare(op, left, right))
            left = right
        return r

    def compare(self, op, a, b):
        n = op.__class__.__name__
        if n in ('Is', 'IsNot'):
            r = apply2(None, self.is1, a, b)
            return r if n == 'Is' else bnot(r)
        if n in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if n == 'In' else bnot(r)
        if n in ('Eq', 'NotEq'):
            for o, other in ((a, b), (b, a)):
                if isinstance(o, Ref) and o.cls is not None and not o.cls.fields and o.id not in self.st.cells:
                    m = self.cls_lookup(o.cls, '__eq__')
                    if m is not None:
                        r = self.truth(self.call(self.bind(m, o), [other], {}, None))
                        return r if n == 'Eq' else bnot(r)
            r = eq_values(self.freeze(a), self.freeze(b))
            return r if n == 'Eq' else bnot(r)

        def f(x, y):
            p, q = as_poly(x), as_poly(y)
            if p is None or q is None:
                if isinstance(x, K) and isinstance(y, K) and isinstance(x.v, str) and isinstance(y.v, str):
                    return K({'Gt': x.v > y.v, 'Lt': x.v < y.v, 'GtE': x.v >= y.v, 'LtE': x.v <= y.v}[n])
                for o, w, other in ((x, {'Gt': '__gt__', 'Lt': '__lt__', 'GtE': '__ge__', 'LtE': '__le__'}[n], y),
                                    (y, {'Gt': '__lt__', 'Lt': '__gt__', 'GtE': '__le__', 'LtE': '__ge__'}[n], x)):
                    if isinstance(o, Ref) and o.cls is not None:
                        m = self.cls_lookup(o.cls, w)
                        if m is not None:
                            return self.truth(self.call(self.bind(m, o), [other], {}, None))
                return cond_atom('cmp', K(n), self.freeze(x), self.freeze(y))
            if n == 'Gt':
                return cond_gt(T.sub(p, q))
            if n == 'Lt':
                return cond_gt(T.sub(q, p))
            if n == 'GtE':
                return bnot(cond_gt(T.sub(q, p)))
            return bnot(cond_gt(T.sub(p, q)))
        return apply2('cmp' + n, f, a, b)

    def is1(self, x, y):
        if isinstance(x, K) and isinstance(y, K):
            return K(x.v is y.v or x.v == y.v)
        for u, w in ((x, y), (y, x)):
            if isinstance(w, K) and w.v is None:
                if isinstance(u, SymV) and u.a.kind == 'envstr':
                    return FALSE
                if isinstance(u, SymV) and u.cls is None:
                    return cond_atom('isnone', u)
                return FALSE
            if isinstance(w, K) and isinstance(w.v, bool):
                if isinstance(u, SymV) and u.cls is None:
                    if isinstance(u, SymV) and u.a.kind == "fn" and u.a.args[0] in WHOLE_ARRAYS:
                        return FALSE
                    return cond_atom("is" + str(w.v), u)
                return FALSE
        return K(x.key == y.key) if not (isinstance(x, SymV) or isinstance(y, SymV)) else (TRUE if x.key == y.key else cond_atom('is', x, y))

    def contains(self, a, b):
        if isinstance(b, Ite):
            return ite(Ite(b.c, TRUE, FALSE), self.contains(a, b.hi), self.contains(a, b.lo))
        if isinstance(b, ObjDict):
            from . import lib
            return lib.b_hasattr(self, [b.obj, a], {}, None)
        c = self.cell(b) if isinstance(b, Ref) else b
        if isinstance(c, Ite):
            return ite(Ite(c.c, TRUE, FALSE), self.contains(a, c.hi), self.contains(a, c.lo))
        if isinstance(c, K) and isinstance(c.v, str) and isinstance(a, K) and isinstance(a.v, str):
            return K(a.v in c.v)
        if isinstance(c, DictV):
            c = Seq([Part(k, bb, g) for k, v, bb, g in c.e])
        if isinstance(c, Seq):
            fa = self.freeze(a)
            r = FALSE
            for p in c.parts:
                if p.star:
                    r = bor(r, cond_atom('in', fa, p.v))
                elif p.binders:
                    r = bor(r, self.exists(eq_values(fa, self.freeze(p.v)), p.binders, p.guard))
                else:
                    r = bor(r, band(p.guard, eq_values(fa, self.freeze(p.v))))
            return r
        fa, fb = self.freeze(a), self.freeze(b)
        if isinstance(fb, SymV) and (fb.a.key.endswith('.TEMPLATE') or fb.a.kind == 'attr' and fb.a.args[1] == 'TEMPLATE') and as_poly(fa) is not None:
            # an ascending grid (P23) contains a number exactly where its last point not above it equals it
            at = SymV(atom('call', Builtin('numpy.searchsorted'), fb, as_poly(fa), Seq([Part(K('side')), Part(K('right'))], 'kw')))
            return cond_eq0(T.sub(as_poly(self.index(fb, Num(T.sub(T.from_atom(at.a), T.ONE)))), as_poly(fa)))
        return cond_atom('in', fa, fb)

    def exists(self, c, binders, guard):
        b = band(guard, c)
        if b.key == 'False':
            return FALSE
        bs = [x for _, x in binders]
        # binder-free conditions move outside
        for k, at in sorted(conds_of(b).items()):
            if not VV._mentions(at, bs):
                return ite(Ite(at, TRUE, FALSE), self.exists(cof_deep(b, at, True), binders, TRUE),
                           self.exists(cof_deep(b, at, False), binders, TRUE))
        return cond_atom('exists', Seq([Part(TRUE, binders, b)]))

    def e_Subscript(self, e, fid, mod):
        o = self.ev(e.value, fid, mod)
        sl = e.slice
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, fid, mod) if sl.lower else NONE
            hi = self.ev(sl.upper, fid, mod) if sl.upper else NONE
            st = self.ev(sl.step, fid, mod) if sl.step else NONE
            return self.slice(o, lo, hi, st, e)
        if isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            s = self.cell(o)
            if isinstance(s, Seq) and s.kind == 'array' and ast.dump(sl) == COLUMN:
                # one row per entry: combines with the entries of a sequence of rows
                return s
            return SymV(atom('fn', 'ndslice', self.freeze(o), ast.dump(sl)))
        i = self.ev(sl, fid, mod)
        return self.index(o, i, e)

    def multiplicity(self, o, i):
        """how often an item is in a multiset"""
        items = [self.freeze(v) for v in o.items()] if o.concrete() else [None]
        k = self.freeze(i)
        if all((isinstance(v, K) or isinstance(v, Ref)) and type(v) is type(k) for v in items):
            return num(len([v for v in items if v.key == k.key]))
        n = self.tally(o, k)
        return SymV(atom('idx', self.freeze(o), k)) if n is None else n

    def tally(self, s, k):
        """number of items of a sequence that equal k"""
        k = self.freeze(k)
        total = num(0)
        for p in s.parts:
            if p.star:
                return None
            same = band(p.guard, eq_values(self.freeze(p.v), k))
            if isinstance(same, K):
                one = num(1 if same.v else 0)
            else:
                one = ite(same, num(1), num(0))
            total = self.binop(ast.Add(), total, self.sum_over(self.freeze(one), p.binders) if p.binders else one)
        return self.freeze(total)

    def index(self, o, i, node=None):
        if o.key in STRICTK:
            return o
        if i.key in STRICTK:
            return i
        if isinstance(o, ObjDict) and isinstance(i, K):
            return self.getattr(o.obj, i.v, node)
        if isinstance(o, Ite):
            return ite(Ite(o.c, TRUE, FALSE), self.index(o.hi, i, node), self.index(o.lo, i, node))
        if isinstance(o, Ref):
            c = self.st.cells.get(o.id)
            if c is None and o.cls is not None:
                f = self.cls_lookup(o.cls, '__getitem__')
                if f is not None:
                    return self.call(Bound(f, o), [i], {}, node)
                if o.cls.fields:
                    n = self.cint(i)
                    if n is not None:
                        return self.st.attrs[(o.key, o.cls.fields[n], None)]
                raise Unk('index object')
            return self.index(c, i, node)
        if isinstance(o, SymV) and o.cls is not None:
            f = self.cls_lookup(o.cls, '__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [i], {}, node)
        if isinstance(o, SymV) and o.a.kind == 'fn' and o.a.args[0] == 'Counter' and isinstance(o.a.args[1], Seq):
            n = self.tally(o.a.args[1], i)
            if n is not None:
                return n
        if isinstance(i, Ite) and not self.boolish(i):
            return ite(Ite(i.c, TRUE, FALSE), self.index(o, i.hi, node), self.index(o, i.lo, node))
        if isinstance(o, DictV):
            return self.dict_get(o, i, None)
        if isinstance(o, Seq):
            if self.boolish(i) and o.kind == 'array':
                raise Unk('mask on concrete array')
            if o.kind == 'Counter':
                return self.multiplicity(o, i)
            n = self.cint(i)
            at = self.position(i)
            if at is not None and len(o.parts) == 1 and o.parts[0].binders \
                    and getattr(at, 'key', None) == Seq([Part(TRUE, o.parts[0].binders, o.parts[0].guard)]).key:
                return o.parts[0].v
            if n is not None:
                if o.concrete():
                    if -len(o.parts) <= n < len(o.parts):
                        return o.parts[n].v
                    return BOT
                if n >= 0 and len(o.parts) > n and all(p.plain() for p in o.parts[:n + 1]):
                    return o.parts[n].v
                if n < 0 and len(o.parts) >= -n and all(p.plain() for p in o.parts[n:]):
                    return o.parts[n].v
                if len(o.parts) == 1 and o.parts[0].star:
                    return self.index(o.parts[0].v, i, node)
                # x[k] for x = [body(e) for e in coll]: k-th element of the collection
                p0 = o.parts[0]
                if len(o.parts) == 1 and len(p0.binders) == 1 and p0.guard.key == 'True':
                    coll, b = p0.binders[0]
                    if at is not None and getattr(at, 'kind', None) == 'elem' and at.args[0].key == coll.key:
                        return vsubst(p0.v, {b: T.from_atom(at)})
                    return vsubst(p0.v, {b: T.from_atom(atom('idx', coll, i.p if isinstance(i, Num) else T.const(n)))})
            return SymV(atom('idx', self.freeze(o), self.freeze(i)))
        if isinstance(o, K) and isinstance(o.v, str):
            n = self.cint(i)
            if n is not None:
                return K(o.v[n])
        if self.boolish(i) and isinstance(o, (Num, SymV)):
            return o          # elementwise mask selection
        if isinstance(o, (Num, SymV)):
            iv = self.freeze(i)
            if isinstance(iv, K) and isinstance(iv.v, str) and isinstance(o, SymV) and o.a.kind == 'slice':
                # a column of the first rows is the first rows of the column
                return self.slice(self.index(o.a.args[0], iv, node), *o.a.args[1:])
            if isinstance(o, Num):
                r = self.arange_at(o, iv)
                if r is not None:
                    return r
            at = self.position(iv)
            if at is not None and isinstance(o, SymV) and getattr(at, 'kind', None) == 'elem' and at.args[0].key == o.key:
                return SymV(at, self.elem_of(o).cls)
            if isinstance(o, SymV) and o.a.kind == 'store' and o.a.args[1].key == iv.key:
                return o.a.args[2]
            cls = None
            if isinstance(o, SymV):
                a = o.a
                nm = a.key.split('.')[-1] if a.kind == 'sym' else (a.args[1] if a.kind == 'attr' else None)
                if nm in ELEM_CLS:
                    cls = self.cls_by_qual(ELEM_CLS[nm])
            ip = iv.p if isinstance(iv, Num) else iv
            ob = o
            if isinstance(o, Num):
                s = o.p.single()
                if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
                    ob = SymV(s[1][0][0])
                elif o.p.is_const():
                    return o
            return SymV(atom('idx', ob, ip), cls)
        if isinstance(o, K) and o.v is None or isinstance(o, (Builtin, Fn, ClsV)) and getattr(o, 'name', '').startswith('builtins.'):
            self.throw(TRUE)
            return BOT
        raise Unk('index %s' % o.key[:40])

    def arange_at(self, o, i):
        """element of an elementwise expression of numpy.arange(n) at a constant position"""
        n = self.cint(i)
        if n is None:
            return None
        acc = set()
        o.deep_atoms(acc)
        ar = [a for a in acc if a.kind == 'call' and getattr(a.args[0], 'key', None) == 'ext:numpy.arange' and len(a.args) == 2]
        if len(ar) != 1:
            return None
        if not all(a.kind in ('exp', 'log', 'powsum') or a.kind == 'fn' and a.args[0] in ('pow', 'abs')
                   for a in acc if a is not ar[0] and ar[0] in T.deep(a, set())):
            return None
        size = as_poly(ar[0].args[1])
        if size is None:
            return None
        at = T.const(n) if n >= 0 else T.add(size, T.const(n))
        return vsubst(o, {ar[0]: at})

    def dict_get(self, d, i, default):
        k = self.freeze(i)
        if isinstance(k, Ite):
            return ite(Ite(k.c, TRUE, FALSE), self.dict_get(d, k.hi, default), self.dict_get(d, k.lo, default))
        res = default if default is not None else BOT
        const_key = isinstance(k, (K, Fn, Num, ClsV)) or (isinstance(k, Seq) and k.concrete() and all(isinstance(x, (K, Num)) for x in k.items()))
        for kk, v, b, g in d.e:
            if not b:
                c = band(g, eq_values(k, kk))
                res = ite(c, v, res) if not (isinstance(c, K)) else (v if c.v else res)
            else:
                # keys generated per element: match the key pattern
                m = self.match_elem(kk, k, b)
                if m is not None:
                    res = vsubst(v, m)
                else:
                    res = SymV(atom('fn', 'dictget', d, k))
        return res

    def match_elem(self, pattern, k, binders):
        """find substitution of bound elements making pattern equal k"""
        acc = set()
        k.deep_atoms(acc)
        cands = [a for a in acc if a.kind in ('elem', 'idx', 'sym')]
        mp = {}
        for coll, b in binders:
            hit = None
            for a in cands:
                if a.kind == 'elem' and a.args[0].key == coll.key:
                    t = vsubst(pattern, {b: T.from_atom(a)})
                    if t.key == k.key:
                        hit = {b: T.from_atom(a)}
                        break
            if hit is None:
                return None
            mp.update(hit)
        return mp

    def slice(self, o, lo, hi, st, node=None):
        if isinstance(o, Ite):
            return ite(Ite(o.c, TRUE, FALSE), self.slice(o.hi, lo, hi, st, node), self.slice(o.lo, lo, hi, st, node))
        if isinstance(o, Ref):
            c = self.st.cells.get(o.id)
            if c is not None:
                return self.slice(c, lo, hi, st, node)
        if isinstance(o, SymV) and o.cls is not None:
            f = self.cls_lookup(o.cls, '__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [Seq([Part(lo), Part(hi), Part(st)], 'slice')], {}, node)
        if lo is NONE and hi is NONE and st is NONE and isinstance(o, (Num, SymV)):
            return o
        if isinstance(o, Seq):
            l = None if lo is NONE else self.cint(lo)
            h = None if hi is NONE else self.cint(hi)
            s_ = None if st is NONE else self.cint(st)
            ok = (lo is NONE or l is not None) and (hi is NONE or h is not None) and (st is NONE or s_ is not None)
            if ok and o.concrete():
                parts = o.parts[slice(l, h, s_)]
                return Seq(parts, o.kind) if o.kind != 'list' else self.newlist(parts)
            if ok and st is NONE and lo is not NONE and hi is NONE and l < 0:
                # trailing window of known tail
                if len(o.parts) >= -l and all(p.plain() for p in o.parts[l:]):
                    return self.newlist(o.parts[l:])
            fz = self.freeze(o)
            v = SymV(atom('slice', fz, lo, hi, st))
            return self.newlist([Part(v, star=True)])
        if isinstance(o, K) and isinstance(o.v, str):
            l = None if lo is NONE else self.cint(lo)
            h = None if hi is NONE else self.cint(hi)
            s_ = None if st is NONE else self.cint(st)
            return K(o.v[slice(l, h, s_)])
        ob = o
        if isinstance(o, Num):
            s = o.p.single()
            if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
                ob = SymV(s[1][0][0])
        return SymV(atom('slice', self.freeze(ob), self.freeze(lo), self.freeze(hi), self.freeze(st)))

    def e_ListComp(self, e, fid, mod):
        return self.newlist(self.comp(e, fid, mod, lambda f: self.ev(e.elt, f, mod)))

    def e_GeneratorExp(self, e, fid, mod):
        return self.newlist(self.comp(e, fid, mod, lambda f: self.ev(e.elt, f, mod)), 'list')

    def e_SetComp(self, e, fid, mod):
        return self.newlist(self.comp(e, fid, mod, lambda f: self.ev(e.elt, f, mod)), 'set')

    def e_DictComp(self, e, fid, mod):
        parts = self.comp(e, fid, mod, lambda f: Seq([Part(self.freeze(self.ev(e.key, f, mod))), Part(self.ev(e.value, f, mod))], 'tuple'))
        ents = []
        for p in parts:
            if p.star:
                raise Unk('dict comprehension over unknown parts')
            k, v = p.v.items()
            if not p.binders:
                ents = [x for x in ents if x[0].key != k.key]
            ents.append((k, v, p.binders, p.guard))
        return self.newdict(ents)

    def comp(self, e, fid, mod, elt):
        f = self.fresh('F')
        self.st.frames[f] = {'%outer': K(fid), '%mod': K(mod)}
        out = []

        def gen(i, binders, guard):
            if i == len(e.generators):
                v = elt(f)
                out.append(Part(v, binders, guard))
                return
            g = e.generators[i]
            seq = self.iterate(self.loop_source(g.iter, f, mod))
            if isinstance(seq, Ite):
                # conditional source: guard both alternatives
                alts = list(leaves(seq))
            else:
                alts = [((), seq)]
            for path, sq in alts:
                gg = guard
                for a, b in path:
                    gg = band(gg, Ite(a, TRUE, FALSE) if b else Ite(a, FALSE, TRUE))
                for p in sq.parts:
                    if p.star:
                        el = self.elem_of(p.v)
                        bs, val = [(p.v, el.a)], el
                    else:
                        bs, val = list(p.binders), p.v
                    for c, _ in bs:
                        self.binder_depth[c.key] = self.binder_depth.get(c.key, 0) + 1
                    try:
                        self.assign(g.target, val, f, mod)
                        g2 = band(gg, p.guard)
                        oldpc = self.st.pc
                        for cnd in g.ifs:
                            self.st.pc = band(oldpc, g2)
                            g2 = band(g2, self.truth(self.ev(cnd, f, mod)))
                        if g2.key != 'False':
                            self.st.pc = band(oldpc, g2)
                            gen(i + 1, binders + bs, g2)
                        self.st.pc = oldpc
                    finally:
                        for c, _ in bs:
                            self.binder_depth[c.key] -= 1
        gen(0, [], TRUE)
        return out

    def e_JoinedStr(self, e, fid, mod):
        from . import lib
        pieces = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                pieces.append(str(x.value))
                continue
            spec = ''
            if x.format_spec is not None:
                if not all(isinstance(y, ast.Constant) for y in x.format_spec.values):
                    return SymV(atom('fn', 'fstr', ast.dump(e)[:200]))
                spec = ''.join(str(y.value) for y in x.format_spec.values)
            pieces.append((spec, chr(x.conversion) if x.conversion not in (-1, None) else '', self.ev(x.value, fid, mod)))
        return lib.formatted(self, pieces)

    def e_Starred(self, e, fid, mod):
        raise Unk('starred')

    def e_NamedExpr(self, e, fid, mod):
        v = self.ev(e.value, fid, mod)
        self.assign(e.target, v, fid, mod)
        return v

    def e_Yield(self, e, fid, mod):
        if e.value is not None:
            self.event('yield', self.ev(e.value, fid, mod), node=e)
        return NONE

    # -- calls -----------------------------------------------------------------------
    def e_Call(self, e, fid, mod):
        # super() forms
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            return self.super_call(e, fid, mod)
        f = self.ev(e.func, fid, mod)
        args, kw = self.callargs(e, fid, mod)
        if 'out' in kw and isinstance(f, Builtin) and f.name.startswith('numpy.'):
            to = [k.value for k in e.keywords if k.arg == 'out'][0]
            if isinstance(to, (ast.Name, ast.Attribute)):
                del kw['out']
                v = self.call(f, args, kw, e)
                self.inplace(to, v, fid, mod)
                return v
        return self.call(f, args, kw, e)

    def callargs(self, e, fid, mod):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iterate(self.ev(a.value, fid, mod))
                if isinstance(s, Ite):
                    raise Unk('conditional star args')
                if not s.concrete():
                    args.append(Seq(s.parts, 'starargs'))
                else:
                    args.extend(s.items())
            else:
                args.append(self.ev(a, fid, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.cell(self.ev(k.value, fid, mod))
                if isinstance(d, DictV) and all(isinstance(x[0], K) and not x[2] and x[3].key == 'True' for x in d.e):
                    for kk, v, b, g in d.e:
                        kw[kk.v] = v
                    continue
                kw['**'] = d if d is not None else NONE
                continue
            kw[k.arg] = self.ev(k.value, fid, mod)
        return args, kw

    def super_call(self, e, fid, mod):
        fr = self.st.frames[fid]
        owner = None
        f = fid
        while f is not None:
            fr = self.st.frames.get(f)
            if fr is None:
                break
            if '%owner' in fr:
                owner = fr['%owner'].v
                selfv = fr.get('%self')
                break
            o = fr.get('%outer')
            f = o.v if o is not None else None
        if owner is None:
            raise Unk('super')
        cls = self.cls_by_qual(owner)
        args, kw = self.callargs(e, fid, mod)
        nm = e.func.attr
        for b in cls.bases:
            if isinstance(b, ClsV):
                v = self.cls_lookup(b, nm)
                if v is not None:
                    return self.call(Bound(v, selfv), args, kw, e)
        if nm == '__setattr__':
            self.st.attrs[(selfv.key, args[0].v, selfv.a if isinstance(selfv, SymV) else None)] = args[1]
            return NONE
        if nm == '__init__':
            return NONE
        self.event('call', selfv, K('super.' + nm), Seq([Part(self.freeze(a)) for a in args], 'tuple'), node=e)
        return self.unk('super.' + nm)

    def call(self, f, args, kw, node=None):
        self.stats['calls'] += 1
        if isinstance(f, Ite):
            f = under(f, self.st.pc)
        if isinstance(f, Ite):
            base = self.st
            c = Ite(f.c, TRUE, FALSE)
            s1, s2 = base.copy(), base.copy()
            s1.pc, s2.pc = band(base.pc, c), band(base.pc, bnot(c))
            self.st = s1
            a = self.call(f.hi, args, kw, node)
            s1 = self.st
            self.st = s2
            b = self.call(f.lo, args, kw, node)
            s2 = self.st
            self.st = self.merge(c, s1, s2, base.events)
            self.st.pc = base.pc
            return ite(c, a, b)
        if isinstance(f, Bound):
            if isinstance(f.f, PyFn):
                return f.f.f(self, [f.self] + list(args), kw, node)
            return self.call_fn(f.f, [f.self] + list(args), kw, node)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw, node)
        if isinstance(f, Wrap):
            return self.call(f.f, args, kw, node)
        if isinstance(f, PyFn):
            return f.f(self, list(args), kw, node)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Builtin):
            from . import lib
            return lib.call_builtin(self, f.name, list(args), kw, node)
        if isinstance(f, MethodOf):
            from . import lib
            return lib.call_method(self, f.obj, f.name, list(args), kw, node)
        if isinstance(f, SymV):
            if f.cls is not None:
                g = self.cls_lookup(f.cls, '__call__')
                if g is not None:
                    return self.call(Bound(g, f), args, kw, node)
            if f.a.kind == 'fn' and f.a.args[0] == 'type' and isinstance(f.a.args[1], Num) and len(args) == 1:
                # the type of a number applied to a value
                from . import lib
                return lib.to_number(self, args[0])
            return self.opaque_call(f, args, kw, node)
        if f is BOT:
            return BOT
        if isinstance(f, K) and f.v is None:
            self.throw(TRUE)
            return BOT
        raise Unk('call %s' % f.key[:60])

    def opaque_call(self, f, args, kw, node):
        fa = [self.freeze(a) for a in args] + [Seq([Part(K(k)), Part(self.freeze(v))], 'kw') for k, v in sorted(kw.items())]
        self.event('opcall', f, Seq([Part(a) for a in fa], 'tuple'), node=node)
        if any(isinstance(a, Ite) for a in fa):
            # distribute over conditional arguments
            for i, a in enumerate(fa):
                if isinstance(a, Ite) and not kw:
                    c = Ite(a.c, TRUE, FALSE)
                    h, l = list(fa), list(fa)
                    h[i], l[i] = a.hi, a.lo
                    return ite(c, self._opq(f, h), self._opq(f, l))
        return self._opq(f, fa)

    def _opq(self, f, fa):
        for i, a in enumerate(fa):
            if isinstance(a, Ite):
                c = Ite(a.c, TRUE, FALSE)
                h, l = list(fa), list(fa)
                h[i], l[i] = a.hi, a.lo
                return ite(c, self._opq(f, h), self._opq(f, l))
        return SymV(atom('call', f, *[(x.p if isinstance(x, Num) else x) for x in fa]))

    def instantiate(self, cls, args, kw, node):
        if cls.fields:
            r = Ref(self.fresh('N'), cls)
            self.st.attrs[(r.key, '%obj', None)] = TRUE
            for i, fname in enumerate(cls.fields):
                if i < len(args):
                    v = args[i]
                elif fname in kw:
                    v = kw[fname]
                else:
                    raise Unk('namedtuple arity')
                self.st.attrs[(r.key, fname, None)] = v
            return r
        p = self.prims.get(cls.qual)
        if p is not None:
            return p(self, list(args), kw, node)
        r = Ref(self.fresh(cls.name), cls)
        self.st.attrs[(r.key, '%obj', None)] = TRUE
        init = self.cls_lookup(cls, '__init__')
        if init is not None:
            self.call(Bound(init, r), args, kw, node)
        elif any(isinstance(b, Builtin) for b in cls.bases) and (args or kw):
            self.st.attrs[(r.key, '%args', None)] = Seq([Part(a) for a in args], 'tuple')
        return r

    def positional(self, f, args, kw):
        """canonical (positional, defaults filled in) form of a call's arguments"""
        a = f.node.args
        if a.vararg is not None or '**' in kw or any(isinstance(x, Seq) and x.kind == 'starargs' for x in args):
            return args, kw
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos):
            return args, kw
        out, rest = list(args), dict(kw)
        nd = len(f.defaults)
        for i in range(len(args), len(pos)):
            if pos[i] in rest:
                out.append(rest.pop(pos[i]))
            elif i >= len(pos) - nd:
                out.append(f.defaults[i - (len(pos) - nd)])
            else:
                return args, kw
        return out, rest

    def call_fn(self, f, args, kw, node):
        if isinstance(f, PyFn):
            return f.f(self, args, kw, node)
        q = f.key[3:].split('@')[0].rstrip("'")
        p = self.prims.get(q)
        if p is not None:
            r = p(self, args, kw, node)
            if r is not NotImplemented:
                return r
        if q in self.uninterpreted:
            args, kw = self.positional(f, args, kw)
            if f.owner is not None and args and isinstance(args[0], (SymV, Ref)):
                ob = args[0]
                fa = [self.freeze(a) for a in args[1:]]
                fa += [Seq([Part(K(k)), Part(self.freeze(v))], 'kw') for k, v in sorted(kw.items())]
                self.event('ucall', ob, K(f.name), Seq([Part(x) for x in fa], 'tuple'), node=node)
                return self._opq(SymV(attr_atom(ob.a, f.name)) if isinstance(ob, SymV) else SymV(atom('meth', ob.key, f.name)), fa)
            self.event('ucall', f, K(f.name), Seq([Part(self.freeze(a)) for a in args], 'tuple'), node=node)
            return self._opq(f, [self.freeze(a) for a in args] + [Seq([Part(K(k)), Part(self.freeze(v))], 'kw') for k, v in sorted(kw.items())])
        if len(self.stack) > self.maxdepth:
            raise Unk('call depth')
        if sum(1 for s in self.stack if s[0] == q) > 6:
            raise Unk('recursion in ' + q)
        self.stats['functions'].add(q)
        if node is not None:
            self.stats['sites'].add((self.stack[-1][0] if self.stack else '?', getattr(node, 'lineno', 0), q))
        n = f.node
        fid = self.fresh('F')
        fr = {'%outer': K(f.fid), '%mod': K(f.mod)}
        if f.owner is not None:
            fr['%owner'] = K(f.owner)
            if args:
                fr['%self'] = args[0]
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        splat = kw.pop('**', None)
        for i, name in enumerate(pos):
            if i < len(args):
                if isinstance(args[i], Seq) and args[i].kind == 'starargs':
                    raise Unk('symbolic star args')
                fr[name] = args[i]
        if len(args) > len(pos):
            if a.vararg is None:
                raise Unk('too many arguments to ' + q)
            fr[a.vararg.arg] = Seq([Part(x) for x in args[len(pos):]], 'tuple')
        elif a.vararg is not None:
            fr[a.vararg.arg] = Seq([], 'tuple')
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name in fr and i < len(args):
                continue
            if name in kw:
                fr[name] = kw.pop(name)
            elif i >= len(pos) - nd:
                fr[name] = f.defaults[i - (len(pos) - nd)]
            elif splat is not None:
                fr[name] = SymV(atom('fn', 'kwarg', splat, name))
            else:
                raise Unk('missing argument %s of %s' % (name, q))
        for x in a.kwonlyargs:
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                fr[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.newdict([(K(k), v, (), TRUE) for k, v in kw.items()])
        elif kw:
            raise Unk('unexpected keyword %s for %s' % (sorted(kw), q))
        self.st.frames[fid] = fr
        if isinstance(n, ast.Lambda):
            self.stack.append((q, n))
            try:
                return self.ev(n.body, fid, f.mod)
            finally:
                self.stack.pop()
        if _is_generator(n):
            return self.run_generator(f, n, fid, q)
        st = self.st
        saved = (st.ret, st.rv, st.brk, st.cnt)
        st.ret, st.rv, st.brk, st.cnt = FALSE, NONE, FALSE, FALSE
        self.stack.append((q, n))
        try:
            self.block(n.body, fid, f.mod)
        finally:
            self.stack.pop()
        st = self.st
        rv = st.rv
        if st.ret.key != 'True':
            rv = ite(st.ret, st.rv, NONE) if st.ret.key != 'False' else NONE
        st.ret, st.rv, st.brk, st.cnt = saved
        exc = self.raises(rv)
        if exc.key != 'False':
            # an exception of the callee leaves the caller as well
            st.rv = ite(exc, BOT, ite(st.ret, st.rv, NONE)) if st.ret.key != 'False' or exc.key != 'True' else BOT
            st.ret = bor(st.ret, exc)
        return rv

    def raises(self, rv):
        if rv.key == BOT.key and isinstance(rv, K):
            return TRUE
        if isinstance(rv, Ite):
            h, l = self.raises(rv.hi), self.raises(rv.lo)
            if h.key == 'False' and l.key == 'False':
                return FALSE
            return ite(Ite(rv.c, TRUE, FALSE), h, l)
        return FALSE

    def run_generator(self, f, n, fid, q):
        if sum(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) == 0:
            raise Unk('generator')
        st = self.st
        saved = (st.ret, st.rv, st.brk, st.cnt)
        st.ret, st.rv, st.brk, st.cnt = FALSE, NONE, FALSE, FALSE
        # collect yields into a list cell
        acc = self.newlist([])
        self.wframe(fid)['%yield'] = acc
        self.stack.append((q, n))
        body = _yield_to_append(n)
        try:
            self.block(body, fid, f.mod)
        finally:
            self.stack.pop()
        st = self.st
        st.ret, st.rv, st.brk, st.cnt = saved
        return acc


def attr_atom(base, name):
    if base.kind == 'sym':
        return atom('sym', base.key + '.' + name)
    return atom('attr', base, name)


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_gen_cache = {}


def _is_generator(n):
    if id(n) in _gen_cache:
        return _gen_cache[id(n)][1]
    r = False
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            r = True
            break
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)
    _gen_cache[id(n)] = (n, r)
    return r


def _yield_to_append(n):
    class X(ast.NodeTransformer):
        def visit_Expr(self, e):
            if isinstance(e.value, ast.Yield):
                return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.Attribute(ast.Name('%yield', ast.Load()), 'append', ast.Load()), [e.value.value or ast.Constant(None)], []), e)), e)
            return e
    import copy
    m = X().visit(copy.deepcopy(n))
    ast.fix_missing_locations(m)
    return m.body


BUILTINS = set('''abs all any bool dict enumerate filter float getattr hasattr int isinstance len list map max min
print range repr reversed round set setattr sorted str sum super tuple type zip callable open ValueError Exception
NotImplementedError KeyboardInterrupt KeyError AttributeError TypeError IndexError object property staticmethod classmethod iter next id vars
frozenset complex divmod pow hash format issubclass slice RuntimeError StopIteration ImportError AssertionError ZeroDivisionError OSError IOError delattr FloatingPointError OverflowError bytes chr ord'''.split())
GENERIC_METHODS = set('''append extend copy keys values items get update sum any all max min mean astype tolist flatten
format join split replace strip startswith endswith index count remove pop insert sort reverse dot transpose reshape view
ravel repeat clip fill write close lower upper popleft _replace prod cumsum searchsorted conj conjugate'''.split())
EXTMODS = {'os.path', 'os.environ_', 'scipy.integrate', 'scipy.interpolate', 'numpy.polynomial', 'numpy.polynomial.legendre', 'numpy.linalg', 'scipy.integrate.quadrature_'}
CLASS_HOOKS = {}
STUBBED = {}
