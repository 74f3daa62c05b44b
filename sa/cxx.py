"""C++ sources as analysable modules.

The clang syntax tree of a C++ translation unit of /repo (parsed only, against
declaration stubs of pybind11 and GSL) is rewritten into the syntax tree the
interpreter analyses.  Nothing is compiled or run."""
import ast
import textwrap
import json
import os
import re
import subprocess
import tempfile
from .terms import Unk

HERE = os.path.dirname(os.path.abspath(__file__))
STUB = os.path.join(HERE, 'cxxstub')
NS = 'pybbn_cxx'
PRELUDE = '''
#include <iostream>
#include <cmath>
#include <array>
#include <vector>
#include <complex>
#include <numeric>
#include <map>
#include <algorithm>
#include <functional>
#include <memory>
#include <limits>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <utility>
#include <tuple>
#include <string>
#include <sstream>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/numpy.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>
#include <gsl/gsl_math.h>
#include <omp.h>
'''


def parse(path):
    """the namespace holding every declaration of one source file"""
    src = open(path, encoding='utf8').read()
    text = PRELUDE
    for m in re.findall(r'^\s*#\s*include\s*<[^>]+>', src, re.M):
        text += m + '\n'
    text += 'namespace %s {\n#include "%s"\n}\n' % (NS, path)
    d = tempfile.mkdtemp(prefix='pybbn_cxx')
    w = os.path.join(d, 'w.cpp')
    try:
        with open(w, 'w') as f:
            f.write(text)
        p = subprocess.run(['clang++', '-std=c++17', '-fopenmp', '-fsyntax-only', '-w', '-I' + STUB, '-I' + os.path.dirname(path), '-Xclang',
                            '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS, w], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except OSError as e:
        raise Unk('no C++ front end: %s' % e)
    finally:
        os.remove(w) if os.path.exists(w) else None
        os.rmdir(d)
    if p.returncode:
        raise Unk('the C++ source does not parse against the declaration stubs: %s' % p.stderr.decode()[:300])
    text = p.stdout.decode()
    i = text.find('{')
    dec = json.JSONDecoder()
    out = []
    while i >= 0:
        n, j = dec.raw_decode(text, i)
        if n.get('kind') == 'NamespaceDecl' and n.get('name') == NS:
            out.append(n)
        i = text.find('{', j)
    if not out:
        raise Unk('no declarations found in %s' % path)
    for n in out:
        lines(n, {'line': 0, 'file': None})
    return out, src


def lines(n, last):
    """locations are written relative to the previous one: make them absolute"""
    def loc(l):
        if not isinstance(l, dict):
            return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                loc(l[k])
                l.setdefault('line', l[k].get('line'))
        if 'file' in l:
            last['file'] = l['file']
        if 'line' in l:
            last['line'] = l['line']
        elif 'offset' in l:
            l['line'] = last['line']
    for k in list(n):
        if k == 'loc':
            loc(n[k])
        elif k == 'range':
            loc(n[k].get('begin'))
            loc(n[k].get('end'))
        elif k == 'inner':
            for x in n[k]:
                lines(x, last)


def line(n):
    for l in (n.get('range', {}).get('begin', {}), n.get('loc', {})):
        if l.get('line'):
            return l['line']
        if l.get('expansionLoc', {}).get('line'):
            return l['expansionLoc']['line']
    return 0


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def bare(t):
    t = re.sub(r'\b(const|volatile|struct|class|enum)\b', '', t)
    return re.sub(r'\s+', ' ', t.replace('std::__cxx11::', 'std::')).replace(NS + '::', '').strip()


SCALAR = {'double', 'float', 'int', 'long', 'unsigned long', 'unsigned int', 'bool', 'char', 'short', 'dbl', 'size_t', 'long long', 'unsigned', 'long double',
          'std::size_t', 'unsigned char', 'unsigned long long', 'npdbl', 'unsigned short', 'int64_t', 'size_type', 'difference_type'}
INTS = {'int', 'long', 'unsigned long', 'unsigned int', 'bool', 'char', 'short', 'size_t', 'long long', 'unsigned', 'std::size_t', 'unsigned char',
        'unsigned long long', 'unsigned short', 'size_type', 'difference_type'}


def scalar(t):
    return bare(t) in SCALAR


def pair_tuple(t):
    return re.match(r'std::(pair|tuple)<', bare(t)) is not None


def container(t):
    """a vector or array, held by value"""
    t = bare(t)
    return re.match(r'(std::)?(vector|array)<', t) is not None and not t.endswith(('&', '*'))


def isexpr(n):
    k = n.get('kind', '')
    return k.endswith(('Expr', 'Literal', 'Operator')) or k == 'ExprWithCleanups'


def const_ref(t):
    """a parameter whose writes are visible to the caller"""
    return bool(re.match(r'^\s*const\b', t)) or ' const' in t


IGNORED = {'printf', 'fprintf', 'gsl_set_error_handler_off', 'gsl_set_error_handler', 'puts', 'fflush', 'setbuf', 'assert', 'omp_set_num_threads',
           'gsl_strerror', 'omp_get_thread_num', 'omp_get_max_threads', 'omp_set_dynamic', 'perror', 'fputs', 'snprintf', 'to_string'}
MATH = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'abs': 'abs', 'fabs': 'abs', 'labs': 'abs', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'tanh': 'tanh',
        'cosh': 'cosh', 'sinh': 'sinh', 'expm1': 'expm1', 'log1p': 'log1p', 'floor': 'floor', 'ceil': 'ceil', 'sqrtf': 'sqrt', 'atan': 'arctan',
        'log2': 'log2', 'cbrt': 'cbrt'}
RT = {'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite', 'hypot': 'hypot', 'pow': 'power', 'max': 'maximum', 'min': 'minimum', 'fmax': 'maximum', 'fmin': 'minimum',
      'accumulate': 'accumulate', 'copysign': 'copysign', 'signbit': 'signbit', 'clamp': 'clamp', 'trunc': 'trunc', 'round': 'round_', 'fma': 'fma',
      'gsl_pow_2': 'pow2', 'gsl_pow_3': 'pow3', 'gsl_pow_4': 'pow4', 'gsl_pow_5': 'pow5', 'gsl_pow_int': 'power', 'gsl_hypot': 'hypot', 'gsl_integration_workspace_alloc': 'workspace_alloc',
      'gsl_integration_workspace_free': 'workspace_free', 'get_temporary': 'none', 'iota': 'iota', 'fdim': 'fdim', 'gsl_max': 'maximum', 'gsl_min': 'minimum', 'GSL_MAX_DBL': 'maximum', 'GSL_MIN_DBL': 'minimum'}
PASS = {'move', 'forward', 'ref', 'cref', 'as_const'}
KEYWORDS = {'lambda', 'None', 'True', 'False', 'in', 'is', 'not', 'and', 'or', 'def', 'from', 'import', 'pass', 'with', 'yield', 'global', 'del', 'raise', 'except', 'exec',
            'print', 'len', 'abs', 'rt', 'numpy', 'range', 'list', 'math'}


class Unit(object):
    """one Python extension module written in C++"""

    def __init__(self, paths):
        self.out, self.map = [], []
        self.units = []
        self.kinds = {}
        self.functions = {}      # mangled -> dict(name=, node=, defaults=, file=)
        self.idmap = {}          # declaration id -> mangled
        self.enums, self.fields, self.records = {}, {}, {}
        self.binds = {}
        self.omp = []
        self.tmp = 0
        self.errors = {}
        for path in paths:
            roots, src = parse(path)
            self.units.append((path, roots, src))
        self.collect()
        self.emit_all()

    # -- declarations ----------------------------------------------------------------
    def collect(self):
        self.globals = []
        self.gids = {}
        for path, roots, src in self.units:
            for r in roots:
                self.collect_in(r.get('inner', []), path, None)
        byname = {}
        for m, f in self.functions.items():
            byname.setdefault(f['short'], []).append(m)
        for n, ms in byname.items():
            for m in ms:
                f = self.functions[m]
                f['name'] = safe(n) if len(ms) == 1 else '%s__%d' % (n, len(f['params']))
            names = [self.functions[m]['name'] for m in ms]
            if len(set(names)) < len(names):
                for i, m in enumerate(sorted(ms)):
                    self.functions[m]['name'] += '_%d' % i
        self.byname = byname

    def collect_in(self, nodes, path, rec):
        for n in nodes:
            k = n.get('kind')
            if k in ('FunctionDecl', 'CXXMethodDecl') and not n.get('isImplicit'):
                m = n.get('mangledName', n.get('name'))
                if n.get('storageClass') == 'static' and rec is None:
                    m = path + ':' + m
                params = [p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
                f = self.functions.setdefault(m, {'short': n['name'], 'params': params, 'defaults': {}, 'node': None, 'path': path, 'method': rec, 'mangled': m})
                self.idmap[n['id']] = m
                for i, p in enumerate(params):
                    e = [x for x in p.get('inner', []) if 'Attr' not in x.get('kind', '') and 'Comment' not in x.get('kind', '')]
                    if p.get('init') and e:
                        f['defaults'][i] = e[0]
                body = [x for x in n.get('inner', []) if x.get('kind') == 'CompoundStmt']
                if body:
                    f['node'], f['params'], f['path'] = n, params, path
            elif k == 'FunctionTemplateDecl':
                inst = [x for x in n.get('inner', []) if x.get('kind') == 'FunctionDecl'][1:]
                self.collect_in(inst, path, rec)
            elif k == 'EnumDecl':
                v = -1
                for c in n.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        val = const_value(c)
                        v = v + 1 if val is None else val
                        self.enums[c['id']] = v
                        self.enums.setdefault((n.get('name'), c['name']), v)
            elif k == 'CXXRecordDecl' and n.get('name') and n.get('inner'):
                self.records.setdefault(n['name'], n)
                self.collect_in([x for x in n['inner'] if x.get('kind') in ('CXXMethodDecl',) and not x.get('isImplicit')], path, n['name'])
            elif k == 'NamespaceDecl' or k == 'LinkageSpecDecl':
                self.collect_in(n.get('inner', []), path, rec)
            elif k == 'VarDecl':
                self.globals.append((n, path))
                self.gids[n['id']] = safe(n['name'])

    # -- output ----------------------------------------------------------------------
    def emit(self, text, ln, depth):
        self.out.append('    ' * depth + text)
        self.map.append(ln)

    def emit_all(self):
        self.emit('import numpy', 0, 0)
        self.emit('from specs import cxxrt as rt', 0, 0)
        for name, n in self.records.items():
            self.record(name, n)
        for n, path in self.globals:
            f = Fn(self, None, path)
            try:
                f.vardecl(n, 0, top=True)
            except Unk as e:
                self.errors[n.get('name')] = str(e)
                self.emit('%s = rt.unmodelled(%r)' % (safe(n['name']), str(e)), line(n), 0)
            self.flush(f)
        for m, f in self.functions.items():
            if f['node'] is None or f['method']:
                continue
            if f['short'].startswith('pybind11_init_'):
                self.bindings(f)
                continue
            self.function(f, 0)
        self.exports()

    def flush(self, fn):
        self.out += fn.out
        self.map += fn.map
        fn.out, fn.map = [], []

    def function(self, f, depth, selfarg=False):
        fn = Fn(self, f, f['path'])
        try:
            fn.definition(depth, selfarg)
            try:
                ast.parse(textwrap.dedent('\n'.join(fn.out)))
            except SyntaxError as e:
                raise Unk('an expression without a counterpart: %s' % e)
        except Unk as e:
            self.errors[f['short']] = str(e)
            fn.out, fn.map = [], []
            ps = ['a%d=None' % i for i in range(len(f['params']))]
            fn.emit('def %s(%s):' % (f['name'], ', '.join((['self'] if selfarg else []) + ps)), line(f['node']), depth)
            fn.emit('return rt.unmodelled(%r)' % ('%s: %s' % (f['short'], e)), line(f['node']), depth + 1)
        self.flush(fn)

    def record(self, name, n):
        self.emit('class %s(object):' % safe(name), line(n), 0)
        fields = [x for x in n['inner'] if x.get('kind') == 'FieldDecl']
        self.fields[name] = [f['name'] for f in fields]
        ctors = [x for x in n['inner'] if x.get('kind') == 'CXXConstructorDecl' and not x.get('isImplicit')
                 and any(y.get('kind') == 'CompoundStmt' for y in x.get('inner', []))]
        fn = Fn(self, None, self.units[0][0])
        try:
            if len(ctors) == 1:
                c = ctors[0]
                ps = [p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']
                args = []
                for p in ps:
                    nm = fn.declare(p)
                    d = [x for x in p.get('inner', []) if isexpr(x)]
                    args.append(nm + ('=' + fn.ex(d[0]) if p.get('init') and d else ''))
                fn.emit('def __init__(%s):' % ', '.join(['self'] + args), line(c), 1)
                done = set()
                for i in c.get('inner', []):
                    if i.get('kind') == 'CXXCtorInitializer':
                        init = i.get('anyInit', {}).get('name')
                        if init is None:
                            raise Unk('base class initialiser')
                        done.add(init)
                        fn.emit('self.%s = %s' % (init, fn.value(i['inner'][0])), line(c), 2)
                for f in fields:
                    if f['name'] not in done:
                        e = fn.default(f)
                        fn.emit('self.%s = %s' % (f['name'], e), line(f), 2)
                body = [y for y in c['inner'] if y.get('kind') == 'CompoundStmt'][0]
                fn.block(body, 2)
            elif not ctors:
                fn.emit('def __init__(%s):' % ', '.join(['self'] + [f['name'] + '=None' for f in fields]), line(n), 1)
                for f in fields:
                    fn.emit('self.%s = %s' % (f['name'], '%s if %s is not None else %s' % (f['name'], f['name'], fn.default(f)) if fn.default(f) not in ('None', 'rt.UNSET') else f['name']), line(f), 2)
                fn.emit('pass', line(n), 2)
            else:
                raise Unk('several constructors')
        except Unk as e:
            self.errors[name] = str(e)
            fn.out, fn.map = [], []
            fn.emit('def __init__(self, *a):', line(n), 1)
            fn.emit('rt.unmodelled(%r)' % str(e), line(n), 2)
        self.flush(fn)
        for m, f in self.functions.items():
            if f['method'] == name and f['node'] is not None:
                self.function(f, 1, True)
        self.emit('def copy_(self):', line(n), 1)
        self.emit('o = rt.blank(%s)' % safe(name), line(n), 2)
        for f in fields:
            self.emit('o.%s = %s' % (f['name'], ('list(self.%s)' if container(qt(f)) else 'self.%s') % f['name']), line(n), 2)
        self.emit('return o', line(n), 2)

    # -- what Python sees ----------------------------------------------------------------
    def bindings(self, f):
        fn = Fn(self, f, f['path'])
        self.defs, self.classes, self.enumdefs = {}, {}, {}
        body = [x for x in f['node']['inner'] if x.get('kind') == 'CompoundStmt'][0]
        for s in body.get('inner', []):
            calls = []

            def chain(n):
                k = n.get('kind')
                if k == 'CXXMemberCallExpr':
                    callee = n['inner'][0]
                    chain(callee['inner'][0] if callee.get('inner') else {})
                    calls.append((callee.get('name'), n['inner'][1:], n))
                elif k == 'CXXTemporaryObjectExpr' or (k == 'CXXConstructExpr' and len(n.get('inner', [])) > 1):
                    calls.append(('', n.get('inner', []), n))
                elif k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr'):
                    for x in n.get('inner', []):
                        chain(x)
                elif k == 'DeclStmt':
                    for x in n.get('inner', []):
                        for y in x.get('inner', []):
                            chain(y)
            chain(s)
            cur = None
            for name, args, n in calls:
                a = [strip(x) for x in args]
                if name == '':
                    t = bare(qt(n))
                    label = strings(args)[:1]
                    if t.startswith(('pybind11::class_', 'py::class_', 'class_')):
                        cur = self.classes.setdefault(label[0], {'type': t[t.find('<') + 1:t.rfind('>')], 'init': [], 'args': []})
                    elif 'enum_' in t:
                        cur = self.enumdefs.setdefault(label[0], {'type': t[t.find('<') + 1:t.rfind('>')], 'values': {}})
                elif name == 'value' and cur is not None:
                    e = find(args[1], 'DeclRefExpr')
                    cur['values'][strings(args)[0]] = self.enums.get(e['referencedDecl']['id']) if e else None
                elif name == 'def':
                    s0 = [x for x in a if x.get('kind') == 'StringLiteral']
                    argn = []
                    for x in args:
                        for u in findall(x, 'UserDefinedLiteral'):
                            argn.append((strings([u])[0], 'operator=' in json.dumps(x) or bool(find(x, 'CXXOperatorCallExpr')), x))
                    if cur is not None and not (s0 and a and a[0] is s0[0]):
                        ini = [bare(qt(x)) for x in args if 'init<' in qt(x)]
                        cur['init'] = templ_args(ini[0]) if ini else []
                        cur['args'] = argn
                        cur['line'] = line(n)
                        continue
                    nm = strings(args)[0]
                    ref = None
                    lam = find(args[1], 'LambdaExpr')
                    if lam:
                        try:
                            ref = fn.lambda_(lam, 0)
                        except Unk as e:
                            self.errors[nm] = str(e)
                            ref = 'rt.unmodelled'
                    else:
                        e = find(args[1], 'DeclRefExpr')
                        m = self.idmap.get(e['referencedDecl']['id']) if e else None
                        ref = self.functions[m]['name'] if m else None
                        if m:
                            self.defs.setdefault(nm, {})['function'] = self.functions[m]
                    d = self.defs.setdefault(nm, {})
                    d['ref'], d['args'], d['line'] = ref, argn, line(n)
                    d['lambda'] = lam
        self.flush(fn)

    def exports(self):
        for nm, d in getattr(self, 'defs', {}).items():
            if d['ref'] and d['ref'] != nm:
                self.emit('exported_%s = %s' % (nm, d['ref']), d['line'], 0)
            elif d['ref']:
                self.emit('exported_%s = %s' % (nm, nm), d['line'], 0)

    def text(self):
        return '\n'.join(self.out) + '\n'

    def tree(self):
        t = ast.parse(self.text())
        for n in ast.walk(t):
            if hasattr(n, 'lineno'):
                n.lineno = self.map[n.lineno - 1] or 1
        return t


def templ_args(t):
    t = t[t.find('<') + 1:t.rfind('>')]
    out, d, cur = [], 0, ''
    for ch in t:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def safe(n):
    return n + '_' if n in KEYWORDS else n


def const_value(n):
    e = find(n, 'ConstantExpr')
    if e is not None and 'value' in e:
        return int(e['value'])
    e = find(n, 'IntegerLiteral')
    return int(e['value']) if e is not None else None


def find(n, kind):
    if not isinstance(n, dict):
        return None
    if n.get('kind') == kind:
        return n
    for x in n.get('inner', []):
        r = find(x, kind)
        if r is not None:
            return r
    return None


def findall(n, kind, acc=None):
    acc = [] if acc is None else acc
    if n.get('kind') == kind:
        acc.append(n)
        return acc
    for x in n.get('inner', []):
        findall(x, kind, acc)
    return acc


def strings(ns):
    return [json.loads(x['value']) for n in ns for x in findall(n, 'StringLiteral')]


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr',
                            'SubstNonTypeTemplateParmExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXStdInitializerListExpr'}
CASTS = {'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'}
ASSIGNS = {'=', '+=', '-=', '*=', '/=', '%='}


class Fn(object):
    """the body of one function"""

    def __init__(self, unit, f, path, outer=None):
        self.u, self.f, self.path = unit, f, path
        self.out, self.map = [], []
        self.names = dict(outer.names) if outer else {}
        self.used = set(outer.used) if outer else set()
        self.alias = dict(outer.alias) if outer else {}
        self.types = dict(outer.types) if outer else {}
        self.outer = outer
        self.refs = []
        self.ret_type = None
        self.assigned = set()
        self.own = set()
        self.depth = 0
        self.cont = []

    def emit(self, text, ln, depth):
        self.out.append('    ' * depth + text)
        self.map.append(ln)

    def temp(self):
        self.u.tmp += 1
        return '_t%d' % self.u.tmp

    def declare(self, n):
        base = safe(n.get('name') or '_p')
        if base in {f['name'] for f in self.u.functions.values() if f.get('name')} or base in self.u.records:
            base += '_v'
        nm, i = base, 1
        while nm in self.used:
            i += 1
            nm = '%s_%d' % (base, i)
        self.used.add(nm)
        self.names[n['id']] = nm
        self.types[n['id']] = qt(n)
        self.own.add(nm)
        return nm

    # -- function definitions ------------------------------------------------------------
    def outparams(self, params):
        out = []
        for i, p in enumerate(params):
            t = p.get('type', {}).get('qualType', '')
            d = qt(p)
            if d.endswith('&') and not const_ref(t) and scalar(d[:-1]):
                out.append(i)
            elif d.endswith('*') and not const_ref(t) and scalar(d[:-1]) and bare(d[:-1]) != 'char':
                out.append(i)
        return out

    def definition(self, depth, selfarg=False):
        f, n = self.f, self.f['node']
        args = ['self'] if selfarg else []
        body = [x for x in n['inner'] if x.get('kind') == 'CompoundStmt'][0]
        for i, p in enumerate(f['params']):
            nm = self.declare(p)
            d = f['defaults'].get(i)
            args.append(nm + ('=' + self.ex(d) if d is not None else ''))
        self.refs = [self.names[f['params'][i]['id']] for i in self.outparams(f['params'])]
        for i in self.outparams(f['params']):
            if qt(f['params'][i]).rstrip().endswith('*'):
                self.alias[('ptr', f['params'][i]['id'])] = self.names[f['params'][i]['id']]
        self.ret_type = n['type']['qualType'].split('(')[0].strip()
        self.emit('def %s(%s):' % (f['name'], ', '.join(args)), line(n), depth)
        self.body(body, f['params'], depth)

    def body(self, body, params, depth):
        changed = self.mutated(body)
        for p in params:
            t = qt(p)
            if container(t) and p['id'] in changed:
                self.emit('%s = list(%s)' % (self.names[p['id']], self.names[p['id']]), line(p), depth + 1)
        if not body.get('inner'):
            self.emit('pass', line(body), depth + 1)
        self.block(body, depth + 1)
        self.emit('return %s' % self.returned('None'), line(body), depth + 1)

    def returned(self, v):
        return '(%s)' % ', '.join([v] + self.refs) if self.refs else v

    def mutated(self, n, acc=None):
        """declarations written anywhere inside n"""
        acc = set() if acc is None else acc
        k = n.get('kind')
        tgt = None
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode') in ASSIGNS or k == 'CompoundAssignOperator'):
            tgt = n['inner'][0]
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            tgt = n['inner'][0]
        elif k == 'CXXOperatorCallExpr' and opname(n) in ASSIGNS | {'++', '--'}:
            tgt = n['inner'][1]
        elif k == 'CallExpr' or k == 'CXXMemberCallExpr':
            for a in n.get('inner', [])[1:]:
                # bound to a non-const reference: no lvalue-to-rvalue conversion
                self.root(a, acc, only_ref=True)
            if k == 'CXXMemberCallExpr':
                c = n['inner'][0]
                if c.get('name') not in ('size', 'at', 'begin', 'end', 'front', 'back', 'empty', 'data', 'cbegin', 'cend') and c.get('inner'):
                    self.root(c['inner'][0], acc)
                elif c.get('name') in ('begin', 'end', 'data', 'at', 'front', 'back') and c.get('inner') and c['inner'][0].get('kind') != 'ImplicitCastExpr':
                    self.root(c['inner'][0], acc)
        if tgt is not None:
            self.root(tgt, acc)
        for x in n.get('inner', []):
            self.mutated(x, acc)
        return acc

    def root(self, n, acc, only_ref=False):
        while True:
            k = n.get('kind')
            if k == 'ImplicitCastExpr' and only_ref and n.get('castKind') in ('LValueToRValue', 'NoOp'):
                return
            if k == 'DeclRefExpr':
                acc.add(n.get('referencedDecl', {}).get('id'))
                return
            if k == 'CXXOperatorCallExpr' and opname(n) == '[]':
                n = n['inner'][1]
            elif k in ('MemberExpr', 'ArraySubscriptExpr', 'ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.get('inner'):
                n = n['inner'][0]
            elif k == 'ConditionalOperator':
                self.root(n['inner'][1], acc, only_ref)
                n = n['inner'][2]
            elif k == 'UnaryOperator' and n.get('opcode') in ('*', '&') and n.get('inner'):
                n = n['inner'][0]
            elif k == 'CXXMemberCallExpr' and n['inner'][0].get('name') in ('begin', 'end', 'at', 'front', 'back', 'data') and n['inner'][0].get('inner'):
                n = n['inner'][0]['inner'][0]
            else:
                return

    def lambda_(self, n, depth):
        """a closure, as a nested function defined before the statement that uses it"""
        rec = [x for x in n['inner'] if x.get('kind') == 'CXXRecordDecl'][0]
        op = [m for m in findall_all(rec, 'CXXMethodDecl') if m.get('name') == 'operator()']
        if not op:
            raise Unk('generic closure')
        op = op[0]
        body = [x for x in n['inner'] if x.get('kind') == 'CompoundStmt'][-1]
        fn = Fn(self.u, None, self.path, self)
        params = [p for p in op.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        args = []
        for p in params:
            nm = fn.declare(p)
            e = [x for x in p.get('inner', []) if isexpr(x)]
            args.append(nm + ('=' + fn.ex(e[0]) if p.get('init') and e else ''))
        if fn.outparams(params):
            raise Unk('closure with output parameters')
        name = '_f%s' % self.temp()
        fn.ret_type = op['type']['qualType'].split('(')[0].strip()
        fn.depth = depth
        fn.emit('def %s(%s):' % (name, ', '.join(args)), line(n), depth)
        k = len(fn.out)
        fn.own = set()
        fn.body(body, params, depth)
        outer = set(self.names.values())
        w = sorted({fn.names[i] for i in fn.mutated(body) if i in fn.names and fn.names[i] in outer and fn.names[i] not in fn.own and scalar(fn.types.get(i, ''))})
        if w:
            fn.out.insert(k, '    ' * (depth + 1) + 'nonlocal ' + ', '.join(w))
            fn.map.insert(k, line(n))
        self.out += fn.out
        self.map += fn.map
        self.used |= fn.used
        return name

    # -- statements ------------------------------------------------------------------------
    def block(self, n, depth):
        before = len(self.out)
        for s in n.get('inner', []) if n.get('kind') == 'CompoundStmt' else [n]:
            self.stmt(s, depth)
        if len(self.out) == before:
            self.emit('pass', line(n), depth)

    def stmt(self, n, depth):
        self.depth = depth
        k = n.get('kind')
        ln = line(n)
        if k is None or k == 'NullStmt':
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, depth, ln)
        if k in ('ExprWithCleanups', 'ParenExpr') or (k in CASTS and n.get('castKind') == 'ToVoid'):
            return self.stmt(n['inner'][0], depth)
        if isexpr(n):
            return self.exprstmt(n, depth, ln)
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl'):
            return
        raise Unk('C++ statement %s at line %d' % (k, ln))

    def s_CompoundStmt(self, n, depth, ln):
        self.block(n, depth)

    def s_AttributedStmt(self, n, depth, ln):
        self.stmt(n['inner'][-1], depth)

    def s_DeclStmt(self, n, depth, ln):
        for d in n.get('inner', []):
            if d.get('kind') in ('VarDecl', 'DecompositionDecl'):
                self.vardecl(d, depth)
            elif d.get('kind') in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                if d.get('kind') == 'CXXRecordDecl':
                    raise Unk('local class')
            else:
                raise Unk('C++ declaration %s' % d.get('kind'))

    def vardecl(self, d, depth, top=False):
        ln = line(d)
        self.depth = depth
        init = [x for x in d.get('inner', []) if isexpr(x)]
        if d.get('kind') == 'DecompositionDecl':
            t = self.temp()
            self.emit('%s = %s' % (t, self.value(init[0])), ln, depth)
            for i, b in enumerate([x for x in d['inner'] if x.get('kind') == 'BindingDecl']):
                nm = self.declare(b)
                self.emit('%s = %s[%d]' % (nm, t, i), ln, depth)
            return
        t = d.get('type', {}).get('qualType', '')
        if d.get('storageClass') == 'static' and not top and not const_ref(t):
            raise Unk('static local variable %s' % d.get('name'))
        if qt(d).rstrip().endswith('&') and init and not top:
            target = strip(init[0])
            # another name for an element or variable
            if (scalar(qt(d).rstrip('& ')) or container(qt(d).rstrip('& '))) and target.get('kind') in ('DeclRefExpr', 'CXXOperatorCallExpr', 'MemberExpr', 'ArraySubscriptExpr'):
                if not const_ref(t) or target.get('kind') == 'DeclRefExpr':
                    self.alias[d['id']] = self.ex(init[0])
                    return
        nm = self.u.gids[d['id']] if top else self.declare(d)
        if init:
            v = self.value(init[0]) if not qt(d).rstrip().endswith(('&', '*')) else self.ex(init[0])
        else:
            v = self.default(d)
        self.emit('%s = %s' % (nm, v), ln, depth)

    def default(self, d):
        t = bare(qt(d))
        if t.endswith(('*', '&')):
            return 'rt.UNSET'
        m = re.match(r'std::array<(.+), (\d+)(UL)?>$', t)
        if m:
            inner = m.group(1)
            if re.match(r'std::array<', inner):
                return '[%s for _ in range(%s)]' % (self.default({'type': {'qualType': inner}}), m.group(2))
            return '[rt.UNSET] * %s' % m.group(2)
        m = re.match(r'(\w+)\[(\d+)\]$', t)
        if m:
            return '[rt.UNSET] * %s' % m.group(2)
        if t.startswith('std::vector<'):
            return '[]'
        if t in self.u.records:
            return '%s()' % safe(t)
        if t == 'gsl_function':
            return 'rt.gsl_function()'
        return 'rt.UNSET'

    def s_ReturnStmt(self, n, depth, ln):
        if n.get('inner'):
            self.emit('return %s' % self.returned(self.value(n['inner'][0])), ln, depth)
        else:
            self.emit('return %s' % self.returned('None'), ln, depth)

    def s_IfStmt(self, n, depth, ln):
        inner = list(n['inner'])
        if n.get('hasInit'):
            self.stmt(inner.pop(0), depth)
        if n.get('hasVar'):
            self.stmt(inner.pop(0), depth)
        c = self.cond(inner[0])
        self.emit('if %s:' % c, ln, depth)
        self.block(inner[1], depth + 1)
        if n.get('hasElse'):
            self.emit('else:', line(inner[2]), depth)
            self.block(inner[2], depth + 1)

    def cond(self, n):
        e = self.ex(n)
        t = bare(qt(n))
        return e if t == 'bool' else '(%s) != 0' % e

    def s_ContinueStmt(self, n, depth, ln):
        if self.cont and self.cont[-1] is not None:
            for t in self.cont[-1]:
                self.stmt(t, depth)
        self.emit('continue', ln, depth)

    def s_BreakStmt(self, n, depth, ln):
        if self.cont and self.cont[-1] == 'switch':
            raise Unk('break inside a switch branch')
        self.emit('break', ln, depth)

    def s_WhileStmt(self, n, depth, ln):
        inner = n['inner']
        self.emit('for %s in range(rt.BOUND):' % self.temp(), ln, depth)
        self.emit('if not (%s):' % self.cond(inner[0]), ln, depth + 1)
        self.emit('break', ln, depth + 2)
        self.cont.append(None)
        self.block(inner[-1], depth + 1)
        self.cont.pop()
        self.emit('else:', ln, depth)
        self.emit('rt.unbounded()', ln, depth + 1)

    def s_DoStmt(self, n, depth, ln):
        body, c = n['inner'][0], n['inner'][1]
        self.emit('for %s in range(rt.BOUND):' % self.temp(), ln, depth)
        self.cont.append(None)
        if find(body, 'ContinueStmt'):
            raise Unk('continue in do')
        self.block(body, depth + 1)
        self.cont.pop()
        self.emit('if not (%s):' % self.cond(c), ln, depth + 1)
        self.emit('break', ln, depth + 2)
        self.emit('else:', ln, depth)
        self.emit('rt.unbounded()', ln, depth + 1)

    def s_ForStmt(self, n, depth, ln):
        init, _, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        r = self.counted(init, cond, inc, body)
        if r is not None:
            var, lo, hi, step = r
            self.emit('for %s in range(%s, %s, %s):' % (var, lo, hi, step), ln, depth)
            self.cont.append(None)
            self.block(body, depth + 1)
            self.cont.pop()
            return
        if init:
            self.stmt(init, depth)
        self.emit('for %s in range(rt.BOUND):' % self.temp(), ln, depth)
        if cond:
            self.emit('if not (%s):' % self.cond(cond), ln, depth + 1)
            self.emit('break', ln, depth + 2)
        self.cont.append([inc] if inc else None)
        self.block(body, depth + 1)
        self.cont.pop()
        if inc:
            self.stmt(inc, depth + 1)
        self.emit('else:', ln, depth)
        self.emit('rt.unbounded()', ln, depth + 1)

    def counted(self, init, cond, inc, body):
        try:
            d = init['inner']
            if init['kind'] != 'DeclStmt' or len(d) != 1 or bare(qt(d[0])) not in INTS:
                return None
            d = d[0]
            e = [x for x in d.get('inner', []) if isexpr(x)]
            if not e or d['id'] in self.mutated(body):
                return None

            def isvar(x):
                x = strip(x)
                return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == d['id']
            i = strip(inc)
            if i['kind'] == 'UnaryOperator' and i['opcode'] in ('++', '--') and isvar(i['inner'][0]):
                step = '1' if i['opcode'] == '++' else '-1'
            elif i['kind'] == 'CompoundAssignOperator' and i['opcode'] in ('+=', '-=') and isvar(i['inner'][0]) and strip(i['inner'][1])['kind'] == 'IntegerLiteral':
                step = ('' if i['opcode'] == '+=' else '-') + strip(i['inner'][1])['value']
            else:
                return None
            c = strip(cond)
            if c['kind'] != 'BinaryOperator' or not isvar(c['inner'][0]):
                return None
            # the bound must stay what it was at loop entry
            roots = set()
            for x in findall_all(c['inner'][1], 'DeclRefExpr'):
                roots.add(x['referencedDecl']['id'])
            if roots & self.mutated(body) and not find(c['inner'][1], 'CXXMemberCallExpr'):
                return None
            if find(c['inner'][1], 'CXXMemberCallExpr') and any(m.get('name') in ('push_back', 'resize', 'pop_back', 'clear', 'emplace_back', 'erase', 'insert')
                                                                 for m in findall_all(body, 'MemberExpr')):
                return None
            op = c['opcode']
            down = step.startswith('-')
            lo = self.ex(e[0])
            hi = self.ex(c['inner'][1])
            if op == '<' and not down or op == '>' and down or op == '!=' and step in ('1', '-1'):
                pass
            elif op == '<=' and not down:
                hi = '(%s) + 1' % hi
            elif op == '>=' and down:
                hi = '(%s) - 1' % hi
            else:
                return None
            return self.declare(d), lo, hi, step
        except (KeyError, IndexError, TypeError):
            return None

    def s_CXXForRangeStmt(self, n, depth, ln):
        inner = n['inner']
        if inner[0] and inner[0].get('kind') == 'DeclStmt' and inner[0]['inner'][0].get('name') != '__range1' and len(inner) == 8:
            self.stmt(inner[0], depth)
        rng = inner[1]['inner'][0]
        e = [x for x in rng.get('inner', []) if isexpr(x)][0]
        src = self.ex(e)
        v = inner[6]['inner'][0]
        body = inner[7]
        self.cont.append(None)
        if qt(v).rstrip().endswith('&') and v['id'] in self.mutated(body) and scalar(qt(v).rstrip('& ')):
            i = self.temp()
            self.alias[v['id']] = '%s[%s]' % (src, i)
            self.emit('for %s in range(len(%s)):' % (i, src), ln, depth)
        elif v.get('kind') == 'DecompositionDecl':
            t = self.temp()
            self.emit('for %s in %s:' % (t, src), ln, depth)
            for i, b in enumerate([x for x in v['inner'] if x.get('kind') == 'BindingDecl']):
                self.emit('%s = %s[%d]' % (self.declare(b), t, i), ln, depth + 1)
        else:
            self.emit('for %s in %s:' % (self.declare(v), src), ln, depth)
        self.block(body, depth + 1)
        self.cont.pop()

    def s_SwitchStmt(self, n, depth, ln):
        inner = n['inner']
        t = self.temp()
        self.emit('%s = %s' % (t, self.ex(inner[-2])), ln, depth)
        groups = []

        def add(s):
            k = s.get('kind')
            if k == 'CaseStmt':
                if not groups or groups[-1][1]:
                    groups.append(([], []))
                groups[-1][0].append(self.ex(s['inner'][0]))
                add(s['inner'][-1])
            elif k == 'DefaultStmt':
                if not groups or groups[-1][1]:
                    groups.append(([], []))
                groups[-1][0].append(None)
                add(s['inner'][-1])
            elif k == 'CompoundStmt':
                for x in s.get('inner', []):
                    add(x)
            elif k:
                groups[-1][1].append(s)
        for s in inner[-1].get('inner', []):
            add(s)

        def ends(ss):
            return bool(ss) and ss[-1].get('kind') in ('BreakStmt', 'ReturnStmt', 'ContinueStmt', 'CXXThrowExpr') or \
                bool(ss) and ss[-1].get('kind') == 'ExprWithCleanups' and find(ss[-1], 'CXXThrowExpr') is not None
        full = []
        for i, (labels, ss) in enumerate(groups):
            j, body = i, list(ss)
            while not ends(body) and j + 1 < len(groups):
                j += 1
                body += groups[j][1]
            if body and body[-1].get('kind') == 'BreakStmt':
                body = body[:-1]
            full.append((labels, body))
        named = [l for ls, b in full for l in ls if l is not None]
        first = True
        for labels, body in full:
            ls = ['%s == %s' % (t, l) for l in labels if l is not None]
            if None in labels:
                others = [l for ls2, b in full for l in ls2 if l is not None and None not in ls2]
                c = ' and '.join('%s != %s' % (t, l) for l in others) or 'True'
            else:
                c = ' or '.join(ls)
            self.emit('%s %s:' % ('if' if first else 'elif', c), ln, depth)
            first = False
            self.cont.append('switch')
            before = len(self.out)
            for s in body:
                self.stmt(s, depth + 1)
            if len(self.out) == before:
                self.emit('pass', ln, depth + 1)
            self.cont.pop()

    def s_OMPParallelForDirective(self, n, depth, ln):
        self.u.omp.append((self, n))
        cap = [x for x in n['inner'] if x.get('kind') == 'CapturedStmt'][0]
        loop = [x for x in cap['inner'][0]['inner'] if x.get('kind') == 'ForStmt'][0]
        self.stmt(loop, depth)

    s_OMPParallelForSimdDirective = s_OMPParallelForDirective

    def s_CXXThrowExpr(self, n, depth, ln):
        self.emit('raise RuntimeError()', ln, depth)

    def s_CXXTryStmt(self, n, depth, ln):
        raise Unk('try block')

    def either(self, n, at, depth, ln):
        """(c ? a : b) = .. with the target at position `at`"""
        t = strip(n['inner'][at])
        if t.get('kind') != 'ConditionalOperator':
            return False
        self.emit('if %s:' % self.cond(t['inner'][0]), ln, depth)
        for i in (1, 2):
            self.exprstmt(dict(n, inner=n['inner'][:at] + [t['inner'][i]] + n['inner'][at + 1:]), depth + 1, ln)
            if i == 1:
                self.emit('else:', ln, depth)
        return True

    def exprstmt(self, n, depth, ln):
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            if self.either(n, 0, depth, ln):
                return
        if k == 'CXXOperatorCallExpr' and opname(n) in ASSIGNS and self.either(n, 1, depth, ln):
            return
        if k == 'BinaryOperator' and n.get('opcode') == ',':
            self.stmt(n['inner'][0], depth)
            self.stmt(n['inner'][1], depth)
            return
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            rhs = n['inner'][1]
            # chained assignment
            chain = [n['inner'][0]]
            r = strip(rhs)
            while r.get('kind') == 'BinaryOperator' and r.get('opcode') == '=':
                chain.append(r['inner'][0])
                rhs = r['inner'][1]
                r = strip(rhs)
            v = self.call_with_refs(rhs, depth, ln) or self.value(rhs)
            if len(chain) == 1:
                self.emit('%s = %s' % (self.ex(chain[0]), v), ln, depth)
            else:
                t = self.temp()
                self.emit('%s = %s' % (t, v), ln, depth)
                for c in reversed(chain):
                    self.emit('%s = %s' % (self.ex(c), t), ln, depth)
            return
        if k == 'CompoundAssignOperator':
            l = self.ex(n['inner'][0])
            op = n['opcode'][:-1]
            lt = bare(qt(n['inner'][0]))
            r = self.ex(n['inner'][1])
            if lt in INTS and op == '/':
                self.emit('%s = rt.idiv(%s, %s)' % (l, l, r), ln, depth)
            else:
                e = '%s %s (%s)' % (l, op, r)
                if lt in INTS and bare(n.get('computeResultType', {}).get('qualType', lt)) not in INTS:
                    e = 'rt.trunc(%s)' % e
                self.emit('%s = %s' % (l, e), ln, depth)
            return
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            l = self.ex(n['inner'][0])
            self.emit('%s = %s %s 1' % (l, l, n['opcode'][0]), ln, depth)
            return
        if k == 'CXXOperatorCallExpr':
            op = opname(n)
            if op == '<<':
                return                  # output streams
            if op == '=':
                lhs = strip(n['inner'][1])
                if lhs.get('kind') == 'CallExpr' and fname(lhs) == 'tie':
                    tg = [self.ex(x) for x in lhs['inner'][1:]]
                    self.emit('%s = %s' % (', '.join(tg) + (',' if len(tg) == 1 else ''), self.value(n['inner'][2])), ln, depth)
                else:
                    self.emit('%s = %s' % (self.ex(n['inner'][1]), self.value(n['inner'][2])), ln, depth)
                return
            if op in ASSIGNS:
                l = self.ex(n['inner'][1])
                self.emit('%s = %s %s (%s)' % (l, l, op[:-1], self.ex(n['inner'][2])), ln, depth)
                return
        if k == 'CXXThrowExpr':
            return self.s_CXXThrowExpr(n, depth, ln)
        if k == 'CallExpr':
            name = fname(n)
            args = n['inner'][1:]
            if self.callee(n) is None:
                if name in IGNORED:
                    return
                if name == 'swap':
                    a, b = self.ex(args[0]), self.ex(args[1])
                    self.emit('%s, %s = %s, %s' % (a, b, b, a), ln, depth)
                    return
                if name in ('sort', 'stable_sort'):
                    v = self.whole(args)
                    o = 'False'
                    if len(args) == 3:
                        c = strip(args[2])
                        t = bare(qt(c))
                        if t.startswith('std::greater<'):
                            o = 'True'
                        elif t.startswith('std::less<'):
                            o = 'False'
                        else:
                            raise Unk('sort order %s' % t)
                    self.emit('rt.sort(%s, %s)' % (v, o), ln, depth)
                    return
                if name in ('reverse', 'fill'):
                    v = self.whole(args)
                    self.emit('rt.%s_(%s)' % (name, ', '.join([v] + [self.ex(x) for x in args[2:]])), ln, depth)
                    return
            if name.startswith('gsl_integration_q') and name != 'gsl_integration_qag':
                raise Unk('quadrature rule %s' % name)
            v = self.call_with_refs(n, depth, ln)
            if v is not None:
                return
        e = self.ex(n)
        self.emit(e, ln, depth)

    def whole(self, args):
        """v.begin(), v.end() -> v"""
        b, e = strip(args[0]), strip(args[1])

        def of(x, nm):
            x = strip(x)
            if x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', [])) == 1:
                x = strip(x['inner'][0])
            if x.get('kind') == 'CXXMemberCallExpr' and x['inner'][0].get('name') in nm:
                return self.ex(x['inner'][0]['inner'][0])
            if x.get('kind') == 'CallExpr' and fname(x) in nm:
                return self.ex(x['inner'][1])
            raise Unk('partial range')
        p, q = of(b, ('begin', 'cbegin')), of(e, ('end', 'cend'))
        if p != q:
            raise Unk('partial range')
        return p

    # -- calls ---------------------------------------------------------------------------------
    def callee(self, n):
        d = strip(n['inner'][0])
        if d.get('kind') == 'UnaryOperator':
            d = strip(d['inner'][0])
        if d.get('kind') == 'DeclRefExpr':
            m = self.u.idmap.get(d['referencedDecl']['id'])
            return self.u.functions.get(m)
        return None

    def lvalue(self, a):
        """target expression of an output argument"""
        s = strip(a)
        if s.get('kind') == 'UnaryOperator' and s.get('opcode') == '&':
            s = strip(s['inner'][0])
        return self.ex(s)

    def call_with_refs(self, n, depth, ln):
        """a call that writes through its arguments: emitted as a statement; the value, if any"""
        n = strip(n)
        while n.get('kind') in CASTS and n.get('inner'):
            n = strip(n['inner'][0])
        if n.get('kind') != 'CallExpr':
            return None
        if fname(n) == 'gsl_integration_qag' and self.callee(n) is None:
            a = n['inner'][1:]
            t = self.temp()
            res, err = self.lvalue(a[8]), self.lvalue(a[9])
            self.emit('%s, %s, %s = rt.qag(%s)' % (t, res, err, ', '.join(self.ex(x) for x in a[:8])), ln, depth)
            return t
        f = self.callee(n)
        if f is None:
            return None
        op = self.outparams(f['params'])
        args = n['inner'][1:]
        if not op:
            return None
        vals, tg = [], []
        for i, a in enumerate(args):
            if i in op:
                tg.append(self.lvalue(a))
                vals.append(tg[-1])
            else:
                vals.append(self.value(a))
        t = self.temp()
        self.emit('%s, %s = %s(%s)' % (t, ', '.join(tg), f['name'], ', '.join(vals)), ln, depth)
        return t

    # -- expressions ---------------------------------------------------------------------------
    def value(self, n):
        """an expression whose value is stored: containers are copied"""
        s = strip(n)
        e = self.ex(n)
        return e

    def ex(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None) if k else None
        if m is not None:
            return m(n)
        if k in TRANSPARENT:
            return self.ex(n['inner'][0])
        if k in CASTS:
            return self.cast(n)
        raise Unk('C++ expression %s at line %d' % (k, line(n)))

    def cast(self, n):
        c = n.get('castKind')
        x = n['inner'][0]
        src = bare(qt(x))
        if c in ('IntegralCast', 'IntegralToFloating') and src == 'bool':
            return 'rt.indicator(%s)' % self.cond(x)
        if c == 'FloatingToIntegral':
            return 'rt.trunc(%s)' % self.ex(x)
        if c in ('IntegralToBoolean', 'FloatingToBoolean'):
            return 'rt.nonzero(%s)' % self.ex(x)
        if c == 'PointerToBoolean':
            return '(%s is not None)' % self.ex(x)
        if c == 'NullToPointer':
            return 'None'
        if c in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase',
                 'FloatingCast', 'IntegralCast', 'IntegralToFloating', 'UncheckedDerivedToBase'):
            return self.ex(x)
        raise Unk('C++ conversion %s' % c)

    def e_IntegerLiteral(self, n):
        return n['value']

    def e_FloatingLiteral(self, n):
        v = n['value']
        txt = self.source(n)
        if txt and re.match(r'^[0-9.]+([eE][-+]?[0-9]+)?$', txt):
            v = txt
        return repr(float(v)) if not re.match(r'^[0-9]*\.?[0-9]*([eE][-+]?[0-9]+)?$', v) else v if v not in ('.',) else '0.'

    def source(self, n):
        b = n.get('range', {}).get('begin', {})
        if 'offset' in b and 'tokLen' in b and 'expansionLoc' not in b:
            return None
        return None

    def e_StringLiteral(self, n):
        return repr(n['value'])

    def e_CharacterLiteral(self, n):
        return repr(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return 'True' if n['value'] else 'False'

    def e_CXXNullPtrLiteralExpr(self, n):
        return 'None'

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        return 'self'

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['id'] in self.u.enums:
            return '(%d)' % self.u.enums[d['id']]
        if d['id'] in self.alias:
            return self.alias[d['id']]
        if d['id'] in self.names:
            return self.names[d['id']]
        if d['id'] in self.u.gids:
            return self.u.gids[d['id']]
        m = self.u.idmap.get(d['id'])
        if m is not None:
            return self.u.functions[m]['name']
        if d.get('kind') == 'EnumConstantDecl' and d.get('name', '').startswith('GSL_'):
            return repr(d['name'])
        if d.get('name') in MATH:
            return self.mathname(d['name'])
        raise Unk('C++ name %s at line %d' % (d.get('name'), line(n)))

    def mathname(self, n):
        return 'abs' if MATH[n] == 'abs' else 'numpy.' + MATH[n]

    def e_MemberExpr(self, n):
        return '%s.%s' % (self.ex(n['inner'][0]), n['name'])

    def e_ArraySubscriptExpr(self, n):
        return '%s[%s]' % (self.ex(n['inner'][0]), self.ex(n['inner'][1]))

    def e_UnaryOperator(self, n):
        op, x = n['opcode'], n['inner'][0]
        if op in ('-', '+'):
            return '(%s%s)' % (op, self.ex(x))
        if op == '!':
            return '(not %s)' % self.ex(x)
        if op in ('&', '__extension__'):
            return self.ex(x)
        if op == '*':
            s = strip(x)
            if scalar(qt(n)) and not (s.get('kind') == 'DeclRefExpr' and ('ptr', s['referencedDecl']['id']) in self.alias):
                raise Unk('scalar pointer')
            return self.ex(x)
        if op in ('++', '--'):
            s = strip(x)
            if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] in self.names:
                v = self.ex(x)
                e = '(%s := %s %s 1)' % (v, v, op[0])
                return '(%s %s 1)' % (e, '-' if op == '++' else '+') if n.get('isPostfix') else e
        if op == '~':
            return '(~%s)' % self.ex(x)
        raise Unk('C++ operator %s' % op)

    def e_BinaryOperator(self, n):
        op, a, b = n['opcode'], n['inner'][0], n['inner'][1]
        if op in ('&&', '||'):
            return '(%s %s %s)' % (self.ex(a), 'and' if op == '&&' else 'or', self.ex(b))
        if op == '=':
            if strip(a).get('kind') == 'DeclRefExpr':
                return '(%s := %s)' % (self.ex(a), self.value(b))
            raise Unk('assignment inside an expression')
        if op == ',':
            return '(%s, %s)[1]' % (self.ex(a), self.ex(b))
        if op == '/' and bare(qt(n)) in INTS:
            return 'rt.idiv(%s, %s)' % (self.ex(a), self.ex(b))
        if op == '%':
            return 'rt.imod(%s, %s)' % (self.ex(a), self.ex(b))
        if op in ('==', '!=') and bare(qt(a)).endswith('*'):
            return '(%s %s %s)' % (self.ex(a), 'is' if op == '==' else 'is not', self.ex(b))
        if op in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '<<', '>>'):
            if bare(qt(a)).endswith('*') and op in '+-':
                raise Unk('pointer arithmetic')
            return '(%s %s %s)' % (self.ex(a), op, self.ex(b))
        raise Unk('C++ operator %s' % op)

    def e_CompoundAssignOperator(self, n):
        a = n['inner'][0]
        if strip(a).get('kind') == 'DeclRefExpr':
            v = self.ex(a)
            return '(%s := %s %s (%s))' % (v, v, n['opcode'][:-1], self.ex(n['inner'][1]))
        raise Unk('assignment inside an expression')

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return '(%s if %s else %s)' % (self.ex(a), self.cond(c), self.ex(b))

    def e_CXXDefaultArgExpr(self, n):
        raise Unk('default argument')

    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.ex(n['inner'][0])
        return 'None'

    def e_ImplicitValueInitExpr(self, n):
        t = bare(qt(n))
        return '0' if t in SCALAR else 'None'

    def e_CXXScalarValueInitExpr(self, n):
        return '0'

    def e_LambdaExpr(self, n):
        return self.lambda_(n, self.depth)

    def e_InitListExpr(self, n):
        t = bare(qt(n))
        inner = n.get('inner', [])
        if 'array_filler' in n:
            inner = [x for x in n['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
        m = re.match(r'std::array<(.+), (\d+)(UL)?>$', t)
        if m:
            size = int(m.group(2))
            if len(inner) == 1 and strip(inner[0]).get('kind') == 'InitListExpr':
                x = strip(inner[0])
                inner = x.get('inner', []) if 'array_filler' not in x else [y for y in x['array_filler'] if y.get('kind') != 'ImplicitValueInitExpr']
            vals = [self.ex(x) for x in inner if x.get('kind') != 'ImplicitValueInitExpr']
            vals += ['0'] * (size - len(vals))
            return '[%s]' % ', '.join(vals)
        m = re.match(r'(.+)\[(\d+)\]$', t)
        if m:
            vals = [self.ex(x) for x in inner]
            vals += ['0'] * (int(m.group(2)) - len(vals))
            return '[%s]' % ', '.join(vals)
        if t in self.u.records:
            return '%s(%s)' % (safe(t), ', '.join(self.value(x) for x in inner))
        if t == 'gsl_function':
            return 'rt.gsl_function(%s)' % ', '.join(self.ex(x) for x in inner)
        if t in SCALAR and len(inner) <= 1:
            return self.ex(inner[0]) if inner else '0'
        if t.startswith(('std::initializer_list', 'initializer_list')):
            return '[%s]' % ', '.join(self.ex(x) for x in inner)
        raise Unk('initialiser of %s' % t)

    def e_CXXConstructExpr(self, n):
        t = bare(qt(n))
        args = [x for x in n.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
        ct = n.get('ctorType', {}).get('qualType', '')
        same = len(args) == 1 and bare(qt(args[0])).rstrip('& ') == t
        copy = same and '&&' not in ct
        if same and '&&' in ct:
            return self.ex(args[0])
        if t.startswith('std::array<'):
            if not args:
                return self.default(n)
            if copy or len(args) == 1:
                return 'list(%s)' % self.ex(args[0])
        if t.startswith('std::vector<'):
            if not args:
                return '[]'
            p = ct[ct.find('(') + 1:]
            if copy or 'initializer_list' in p.split(',')[0] or p.startswith('const vector'):
                return 'list(%s)' % self.ex(args[0])
            if p.startswith('size_type') or 'size_type' in p.split(',')[0]:
                elt = self.ex(args[1]) if len(args) > 1 else '0'
                return '[%s for _ in range(%s)]' % (elt, self.ex(args[0]))
            if len(args) >= 2 and 'terator' in p:
                return 'list(%s)' % self.whole(args)
            raise Unk('construction of %s from %s' % (t, p))
        if t.startswith(('std::pair<', 'std::tuple<')):
            if len(args) == 1:
                return self.ex(args[0])
            return '(%s)' % ', '.join(self.ex(a) for a in args)
        if t in self.u.records:
            if not args and not n.get('inner'):
                return '%s()' % safe(t)
            if copy:
                return '%s.copy_()' % self.ex(args[0])
            return '%s(%s)' % (safe(t), ', '.join(self.value(a) for a in args))
        if t.startswith(('std::function<', 'std::basic_string', 'std::string', 'std::less', 'std::greater')) or t.startswith('(lambda'):
            return self.ex(args[0]) if args else 'None'
        if t == 'gsl_function':
            return 'rt.gsl_function()' if not args else '%s.copy_()' % self.ex(args[0])
        if '(lambda' in t and len(args) == 1:
            return self.ex(args[0])
        if t.startswith(('pybind11::array_t', 'py::array_t')) and len(args) == 1:
            return self.ex(args[0])
        raise Unk('construction of %s at line %d' % (t, line(n)))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n):
        return 'rt.throw()'

    def e_CXXOperatorCallExpr(self, n):
        op = opname(n)
        a = n['inner'][1:]
        if op == '[]':
            return '%s[%s]' % (self.ex(a[0]), self.ex(a[1]))
        if op == '()':
            o = self.ex(a[0])
            if bare(qt(a[0])).startswith('pybind11::vec_'):
                return 'rt.mapped(%s, %s)' % (o, ', '.join(self.ex(x) for x in a[1:]))
            return '%s(%s)' % (o, ', '.join(self.value(x) for x in a[1:] if x.get('kind') != 'CXXDefaultArgExpr'))
        if op in ('==', '!=', '<', '>') and len(a) == 2 and (container(qt(a[0])) or pair_tuple(qt(a[0]))):
            return '(%s %s %s)' % (self.ex(a[0]), op, self.ex(a[1]))
        if op in ('*', '->') and len(a) == 1:
            return self.ex(a[0])
        raise Unk('C++ operator %s at line %d' % (op, line(n)))

    def e_CXXMemberCallExpr(self, n):
        c = n['inner'][0]
        c = strip(c)
        args = [x for x in n['inner'][1:] if x.get('kind') != 'CXXDefaultArgExpr']
        name = c.get('name')
        o = c['inner'][0] if c.get('inner') else {'kind': 'CXXThisExpr'}
        t = bare(qt(o)).rstrip('&* ')
        if t in self.u.records:
            f = [f for f in self.u.functions.values() if f['method'] == t and f['short'] == name and len(f['params']) >= len(args)]
            if not f:
                raise Unk('method %s' % name)
            if any(self.outparams(x['params']) for x in f):
                raise Unk('method with output parameters')
            return '%s.%s(%s)' % (self.ex(o), f[0]['name'], ', '.join(self.value(a) for a in args))
        e = self.ex(o)
        if name in ('size', 'length'):
            return 'len(%s)' % e
        if name == 'at':
            return '%s[%s]' % (e, self.ex(args[0]))
        if name == 'front':
            return '%s[0]' % e
        if name == 'back':
            return '%s[len(%s) - 1]' % (e, e)
        if name == 'empty':
            return '(len(%s) == 0)' % e
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and not scalar(qt(args[0])) and len(args) != 1:
                raise Unk('emplace_back')
            return '%s.append(%s)' % (e, self.value(args[0]))
        if name in ('reserve',):
            return 'None'
        if name == 'data' and not args:
            return e
        if name == 'pop_back':
            return '%s.pop()' % e
        if name == 'fill':
            return 'rt.fill_(%s, %s)' % (e, self.ex(args[0]))
        raise Unk('C++ method %s of %s' % (name, t))

    def e_CallExpr(self, n):
        f = self.callee(n)
        args = [x for x in n['inner'][1:] if x.get('kind') != 'CXXDefaultArgExpr']
        if f is not None:
            if self.outparams(f['params']):
                # a call with output parameters inside an expression
                t = self.call_with_refs(n, self.depth, line(n))
                return t
            return '%s(%s)' % (f['name'], ', '.join(self.value(a) for a in args))
        name = fname(n)
        d = strip(n['inner'][0])
        if d.get('kind') == 'DeclRefExpr' and d['referencedDecl']['id'] in self.names or d.get('kind') not in ('DeclRefExpr',):
            return '%s(%s)' % (self.ex(d), ', '.join(self.value(a) for a in args))
        if name == 'gsl_integration_qag':
            return self.call_with_refs(n, self.depth, line(n))
        if name in ('make_pair', 'make_tuple', 'tie', 'pair'):
            return '(%s)' % ''.join(self.ex(a) + ', ' for a in args)
        if name == 'get' and len(args) == 1:
            m = re.search(r'get<(\d+)', json.dumps(d)) or None
            raise Unk('std::get')
        if name in PASS:
            return self.ex(args[0])
        if name in IGNORED:
            return 'None'
        if name == 'vectorize':
            return self.ex(args[0])
        if name == 'accumulate':
            v = self.whole(args)
            if len(args) > 3:
                raise Unk('accumulate with an operation')
            return 'rt.accumulate(%s, %s)' % (v, self.ex(args[2]))
        if name == 'inner_product':
            raise Unk('inner_product')
        if name in ('max', 'min') and len(args) == 1:
            return 'rt.%simum_of(%s)' % (name[:3], self.ex(args[0]))
        if name in MATH:
            return '%s(%s)' % (self.mathname(name), ', '.join(self.ex(a) for a in args))
        if name in RT:
            return 'rt.%s(%s)' % (RT[name], ', '.join(self.ex(a) for a in args))
        if name in ('lower_bound', 'upper_bound', 'distance'):
            raise Unk('C++ library function %s' % name)
        if name in ('infinity', 'quiet_NaN', 'max', 'epsilon', 'lowest', 'min'):
            return 'rt.limit_%s()' % name
        raise Unk('C++ function %s at line %d' % (name, line(n)))

    def e_CXXNewExpr(self, n):
        raise Unk('operator new')


def findall_all(n, kind, acc=None):
    acc = [] if acc is None else acc
    if n.get('kind') == kind:
        acc.append(n)
    for x in n.get('inner', []):
        findall_all(x, kind, acc)
    return acc


def opname(n):
    d = strip(n['inner'][0])
    nm = d.get('referencedDecl', {}).get('name', d.get('name', ''))
    return nm[len('operator'):] if nm.startswith('operator') else nm


def fname(n):
    d = strip(n['inner'][0])
    if d.get('kind') == 'UnaryOperator' and d.get('inner'):
        d = strip(d['inner'][0])
    return d.get('referencedDecl', {}).get('name', d.get('name', ''))
