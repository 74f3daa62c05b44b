"""Arrays several objects hold keep their values."""
import ast
import os
import warnings
from sa import aliases
from sa.interp import REPO
from sa.terms import Unk
TECHNIQUE = ('alias and effect analysis: flow-sensitive origins of array values (views, containers, arguments, results of calls) with function summaries '
             'iterated over the package; every in-place operation is checked against the origins of what it changes')
ASSUME = ['a numpy expression other than a slice, a view method, asarray or a bare name is a new array',
          'calls are resolved by name over the package; compiled functions do not write to their arguments (their bindings take values or const references)',
          'a species owns its distribution and collision rate; grids and rows of history tables have no owner that may change them']
RULE = 'no in-place operator, store, out= argument or mutating method reaches a momentum grid, a row of a history table, or a state array another name still stands for'
WHAT = {'grid': 'a momentum grid', 'history': 'rows of a history table', 'state': 'a state array kept under another name'}


def modules():
    out = {}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith('.') and not (rel == '.' and d in ('tests', 'docs', 'KAWANO')))
        for f in sorted(files):
            r = os.path.normpath(os.path.join(rel, f))
            if not f.endswith('.py') or f in ('setup.py', 'test.py', 'conftest.py') or r == 'plotting.py':
                continue
            name = r[:-3].replace(os.sep, '.')
            name = name[:-9] if name.endswith('.__init__') else name
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out[name] = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
    return out


def check(C, tier):
    mods = modules()
    pkg = aliases.Package(mods)
    if len(pkg.fns) < 20:
        raise Unk('the package was not found')
    groups = {}
    for q in pkg.fns:
        m = max((n for n in mods if q.startswith(n + '.')), key=len)
        groups.setdefault(m, []).append(q)
    for m, qs in sorted(groups.items()):
        for kind in ('grid', 'history', 'state'):
            def go(qs=qs, kind=kind):
                hits = [h for h in pkg.hits.values() if h.where in qs and h.origin[0] == kind]
                if not hits:
                    return None
                h = min(hits, key=lambda h: (h.where, h.line))
                msg = '%s changes %s in place: `%s` (%s)' % (h.where, WHAT[kind], h.text, h.how)
                if kind == 'state':
                    msg += '; %s still stands for the array of %s' % (h.origin[2], h.origin[1])
                return ('violated', msg, {'function': h.where, 'statement': h.text, 'array': list(h.origin)})
            C.oblige('%s-%s' % (m, kind), m, go, RULE)
    C.functions |= set(pkg.fns)
    C.stmts += pkg.statements
    C.sites |= set(range(pkg.sites))
