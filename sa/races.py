"""Data races in OpenMP loops of the translated C++ sources, read off the clang
syntax tree: what a loop writes must be private to an iteration, or be the element
of the iteration."""
import re
from .cxx import strip, findall_all, opname, qt, line, ASSIGNS
from .terms import Unk

MUTATORS = {'push_back', 'emplace_back', 'pop_back', 'resize', 'clear', 'insert', 'erase', 'assign', 'swap', 'fill', 'reserve'}
SHAREABLE_POINTERS = re.compile(r'\bconst\b')


def pragma(fn, n, src):
    """the text of the directive"""
    ln = line(n) or n.get('range', {}).get('begin', {}).get('line')
    rows = src.split('\n')
    for i in range(max(0, ln - 2), min(len(rows), ln + 1)):
        if re.match(r'\s*#\s*pragma\s+omp', rows[i]):
            t = rows[i]
            while t.rstrip().endswith('\\'):
                i += 1
                t = t.rstrip()[:-1] + rows[i]
            return t
    raise Unk('text of the OpenMP directive')


def clauses(text):
    out = {}
    for kind, names in re.findall(r'\b(shared|private|firstprivate|lastprivate|reduction|copyin|linear)\s*\(([^()]*)\)', text):
        for x in names.split(':')[-1].split(','):
            out[x.strip().split('::')[-1]] = kind
    return out


def base(n):
    """the variable a place belongs to, with the indices on the way"""
    idx = []
    while True:
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            return n, idx
        if k == 'ArraySubscriptExpr':
            idx.append(n['inner'][1])
            n = n['inner'][0]
        elif k == 'CXXOperatorCallExpr' and opname(n) == '[]':
            idx.append(n['inner'][2])
            n = n['inner'][1]
        elif k == 'CXXMemberCallExpr' and n['inner'][0].get('name') in ('at', 'front', 'back', 'data', 'begin'):
            idx.append(n['inner'][1] if len(n['inner']) > 1 else None)
            n = n['inner'][0]['inner'][0]
        elif k == 'MemberExpr' and n.get('inner'):
            n = n['inner'][0]
        elif k in ('UnaryOperator', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('inner'):
            n = n['inner'][0]
        else:
            return None, idx


def writes(body):
    """(what is written, how)"""
    for n in findall_all(body, 'BinaryOperator'):
        if n.get('opcode') == '=':
            yield n['inner'][0], n
    for n in findall_all(body, 'CompoundAssignOperator'):
        yield n['inner'][0], n
    for n in findall_all(body, 'UnaryOperator'):
        if n.get('opcode') in ('++', '--'):
            yield n['inner'][0], n
    for n in findall_all(body, 'CXXOperatorCallExpr'):
        if opname(n) in ASSIGNS | {'++', '--'}:
            yield n['inner'][1], n
    for n in findall_all(body, 'CXXMemberCallExpr'):
        if n['inner'][0].get('name') in MUTATORS and n['inner'][0].get('inner'):
            yield n['inner'][0]['inner'][0], n


def is_loop_var(e, var):
    if e is None:
        return False
    n = strip(e)
    while n.get('kind') in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.get('inner'):
        n = strip(n['inner'][-1])
    return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == var


def loop_races(fn, n, src):
    """messages for one parallel loop"""
    text = pragma(fn, n, src)
    how = clauses(text)
    cap = [x for x in n['inner'] if x.get('kind') == 'CapturedStmt'][0]
    loop = [x for x in cap['inner'][0]['inner'] if x.get('kind') == 'ForStmt'][0]
    if re.search(r'\b(reduction|lastprivate|linear)\b', text) or any(x.startswith('OMP') for x in kinds(loop)):
        raise Unk('OpenMP synchronisation')
    init = loop['inner'][0]
    var = [d['id'] for d in findall_all(init, 'VarDecl')]
    if len(var) != 1:
        raise Unk('parallel loop variable')
    var = var[0]
    inside = {d['id'] for k in ('VarDecl', 'ParmVarDecl') for d in findall_all(loop, k)}
    body = loop['inner'][-1]
    out, seen = [], 0
    for place, at in writes(body):
        r, idx = base(place)
        seen += 1
        if r is None:
            continue
        d = r.get('referencedDecl', {})
        if d.get('id') in inside or d.get('kind') not in ('VarDecl', 'ParmVarDecl'):
            continue
        if how.get(d.get('name'), 'shared') in ('private', 'firstprivate') and not idx:
            continue
        if idx and is_loop_var(idx[-1], var):
            continue
        out.append('line %s: %s is shared by the threads and written by every iteration' % (line(at), d.get('name')))
    for r in findall_all(body, 'DeclRefExpr'):
        d = r.get('referencedDecl', {})
        if d.get('id') in inside or d.get('kind') not in ('VarDecl', 'ParmVarDecl'):
            continue
        t = qt(r)
        if '*' in t and not SHAREABLE_POINTERS.search(t):
            out.append('line %s: %s points to memory every thread works in' % (line(r), d.get('name')))
    return out, seen


def kinds(n, acc=None):
    acc = set() if acc is None else acc
    acc.add(str(n.get('kind')))
    for x in n.get('inner', []):
        kinds(x, acc)
    return acc


def static_state(unit):
    """variables that outlive a call and are written by some function"""
    gids = {g['id']: g for g, _ in unit.globals}
    out, seen = [], 0
    for m, f in sorted(unit.functions.items(), key=lambda x: x[1].get('name') or ''):
        if not f['node']:
            continue
        body = f['node']
        statics = {d['id']: d for d in findall_all(body, 'VarDecl') if d.get('storageClass') == 'static' and not d.get('tls')}
        for place, at in writes(body):
            r, idx = base(place)
            seen += 1
            if r is None:
                continue
            i = r.get('referencedDecl', {}).get('id')
            if i in statics or i in gids and not gids[i].get('tls'):
                out.append('%s line %s: %s keeps its value between calls, in all threads' % (f['short'], line(at), r['referencedDecl'].get('name')))
        for d in statics.values():
            given = [r['referencedDecl'] for x in d.get('inner', []) for r in findall_all(x, 'DeclRefExpr')
                     if r.get('referencedDecl', {}).get('kind') in ('VarDecl', 'ParmVarDecl') and r['referencedDecl'].get('id') not in gids]
            if given:
                out.append('%s: the static %s keeps the %s of the first call' % (f['short'], d.get('name'), given[0].get('name')))
            if '*' in qt(d) and not SHAREABLE_POINTERS.search(qt(d)):
                out.append('%s: the static %s points to memory every thread works in' % (f['short'], d.get('name')))
    return out, seen
