#!/usr/bin/env python3
"""Mutation sweep: which single-point changes of /repo does no check notice?
usage: mutate.py FILE.. ; writes survivors to stdout.  Scratch copies under /tmp."""
import warnings
warnings.simplefilter('ignore')
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = {}
for p in glob.glob(H + '/evidence/P??.json'):
    d = json.load(open(p))
    for f in d['coverage']['functions_analysed']:
        OWN.setdefault(f, set()).add(d['property'])
COST = {'P18': 9, 'P14': 3, 'P21': 3, 'P24': 2, 'P22': 2}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(tree, mod):
    """(function qualname, line, description, edit(tree copy) by node index)"""
    out = []
    owner = {}

    def walk(n, q, infn):
        for c in ast.iter_child_nodes(n):
            qq, f = q, infn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                qq = q + '.' + c.name
                f = infn or isinstance(c, ast.FunctionDef)
                if infn and isinstance(c, ast.FunctionDef):
                    qq = q
            owner[id(c)] = qq
            walk(c, qq, f)
    walk(tree, mod, False)
    for i, n in enumerate(ast.walk(tree)):
        q = owner.get(id(n), mod)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((q, n.lineno, i, 'binop'))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((q, n.lineno, i, 'cmp'))
        if isinstance(n, ast.BoolOp):
            out.append((q, n.lineno, i, 'bool'))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((q, n.lineno, i, 'const'))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((q, n.lineno, i, 'flip'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((q, n.lineno, i, 'unary'))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if not (isinstance(n, ast.Expr) and ast.unparse(n).startswith('print(')):
                out.append((q, n.lineno, i, 'delete'))
    return out


def apply(src, i, kind):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    if kind == 'binop':
        n.op = BIN[type(n.op)]()
    elif kind == 'cmp':
        n.ops = [CMP[type(n.ops[0])]()]
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'const':
        n.value = n.value + 1
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'unary':
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, n.operand)
                elif isinstance(v, list) and any(x is n for x in v):
                    v[[k for k, x in enumerate(v) if x is n][0]] = n.operand
    elif kind == 'delete':
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if isinstance(v, list) and any(x is n for x in v):
                    v[[k for k, x in enumerate(v) if x is n][0]] = ast.Pass()
    return ast.unparse(ast.fix_missing_locations(tree))


def one(job):
    f, q, line, i, kind, checks, text = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.check_call('cp -r /repo/*.py /repo/common /repo/particles /repo/interactions /repo/library %s/' % d, shell=True)
        try:
            out = apply(open('/repo/' + f, encoding='utf-8').read(), i, kind)
            compile(out, f, 'exec')
        except Exception as e:
            return job, 'skip'
        open(os.path.join(d, f), 'w', encoding='utf-8').write(out + '\n')
        und = ''
        for c in sorted(checks, key=lambda c: COST.get(c, 1)):
            try:
                qq = subprocess.run([sys.executable, 'check.py', c], cwd=H, env=dict(os.environ, PYBBN_REPO=d), stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, universal_newlines=True, timeout=400)
            except subprocess.TimeoutExpired:
                und += ' %s timeout' % c
                continue
            if qq.returncode == 1 and 'VIOLATION' in qq.stdout:
                return job, 'caught ' + c
            if 'UNDECIDED' in qq.stdout or qq.returncode:
                und += ' %s undecided' % c
        return job, 'SURVIVED' + und
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    limit = int(os.environ.get('LIMIT', '400'))
    jobs = []
    for f in sys.argv[1:]:
        src = open('/repo/' + f, encoding='utf-8').read()
        lines = src.splitlines()
        mod = f[:-3].replace('/', '.').replace('.__init__', '')
        for q, line, i, kind in sites(ast.parse(src), mod):
            checks = OWN.get(q, set()) - set((os.environ.get('SKIP') or '').split())
            jobs.append((f, q, line, i, kind, checks, lines[line - 1].strip()[:90]))
    un = {}
    for j in jobs:
        if not j[5]:
            un[j[1]] = un.get(j[1], 0) + 1
    print('functions no check analyses:', ', '.join('%s(%d)' % x for x in sorted(un.items())))
    jobs = [j for j in jobs if j[5]]
    random.seed(1)
    if len(jobs) > limit:
        jobs = random.sample(jobs, limit)
    n = {}
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        for j, r in ex.map(one, jobs):
            k = r.split(' ')[0]
            n[k] = n.get(k, 0) + 1
            if k == 'SURVIVED':
                print('%s:%d %s %s [%s] %s' % (j[0], j[2], j[1].split('.')[-1], j[4], j[6], r[8:]), flush=True)
    print(n)
