#!/usr/bin/env python3
"""plant.py <bug dir with edit.json, demo.sh, meta.json>: build patch.diff in a scratch
copy of /repo and confirm that the bug counts and whether its check reports it.
edit.json: [[file, old text, new text], ...]"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def plant(d, tests=True):
    edits = json.load(open(os.path.join(d, 'edit.json')))
    w = tempfile.mkdtemp(prefix='plant')
    try:
        r = os.path.join(w, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        demo = tempfile.mkdtemp(dir=w)
        for f in os.listdir(d):
            if f not in ('patch.diff', 'meta.json', 'edit.json'):
                if os.path.isfile(os.path.join(d, f)):
                    shutil.copy(os.path.join(d, f), demo)
        c = sh(['bash', os.path.join(demo, 'demo.sh')], r)
        for f, a, b in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', 'diff'], cwd=r)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        b = sh(['bash', os.path.join(demo, 'demo.sh')], r)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        k = subprocess.run(['python3', os.path.join(H, 'check.py'), pid], cwd=H, env=dict(os.environ, PYBBN_REPO=r),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        sh(['git', 'checkout', '-q', '--', '.'], r)
        print('%-28s %s  demo clean=%d patched=%d  check rc=%d %s' % (os.path.basename(d), pid, c.returncode, b.returncode, k.returncode,
              'CAUGHT' if k.returncode == 1 and 'VIOLATION property=' + pid in k.stdout else 'MISSED'))
        if c.returncode:
            print(c.stdout[-1500:])
        if not b.returncode:
            print('  patched demo passes', b.stdout[-500:])
        if k.returncode != 1:
            print(k.stdout[-800:])
        elif '-v' in sys.argv:
            print(k.stdout[-800:])
    finally:
        shutil.rmtree(w)


for d in sys.argv[1:]:
    if d != '-v':
        plant(os.path.abspath(d))
