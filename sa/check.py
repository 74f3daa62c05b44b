"""Obligations: each compares the abstract value the analysis computes for a
construct of /repo with the value the property requires."""
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback
from . import terms as T
from .terms import atom, Unk
from .values import *
from . import model, lib, compare as CMP
from .interp import HERE, REPO, Event

HELD, VIOLATED, UNDECIDED = 'held', 'violated', 'undecided'


# seconds for one obligation and for a whole check; what is over is UNDECIDED
LIMITS = {'quick': (330, 800), 'thorough': (3600, 6 * 3600)}


class TimeUp(BaseException):
    pass


def _ring(*_):
    raise TimeUp()


class Outcome(object):
    def __init__(self, ret, st0, st, it):
        self.ret, self.st0, self.st, self.it = ret, st0, st, it

    def attrs(self):
        """attribute stores on symbolic objects: (object key, attribute) -> value"""
        out = {}
        for k, v in self.st.attrs.items():
            if k[2] is None:
                continue
            if self.st0.attrs.get(k) is not v:
                out[k] = v
        return out

    def attr(self, o, name):
        it, old = self.it, self.it.st
        it.st = self.st
        try:
            return it.freeze(it.getattr(o, name))
        finally:
            it.st = old


def trace(events, pick, guard=TRUE, binders=()):
    """the events selected by `pick` as an ordered, guarded sequence"""
    parts = []
    for e in events:
        if e.kind == 'branch':
            c, e1, e2 = e.data
            parts += trace(e1, pick, band(guard, c), binders)
            parts += trace(e2, pick, band(guard, bnot(c)), binders)
        elif e.kind in ('foreach', 'while'):
            b = e.data[0]
            bs = getattr(e, 'binders', None)
            nxt = sorted([x for x in e.data[1] if x.kind == 'next'], key=lambda x: x.data[0].key)
            inner = trace([x for x in e.data[1] if x.kind != 'next'], pick, TRUE, ())
            inner += [Part(Seq([Part(x.data[0]), Part(x.data[1])], 'tuple')) for x in nxt]
            if not nxt and isinstance(b, Seq) and len(b.parts) == 1 and b.parts[0].guard.key != 'True' and not b.parts[0].star:
                # a filtered collection: its elements, each under the filter
                p, g = b.parts[0], b.parts[0].guard
                b = Seq([Part(p.v, p.binders)], b.kind)
                inner = [Part(q.v, q.binders, band(g, q.guard), q.star) for q in inner]
            if isinstance(b, Seq):
                # what is looped over; the value of the loop variable shows in the body
                b = Seq([Part(SymV(p.binders[-1][1]) if p.binders and not p.star else p.v, p.binders, p.guard, p.star) for p in b.parts], 'list')
            if inner:
                v = Seq([Part(K('each')), Part(b)] + [Part(Seq([Part(p.v), Part(p.guard)], 'tuple')) for p in inner], 'each')
                parts.append(Part(v, (), guard))
        else:
            v = pick(e)
            if v is not None:
                parts.append(Part(v, (), guard))
    return settle(parts)


COMMUTE = {'append', 'savetxt'}


def settle(parts):
    """neighbouring records into different tables are independent of each other: in one order"""
    def rec(p):
        v = p.v
        if isinstance(v, Seq) and v.kind == 'tuple' and len(v.parts) == 3 and isinstance(v.parts[1].v, K) and v.parts[1].v.v in COMMUTE:
            return v.parts[0].v.key
        return None
    out = []
    for p in parts:
        i, r = len(out), rec(p)
        while r is not None and i > 0 and rec(out[i - 1]) is not None and rec(out[i - 1]) > r:
            i -= 1
        out.insert(i, p)
    return out




def opened(v):
    """a table is written alike to a path and to a file opened there for writing anew"""
    if isinstance(v, SymV) and v.a.kind == 'call' and v.a.args[0].key == 'ext:builtins.open' and len(v.a.args) == 3 \
            and isinstance(v.a.args[2], K) and str(v.a.args[2].v).replace('b', '').replace('t', '') == 'w':
        return v.a.args[1]
    return v


def effects(*names):
    """picker: calls of the named operations with receiver and arguments"""
    def pick(e):
        if e.kind in ('mcall', 'ucall') and isinstance(e.data[1], K) and e.data[1].v in names and 'throttler' not in e.data[0].key:
            return Seq([Part(x) for x in e.data], 'tuple')
        if e.kind == 'extcall' and e.data[0].v in names:
            return Seq([Part(x) for x in e.data], 'tuple')
        if e.kind == 'opcall' and isinstance(e.data[0], SymV):
            a = e.data[0].a
            on, name = None, None
            if a.kind == 'attr':
                on, name = SymV(a.args[0]), a.args[1]
            elif a.kind == 'sym' and '.' in a.key:
                on, name = a.key.rsplit('.', 1)
                on = SymV(atom('sym', on))
            if name in names and 'throttler' not in a.key:
                if name == 'savetxt':
                    return Seq([Part(on), Part(K(name)), Part(Seq([Part(opened(p.v)) for p in e.data[1].parts], 'tuple'))], 'tuple')
                return Seq([Part(on), Part(K(name)), Part(e.data[1])], 'tuple')
        return None
    return pick


class Checker(object):
    def __init__(self, pid):
        self.pid = pid
        self.results = []
        self.functions = set()
        self.sites = set()
        self.stmts = 0
        self.t0 = time.time()
        self.tier = 'quick'
        self.queue = None

    # -- engine --------------------------------------------------------------------
    def load(self, **kw):
        it = model.load(**kw)
        self.its = getattr(self, 'its', []) + [it]
        return it

    def run(self, it, f, args=(), kw=None, setup=None):
        if isinstance(f, str):
            f = it.lookup_qual(f)
        base = it.st
        it.st = base.copy()
        it.st.events = ()
        it.st.pc = TRUE
        it.st.ret, it.st.rv, it.st.brk, it.st.cnt = FALSE, NONE, FALSE, FALSE
        try:
            if setup:
                self.prepare(it, setup)
            st0 = it.st.copy()
            ret = it.freeze(it.call(f, list(args), dict(kw or {})))
            return Outcome(ret, st0, it.st, it)
        finally:
            it.st = base

    def prepare(self, it, setup):
        if isinstance(setup, tuple):
            it.call(it.lookup_qual(setup[0]), list(setup[1]), {})
        else:
            setup(it)
        it.st.events = ()

    # -- obligations ------------------------------------------------------------------
    def oblige(self, oid, where, fn, rule=''):
        """fn() -> None (held) | Verdict | (status, message, witness)"""
        if self.queue is not None:
            self.queue.append((oid, where, fn, rule))
            return
        one, whole = LIMITS[self.tier]
        left = int(min(one, self.t0 + whole - time.time()))
        try:
            if left < 1:
                raise TimeUp()
            signal.signal(signal.SIGALRM, _ring)
            signal.alarm(left)
            try:
                r = fn()
            finally:
                signal.alarm(0)
        except TimeUp:
            r = (UNDECIDED, 'not analysed within the time limit', None)
        except MemoryError:
            r = (UNDECIDED, 'not analysed within the memory limit', None)
        except Unk as e:
            r = (UNDECIDED, 'not analysable: %s' % e, None)
        except RecursionError:
            r = (UNDECIDED, 'not analysable: recursion limit', None)
        except AttributeError as e:
            r = (UNDECIDED, 'analysis error: %s' % traceback.format_exc().strip().splitlines()[-3:], None)
        except Exception as e:
            r = (UNDECIDED, 'analysis error: %s' % traceback.format_exc().strip().splitlines()[-3:], None)
        if isinstance(r, CMP.Verdict):
            if r.status == CMP.EQUAL:
                r = (HELD, r.how, None)
            elif r.status == CMP.DIFFERENT:
                r = (VIOLATED, r.detail, r.witness)
            else:
                r = (UNDECIDED, r.how + ' ' + r.detail, None)
        if r is None or r is True:
            r = (HELD, '', None)
        self.results.append({'id': oid, 'where': where, 'rule': rule, 'status': r[0], 'message': r[1], 'witness': r[2]})

    def parallel(self):
        """obligations from here to `flush` are independent of each other"""
        self.queue = []

    def flush(self):
        jobs, self.queue = self.queue, None
        try:
            n = min(8, len(os.sched_getaffinity(0)), len(jobs))
        except AttributeError:
            n = 1
        done = {}
        if n > 1:
            self.pool(n, jobs, done)
        for i, (oid, where, fn, rule) in enumerate(jobs):
            if i in done:
                self.results.append(done[i])
            else:
                self.oblige(oid, where, fn, rule)

    def pool(self, n, jobs, done):
        """forked workers that take the next job each; one that dies costs its job only"""
        sys.stdout.flush()
        tr, tw = os.pipe()
        os.write(tw, b''.join(struct.pack('<H', i) for i in range(len(jobs))))
        os.close(tw)
        its = getattr(self, 'its', [])
        live = {}

        def work(wr):
            out = os.fdopen(wr, 'wb')
            while True:
                x = os.read(tr, 2)
                if len(x) < 2:
                    break
                i = struct.unpack('<H', x)[0]
                out.write(struct.pack('<BI', 0, i))
                out.flush()
                before = [it.stats['stmts'] for it in its]
                self.results = []
                self.oblige(*jobs[i])
                r = {k: v if v is None or isinstance(v, str) else str(v) for k, v in self.results[-1].items()}
                d = pickle.dumps((i, r, [(it.stats['functions'], it.stats['sites'], it.stats['stmts'] - b) for it, b in zip(its, before)]))
                out.write(struct.pack('<BI', 1, len(d)) + d)
                out.flush()

        def spawn():
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.RLIM_INFINITY))
                    work(wr)
                finally:
                    os._exit(0)
            os.close(wr)
            live[r] = [pid, b'', None, 0]
        for _ in range(n):
            spawn()
        one = LIMITS[self.tier][0]
        while live:
            ready = select.select(list(live), [], [], 5)[0]
            for r, w in list(live.items()):
                if w[2] is not None and time.time() > w[3] + one + 30:
                    os.kill(w[0], signal.SIGKILL)
            for r in ready:
                w = live[r]
                x = os.read(r, 1 << 16)
                w[1] += x
                while len(w[1]) >= 5:
                    k, m = struct.unpack('<BI', w[1][:5])
                    if k == 0:
                        w[1], w[2], w[3] = w[1][5:], m, time.time()
                    elif len(w[1]) >= 5 + m:
                        i, res, stats = pickle.loads(w[1][5:5 + m])
                        w[1], w[2] = w[1][5 + m:], None
                        done[i] = res
                        for it, (f, s, c) in zip(its, stats):
                            it.stats['functions'] |= f
                            it.stats['sites'] |= s
                            it.stats['stmts'] += c
                    else:
                        break
                if not x:
                    os.close(r)
                    os.waitpid(w[0], 0)
                    del live[r]
                    if w[2] is not None:
                        oid, where, fn, rule = jobs[w[2]]
                        done[w[2]] = {'id': oid, 'where': where, 'rule': rule, 'status': UNDECIDED,
                                      'message': 'not analysed within the time and memory limits', 'witness': None}
                        spawn()
        os.close(tr)

    def values(self, oid, where, it, code, spec, assume=None, rule='', **kw):
        def go():
            c = it.freeze(code() if callable(code) else code)
            s = it.freeze(spec() if callable(spec) else spec)
            return CMP.compare(c, s, assume=assume, **kw)
        self.oblige(oid, where, go, rule)

    def func(self, oid, it, code, spec, args=(), kw=None, ret=True, attrs=None, tr=None, assume=None, setup=None, rule='',
             cargs=None, cmpkw=None, where=None):
        """the function `code` must have the same result, the same attribute
        stores and (for `tr`) the same ordered effects as the reference `spec`"""
        ck = cmpkw or {}

        def go():
            base = it.st
            it.st = base.copy()
            try:
                if setup:
                    self.prepare(it, setup)
                return body()
            finally:
                it.st = base

        def body():
            o = self.run(it, code, cargs if cargs is not None else args, kw)
            r = self.run(it, spec, args, kw)
            vs = []
            if ret and r.ret.key == BOT.key:
                return (UNDECIDED, 'the requirement has no value here', None)
            if ret:
                vs.append(('result', o.ret, r.ret))
            ca, ra = o.attrs(), r.attrs()
            for k in sorted(set(ca) | set(ra), key=lambda k: (k[0], k[1])):
                if attrs is not None and k[1] not in attrs:
                    continue
                a = ca.get(k)
                b = ra.get(k)
                a = o.it.freeze(a) if a is not None else o.st0.attrs.get(k) or it.initial_attr(k)
                b = o.it.freeze(b) if b is not None else r.st0.attrs.get(k) or it.initial_attr(k)
                vs.append(('%s.%s' % (k[0], k[1]), self._fz(o, a), self._fz(r, b)))
            if tr is not None:
                vs.append(('effects', Seq(trace(o.st.events, tr), 'tuple'), Seq(trace(r.st.events, tr), 'tuple')))
            worst = None
            hows = []
            for what, a, b in vs:
                v = CMP.compare(a, b, assume=assume, **ck)
                hows.append('%s: %s' % (what, v.how))
                if v.status == CMP.DIFFERENT:
                    return (VIOLATED, '%s: %s' % (what, v.detail), v.witness)
                if v.status == CMP.UNKNOWN:
                    worst = (UNDECIDED, '%s: %s %s' % (what, v.how, v.detail), None)
            if worst:
                return worst
            return (HELD, '; '.join(hows), None)
        self.oblige(oid, where or (code if isinstance(code, str) else getattr(code, 'key', '?')), go, rule)

    def _fz(self, o, v):
        old = o.it.st
        o.it.st = o.st
        try:
            return o.it.freeze(v)
        finally:
            o.it.st = old

    # -- report -------------------------------------------------------------------------
    def finish(self, tier, technique, assumptions, rule):
        for it in getattr(self, 'its', []):
            self.functions |= {f for f in it.stats['functions'] if not f.startswith('specs.')}
            self.sites |= {s for s in it.stats['sites'] if not s[0].startswith('specs.')}
            self.stmts += it.stats['stmts']
        known = load_known(self.pid)
        out = []
        nh = nv = nu = 0
        viol = []
        for r in self.results:
            if r['status'] == HELD:
                nh += 1
            elif r['status'] == VIOLATED:
                k = known.get(r['id'])
                if k:
                    print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, r['id'], k))
                    r['status'] = 'known-finding'
                else:
                    nv += 1
                    viol.append(r)
            else:
                nu += 1
                print('UNDECIDED property=%s obligation=%s at %s: %s' % (self.pid, r['id'], r['where'], r['message']))
        print('%s: analysed %d functions, %d call sites, %d abstract statements; %d obligations: %d held, %d violated, %d undecided'
              % (self.pid, len(self.functions), len(self.sites), self.stmts, len(self.results), nh, nv, nu))
        evd = os.path.join(HERE, 'evidence')
        os.makedirs(evd, exist_ok=True)
        rp = os.path.join(evd, self.pid + '.replay.json')
        rc = 0
        if viol:
            json.dump({'property': self.pid, 'violations': viol, 'how_to_replay': 'python3 /verif/check.py %s' % self.pid},
                      open(rp, 'w'), indent=1, default=str)
            for r in viol:
                print('  violated: %s at %s: %s' % (r['id'], r['where'], r['message'][:600]))
                if r['witness']:
                    print('    witness: %s' % str(r['witness'])[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            rc = 1
        elif nh == 0:
            print('%s: no obligation could be decided' % self.pid)
            rc = 2
        ev = {
            'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': rule,
                'obligations': len(self.results), 'discharged': nh,
                'undecided': nu,
                'functions_analysed': sorted(self.functions), 'call_sites': len(self.sites),
                'abstract_statements': self.stmts,
                'samples': [{'obligation': r['id'], 'construct': r['where'], 'status': r['status'], 'how': str(r['message'])[:300]} for r in self.results],
            },
            'assumptions': assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        json.dump(ev, open(os.path.join(evd, self.pid + '.json'), 'w'), indent=1, default=str)
        return rc


def load_known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    out = {}
    if os.path.exists(f):
        for e in json.load(open(f)).get('findings', []):
            if e['property'] == pid:
                out[e['obligation']] = e['what']
    return out
