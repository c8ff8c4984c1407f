"""P13: interrupted and segmented runs continue exactly."""
import os
import sys

import numpy as np

from .. import work
from ..runtime import PKG

MODELS = ('rlc', 'duff', 'par', 'multi', 'obs', 'mod', 'damp', 'netmka',
          'netclip', 'netrlc')
KEYS = ('d', 't', 'z')
PLAN = {'quick': dict(runs=110, budget=110),
        'thorough': dict(runs=9000, budget=1500)}
TIMEOUT = 90.0
RULE = ('one run = one trajectory computed at once, then again in 1 to 5 '
        'segments, each in the same simulation, a new simulation or a new '
        'process, interrupted or not by an exception at a step, at an executed '
        'line of pyphs, or in the input sequence, the process dying or not '
        'after the interruption; non-trivial = at least two segments or an '
        'interruption; distinct by the hash of the history')
STATE = ('hash of (how a segment starts, kind of interruption, line or phase '
         'interrupted, how it goes on)')
REAL = ['pyphs (from /repo)', 'h5py, HDF5', 'file system']
STUB = ['clock (virtual)', 'source of interruptions']
ASSUME = ['an interrupt that falls between the opening of the results file and '
          'the first step, or after the last step, is only required not to '
          'spoil later runs']
NEED = {'interrupted': 60, 'released': 40, 'continued': 60}


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


class Stop(Exception):
    pass


EXC = {'stop': Stop, 'interrupt': KeyboardInterrupt, 'memory': MemoryError,
       'exit': SystemExit, 'generator': GeneratorExit}


def _interrupt(rng, nt):
    k = work.pick(rng, step=3, after=2, line=4, input=1)
    d = dict(kind=k, exc=rng.choice(sorted(EXC)))
    if k in ('step', 'after'):
        d['at'] = rng.randrange(nt)
    elif k == 'line':
        d['at'] = int(10 ** rng.uniform(0.5, np.log10(100 * nt + 100)))
    else:
        d['at'] = rng.randrange(nt)
    d['die'] = rng.random() < 0.3 and k != 'input'
    return d


def gen(rng, pool, tier):
    model = rng.choice(MODELS)
    spec = pool[model].spec
    nt = rng.randint(2, 24 if tier == 'quick' else 60)
    if rng.random() < 0.03:
        nt = rng.choice([1023, 1024, 1025, 1500])
    cuts = sorted(rng.sample(range(1, nt), min(nt - 1, rng.choice(
        [0, 1, 1, 2, 3, 4]))))
    segs = []
    for a, b in zip([0] + cuts, cuts + [nt]):
        it = _interrupt(rng, b - a) if rng.random() < 0.5 else None
        segs.append(dict(start=a, stop=b, how=rng.choice(
            ['same', 'same', 'newsim', 'newproc']), interrupt=it))
    return dict(model=model, key=rng.choice(KEYS), nt=nt,
                fs=spec['fs'] * rng.choice([1.0, 1.0, 0.5, 2.0]),
                kind=rng.choice(work.KINDS), useed=rng.randrange(10**6),
                uform=work.forms(len(spec['u']), rng),
                x0=rng.choice([None, rng.randrange(10**6)]), segs=segs,
                guess=rng.random() < 0.75,
                again=rng.choice(['same', 'same', 'newproc', None]))


def shrink(tr):
    segs = tr['segs']
    # cut the end
    if len(segs) > 1:
        yield dict(tr, segs=segs[:-1], nt=segs[-2]['stop'])
        for i in range(len(segs) - 1):
            m = dict(segs[i + 1], start=segs[i]['start'], how=segs[i]['how'])
            yield dict(tr, segs=segs[:i] + [m] + segs[i + 2:])
    for i, s in enumerate(segs):
        def rep(**kw):
            return dict(tr, segs=segs[:i] + [dict(s, **kw)] + segs[i + 1:])
        if s['interrupt']:
            yield rep(interrupt=None)
            it = s['interrupt']
            if it['die']:
                yield rep(interrupt=dict(it, die=False))
            if it['at']:
                yield rep(interrupt=dict(it, at=it['at'] // 2))
                yield rep(interrupt=dict(it, at=it['at'] - 1))
            if it['exc'] != 'stop':
                yield rep(interrupt=dict(it, exc='stop'))
        if s['how'] != 'same':
            yield rep(how='same')
    last = segs[-1]
    if last['stop'] - last['start'] > 1:
        for n in (max(1, (last['stop'] - last['start']) // 2),
                  last['stop'] - last['start'] - 1):
            yield dict(tr, nt=last['start'] + n, segs=segs[:-1] + [
                dict(last, stop=last['start'] + n)])
    if tr['again']:
        yield dict(tr, again=None)
    if tr['x0'] is not None:
        yield dict(tr, x0=None)
    if tr['uform'] != 'array':
        yield dict(tr, uform='array')


class LineBreaker:
    """Raises at the n-th line of pyphs executed."""

    def __init__(self, n, exc):
        self.left, self.exc, self.where = n, exc, None

    def __enter__(self):
        try:
            # compiled loops report lines irregularly
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left == 0:
                self.where = '%s:%d' % (
                    os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.exc('interrupted')
        return self.line


def execute(tr, ctx):
    e = ctx.pool[tr['model']]
    spec, nt = e.spec, tr['nt']
    u, p = work.inputs(spec, nt, tr['kind'], tr['useed'])
    x0 = None if tr['x0'] is None else work.state(spec, tr['x0'])

    stuck = set()

    def simulation(name, erase=True):
        from pyphs import Simulation
        return Simulation(e.method(tr['key']), erase=erase, config=dict(
            path=os.path.join(ctx.dir, name), fs=tr['fs']))

    def init(sim, a, b, inits, uu=None):
        kw = {}
        if spec['u']:
            kw['u'] = work.as_form(u[a:b], tr['uform']) if uu is None else uu
        sim.init(p=p[a:b], nt=b - a, inits=inits, **kw)

    def once():
        sim = simulation('once')
        init(sim, 0, nt, None if x0 is None else {'x': x0})
        sim.process()
        return work.read_all(sim.data)

    ref = ctx.proc(once).value
    if not all(np.all(np.isfinite(a)) for a in ref.values()):
        ctx.probe('diverging')
        return
    ctx.event('once', work.digest(ref))
    zero = np.zeros(len(spec['x']))
    # rows whose exactness is claimed are those continued with the guess
    exact = tr['guess']
    names = ('x', 'dx', 'w') if exact else ('x', 'dx')

    def inits_at(k):
        """Initial values that continue at step k."""
        if k == 0:
            d = {'x': zero if x0 is None else x0, 'dx': zero}
            if exact:
                d['w'] = np.zeros(len(spec['w']))
            return d
        return None

    def last_row(sim):
        n = sim.data.nt
        return {m: np.array(getattr(sim.data, m)(
            tslice=slice(n - 1, n, 1)))[0] for m in names}

    def compare(rows, a, n, what):
        part = {k: v[:n] for k, v in rows.items()}
        want = {k: v[a:a + n] for k, v in ref.items()}
        bad = work.same_rows(part, want) if exact else \
            work.close_rows(part, want)
        ctx.check(bad is None, what, start=a, rows=n, **(bad or {}))

    def segment(sim, s, i, inits):
        """Run one segment; gives the number of rows that have to be right."""
        a, b = s['start'], s['stop']
        it = s['interrupt']
        n = b - a
        if it and it['kind'] == 'input':
            def rows():
                for k in range(n):
                    if k == it['at']:
                        raise EXC[it['exc']]('input')
                    yield u[a + k]
            if spec['u'] and it['exc'] != 'generator':
                try:
                    init(sim, a, b, inits, rows())
                except EXC[it['exc']]:
                    ctx.probe('interrupted')
                    ctx.fault('input raises ' + it['exc'])
                    ctx.state('input', s['how'])
                    files = sorted(set(work.open_files(ctx.dir)) - stuck)
                    ctx.check(not files, 'file-kept', at='input', files=files)
                else:
                    ctx.violate('input-error-lost', segment=i)
            it = None
        init(sim, a, b, inits)
        if not it:
            sim.process()
            files = sorted(set(work.open_files(ctx.dir)) - stuck)
            ctx.check(not files, 'file-kept', at='end', files=files)
            return n, None
        real, calls = sim.nums.update, [0, 0]

        def update(*args, **kw):
            calls[0] += 1
            if it['kind'] == 'step' and calls[0] - 1 == it['at']:
                raise EXC[it['exc']]('step')
            r = real(*args, **kw)
            if it['kind'] == 'after' and calls[0] - 1 == it['at']:
                raise EXC[it['exc']]('after')
            calls[1] += 1
            return r
        sim.nums.update = update
        where = it['kind']
        raised = False
        try:
            if it['kind'] == 'line':
                with LineBreaker(it['at'], EXC[it['exc']]) as lb:
                    try:
                        sim.process()
                    finally:
                        where = lb.where
            else:
                sim.process()
        except EXC[it['exc']]:
            raised = True
        finally:
            del sim.nums.__dict__['update']
        expected = where is not None and (it['kind'] == 'line' or
                                          calls[0] > it['at'])
        if not expected:
            return n, None
        ctx.check(raised, 'interruption-lost', where=where, segment=i)
        ctx.probe('interrupted')
        ctx.fault('%s at %s' % (it['exc'], it['kind']))
        ctx.state('interrupt', s['how'], where, it['die'])
        good = max(calls[0] - 1, 0)
        ctx.event('interrupted', i, where, calls)
        inside = 1 <= calls[0] and calls[1] < n
        if inside:
            files = sorted(set(work.open_files(ctx.dir)) - stuck)
            ctx.check(not files, 'file-kept', at=where, files=files)
            ctx.probe('released')
            if it['die']:
                ctx.probe('died after')
                return good, 'die'
            if good:
                compare(work.read_all(sim.data), a, good, 'interrupted-rows')
        else:
            # between opening the file and the try statement, or while closing
            # it, nothing can be asked
            for f in work.open_files(ctx.dir):
                stuck.update([f, f + ' (deleted)'])
        return good, 'interrupted'

    # ---- the segments
    i = 0
    segs = [dict(s, name='seg%d' % k) for k, s in enumerate(tr['segs'])]
    pieces = []                     # (folder, start, rows)
    prev = None                     # folder holding the last row
    while i < len(segs):
        # segments up to the next new process
        j = i + 1
        while j < len(segs) and segs[j]['how'] != 'newproc':
            j += 1

        def incarnation(i=i, j=j, prev=prev):
            out = []
            sim = None
            if prev is None:
                inits = inits_at(0)
            else:
                old = simulation(prev, erase=False)
                inits = last_row(old)
            for k in range(i, j):
                s = segs[k]
                if sim is None or s['how'] != 'same':
                    sim = simulation(s['name'])
                else:
                    sim.init(config={'path': os.path.join(
                        ctx.dir, s['name'])}, nt=1)
                ctx.state(s['how'], bool(prev), s['interrupt'] and
                          s['interrupt']['kind'])
                good, how = segment(sim, s, k, inits)
                if how == 'die':
                    return out, ('die', k, s['name'], s['start'], good)
                if how == 'interrupted':
                    # the same simulation again, from the same values
                    init(sim, s['start'], s['stop'], inits)
                    sim.process()
                    ctx.probe('run again')
                rows = work.read_all(sim.data)
                compare(rows, s['start'], s['stop'] - s['start'], 'segment')
                if k:
                    ctx.probe('continued')
                out.append([s['name'], s['start'], s['stop'] - s['start']])
                inits = last_row(sim)
            if tr['again'] == 'same' and j == len(segs):
                init(sim, 0, nt, inits_at(0))
                sim.process()
                rows = work.read_all(sim.data)
                compare(rows, 0, nt, 'run-again')
                ctx.probe('whole run again')
                out.pop()
            return out, None
        out, end = ctx.proc(incarnation).value
        pieces += out
        if end is None:
            i = j
            prev = segs[j - 1]['name']
        else:
            # died after the interruption: what was stored is read by others
            _, k, name, a, good = end

            def reader():
                if not good:
                    return
                sim = simulation(name, erase=False)
                compare(work.read_all(sim.data), a, good, 'rows-after-death')
                ctx.probe('read after death')
            ctx.proc(reader)
            segs[k] = dict(segs[k], interrupt=None, how='newproc',
                           name=name + 'r')
            prev = segs[k - 1]['name'] if k else None
            i = k

    def whole():
        for name, a, n in pieces:
            sim = simulation(name, erase=False)
            compare(work.read_all(sim.data), a, n, 'stored-segments')
        if tr['again'] == 'newproc':
            sim = simulation('again')
            init(sim, 0, nt, inits_at(0))
            sim.process()
            compare(work.read_all(sim.data), 0, nt, 'run-again')
    ctx.proc(whole)
    ctx.simtime += nt / tr['fs']
