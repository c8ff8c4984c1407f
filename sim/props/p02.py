"""P02: storage faults and crashes never turn into silently wrong results."""
import os

import numpy as np

from .. import work
from ..seam import FATAL

MODELS = ('rlc', 'duff', 'par', 'multi', 'netrlc')
KEYS = ('d',)
PLAN = {'quick': dict(runs=190, budget=200),
        'thorough': dict(runs=9000, budget=1500)}
RULE = ('one run = one model, an optional earlier run in the same folder, then '
        'init+process+read with 1 to 3 storage faults at seeded operations '
        '(write, truncate, create, unlink, mkdir, read), then retry in the '
        'same process or restart in a new one, then reading of a completed '
        'file under faults; non-trivial = a fault fired; distinct by the hash '
        'of the recorded history')
STATE = ('hash of (fault kind, operation class and offset of the faulted '
         'call, stage reached, outcome)')
REAL = ['pyphs Simulation, H5Data, Numeric (from /repo)', 'h5py, HDF5']
STUB = ['system calls on the results folder (LD_PRELOAD seam)', 'clock']
ASSUME = ['no durability is claimed without fsync: a crash loses nothing that '
          'reached the page cache', 'a crash stops the process between two '
          'system calls or inside one write']

SOFT = ('SHORT', 'EINTR')
HARD = ('ENOSPC', 'EIO', 'FULL', 'EACCES')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


def gen(rng, pool, tier):
    model = rng.choice(MODELS)
    nt = rng.randint(1, 12 if tier == 'quick' else 40)
    fate = work.pick(rng, crash=3, error=4, soft=1.5, none=0.5)
    est = 45 + 4 * nt
    faults = []
    if fate == 'crash':
        k = rng.choice(FATAL)
        faults = [dict(at=_at(rng, est), kind=k, arg=rng.randint(1, 64))]
        if rng.random() < 0.3:
            faults.insert(0, dict(at=_at(rng, est), kind=rng.choice(SOFT),
                                  arg=rng.randint(1, 20)))
    elif fate == 'error':
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            faults.append(dict(at=_at(rng, est), kind=rng.choice(HARD),
                               arg=rng.randint(0, 2000)))
    elif fate == 'soft':
        for _ in range(rng.randint(1, 3)):
            faults.append(dict(at=_at(rng, est), kind=rng.choice(SOFT),
                               arg=rng.randint(1, 40)))
    return dict(model=model, key='d', nt=nt, kind=rng.choice(work.KINDS),
                seed=rng.randrange(10**6),
                x0=rng.choice([None, rng.randrange(10**6)]),
                before=rng.choice([0, 0, rng.randint(1, 20)]),
                uform=rng.choice(['array', 'rows']),
                faults=faults, ctor=rng.random() < 0.5,
                reads=[dict(name=rng.choice(work.ALL + ('E', 'dtx', 'ps', 'a',
                                                        'plot', 'wav')))
                       for _ in range(rng.randint(1, 3))],
                rfaults=[dict(at=rng.randint(1, 30),
                              kind=rng.choice(['EIO', 'SHORT', 'EINTR',
                                               'EMFILE', 'EACCES']),
                              arg=rng.randint(1, 30))
                         for _ in range(rng.randint(0, 2))],
                wfaults=[dict(at=rng.randint(1, 6), kind=rng.choice(
                    ['EIO', 'ENOSPC', 'EACCES', 'CRASH', 'TORN']),
                    arg=rng.randint(1, 30)) for _ in range(rng.randint(0, 1))])


def _at(rng, est):
    # every third fault aims at the first, setting up, operations
    return rng.randint(1, 30) if rng.random() < 0.33 else rng.randint(1, est)


def shrink(tr):
    for i in range(len(tr['faults'])):
        yield dict(tr, faults=tr['faults'][:i] + tr['faults'][i + 1:])
    for k in ('rfaults', 'wfaults', 'reads'):
        for i in range(len(tr[k])):
            yield dict(tr, **{k: tr[k][:i] + tr[k][i + 1:]})
    if tr['before']:
        yield dict(tr, before=0)
    if tr['x0'] is not None:
        yield dict(tr, x0=None)
    if tr['nt'] > 1:
        yield dict(tr, nt=tr['nt'] // 2)
        yield dict(tr, nt=tr['nt'] - 1)


def execute(tr, ctx):
    e = ctx.pool[tr['model']]
    spec, fs = e.spec, e.spec['fs']
    folder = ctx.mkdir('results')
    other = ctx.mkdir('other')
    note = os.path.join(ctx.dir, 'stage')
    u, p = work.inputs(spec, tr['nt'], tr['kind'], tr['seed'])
    x0 = None if tr['x0'] is None else work.state(spec, tr['x0'])
    inits = None if x0 is None else {'x': x0}

    ref = ctx.proc(lambda: work.numeric_rows(e.method(tr['key']), fs, u, p,
                                             inits)).value

    def build(path, erase=True):
        from pyphs import Simulation
        return Simulation(e.method(tr['key']), erase=erase,
                          config=dict(path=path, fs=fs),
                          inits=inits if tr['ctor'] else None)

    def compute(sim):
        sim.init(u=work.as_form(u, tr['uform']), p=work.as_form(p, 'array'),
                 inits=None if tr['ctor'] else inits)
        stage('initialised')
        sim.process()
        stage('processed')
        ctx.simtime += tr['nt'] / fs
        return work.read_all(sim.data)

    def stage(name):
        with open(note, 'a') as f:
            f.write(name + ' ')

    def clean(path):
        def go():
            return compute(build(path))
        return go

    # something finished earlier, elsewhere and maybe here
    got = ctx.proc(clean(other), root=other).value
    bad = work.same_rows(got, ref)
    ctx.check(bad is None, 'clean-run', **(bad or {}))
    kept = work.tree(other)
    if tr['before']:
        def earlier():
            s = build(folder)
            ub, pb = work.inputs(spec, tr['before'], 'noise', tr['seed'] + 1)
            s.init(u=ub, p=pb)
            s.process()
        ctx.proc(earlier, root=folder)

    # ---- the faulty run
    def faulty():
        stage('start')
        sim = None
        errors = []
        try:
            sim = build(folder)
            stage('built')
            rows = compute(sim)
        except Exception as ex:                 # noqa
            errors.append('%s: %s' % (type(ex).__name__, str(ex)[:200]))
            del ex
            rows = None
        if rows is not None:
            bad = work.same_rows(rows, ref)
            ctx.check(bad is None, 'silent-corruption', **(bad or {}))
            return dict(ok=True)
        # the disk works again: the same program tries again
        ctx.seam.heal()
        ctx.probe('retried in place')
        stage('retrying')
        try:
            if sim is None:
                sim = build(folder)
            rows = compute(sim)
        except Exception as ex:                 # noqa
            return dict(ok=False, error=errors[0],
                        again='%s: %s' % (type(ex).__name__, str(ex)[:300]))
        bad = work.same_rows(rows, ref)
        ctx.check(bad is None, 'wrong-after-retry', first=errors[0],
                  **(bad or {}))
        return dict(ok=False, error=errors[0], again=None)

    out = ctx.proc(faulty, root=folder, faults=tr['faults'],
                   expect=('ok', 'crash', 'signal'))
    with open(note) as f:
        stages = f.read().split()
    reached = stages[-1]
    if 'retrying' in stages:
        reached = 'retrying after ' + stages[stages.index('retrying') - 1]
    ctx.state([k for k, _ in out.fired], [a for _, a in out.fired], reached,
              out.status)
    ctx.event('faulty', out.status, reached, out.fired,
              out.value and out.value.get('error', '').split(':')[0])
    if out.status == 'signal':
        # HDF5 does not survive a failed flush: after one, it may refuse or
        # die when the file is used again by the same process
        ctx.check('retrying' in reached and any(k in HARD for k, _ in
                                                out.fired),
                  'killed', code=out.code, fired=out.fired, reached=reached)
        ctx.probe('library died in retry')
    elif out.status == 'crash':
        ctx.probe('crash:' + reached)
        ctx.check(any(k in FATAL for k, _ in out.fired), 'died',
                  fired=out.fired)
    elif out.value['ok']:
        ctx.probe('absorbed' if out.fired else 'no fault')
    else:
        ctx.probe('error:' + reached)
        ctx.check(any(k in HARD for k, _ in out.fired), 'error-without-fault',
                  error=out.value['error'], fired=out.fired)
        if out.value['again'] is not None:
            ctx.probe('library refused retry')

    # ---- restart: a new process computes the same thing, on the same folder
    if out.status != 'ok' or not out.value['ok'] or tr['seed'] % 3 == 0:
        def again():
            rows = compute(build(folder))
            left = work.open_files(folder)
            ctx.check(not left, 'left-open', files=left)
            return rows
        rows = ctx.proc(again, root=folder).value
        bad = work.same_rows(rows, ref)
        ctx.check(bad is None, 'wrong-after-restart', reached=reached,
                  **(bad or {}))
        ctx.probe('restarted')
    ctx.check(work.tree(other) == kept, 'other-results-changed')

    # ---- reading finished results while the disk fails
    before = work.tree(os.path.join(folder, 'data'))

    def reading():
        outcomes = []
        try:
            sim = build_reader()
        except Exception as ex:                 # noqa
            return [['open', type(ex).__name__]]
        for r in tr['reads']:
            outcomes.append(_read(ctx, e, tr, sim, r['name'], ref, fs, folder))
        ctx.seam.heal()
        # and once more, in peace
        rows = work.read_all(sim.data)
        bad = work.same_rows(rows, ref)
        ctx.check(bad is None, 'wrong-after-read-fault', **(bad or {}))
        left = work.open_files(os.path.join(folder, 'data'))
        ctx.check(not left, 'left-open-after-read', files=left,
                  outcomes=outcomes)
        return outcomes

    def build_reader():
        from pyphs.numerics.simulations.h5data import H5Data
        cfg = dict(path=folder, fs=fs, dnames=work.NAMES,
                   load={'start': 0, 'stop': None, 'step': 1})
        # the reader of finished results
        data = H5Data(e.method(tr['key']), cfg, erase=False)

        class Holder:
            pass
        h = Holder()
        h.data = data
        return h
    out = ctx.proc(reading, root=folder, faults=tr['wfaults'],
                   rfaults=tr['rfaults'], expect=('ok', 'crash'))
    ctx.event('reading', out.status, out.value, out.fired)
    if out.status == 'crash':
        ctx.check(any(k in FATAL for k, _ in out.fired), 'died',
                  fired=out.fired)
    after = work.tree(os.path.join(folder, 'data'))
    ctx.check(before == after, 'read-modified-results',
              reads=tr['reads'], fired=out.fired)
    ctx.probe('read under faults')


def _read(ctx, e, tr, sim, name, ref, fs, folder):
    data = sim.data
    try:
        if name in work.ALL:
            got, want = getattr(data, name)(), ref[name]
            ctx.check(work.same(got, want), 'wrong-read', name=name)
        elif name == 'E':
            got = data.E()
            m = e.method(tr['key'])
            ix = [list(map(str, m.x)).index(k) for k in e.spec['x']]
            want = np.array([e.phys().H(x[ix]) for x in ref['x']])
            ctx.check(got.shape == want.shape and np.allclose(
                got, want, rtol=1e-9, atol=1e-300), 'wrong-read', name=name)
        elif name == 'dtx':
            ctx.check(np.allclose(data.dtx(), ref['dx'] * fs, rtol=1e-12,
                                  atol=0), 'wrong-read', name=name)
        elif name == 'ps':
            want = (ref['u'] * ref['y']).sum(1)
            ctx.check(np.allclose(data.ps(), want, rtol=1e-9, atol=1e-300),
                      'wrong-read', name=name)
        elif name == 'a':
            want = np.hstack([ref['dxH'], ref['z'], ref['u']])
            ctx.check(work.same(data.a(), want), 'wrong-read', name=name)
        elif name == 'plot':
            import matplotlib.pyplot as plt
            fig, ax = data.plot(['x'], show=False)
            plt.close(fig)
        elif name == 'wav':
            if tr['seed'] % 2:
                return [name, 'skipped']
            data.wavwrite('x', 0, path=os.path.join(folder, 'x0'), fs=8000)
    except Exception as ex:                     # noqa
        if isinstance(ex, work_violation()):
            raise
        return [name, type(ex).__name__]
    return [name, 'ok']


def work_violation():
    from ..runtime import Violation
    return Violation
