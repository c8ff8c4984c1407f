"""P01: what is read back is what was given and what was computed."""
import gc

import numpy as np

from .. import work

MODELS = ('rlc', 'duff', 'par', 'multi', 'obs', 'damp', 'mod', 'netrlc')
KEYS = ('d', 'z')
PLAN = {'quick': dict(runs=150, budget=200),
        'thorough': dict(runs=6000, budget=1500)}
RULE = ('one run = one model, one numerical scheme and a history of 3 to 9 '
        'operations (init with one of seven input forms, process, reading '
        'windows, reads of stored and derived quantities with time and '
        'component slices, reopening, process restart), under transient '
        'storage faults; non-trivial = at least one fault fired or one read '
        'compared; distinct by the hash of the recorded history')
STATE = ('hash of (model, scheme, operation kind, input form, slice shape, '
         'whether the run was processed, restarted or windowed)')
REAL = ['pyphs Simulation, H5Data, Numeric, Method (from /repo)', 'h5py, HDF5',
        'tmp file system below the seam']
STUB = ['storage faults (LD_PRELOAD seam)', 'clock (virtual)']
ASSUME = ['HDF5 and the kernel are correct when no fault is injected']

DERIVED = ('t', 'dtx', 'E', 'pd', 'ps', 'dtE', 'dtEd', 'a', 'b', 'args', 'o')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS, derived=True)
    return pool


def _tsl(rng, nt):
    """A time slice inside [0, nt)."""
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.45:
        return rng.randrange(nt)
    a = rng.randrange(nt)
    b = rng.randrange(a + 1, nt + 1)
    return [rng.choice([None, a]), rng.choice([None, b]),
            rng.choice([None, 1, 2, 3, nt])]


def _vsl(rng, n):
    r = rng.random()
    if r < 0.4 or n == 0:
        return None
    if r < 0.7:
        return rng.randrange(-n, n)
    a = rng.randrange(n)
    return [rng.choice([None, a, a - n]), rng.choice([None, n, n + 1, -1]),
            rng.choice([None, 1, 2])]


def _dims(spec):
    return dict(x=len(spec['x']), dx=len(spec['x']), dxH=len(spec['x']),
                w=len(spec['w']), z=len(spec['w']), u=len(spec['u']),
                y=len(spec['u']), p=len(spec['p']))


def gen(rng, pool, tier):
    model = rng.choice(MODELS)
    spec = pool[model].spec
    dims = _dims(spec)
    big = 60 if tier == 'thorough' else 24
    ops = []
    nt = None
    n_ops = rng.randint(3, 9)

    def init():
        n = rng.randint(1, big)
        op = dict(op='init', nt=n, kind=rng.choice(work.KINDS),
                  seed=rng.randrange(10**6),
                  uform=work.forms(dims['u'], rng),
                  pform=work.forms(dims['p'], rng, True),
                  give=rng.random() < 0.5, x0=None)
        if rng.random() < 0.15:
            # a long sequence, stored and read but not processed
            op['nt'] = n = rng.choice([1023, 1024, 1025, 1500, 2048, 2050])
            op['long'] = True
        if rng.random() < 0.15:
            op['uform'] = 'none'
        if dims['p'] == 0 and rng.random() < 0.6 or rng.random() < 0.1:
            op['pform'] = 'none'
        if op['uform'] in ('none', 'gen'):
            op['give'] = op['give'] or op['pform'] in ('none',)
        if rng.random() < 0.3:
            op['x0'] = rng.randrange(10**6)
        return op
    op = init()
    ops.append(op)
    for _ in range(n_ops):
        nt = ops[-1]['nt'] if ops[-1]['op'] == 'init' else nt
        long = [o for o in ops if o['op'] == 'init'][-1].get('long')
        k = work.pick(rng, init=1, process=3, window=1, twindow=0.4, read=5,
                      derived=1.6, reopen=0.6, restart=0.8, gc=0.3)
        if k == 'init':
            ops.append(init())
        elif k == 'process':
            last = max(i for i, o in enumerate(ops) if o['op'] == 'init')
            done = any(o['op'] == 'process' for o in ops[last:])
            if not long and not done:
                ops.append(dict(op='process'))
        elif k == 'window':
            a = rng.randrange(nt)
            ops.append(dict(op='window', start=rng.choice([None, a]),
                            stop=rng.choice([None, rng.randint(a + 1, nt)]),
                            step=rng.choice([None, 1, 2, 5])))
        elif k == 'twindow':
            if nt > 2:
                a = rng.randrange(nt - 1)
                ops.append(dict(op='twindow', start=a,
                                stop=rng.randint(a + 1, nt - 1)))
        elif k == 'read':
            name = rng.choice(work.ALL)
            ops.append(dict(op='read', name=name, t=_tsl(rng, nt),
                            v=_vsl(rng, dims[name]),
                            via=rng.choice(['call', 'item', 'post'])))
        elif k == 'derived':
            ops.append(dict(op='derived', name=rng.choice(DERIVED),
                            t=_tsl(rng, nt)))
        else:
            ops.append(dict(op=k))
    # always look at everything in the end
    ops.append(dict(op='readall'))
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            faults.append(dict(at=rng.randint(1, 200), kind=rng.choice(
                ['SHORT', 'EINTR']), arg=rng.randint(1, 40)))
    return dict(model=model, key=rng.choice(KEYS), ops=ops, faults=faults)


def shrink(tr):
    for i in range(len(tr['ops']) - 1, -1, -1):
        if i == 0:
            continue
        ops = tr['ops'][:i] + tr['ops'][i + 1:]
        yield dict(tr, ops=ops)
    if tr['faults']:
        yield dict(tr, faults=[])
    for i, o in enumerate(tr['ops']):
        for k, v in (('x0', None), ('uform', 'array'), ('pform', 'array'),
                     ('kind', 'noise')):
            if o.get(k, v) != v and not (k == 'pform' and o[k] == 'none'):
                ops = list(tr['ops'])
                ops[i] = dict(o, **{k: v})
                yield dict(tr, ops=ops)


def sl(s):
    return slice(*s) if isinstance(s, list) else s


def execute(tr, ctx):
    e = ctx.pool[tr['model']]
    spec = e.spec
    fs = spec['fs']
    folder = ctx.mkdir('sim')
    # ---- expected contents, one per init, from the numerical core alone
    refs = {}

    def reference(op, processed):
        key = repr((op['nt'], op['kind'], op['seed'], op['uform'],
                    op['pform'], op['x0'], processed))
        if key not in refs:
            def compute():
                u, p = work.inputs(spec, op['nt'], op['kind'], op['seed'])
                if op['uform'] == 'none':
                    u = np.zeros_like(u)
                if op['pform'] == 'none':
                    p = np.zeros_like(p)
                x0 = None if op['x0'] is None else \
                    work.state(spec, op['x0'])
                if processed:
                    return work.numeric_rows(
                        e.method(tr['key']), fs, u, p,
                        None if x0 is None else {'x': x0})
                d = _dims(spec)
                out = {n: np.zeros((op['nt'], d[n])) for n in work.NAMES}
                out['u'], out['p'] = u, p
                return out
            refs[key] = ctx.proc(compute).value
        return refs[key]

    # operations between two restarts live in one process
    groups = [[]]
    for op in tr['ops']:
        if op['op'] == 'restart':
            groups.append([])
        else:
            groups[-1].append(op)
    cur = dict(init=None, processed=False)
    inits = None
    base = 0
    for g, ops in enumerate(groups):
        # what the model says before each operation
        plan = []
        c = dict(cur)
        for op in ops:
            if op['op'] == 'init':
                c = dict(init=op, processed=False)
            elif op['op'] == 'process':
                c = dict(c, processed=True)
            plan.append((op, reference(c['init'], c['processed'])
                         if c['init'] else None, dict(c)))
        # transient faults are placed along the whole history
        faults = [dict(f, at=f['at'] - base) for f in tr['faults']
                  if f['at'] > base]

        def session(plan=plan, first=(g == 0), cur=cur):
            return _session(tr, ctx, e, folder, plan, first, cur)
        out = ctx.proc(session, root=folder, faults=faults)
        base += out.nops
        cur = c


def _open(tr, ctx, e, folder, erase, x0=None):
    from pyphs import Simulation
    return Simulation(e.method(tr['key']), erase=erase,
                      config=dict(path=folder, fs=e.spec['fs']),
                      inits=None if x0 is None else {'x': x0})


def _session(tr, ctx, e, folder, plan, first, cur):
    spec, fs = e.spec, e.spec['fs']
    x0 = None
    if not first and cur['init'] and cur['init']['x0'] is not None:
        x0 = work.state(spec, cur['init']['x0'])
    sim = _open(tr, ctx, e, folder, first, x0)
    win = dict(start=None, stop=None, step=None)
    for op, ref, c in plan:
        k = op['op']
        ctx.state(tr['model'], tr['key'], k, op.get('uform'), op.get('name'),
                  type(op.get('t')).__name__, type(op.get('v')).__name__,
                  c['processed'], first, tuple(v is None
                                               for v in win.values()))
        if k == 'init':
            u, p = work.inputs(spec, op['nt'], op['kind'], op['seed'])
            # a new run forgets earlier initial values only when told to
            x0 = np.zeros(len(spec['x'])) if op['x0'] is None else \
                work.state(spec, op['x0'])
            kw = dict(u=work.as_form(u, op['uform']),
                      p=work.as_form(p, op['pform']), inits={'x': x0})
            if op['give'] or (kw['u'] is None and kw['p'] is None) or (
                    op['uform'] == 'gen' and kw['p'] is None):
                kw['nt'] = op['nt']
            sim.data.start = sim.data.stop = sim.data.step = None
            win = dict(start=None, stop=None, step=None)
            sim.init(**kw)
            ctx.check(sim.data.nt == op['nt'], 'length', got=sim.data.nt,
                      want=op['nt'], op=op)
        elif k == 'process':
            sim.process()
            ctx.simtime += sim.data.nt / fs
        elif k == 'gc':
            gc.collect()
        elif k == 'reopen':
            sim = _open(tr, ctx, e, folder, False, x0)
            win = dict(start=None, stop=None, step=None)
        elif k == 'window':
            _window(sim.data, win, op)
        elif k == 'twindow':
            if op['stop'] < sim.data.nt:
                sim.data.start = sim.data.stop = None
                # instants between samples: no rounding question arises
                sim.data.tstart = (op['start'] + 0.25) / fs
                sim.data.tstop = (op['stop'] - 1 + 0.25) / fs
                win.update(start=op['start'], stop=op['stop'])
        elif k == 'read':
            _read(ctx, sim.data, win, op, ref)
        elif k == 'derived':
            _derived(tr, ctx, e, sim, win, op, ref)
        elif k == 'readall':
            sim.data.start = sim.data.stop = sim.data.step = None
            got = work.read_all(sim.data)
            bad = work.same_rows(got, ref)
            ctx.check(bad is None, 'content', op=op, **(bad or {}))
        left = work.open_files(folder)
        ctx.check(not left, 'left-open', op=op, files=left)
        ctx.event(k, op.get('name'), work.digest(ref) if ref else '')


def _window(data, win, op):
    nt = data.nt
    data.start = data.stop = None
    start, stop = op['start'], op['stop']
    if stop is not None and stop > nt:
        stop = None
    if start is not None and start >= (nt if stop is None else stop):
        start = None
    data.stop = stop
    data.start = start
    data.step = op['step']
    win.update(start=start, stop=stop, step=op['step'])


def _rows(win, t, nt):
    """Indices of the rows a read must return."""
    d = [0 if win['start'] is None else win['start'],
         nt if win['stop'] is None else win['stop'],
         1 if win['step'] is None else win['step']]
    if t is None:
        t = [None, None, None]
    elif isinstance(t, int):
        t = [t, t + 1, 1]
    a, b, c = [d[i] if t[i] is None else t[i] for i in range(3)]
    return [i for i in range(nt) if i >= a and i < b and (i - a) % c == 0]


def _fit(t, nt, win):
    """A slice of an earlier, longer run: keep it inside this one."""
    if isinstance(t, int):
        return t if t < nt else None
    if t is None:
        return None
    t = list(t)
    if t[0] is not None and t[0] >= nt:
        t[0] = None
    if t[1] is not None and t[1] > nt:
        t[1] = None
    d0 = win['start'] or 0
    d1 = nt if win['stop'] is None else win['stop']
    a = d0 if t[0] is None else t[0]
    b = d1 if t[1] is None else t[1]
    if a >= b:
        return None
    return t


def _read(ctx, data, win, op, ref):
    name, nt = op['name'], data.nt
    t = _fit(op['t'], nt, win)
    idx = _rows(win, t, nt)
    want = ref[name][idx]
    want = want[:, sl(op['v'])] if op['v'] is not None else want
    ts, vs = sl(t), sl(op['v'])
    if op['via'] == 'call':
        got = getattr(data, name)(tslice=ts, vslice=vs)
    elif op['via'] == 'post':
        got = getattr(data, name)(tslice=ts, vslice=vs,
                                  postprocess=lambda v: 2 * v)
        want = 2 * want
    elif vs is None and ts is None:
        got = data[name]
    elif vs is None:
        got = data[name, ts]
    else:
        got = data[name, ts, vs]
    ctx.probe('reads')
    ctx.check(work.same(got, want), 'read', op=op, window=win, t=t,
              got=np.asarray(got).tolist()[:6], want=want.tolist()[:6])


def _derived(tr, ctx, e, sim, win, op, ref):
    data, spec, fs = sim.data, e.spec, e.spec['fs']
    name, nt = op['name'], data.nt
    t = _fit(op['t'], nt, win)
    if nt > 100:
        return
    idx = _rows(win, t, nt)
    r = {k: ref[k][idx] for k in work.ALL}
    ts = sl(t)
    m = e.method(tr['key'])
    exact = False
    if name == 't':
        got, want, exact = data.t(tslice=ts), np.array(idx) / fs, True
    elif name == 'dtx':
        got, want = data.dtx(tslice=ts), r['dx'] * fs
    elif name == 'ps':
        got, want = data.ps(tslice=ts), (r['u'] * r['y']).sum(1)
    elif name in ('dtE', 'dtEd'):
        want = (r['dxH'] * r['dx']).sum(1) * fs
        if name == 'dtEd':
            # the finite difference: only where two samples follow each other
            step = 1 if isinstance(t, int) else (
                t[2] if t and t[2] else (win['step'] or 1))
            if tr['key'] != 'd' or step != 1 or isinstance(t, int):
                return
            got = data.dtE(tslice=ts, DtE='deltaH')
            sc = np.array([abs(e.phys().H(_spec_x(e, m, x)))
                           for x in r['x']]).max() * fs * 1e-12
            ok = np.all(np.abs(got - want) <= 1e-6 * np.abs(want).max() +
                        1e-9 + sc)
            ctx.check(got.shape == want.shape and ok, 'derived', op=op,
                      got=got.tolist()[:8], want=want.tolist()[:8])
            return
        got = data.dtE(tslice=ts)
    elif name == 'a':
        got, want = data.a(tslice=ts), np.hstack([r['dxH'], r['z'], r['u']])
    elif name == 'b':
        got = data.b(tslice=ts)
        want = np.hstack([r['dx'] * fs, r['w'], r['y']])
    elif name == 'args':
        got = data.args(tslice=ts)
        want = np.hstack([r[k] for k in ('x', 'dx', 'w', 'u', 'p')])
    elif name == 'E':
        got = data.E(tslice=ts)
        want = np.array([e.phys().H(_spec_x(e, m, x)) for x in r['x']])
    elif name == 'pd':
        got = data.pd(tslice=ts)
        want = _dissipated(e, m, r)
    elif name == 'o':
        if not spec['o']:
            return
        got = data.o(tslice=ts)
        pr = work.physics_rows(e, m, r)
        want = np.array([e.phys().obs(pr['x'][i], pr['w'][i], pr['p'][i],
                                      pr['u'][i]) for i in range(len(idx))])
        got = np.asarray(got)
        if got.shape != want.shape and got.T.shape == want.shape:
            got = got.T
    got = np.asarray(got)
    ctx.probe('derived')
    scale = np.max(np.abs(want)) if want.size else 0.0
    ok = got.shape == want.shape and (
        np.array_equal(got, want) if exact else
        np.all(np.abs(got - want) <= 1e-9 * scale + 1e-12))
    ctx.check(ok, 'derived', op=op, window=win, t=t, shape=list(got.shape),
              wanted=list(want.shape), got=got.ravel().tolist()[:8],
              want=want.ravel().tolist()[:8])


def _spec_x(e, m, x):
    ix = [list(map(str, m.x)).index(k) for k in e.spec['x']]
    return np.asarray(x)[ix]


def _dissipated(e, m, r):
    pr = work.physics_rows(e, m, r)
    ph, cfg = e.phys(), dict(m.config)
    out = []
    for i in range(len(pr['x'])):
        x, dx, w = pr['x'][i], pr['dx'][i], pr['w'][i]
        p, u = pr['p'][i], pr['u'][i]
        o = ph.obs(x, w, p, u)
        if cfg['grad'] == 'trapez':
            M = 0.5 * (ph.M(x, w, p, o, u) + ph.M(x + dx, w, p, o, u))
        else:
            M = ph.M(x + cfg['theta'] * dx, w, p, o, u)
        R = -0.5 * (M + M.T)
        a = np.concatenate([pr['dxH'][i], pr['z'][i], u])
        out.append(pr['z'][i].dot(w) + a.dot(R.dot(a)))
    return np.array(out)
