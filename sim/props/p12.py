"""P12: a re-configured simulation equals a new one."""
import os
import shutil

import numpy as np

from .. import work

MODELS = ('rlc', 'duff', 'par', 'multi', 'euler', 'obs', 'mod', 'damp',
          'netmka', 'netclip')
KEYS = ('d', 'z')
PLAN = {'quick': dict(runs=80, budget=100),
        'thorough': dict(runs=8000, budget=1500)}
TIMEOUT = 90.0
RULE = ('one run = a simulation taken through 2 to 9 initialisations (valid or '
        'not: inputs, length, parameter values, initial values, numerical and '
        'scheme options, rate, folder, language) with runs, interrupted runs '
        'and reads in between, then compared with a new simulation made with '
        'the final settings in another process; non-trivial = at least one '
        'initialisation changed a setting; distinct by the hash of the history')
STATE = 'hash of (kinds of two consecutive operations, language, scheme)'
REAL = ['pyphs (from /repo)', 'h5py, HDF5', 'file system']
STUB = ['clock (virtual, pinned)', 'C++ tools (exit 0 without building)']
ASSUME = ['the final run of the two simulations uses the same folder path, '
          'one after the other']
NEED = {'rejected': 20, 'final python': 35, 'final c++': 4}

BAD = ('shape', 'key', 'lang', 'grad', 'initname', 'none', 'uwidth', 'ugen',
       'pwidth', 'cfgkey-after')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


def _io(rng, spec, big):
    d = dict(nt=rng.randint(1, big), kind=rng.choice(work.KINDS),
             seed=rng.randrange(10**6), uform=work.forms(len(spec['u']), rng),
             given=rng.choice(['both', 'both', 'both', 'u', 'nt', 'unt']))
    return d


def _change(rng, spec, lang_ok=True):
    c = {}
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = work.pick(rng, fs=3, eps=1, maxit=1, theta=2, grad=2, split=1,
                      epsdg=.4, timer=.3, pbar=.3, path=1.5,
                      lang=1.2 if lang_ok else 0, float=0)
        if k == 'fs':
            c['fs'] = spec['fs'] * rng.choice([0.5, 0.75, 1.0, 1.5, 2.0])
        elif k == 'eps':
            c['eps'] = rng.choice([1e-12, 1e-10, 1e-6])
        elif k == 'maxit':
            c['maxit'] = rng.choice([1, 2, 100, 60])
        elif k == 'theta':
            c['theta'] = rng.choice([0.0, 0.5, 1.0, 0.25])
        elif k == 'grad':
            c['grad'] = rng.choice(['discret', 'theta', 'trapez'])
        elif k == 'split':
            c['split'] = rng.random() < 0.5
        elif k == 'epsdg':
            c['epsdg'] = rng.choice([2.220446049250313e-16, 1e-9])
        elif k == 'path':
            c['path'] = rng.choice(['a', 'b', 'c'])
        elif k == 'lang':
            c['lang'] = rng.choice(['python', 'c++'])
        else:
            c[k] = rng.random() < 0.5
    return c


def gen(rng, pool, tier):
    model = rng.choice(MODELS)
    spec = pool[model].spec
    key = rng.choice(KEYS)
    big = 12 if tier == 'quick' else 40
    if rng.random() < 0.04:
        big = 1100
    tr = dict(model=model, key=key, path='a',
              config=_change(rng, spec, False) if rng.random() < 0.6 else {},
              x0=rng.choice([None, rng.randrange(10**6)]))
    tr['config'].pop('path', None)
    ops = []
    for _ in range(rng.randint(1, 5 if tier == 'quick' else 8)):
        k = work.pick(rng, init=6, bad=2)
        if k == 'bad':
            ops.append(dict(op='bad', what=rng.choice(BAD),
                            io=_io(rng, spec, 8),
                            config=_change(rng, spec)
                            if rng.random() < 0.5 else {},
                            x0=rng.choice([None, rng.randrange(10**6)]),
                            subs=_subs(rng, spec)))
        else:
            ops.append(_init(rng, spec, big, _change(rng, spec)
                             if rng.random() < 0.6 else {}))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(dict(op=work.pick(rng, process=4, partial=1, read=2)))
    last = _init(rng, spec, big, _change(rng, spec)
                 if rng.random() < 0.3 else {})
    # most of the final runs are Python ones
    last['config']['lang'] = 'c++' if rng.random() < 0.17 else 'python'
    if rng.random() < 0.2:
        del last['config']['lang']
    ops.append(last)
    tr['ops'] = ops
    return tr


def _subs(rng, spec):
    if rng.random() < 0.7 or not spec['subs']:
        return {}
    names = rng.sample(sorted(spec['subs']),
                       rng.randint(1, min(2, len(spec['subs']))))
    return {n: float(spec['subs'][n]) * rng.uniform(0.7, 1.4)
            for n in names
            if isinstance(spec['subs'][n], (int, float))}


def _init(rng, spec, big, config):
    x0 = work.pick(rng, no=5, x=3, same=1, none=1, dx=1, both=1)
    return dict(op='init', io=_io(rng, spec, big), config=config,
                inits=x0, x0=rng.randrange(10**6),
                xform=rng.choice(['array', 'list', 'tuple']),
                spoil=rng.random() < 0.5, subs=_subs(rng, spec))


def shrink(tr):
    ops = tr['ops']
    for i in range(len(ops) - 1):
        yield dict(tr, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        def rep(**kw):
            return dict(tr, ops=ops[:i] + [dict(o, **kw)] + ops[i + 1:])
        for k in list(o.get('config', ())):
            yield rep(config={a: b for a, b in o['config'].items() if a != k})
        if o.get('subs'):
            yield rep(subs={})
        if o.get('inits', 'no') != 'no':
            yield rep(inits='no')
        if o.get('io') and o['io']['nt'] > 1:
            yield rep(io=dict(o['io'], nt=max(1, o['io']['nt'] // 2)))
            yield rep(io=dict(o['io'], nt=o['io']['nt'] - 1))
        if o.get('io') and o['io']['given'] != 'both':
            yield rep(io=dict(o['io'], given='both'))
        if o.get('io') and o['io']['uform'] != 'array':
            yield rep(io=dict(o['io'], uform='array'))
    for k in list(tr['config']):
        yield dict(tr, config={a: b for a, b in tr['config'].items()
                               if a != k})
    if tr['x0'] is not None:
        yield dict(tr, x0=None)


# -- execution ---------------------------------------------------------------

CLOCK = dict(mono=10**12, wall=1700000000 * 10**9, step=0)


def _args(spec, io):
    u, p = work.inputs(spec, io['nt'], io['kind'], io['seed'])
    g = io['given']
    if not spec['u'] and g in ('u', 'both'):
        g = 'nt'
    if g == 'nt':
        return dict(nt=io['nt'])
    u = work.as_form(u, io['uform'])
    if g == 'unt' or io['uform'] == 'gen':
        a = dict(u=u, nt=io['nt'])
        if g == 'both':
            a['p'] = p
        return a
    return dict(u=u) if g == 'u' else dict(u=u, p=p)


def _form(a, form):
    return (np.array(a) if form == 'array' else
            [float(v) for v in a] if form == 'list' else
            tuple(float(v) for v in a))


def _cfg(folder, c):
    c = dict(c)
    if 'path' in c:
        c['path'] = os.path.join(folder, c['path'])
    if c.get('lang') == 'c++':
        c['cmake'] = '/bin/true'
    return c


def _symsubs(method, subs):
    by = {str(s): s for s in method.subs}
    return {by[n]: v for n, v in subs.items()}


class Stop(Exception):
    pass


def _bad(spec, method, op):
    """Keyword arguments of an initialisation that has to be refused."""
    what = op['what']
    kw = _args(spec, op['io'])
    cfg = dict(op['config'])
    inits = None if op['x0'] is None else {'x': work.state(spec, op['x0'])}
    nx = len(spec['x'])
    if what == 'shape':
        inits = {'x': np.ones(nx + 1)}
        cfg['lang'] = 'python'
    elif what == 'key':
        cfg = dict({'no_such_key': 1}, **cfg)
    elif what == 'cfgkey-after':
        cfg = dict(cfg, no_such_key=1)
    elif what == 'lang':
        cfg['lang'] = 'fortran'
    elif what == 'grad':
        cfg['grad'] = 'nothing'
    elif what == 'initname':
        inits = dict(inits or {}, no_such_name=[1.0])
        cfg['lang'] = 'python'
    elif what == 'none':
        kw = {}
    elif what == 'uwidth':
        kw = dict(u=np.ones((3, len(spec['u']) + 2)))
    elif what == 'pwidth':
        kw = dict(u=np.ones((3, len(spec['u']))),
                  p=np.ones((3, len(spec['p']) + 2)))
    elif what == 'ugen':
        def g():
            yield np.zeros(len(spec['u']))
            raise Stop('input')
        kw = dict(u=g(), nt=4)
    kw.update(config=cfg, inits=inits,
              subs=_symsubs(method, op['subs']) if op['subs'] else None)
    return kw


class Ledger:
    """What the settings amount to."""

    def __init__(self, tr):
        self.config = dict(tr['config'])
        self.config['path'] = tr['path']
        self.inits = {}
        self.subs = {}
        self.last = None

    def apply(self, op, inits):
        self.config.update(op['config'])
        self.subs.update(op['subs'])
        for k, v in (inits or {}).items():
            self.inits[k] = None if v is None else [float(a) for a in v]
        self.last = op['io']


def _scheme(spec, cfg):
    """Models whose structure moves with the state stay solvable."""
    return cfg


def execute(tr, ctx):
    e = ctx.pool[tr['model']]
    spec = e.spec
    folder = os.path.join(ctx.dir, 'f')

    def make(sim_config, inits):
        from pyphs import Simulation
        return Simulation(e.fresh(tr['key']), config=_cfg(folder, sim_config),
                          inits=inits)

    def result(sim):
        """Process and give everything observable."""
        lang = sim.config['lang']
        err = None
        if lang == 'python':
            sim.process()
            rows = work.read_all(sim.data)
            return dict(lang=lang, rows=rows, nt=sim.data.nt,
                        file=os.path.relpath(sim.data.h5path, folder)
                        if hasattr(sim.data, 'h5path') else None)
        try:
            sim.process()
        except Exception as ex:                 # noqa
            err = type(ex).__name__
        t = work.calm_tree(ctx, sim.cpp_path)
        t.pop('build.log', None)
        return dict(lang=lang, tree=t, err=err, nt=sim.data.nt,
                    rows={n: work.read_all(sim.data, (n,))[n]
                          for n in ('u', 'p')})

    def public(sim):
        c = {k: v for k, v in sim.config.items()
             if k not in ('nt', 'load', 'dtype')}
        c['path'] = os.path.relpath(c['path'], folder)
        return {k: repr(c[k]) for k in sorted(c)}

    def history():
        os.makedirs(folder)
        led = Ledger(tr)
        inits = None
        if tr['x0'] is not None:
            inits = {'x': work.state(spec, tr['x0'])}
            led.inits['x'] = [float(v) for v in inits['x']]
        cfg = dict(tr['config'], path=tr['path'])
        sim = make(cfg, inits)
        prev = 'new'
        ready = False
        for op in tr['ops'][:]:
            k = op['op']
            ctx.state(prev, k, op.get('what'), sorted(op.get('config', ())),
                      sim.config['lang'], sim.config['grad'])
            prev = k
            if k == 'init':
                inits = None
                x = work.state(spec, op['x0'])
                if op['inits'] == 'x':
                    inits = {'x': _form(x, op['xform'])}
                elif op['inits'] == 'same' and led.inits.get('x'):
                    inits = {'x': _form(led.inits['x'], op['xform'])}
                elif op['inits'] == 'none':
                    inits = {'x': None}
                elif op['inits'] == 'dx':
                    inits = {'dx': _form(x / 10, op['xform'])}
                elif op['inits'] == 'both':
                    inits = {'x': _form(x, op['xform']),
                             'dx': _form(x / 10, op['xform'])}
                led.apply(op, inits)
                kw = _args(spec, op['io'])
                cfg = _cfg(folder, op['config'])
                sim.init(config=cfg or None, inits=inits,
                         subs=_symsubs(sim.method, op['subs'])
                         if op['subs'] else None, **kw)
                if op['spoil']:
                    # what the caller gave is the caller's again
                    for o in list((inits or {}).values()) + [kw.get('u')]:
                        if isinstance(o, np.ndarray):
                            o[...] = 77.0
                    cfg.clear()
                    if inits:
                        inits.clear()
                ready = True
                ctx.event('init', sorted(op['config']), sim.data.nt)
            elif k == 'bad':
                kw = _bad(spec, sim.method, op)
                kw['config'] = _cfg(folder, kw['config'])
                try:
                    sim.init(**kw)
                except Exception as ex:         # noqa
                    ctx.event('refused', op['what'], type(ex).__name__)
                    ctx.probe('rejected')
                    ctx.fault('invalid settings: ' + op['what'])
                else:
                    ctx.violate('accepted', what=op['what'],
                                config=sorted(op['config']))
                ready = False
            elif not ready or sim.config['lang'] != 'python':
                continue
            elif k == 'process':
                sim.process()
                ctx.event('process')
                ready = False       # a second one continues: not compared
            elif k == 'partial':
                # the run stops in the middle
                real, n = sim.nums.update, [0]

                def update(*a, **b):
                    n[0] += 1
                    if n[0] > max(1, sim.data.nt // 2):
                        raise Stop('step')
                    return real(*a, **b)
                sim.nums.update = update
                try:
                    sim.process()
                except Stop:
                    ctx.fault('interrupted run')
                finally:
                    del sim.nums.__dict__['update']
                ready = False
            elif k == 'read':
                work.read_all(sim.data, ('u', 'x', 'y'))
        out = result(sim)
        out['config'] = public(sim)
        return out, led

    def fresh():
        os.makedirs(folder)
        cfg = dict(led.config)
        m = None
        if led.subs:
            from pyphs import Simulation
            core = e.core.__copy__()
            core.subs.update(_symsubs(core, led.subs))
            m = core.to_method(config=dict(work.METHODS[tr['key']]))
            sim = Simulation(m, config=_cfg(folder, cfg),
                             inits=dict(led.inits) or None)
        else:
            sim = make(cfg, dict(led.inits) or None)
        sim.init(**_args(spec, led.last))
        out = result(sim)
        out['config'] = public(sim)
        return out

    got, led = ctx.proc(history, clock=CLOCK).value
    os.rename(folder, folder + '.old')
    want = ctx.proc(fresh, clock=CLOCK).value
    shutil.rmtree(folder)
    ctx.check(got['lang'] == want['lang'] and got['nt'] == want['nt'],
              'settings', got=[got['lang'], got['nt']],
              want=[want['lang'], want['nt']])
    gc, wc = dict(got['config']), dict(want['config'])
    for c in (gc, wc):
        c.pop('cmake')          # the stub is only named with C++
    ctx.check(gc == wc, 'configuration',
              differ={k: [gc.get(k), wc.get(k)] for k in wc
                      if gc.get(k) != wc[k]})
    bad = work.same_rows(got['rows'], want['rows'],
                         [n for n in work.ALL if n in want['rows']])
    ctx.check(bad is None, 'rows', **(bad or {}))
    if want['lang'] == 'c++':
        ctx.probe('final c++')
        ctx.check(got['err'] == want['err'], 'error', got=got['err'],
                  want=want['err'])
        a, b = got['tree'], want['tree']
        ctx.check(sorted(a) == sorted(b), 'source-files', got=sorted(a),
                  want=sorted(b))
        for f in sorted(b):
            if a[f] != b[f]:
                la, lb = a[f].split(b'\n'), b[f].split(b'\n')
                i = [i for i, (s, t) in enumerate(zip(la, lb)) if s != t]
                i = i[0] if i else min(len(la), len(lb)) - 1
                ctx.violate('source', file=f, line=i + 1,
                            got=la[i].decode('utf8', 'replace')[:300],
                            want=lb[i].decode('utf8', 'replace')[:300])
        ctx.event('c++', sorted(b))
    else:
        ctx.probe('final python')
        ctx.event('rows', work.digest(got['rows']))
    ctx.simtime += got['nt'] / float(led.config.get('fs', 48e3))
