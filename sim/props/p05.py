"""P05: the compiled C++ simulation agrees with the Python one."""
import os

import numpy as np

from .. import models, work
from ..seam import FATAL, Seam

MODELS = ('rlc', 'duff', 'par', 'multi', 'euler', 'obs', 'mod', 'damp',
          'netrlc', 'netmka', 'netclip')
KEYS = ('d',)
PLAN = {'quick': dict(runs=56, budget=130),
        'thorough': dict(runs=1600, budget=2400)}
TIMEOUT = 180.0
RULE = ('one run = one model (pool or random), a history of 1 to 3 '
        'init/process rounds on one C++ simulation object (inputs, lengths, '
        'initial values, parameters, sample rate, scheme, solver options), '
        'built with the real tools and compared after every round with a new '
        'Python simulation; in some runs storage faults strike the running '
        'program; non-trivial = every run; distinct by the hash of the '
        'recorded history')
STATE = 'hash of (model, scheme, change made, round, fault kind)'
REAL = ['pyphs code generators and Simulation (from /repo)', 'cmake, g++, '
        'Eigen, HDF5 C++', 'the compiled program']
STUB = ['storage calls of the compiled program (LD_PRELOAD seam)']
ASSUME = ['agreement to 1e-6 of the largest value of each quantity']
NEED = {'compared': 50}


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


def _change(rng, spec, first):
    ch = dict(nt=rng.randint(1, 25), kind=rng.choice(work.KINDS),
              seed=rng.randrange(10**6))
    n = rng.choice([0, 1, 1, 2])
    for k in rng.sample(['x0', 'fs', 'scheme', 'subs', 'dx0', 'solver'], n):
        if k == 'x0':
            ch['x0'] = rng.randrange(10**6)
        elif k == 'dx0':
            ch['dx0'] = rng.randrange(10**6)
        elif k == 'fs':
            ch['fs'] = spec['fs'] * rng.choice([0.5, 1.5, 2.0])
        elif k == 'scheme':
            ch['cfg'] = rng.choice([
                {'theta': 0.5}, {'grad': 'trapez'}, {'theta': 0.0},
                {'grad': 'theta', 'theta': 0.5}, {'grad': 'discret'},
                {'grad': 'theta', 'theta': 0.25}] +
                ([{'split': False}] if len(spec['x']) + len(spec['w']) < 4
                 else []))
        elif k == 'solver':
            ch['solver'] = rng.choice([{'maxit': 60}, {'eps': 1e-11},
                                       {'maxit': 1}, {'eps': 1e-3}])
        elif k == 'subs' and spec['subs']:
            names = sorted(k for k, v in spec['subs'].items()
                           if isinstance(v, (int, float)))
            n = rng.choice(names)
            ch['subs'] = {n: spec['subs'][n] * rng.uniform(0.7, 1.4)}
    return ch


def gen(rng, pool, tier):
    if rng.random() < 0.3:
        model, spec = 'random', models.random_spec(rng)
    else:
        model = rng.choice(MODELS)
        spec = pool[model].spec
    rounds = [_change(rng, spec, i == 0) for i in range(rng.randint(1, 3))]
    tr = dict(model=model, rounds=rounds, faults=[])
    if model == 'random':
        tr['spec'] = spec
    if rng.random() < 0.4:
        last = rounds[-1]['nt'] + 3
        tr['faults'] = [dict(at=rng.randint(1, last), kind=rng.choice(
            ['EIO', 'ENOSPC', 'SHORT', 'EINTR', 'CRASH', 'TORN',
             'CRASH_AFTER', 'FULL', 'FULL', 'FULL']),
            arg=rng.randint(0, 600)) for _ in range(rng.choice([1, 1, 2]))]
    return tr


def shrink(tr):
    r = tr['rounds']
    for i in range(len(r)):
        if len(r) > 1:
            yield dict(tr, rounds=r[:i] + r[i + 1:])
    if tr['faults']:
        yield dict(tr, faults=[])
    for i, c in enumerate(r):
        for k in ('x0', 'dx0', 'fs', 'cfg', 'solver', 'subs'):
            if k in c:
                d = dict(c)
                del d[k]
                yield dict(tr, rounds=r[:i] + [d] + r[i + 1:])
        if c['nt'] > 1:
            yield dict(tr, rounds=r[:i] + [dict(c, nt=c['nt'] // 2)] +
                       r[i + 1:])


def _settings(rounds, upto, spec):
    s = dict(fs=spec['fs'], cfg={}, subs={}, x0=None, dx0=None)
    for c in rounds[:upto + 1]:
        for k in ('fs', 'x0', 'dx0'):
            if k in c:
                s[k] = c[k]
        for k in ('cfg', 'solver'):
            s['cfg'].update(c.get(k, {}))
        s['subs'].update(c.get('subs', {}))
        s.update(nt=c['nt'], kind=c['kind'], seed=c['seed'])
    return s


def _symbols(method, subs):
    return {[k for k in method.subs if str(k) == n][0]: v
            for n, v in subs.items()}


def _inits(spec, s):
    out = {}
    if s.get('x0') is not None:
        out['x'] = work.state(spec, s['x0'])
    if s.get('dx0') is not None:
        out['dx'] = 0.1 * work.state(spec, s['dx0'])
    return out


def execute(tr, ctx):
    if tr['model'] == 'random':
        spec = tr['spec']
        import pyphs
        core = models.build_core(pyphs, 'random', spec)
        e = work.Entry('random', spec, core)
    else:
        e = ctx.pool[tr['model']]
        spec = e.spec
    refs = []
    for i in range(len(tr['rounds'])):
        s = _settings(tr['rounds'], i, spec)

        def python(s=s, i=i):
            from pyphs import Simulation
            m = e.fresh('d')
            m.subs.update(_symbols(m, s['subs']))
            cfg = dict(path=ctx.mkdir('py%d' % i), fs=s['fs'])
            cfg.update(s['cfg'])
            sim = Simulation(m, config=cfg, inits=_inits(spec, s))
            u, p = work.inputs(spec, s['nt'], s['kind'], s['seed'])
            sim.init(u=u, p=p, nt=s['nt'])
            sim.process()
            ctx.simtime += s['nt'] / s['fs']
            return work.read_all(sim.data)
        refs.append(ctx.proc(python).value)
    folder = ctx.mkdir('cpp')

    def cpp():
        from pyphs import Simulation
        sim = Simulation(e.fresh('d'), config=dict(
            path=folder, fs=spec['fs'], lang='c++'))
        for i, c in enumerate(tr['rounds']):
            u, p = work.inputs(spec, c['nt'], c['kind'], c['seed'])
            cfg = dict(c.get('cfg', {}), **c.get('solver', {}))
            if 'fs' in c:
                cfg['fs'] = c['fs']
            kw = dict(u=u, p=p, nt=c['nt'], inits=_inits(spec, c) or None,
                      config=cfg or None, subs=_symbols(
                          sim.method, c['subs']) if 'subs' in c else None)
            sim.init(**kw)
            last = i == len(tr['rounds']) - 1
            if last and tr['faults']:
                outcome = _faulty(tr, ctx, sim, folder)
                ctx.event('faulty', outcome)
                if outcome[0] == 'raised':
                    ctx.check(any(k not in ('SHORT', 'EINTR')
                                  for k, _ in outcome[1]),
                              'error-without-fault', outcome=outcome)
                    # the disk works again
                    sim.init(u=u, p=p, nt=c['nt'])
                    sim.process()
            else:
                sim.process()
            _compare(ctx, i, sim, refs[i], c)
            ctx.state(tr['model'], sorted(k for k in c if k not in
                                          ('nt', 'kind', 'seed')), i,
                      repr(c.get('cfg')))
    ctx.proc(cpp, root=folder)
    ctx.event('done', [work.digest(r) for r in refs])


def _compare(ctx, i, sim, ref, c):
    got = work.read_all(sim.data)
    for n in ('u', 'p'):
        ctx.check(work.same(got[n], ref[n]), 'inputs', name=n, round=i)
    fin = all(np.all(np.isfinite(v)) for v in ref.values())
    if not fin:
        ctx.probe('not finite ' + repr(c))
        return
    bad = work.close_rows(got, ref, rtol=1e-6, atol=1e-9)
    ctx.check(bad is None, 'disagreement', round=i, change=c, **(bad or {}))
    ctx.probe('compared')


def _faulty(tr, ctx, sim, folder):
    """Process with the compiled program under the seam."""
    ctl = os.path.join(ctx.dir, 'exe.ctl')
    sm = Seam(ctl)
    sm.plan(os.path.join(folder, 'data'), tr['faults'])
    sm.on()
    os.environ['LD_PRELOAD'] = os.environ['VERIF_SHIM_LIB']
    os.environ['VERIF_SHIM_CTL'] = ctl
    try:
        sim.process()
        res = 'returned'
    except Exception as ex:                     # noqa
        res = 'raised'
        name = type(ex).__name__
        ctx.event('error', name)
    finally:
        del os.environ['LD_PRELOAD'], os.environ['VERIF_SHIM_CTL']
    fired = sm.fired()
    for k, _ in fired:
        ctx.fault('program:' + k)
    ctx.probe('program under faults')
    ctx.probe('seam operations of the program', int(sm.c.nops))
    sm.close()
    if res == 'returned' and fired and any(
            k in FATAL + ('EIO', 'ENOSPC') for k, _ in fired):
        ctx.probe('returned in spite of a fault')
    return [res, fired]
