"""P09: results do not depend on clocks, timers or verbosity."""
import os
import re
import shutil
import sys

import numpy as np

from .. import exports, models, work
from .p08 import FAUST, _keep

MODELS = ('rlc', 'duff', 'par', 'obs', 'damp', 'netrlc', 'netmka')
KEYS = ('d', 'z')
PLAN = {'quick': dict(runs=75, budget=100),
        'thorough': dict(runs=8000, budget=1500)}
TIMEOUT = 90.0
RULE = ('one run = 1 to 5 operations (build, simulate, export, save) executed '
        'on a regular clock without any display, and again on a seeded clock '
        '(start, rate, frozen, forward and backward jumps at chosen readings) '
        'with seeded display options and file dates; non-trivial = the clock '
        'was read or a display option was on; distinct by the hash of the '
        'history')
STATE = 'hash of (operation, display options, kind of clock, jumps met)'
REAL = ['pyphs (from /repo)', 'progressbar', 'h5py, HDF5']
STUB = ['wall clock, monotonic clock, sleep (LD_PRELOAD)',
        'modification times of earlier files', 'C++ tools (scripts)']
ASSUME = ['the wall clock does not read exactly 0 s after the epoch '
          '(the progressbar package then takes the time for unset)',
          'the date written in the header of generated files is masked',
          'the dates make(1) compares are outside: the C++ tools are stubs']
NEED = {'clock jump': 50, 'progress bar': 30, 'timer': 30}
DATE = re.compile(rb'-?\d{1,6}/\d\d/\d\d \d\d:\d\d:\d\d')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS, derived=True)
    d = os.path.join(os.environ['VERIF_BASE'], 'warm')
    pool = {n: exports.Source(e) for n, e in pool.items()}
    os.makedirs(d)
    for n in ('rlc', 'netrlc'):
        exports.run(pool[n], dict(exp='faust', x0=None, nit=1), d, d)
        exports.run(pool[n], dict(exp='cpp', x0=None, fs=None, obj=None,
                                  key='d'), d, d)
    shutil.rmtree(d)
    return pool


def gen(rng, pool, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        model = rng.choice(MODELS)
        spec = pool[model].spec
        k = work.pick(rng, sim=5, export=3.5, build=1.2, save=.8)
        o = dict(op=k, model=model)
        if k == 'sim':
            o.update(nt=rng.choice([1, 2, rng.randint(3, 30),
                                    rng.randint(3, 30)]),
                     kind=rng.choice(work.KINDS),
                     seed=rng.randrange(10**6), key=rng.choice(KEYS),
                     timer=rng.random() < 0.6, pbar=rng.random() < 0.6,
                     how=rng.choice(['ctor', 'init']))
        elif k == 'export':
            if rng.random() < 0.35:
                o['model'] = model = rng.choice(FAUST)
                name = 'faust'
            else:
                name = rng.choice([n for n in exports.EXPS if n != 'faust' and
                                   exports.usable(n, pool[model])])
            o['o'] = dict(exports.opts(rng, name, spec), model=model)
        ops.append(o)
    c = work.pick(rng, plain=1, jumps=5, frozen=1.5, slow=2)
    # (at 0 exactly, the progressbar package takes the time for unset)
    wall = rng.choice([1, 10**9, 1700000000, 2147483640, 4294967290,
                       7 * 10**9])
    clock = dict(mono=rng.choice([0, 10**9, 10**15]), wall=wall * 10**9,
                 step=0 if c == 'frozen' else
                 int(10 ** rng.uniform(6, 10.5)) if c == 'slow' else
                 int(10 ** rng.uniform(0, 7)), jumps=[])
    if c in ('jumps', 'slow') and rng.random() < (1 if c == 'jumps' else .5):
        for _ in range(rng.randint(1, 6)):
            amount = int(10 ** rng.uniform(0, 8.5)) * 10**9
            clock['jumps'].append([
                int(10 ** rng.uniform(0, rng.choice([1, 2, 3]))) - 1,
                # the monotonic clock never goes back
                rng.choice([0, amount]) if rng.random() < 0.7 else 0,
                rng.choice([-1, -1, 1]) * amount])
        clock['jumps'].sort()
    return dict(ops=ops, clock=clock, style=c, verbose=rng.randrange(4),
                old=rng.choice([None, None, 'future', 'past']))


def shrink(tr):
    ops = tr['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(tr, ops=ops[:i] + ops[i + 1:])
    j = tr['clock']['jumps']
    for i in range(len(j)):
        yield dict(tr, clock=dict(tr['clock'], jumps=j[:i] + j[i + 1:]))
    if tr['verbose']:
        yield dict(tr, verbose=0)
    if tr['old']:
        yield dict(tr, old=None)
    for i, o in enumerate(ops):
        for k in ('timer', 'pbar'):
            if o.get(k):
                yield dict(tr, ops=ops[:i] + [dict(o, **{k: False})] +
                           ops[i + 1:])
        if o.get('nt', 1) > 1:
            yield dict(tr, ops=ops[:i] + [dict(o, nt=o['nt'] // 2)] +
                       ops[i + 1:])


def _verbose(v):
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] == 'pyphs' and hasattr(m, 'VERBOSE'):
            m.VERBOSE = v


def _sig(core):
    return [str(core.x), str(core.H), str(core.w), str(core.z), str(core.u),
            str(core.p), str(core.M), repr(sorted((str(k), str(v)) for k, v in
                                                  core.subs.items()))]


def execute(tr, ctx):
    root = os.path.join(ctx.dir, 't')
    aux = ctx.mkdir('aux')

    def work_list(odd):
        import pyphs
        _verbose(tr['verbose'] if odd else 0)
        out = []
        for i, o in enumerate(tr['ops']):
            e = ctx.pool[o['model']]
            folder = os.path.join(root, 'o%d' % i)
            if not os.path.exists(folder):
                os.makedirs(folder)
            if o['op'] == 'build':
                if e.name.startswith('net'):
                    core = models.build_netlist_core(pyphs, e.name, aux)
                else:
                    core = models.build_core(pyphs, e.name, e.spec)
                m = core.to_method()
                out.append(_sig(core) + [str(m.args()), str(m.jactempF())
                                         if callable(m.jactempF) else
                                         str(m.jactempF)])
            elif o['op'] == 'save':
                c = e.core.__copy__()
                c.save(folder, 'saved')
                d = pyphs.Core()
                d.load(folder, 'saved')
                out.append(_sig(d))
            elif o['op'] == 'sim':
                show = dict(timer=o['timer'], pbar=o['pbar']) if odd else {}
                sim = pyphs.Simulation(e.method(o['key']), config=dict(
                    path=folder, fs=e.spec['fs'],
                    **(show if o['how'] == 'ctor' else {})))
                u, p = work.inputs(e.spec, o['nt'], o['kind'], o['seed'])
                kw = dict(u=u) if e.spec['u'] else {}
                sim.init(p=p, nt=o['nt'], config=show
                         if o['how'] == 'init' else None, **kw)
                sim.process()
                out.append([work.digest(work.read_all(sim.data)),
                            float(np.sum(sim.data.E())),
                            float(np.sum(sim.data.t()))])
                if odd and o['pbar'] and tr['verbose']:
                    ctx.probe('progress bar')
                if odd and o['timer']:
                    ctx.probe('timer')
            else:
                exports.run(e, o['o'], folder, aux)
                t = _keep(o['o']['exp'], work.calm_tree(ctx, folder))
                out.append({k: DATE.sub(b'DATE', v)
                            for k, v in sorted(t.items())})
        return out

    regular = dict(mono=10**12, wall=1600000000 * 10**9, step=1000)
    want = ctx.proc(lambda: work_list(False), clock=regular).value
    shutil.rmtree(root)
    shutil.rmtree(aux)
    os.mkdir(aux)
    if tr['old']:
        # files of an earlier, different use of the same folders
        def earlier():
            import pyphs
            for i, o in enumerate(tr['ops']):
                e = ctx.pool[o['model']]
                folder = os.path.join(root, 'o%d' % i)
                os.makedirs(folder)
                if o['op'] == 'export':
                    p = dict(o['o'], x0=12345)
                    if 'fs' in p:
                        p['fs'] = 22050.0
                    exports.run(e, p, folder, aux)
                elif o['op'] == 'sim':
                    sim = pyphs.Simulation(e.method(o['key']), config=dict(
                        path=folder, fs=e.spec['fs'] * 2))
                    sim.init(nt=5)
                    sim.process()
                elif o['op'] == 'save':
                    ctx.pool['rlc'].core.__copy__().save(
                        folder, 'saved')
        ctx.proc(earlier, clock=regular)
        at = 4000000000 if tr['old'] == 'future' else 1000
        for d, ds, fs in os.walk(root):
            for f in fs + ds:
                os.utime(os.path.join(d, f), (at, at))
        shutil.rmtree(aux)
        os.mkdir(aux)
        ctx.fault('file dates in the ' + tr['old'])
    r = ctx.proc(lambda: work_list(True), clock=tr['clock'],
                 expect=('ok', 'exc'))
    if r.status == 'exc':
        ctx.violate('raised', exc=r.exc, tb=r.tb[-1500:], style=tr['style'],
                    verbose=tr['verbose'])
    if r.clock['jumped']:
        ctx.fault('clock jump', r.clock['jumped'])
    if tr['style'] in ('frozen', 'slow'):
        ctx.fault(tr['style'] + ' clock')
    for i, (a, b) in enumerate(zip(r.value, want)):
        o = tr['ops'][i]
        ctx.state(o['op'], o.get('o', {}).get('exp'), o.get('timer'),
                  o.get('pbar'), tr['verbose'], tr['style'],
                  min(r.clock['jumped'], 3), tr['old'])
        if isinstance(b, dict):
            if tr['old']:
                a = {k: v for k, v in a.items() if k in b}
            bad = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            if bad:
                x, y = a.get(bad[0], b''), b.get(bad[0], b'')
                k = next((k for k, (s, t) in enumerate(zip(x, y)) if s != t),
                         min(len(x), len(y)))
                ctx.violate('export-differs', file=bad[0], op=o,
                            got=repr(x[max(0, k - 60):k + 80]),
                            want=repr(y[max(0, k - 60):k + 80]))
        else:
            ctx.check(a == b, 'result-differs', op=o, got=str(a)[:400],
                      want=str(b)[:400])
    limit = 1.0 * len(tr['ops'])
    ctx.check(r.clock['slept'] <= limit * 1e9, 'waits',
              slept=r.clock['slept'] / 1e9)
    ctx.event('result', repr(sorted(map(str, want)))[:2000],
              r.clock['jumped'])
    ctx.simtime += r.clock['slept'] / 1e9
