"""P03: simulations alive in one program do not influence each other."""
import copy
import os

import numpy as np

from .. import work
from ..threads import Baton

MODELS = ('rlc', 'duff', 'par', 'obs', 'mod', 'netrlc')
KEYS = ('d', 'z')
PLAN = {'quick': dict(runs=90, budget=120),
        'thorough': dict(runs=5000, budget=1500)}
TIMEOUT = 90.0
RULE = ('one run = 2 to 4 simulations (same method object, same core, or other '
        'model; other folder, sample rate, scheme, inputs, initial values), '
        'each with its own list of operations, executed alone and then '
        'interleaved by a seeded order, or in threads switched at seeded lines '
        'of pyphs; non-trivial = at least one switch between simulations; '
        'distinct by the hash of the recorded history')
STATE = ('hash of (mode, sharing, kinds of two consecutive operations of '
         'different simulations) or of (line parked at, line resumed at)')
REAL = ['pyphs (from /repo)', 'h5py, HDF5', 'CPython-level threads of PyPy']
STUB = ['thread scheduler (baton at traced lines)', 'clock (virtual)']
ASSUME = ['threads are preempted between lines of pyphs, not inside sympy, '
          'numpy or h5py calls',
          'values given to init(subs=) are a change of the method itself, so '
          'only simulations with their own method object use it']

USES = ('to_method', 'to_evaluation', 'copy-edit', 'add', 'to_numeric',
        'core-simulation', 'to_cpp', 'substitute-copy')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS, derived=True)
    return pool


def _actor(rng, pool, i, model, share, thr, big):
    spec = pool[model].spec
    key = 'd' if share == 'method' else rng.choice(KEYS)
    a = dict(model=model, share=share, key=key, dir='s%d' % i,
             fs=rng.choice([1.0, 1.0, 0.5, 2.0]),
             x0=rng.choice([None, rng.randrange(10**6)]),
             load=rng.random() < 0.25,
             scheme=rng.choice([None, None, 'h', 't'])
             if share != 'own' and not thr else None)
    ops = [dict(op='build')]

    def init():
        op = dict(op='init', nt=rng.randint(1, big),
                  kind=rng.choice(work.KINDS), seed=rng.randrange(4),
                  uform=work.forms(len(spec['u']), rng),
                  x0=rng.choice([None, rng.randrange(10**6)]), config={},
                  subs=None)
        r = rng.random()
        if thr:
            return op
        if r < 0.15:
            op['config'] = {'fs': spec['fs'] * rng.choice([0.5, 1.0, 1.5])}
        elif r < 0.25:
            op['config'] = rng.choice([{'maxit': 50}, {'eps': 1e-11},
                                       {'timer': True}, {'theta': 0.5}])
        elif r < 0.4 and share == 'own' and spec['subs']:
            n = rng.choice(sorted(spec['subs']))
            op['subs'] = {n: spec['subs'][n] * rng.uniform(0.7, 1.4)}
        return op
    ops.append(init())
    n = rng.randint(2, 4) if thr else rng.randint(2, 6)
    done = False
    for _ in range(n):
        k = work.pick(rng, process=3, read=3, derived=1,
                      window=0 if thr else 1, init=0.6,
                      use=0.4 if thr else 1.2)
        if k == 'init':
            ops.append(init())
            done = False
        elif k == 'process':
            if not done:
                ops.append(dict(op='process'))
                done = True
        elif k == 'read':
            ops.append(dict(op='read', name=rng.choice(work.ALL)))
        elif k == 'derived':
            ops.append(dict(op='derived', name=rng.choice(
                ['E', 'pd', 'dtE', 'ps', 't', 'o'])))
        elif k == 'window':
            ops.append(dict(op='window', start=rng.randrange(4),
                            step=rng.choice([1, 2, 3])))
        else:
            ops.append(dict(op='use', what=rng.choice(USES)))
    if not done:
        ops.append(dict(op='process'))
    ops.append(dict(op='readall'))
    a['ops'] = ops
    return a


def gen(rng, pool, tier):
    thr = rng.random() < 0.35
    n = rng.randint(2, 3 if thr else 4)
    base = rng.choice(MODELS)
    big = 8 if tier == 'quick' else 25
    actors = []
    for i in range(n):
        model = base if rng.random() < 0.75 else rng.choice(MODELS)
        share = rng.choice(['method', 'method', 'core', 'own'])
        actors.append(_actor(rng, pool, i, model, share, thr, big))
    tr = dict(actors=actors, mode='threads' if thr else 'merge')
    if thr:
        tr['plan'] = [[int(10 ** rng.uniform(0, rng.choice([2, 3.5, 4.6]))),
                       rng.randrange(3)] for _ in range(rng.randint(3, 120))]
    else:
        left = [len(a['ops']) for a in actors]
        order = []
        while any(left):
            i = rng.choice([j for j in range(n) if left[j]])
            left[i] -= 1
            order.append(i)
        tr['order'] = order
    return tr


def shrink(tr):
    n = len(tr['actors'])
    if n > 2:
        for i in range(n):
            acts = tr['actors'][:i] + tr['actors'][i + 1:]
            out = dict(tr, actors=acts)
            if tr['mode'] == 'merge':
                out['order'] = [j - (j > i) for j in tr['order'] if j != i]
            yield out
    if tr['mode'] == 'threads':
        p = tr['plan']
        if len(p) > 1:
            yield dict(tr, plan=p[:len(p) // 2])
            yield dict(tr, plan=p[:-1])
            for i in range(min(len(p) - 1, 20)):
                q = p[:i] + [[p[i][0] + p[i + 1][0], p[i + 1][1]]] + p[i + 2:]
                yield dict(tr, plan=q)
    for i, a in enumerate(tr['actors']):
        for k in range(len(a['ops']) - 1, 0, -1):
            acts = list(tr['actors'])
            acts[i] = dict(a, ops=a['ops'][:k] + a['ops'][k + 1:])
            out = dict(tr, actors=acts)
            if tr['mode'] == 'merge':
                seen, order = -1, []
                for j in tr['order']:
                    if j == i:
                        seen += 1
                        if seen == k:
                            continue
                    order.append(j)
                out['order'] = order
            yield out
        for k, v in (('load', False), ('scheme', None), ('x0', None),
                     ('fs', 1.0)):
            if a[k] != v:
                acts = list(tr['actors'])
                acts[i] = dict(a, **{k: v})
                yield dict(tr, actors=acts)


# -- one simulation ----------------------------------------------------------

class Actor:

    def __init__(self, a, pool, folder, shared):
        self.a, self.e, self.folder = a, pool[a['model']], folder
        self.pool = pool
        self.shared = shared
        self.sim = None
        self.out = []
        self.mine = None

    def method(self):
        if self.a['share'] == 'method':
            return self.e.method(self.a['key'])
        return self.e.fresh(self.a['key'])

    def step(self, op):
        try:
            r = self._step(op)
        except Exception as ex:                 # noqa
            r = 'raised %s: %s' % (type(ex).__name__, str(ex)[:120])
            r = r.replace(self.folder, '')
        self.out.append([op['op'], r])

    def _step(self, op):
        a, spec, k = self.a, self.e.spec, op['op']
        if k == 'build':
            from pyphs import Simulation
            cfg = dict(path=os.path.join(self.folder, a['dir']),
                       fs=spec['fs'] * a['fs'])
            if a['scheme']:
                cfg.update(work.METHODS[a['scheme']])
            if a['load']:
                cfg['load'] = self.shared['load']
            inits = None if a['x0'] is None else \
                {'x': work.state(spec, a['x0'])}
            self.keep(cfg=cfg, inits=inits)
            self.sim = Simulation(self.method(), config=cfg, inits=inits)
            return self.sim.config['fs']
        sim = self.sim
        if k == 'init':
            u, p = self.shared['io'](a['model'], op)
            inits = None if op['x0'] is None else \
                {'x': work.state(spec, op['x0'])}
            cfg = dict(op['config']) or None
            subs = None
            if op['subs']:
                subs = {[s for s in sim.method.subs if str(s) == n][0]: v
                        for n, v in op['subs'].items()}
            self.keep(cfg=cfg, inits=inits, subs=subs)
            sim.init(u=work.as_form(u, op['uform']) if op['uform'] != 'array'
                     else u, p=p, nt=op['nt'], inits=inits, config=cfg,
                     subs=subs)
            return [sim.data.nt, sim.config['fs']]
        if k == 'process':
            sim.process()
            return 'done'
        if k == 'window':
            sim.data.start = min(op['start'], sim.data.nt - 1)
            sim.data.step = op['step']
            return [sim.data.start, sim.data.stop, sim.data.step]
        if k == 'read':
            return _d(getattr(sim.data, op['name'])())
        if k == 'derived':
            if op['name'] == 'o' and not spec['o']:
                return None
            return _d(getattr(sim.data, op['name'])())
        if k == 'readall':
            return work.digest(work.read_all(sim.data))
        if k == 'use':
            return self.use(op['what'])

    def keep(self, **objs):
        """Objects of the caller which pyphs must leave as they are."""
        self.mine = [(n, o, copy.deepcopy(o)) for n, o in objs.items()
                     if o is not None]

    def use(self, what):
        e = self.e
        core, m = e.core, e.method(self.a['key'])
        if what == 'to_method':
            new = core.to_method(config={'theta': 0.5})
            return str(new.dims.x())
        if what == 'to_evaluation':
            ev = core.to_evaluation(names=['H'])
            return str(len(ev.H_inds))
        if what == 'copy-edit':
            c = core.__copy__()
            s = c.symbols('extra')
            c.add_storages([s], s ** 2 / 2)
            c.add_ports([c.symbols('uextra')], [c.symbols('yextra')])
            c.subs[c.symbols('pextra')] = 3.0
            c.add_parameters([c.symbols('qextra')])
            for k in list(c.subs):
                c.subs[k] = 7.0
            c.init_M()
            return str(len(c.x))
        if what == 'add':
            c = core + core.__copy__()
            c.H = 2 * c.H
            if len(c.x):
                c.x[0] = c.symbols('renamed')
            return str(len(c.x))
        if what == 'to_numeric':
            n = m.to_numeric(config={'fs': 1234.0})
            n.update(u=np.ones(len(m.u)), p=np.ones(len(m.p)))
            return _d(n.x())
        if what == 'core-simulation':
            s = core.to_simulation(config=dict(
                path=os.path.join(self.folder, self.a['dir'] + 'x'),
                fs=777.0))
            s.init(nt=2)
            s.process()
            return work.digest(work.read_all(s.data))
        if what == 'to_cpp':
            p = os.path.join(self.folder, self.a['dir'] + 'cpp')
            os.makedirs(p, exist_ok=True)
            inits = {'x': [0.1] * len(m.x)}
            self.keep(inits=inits)
            m.to_cpp(path=p, inits=inits)
            return sorted(os.listdir(p))
        if what == 'substitute-copy':
            c = core.__copy__()
            c.substitute(selfall=True)
            c.simplify()
            return str(len(c.z))

    def caller(self):
        for n, o, was in self.mine or ():
            if not _eq(o, was):
                return dict(object=n, now=repr(o)[:200], was=repr(was)[:200])


def _eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    return a == b


def _d(arr):
    arr = np.ascontiguousarray(arr, dtype=float)
    import hashlib
    return [list(arr.shape), hashlib.md5(arr.tobytes()).hexdigest()[:12]]


def _core_sig(c):
    sig = [list(c.x), list(c.w), list(c.u), list(c.y), list(c.p),
           list(c.z), c.H, c.M.copy(), dict(c.subs), list(c.subs),
           dict(c.observers), list(c.connectors), c.label,
           [str(v) for v in c.o()]]
    if hasattr(c, 'update_actions'):
        sig += [copy.deepcopy(c.update_actions), dict(c.config),
                list(c.args_names), list(c.funcs_names), list(c.ops_names),
                list(c.args())]
        sig += [getattr(c, n + '_expr') for n in c.funcs_names
                if not hasattr(getattr(c, n + '_expr'), 'copy')]
    return sig


def _config_sig():
    import pyphs.config as C
    return {n: copy.deepcopy(getattr(C, n)) for n in
            ('CONFIG_NUMERIC', 'CONFIG_METHOD', 'CONFIG_SIMULATION',
             'CONFIG_CPP', 'LOAD_OPTS')}


def _shared(pool, folder):
    cache = {}

    def io(model, op):
        key = (model, op['nt'], op['kind'], op['seed'])
        if key not in cache:
            u, p = work.inputs(pool[model].spec, op['nt'], op['kind'],
                               op['seed'])
            cache[key] = (u, p, u.copy(), p.copy())
        return cache[key][:2]
    return dict(load={'start': 0, 'stop': None, 'step': 1}, io=io,
                cache=cache)


def execute(tr, ctx):
    pool = ctx.pool
    # the fresh methods of the real program are built inside the processes
    alone = []
    for i, a in enumerate(tr['actors']):
        def solo(a=a, i=i):
            folder = ctx.mkdir('alone%d' % i)
            act = Actor(a, pool, folder, _shared(pool, folder))
            for op in a['ops']:
                act.step(op)
            return act.out
        alone.append(ctx.proc(solo).value)
    for i, out in enumerate(alone):
        ctx.event('alone', i, out)
        if all(not str(r).startswith('raised') for _, r in out):
            ctx.probe('all operations succeed')
        else:
            ctx.probe('an operation raises')

    def together():
        folder = ctx.mkdir('together')
        sh = _shared(pool, folder)
        acts = [Actor(a, pool, folder, sh) for a in tr['actors']]
        cwd = os.getcwd()
        cfg = _config_sig()
        cores = {n: _core_sig(pool[n].core) for n in
                 sorted({a['model'] for a in tr['actors']})}
        meths = {}
        for a in tr['actors']:
            if a['share'] == 'method' or any(o['op'] == 'use'
                                             for o in a['ops']):
                n = (a['model'], a['key'])
                if n not in meths:
                    meths[n] = _core_sig(pool[n[0]].method(n[1]))

        def intact(where):
            ctx.check(os.getcwd() == cwd, 'working-directory', at=where)
            ctx.check(_config_sig() == cfg, 'default-configuration',
                      at=where)
            for n, s in cores.items():
                _same_sig(ctx, 'core-changed', n, s, _core_sig(pool[n].core),
                          where)
            for n, s in meths.items():
                _same_sig(ctx, 'method-changed', n, s,
                          _core_sig(pool[n[0]].method(n[1])), where)
            for a in acts:
                bad = a.caller()
                ctx.check(bad is None, 'caller-object-changed', at=where,
                          **(bad or {}))
            for k, (u, p, u0, p0) in sh['cache'].items():
                ctx.check(np.array_equal(u, u0) and np.array_equal(p, p0),
                          'caller-array-changed', at=where, key=repr(k))
        if tr['mode'] == 'merge':
            pos = [0] * len(acts)
            last = None
            for i in tr['order']:
                if pos[i] >= len(acts[i].a['ops']):
                    continue
                op = acts[i].a['ops'][pos[i]]
                pos[i] += 1
                acts[i].step(op)
                intact([i, op])
                if last is not None and last[0] != i:
                    ctx.probe('switches')
                    ctx.state('merge', acts[i].a['share'],
                              acts[last[0]].a['share'], last[1], op['op'],
                              op.get('what'),
                              acts[i].a['model'] ==
                              acts[last[0]].a['model'])
                last = (i, op['op'])
        else:
            def body(act):
                def go():
                    for op in act.a['ops']:
                        act.step(op)
                return go
            b = Baton(tr['plan'])
            res = b.run([body(a) for a in acts])
            for r in res:
                if r is None or r[0] != 'ok':
                    raise r[1]
            prev = None
            for s in b.switches:
                ctx.state('thread', s[2], s[3], prev)
                prev = s[3]
            ctx.probe('switches', len(b.switches))
            ctx.probe('lines', b.lines)
            ctx.event('switches', b.switches)
            intact('end')
        ctx.simtime += 0.0
        return [a.out for a in acts]

    got = ctx.proc(together).value
    for i, (g, w) in enumerate(zip(got, alone)):
        for k, (x, y) in enumerate(zip(g, w)):
            ctx.check(x == y, 'influence', simulation=i, operation=k,
                      op=tr['actors'][i]['ops'][k], together=x, alone=y)
    ctx.event('together', got)


def _same_sig(ctx, kind, name, was, now, where):
    for i, (a, b) in enumerate(zip(was, now)):
        if not (a == b):
            ctx.violate(kind, name=repr(name), at=where, part=i,
                        was=str(a)[:300], now=str(b)[:300])
    ctx.check(len(was) == len(now), kind, name=repr(name), at=where)
