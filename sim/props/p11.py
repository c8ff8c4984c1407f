"""P11: every simulated step obeys the model."""
import os

import numpy as np

from .. import models, work

MODELS = ('rlc', 'duff', 'par', 'multi', 'euler', 'obs', 'mod', 'damp',
          'netmka', 'netclip', 'netrlc')
KEYS = ('d', 't', 'z')
PLAN = {'quick': dict(runs=110, budget=110),
        'thorough': dict(runs=8000, budget=1500)}
TIMEOUT = 120.0
RULE = ('one run = one model (of the pool, random, or a random circuit), built '
        'with pyphs, simulated through 1 to 3 initialisations (scheme, rate, '
        'inputs, parameter schedule, parameter values, initial state, length), '
        'interrupted or not before them; every stored step is checked against '
        'the specification; distinct by the hash of the history')
STATE = 'hash of (model kind, dimensions, scheme, kind of input, zero state)'
REAL = ['pyphs (from /repo)', 'h5py, HDF5']
STUB = ['clock (virtual)']
ASSUME = ['models and inputs are moderate enough for the Newton iteration to '
          'converge at each step',
          'circuits have voltage sources with series resistance and no loop of '
          'capacitors or cut of inductors']
NEED = {'random model': 40, 'circuit': 20, 'pool model': 20}


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


# -- random models -----------------------------------------------------------

def rich_spec(rng):
    nx = rng.choice([1, 2, 2, 3, 3, 4])
    nw = rng.choice([0, 0, 1, 1, 2, 3])
    ny = rng.choice([0, 1, 1, 2])
    npar = rng.choice([0, 0, 0, 1]) if nw else 0
    x = ['x%d' % i for i in range(nx)]
    w = ['w%d' % i for i in range(nw)]
    subs, H = {}, []

    def par(n, lo, hi):
        subs[n] = round(rng.uniform(lo, hi), 3)
        return n
    for i in range(nx):
        H.append('%s*x%d**2/2' % (par('c%d' % i, 0.3, 3.0), i))
        k = work.pick(rng, lin=5, quart=2, cosh=1, log=.6)
        if k == 'quart':
            H.append('%s*x%d**4/4' % (par('k%d' % i, 0.1, 1.5), i))
        elif k == 'cosh':
            H.append('cosh(x%d)-1' % i)
        elif k == 'log':
            H.append('log(1+x%d**2)/4' % i)
    if nx > 1 and rng.random() < 0.25:
        i, j = sorted(rng.sample(range(nx), 2))
        H.append('%s*x%d**2*x%d**2/4' % (par('g', 0.1, 0.6), i, j))
    if nx > 1 and rng.random() < 0.3:
        i, j = sorted(rng.sample(range(nx), 2))
        H.append('%s*x%d*x%d' % (par('q', 0.02, 0.2), i, j))
    p = ['a%d' % i for i in range(npar)]
    z = []
    for i in range(nw):
        s = '%s*w%d' % (par('r%d' % i, 0.1, 2.0), i)
        k = work.pick(rng, lin=4, cubic=2, tanh=1, state=.7)
        if k == 'cubic':
            s += '+w%d**3/10' % i
        elif k == 'tanh':
            s += '+tanh(w%d)/2' % i
        elif k == 'state':
            s += '+w%d*%s**2/4' % (i, rng.choice(x))
        if npar and i == 0:
            s += '+a0*w%d' % i
        z.append(s)
    d = nx + nw + ny
    M = [['0'] * d for _ in range(d)]
    dense = rng.choice([0.4, 0.7, 0.9])
    loops = rng.random() < 0.4

    def val():
        v = rng.choice([1, -1, 1, -1, 0.5, -0.5, 2])
        return repr(v)

    def neg(s):
        return s[1:] if s.startswith('-') else '-' + s
    for i in range(d):
        for j in range(i):
            inside = i >= nx and j >= nx
            if inside and not loops:
                continue
            if rng.random() < (dense if not inside else 0.3):
                v = val()
                if rng.random() < 0.08 and not inside:
                    v = '%s*(1+%s**2/5)' % (v, rng.choice(x))
                elif rng.random() < 0.08:
                    v = '%s*%s' % (v, par('m%d%d' % (i, j), 0.5, 1.5))
                M[i][j], M[j][i] = v, neg(v) if '*' not in v else \
                    '-(%s)' % v
    if rng.random() < 0.3:
        for i in range(nx):
            if rng.random() < 0.5:
                M[i][i] = '-' + par('d%d' % i, 0.05, 0.4)
    o = {}
    if rng.random() < 0.12 and nw:
        o = {'ob': x[0] + '**2'}
        z[0] = z[0] + '+w0*ob/5'
    return dict(x=x, H='+'.join(H), w=w, z=z, u=['u%d' % i for i in range(ny)],
                y=['y%d' % i for i in range(ny)], p=p, o=o, M=M, subs=subs,
                fs=float(rng.choice([200, 500, 1000])),
                amp=round(rng.uniform(0.2, 2.0), 2))


# -- random circuits ---------------------------------------------------------

def circuit(rng):
    """A ladder; [kind, label, node1, node2, value]."""
    n = rng.randint(1, 3)
    parts = []

    def flip(a, b):
        return [a, b] if rng.random() < 0.5 else [b, a]

    def R():
        return round(10 ** rng.uniform(1.5, 3.5), 2)

    def L():
        return round(10 ** rng.uniform(-2.5, -1), 6)

    def C():
        return float('%.3g' % 10 ** rng.uniform(-6.5, -5))
    parts.append(['v', 'IN'] + flip('#', 'n1') + [None])
    parts.append(['R', 'R0', 'n1', 'm0', R()])
    here = 'm0'
    for i in range(n):
        k = rng.choice(['C', 'C', 'R', 'RC'])
        if 'C' in k:
            parts.append(['C', 'C%d' % i] + flip(here, '#') + [C()])
        if 'R' in k:
            parts.append(['R', 'S%d' % i] + flip(here, '#') + [R()])
        if i < n - 1:
            nxt = 'm%d' % (i + 1)
            k = rng.choice(['L', 'R'])
            parts.append([k, '%s%d' % ('Q' if k == 'L' else 'T', i)] +
                         flip(here, nxt) + [L() if k == 'L' else R()])
            here = nxt
    caps = [q for q in parts if q[0] == 'C']
    if caps and rng.random() < 0.35:
        q = rng.choice(caps)
        node = q[2] if q[2] != '#' else q[3]
        parts.append(['i', 'JN'] + flip(node, '#') + [None])
    if rng.random() < 0.5:
        rng.shuffle(parts)
    return parts


NAMES = {'R': 'resistor', 'L': 'inductor', 'C': 'capacitor'}


def netlist(parts):
    out = []
    for k, lab, a, b, v in parts:
        if k in 'vi':
            out.append("electronics.source %s ('%s', '%s'): type=%s;\n" % (
                lab, a, b, 'voltage' if k == 'v' else 'current'))
        else:
            out.append("electronics.%s %s ('%s', '%s'): %s=('p%s', %r);\n" % (
                NAMES[k], lab, a, b, k, lab, v))
    return ''.join(out)


def mna(parts, fs, x0, u, values=None):
    """Midpoint rule on the circuit equations.  u: {label: sequence}; x0:
    {label: state}.  Gives {label: [(voltage, current) at midpoints]} and the
    states before each step."""
    nodes = sorted({n for p in parts for n in p[2:4]} - {'#'})
    ix = {n: i for i, n in enumerate(nodes)}
    vs = [p for p in parts if p[0] == 'v']
    N = len(nodes) + len(vs)
    steps = len(next(iter(u.values())))
    st = {p[1]: float(x0.get(p[1], 0.0)) for p in parts if p[0] in 'LC'}
    out = {p[1]: [] for p in parts}
    xs = {k: [] for k in st}
    val = {p[1]: (values or {}).get(p[1], p[4]) for p in parts}
    for k in range(steps):
        A = np.zeros((N, N))
        b = np.zeros(N)

        def stamp(p, g, j):
            """i(a->b) = g*(Va-Vb)+j"""
            for n, s in ((p[2], 1), (p[3], -1)):
                if n == '#':
                    continue
                for m, t in ((p[2], 1), (p[3], -1)):
                    if m != '#':
                        A[ix[n], ix[m]] += s * t * g
                b[ix[n]] -= s * j
        comp = {}
        for p in parts:
            lab = p[1]
            if p[0] == 'R':
                comp[lab] = (1 / val[lab], 0.0)
            elif p[0] == 'C':
                c = val[lab]
                comp[lab] = (2 * c * fs, -2 * fs * st[lab])
            elif p[0] == 'L':
                l = val[lab]
                comp[lab] = (1 / (2 * l * fs), st[lab] / l)
            elif p[0] == 'i':
                comp[lab] = (0.0, u[lab][k])
            if lab in comp:
                stamp(p, *comp[lab])
        for q, p in enumerate(vs):
            r = len(nodes) + q
            for n, s in ((p[2], 1), (p[3], -1)):
                if n != '#':
                    A[r, ix[n]] += s
                    A[ix[n], r] += s
            b[r] = u[p[1]][k]
        s = np.linalg.solve(A, b)
        V = {n: s[ix[n]] for n in nodes}
        V['#'] = 0.0
        for p in parts:
            lab = p[1]
            v = V[p[2]] - V[p[3]]
            if p[0] == 'v':
                i = s[len(nodes) + vs.index(p)]
            else:
                i = comp[lab][0] * v + comp[lab][1]
            out[lab].append((v, i))
            if p[0] == 'C':
                xs[lab].append(st[lab])
                st[lab] += i / fs
            elif p[0] == 'L':
                xs[lab].append(st[lab])
                st[lab] += v / fs
    return out, xs


# ----------------------------------------------------------------------------

def _init(rng, spec, tier, kind):
    nt = rng.randint(1, 12 if tier == 'quick' else 40)
    scheme = {}
    if rng.random() < 0.6:
        scheme['grad'] = rng.choice(['discret', 'discret', 'theta', 'trapez'])
    if rng.random() < 0.5:
        scheme['theta'] = rng.choice([0.0, 0.5, 0.5, 1.0, 0.3])
    if rng.random() < 0.4:
        scheme['split'] = rng.random() < 0.5
    if kind == 'circuit':
        # the circuit oracle is the midpoint rule
        scheme = rng.choice([{}, {}, {'split': False},
                             {'grad': 'theta', 'theta': 0.5},
                             {'grad': 'trapez'}])
    subs = {}
    if kind == 'pool' or rng.random() < 0.3:
        names = sorted(n for n, v in spec['subs'].items()
                       if isinstance(v, (int, float)) and v)
        if names and rng.random() < 0.5:
            n = rng.choice(names)
            subs[n] = float(spec['subs'][n]) * rng.uniform(0.7, 1.4)
    return dict(nt=nt, kind=rng.choice(work.KINDS), seed=rng.randrange(10**6),
                uform=work.forms(len(spec['u']), rng),
                fs=spec['fs'] * rng.choice([1.0, 1.0, 0.5, 2.0]),
                scale=rng.choice([1.0, 1.0, 0.1, 1e-4]),
                x0=rng.choice([None, 0, rng.randrange(10**6),
                               rng.randrange(10**6)]),
                config=scheme, subs=subs)


def gen(rng, pool, tier):
    kind = work.pick(rng, random=5, circuit=2.5, pool=3)
    tr = dict(kind=kind, key='d')
    if kind == 'random':
        spec = tr['spec'] = rich_spec(rng)
    elif kind == 'circuit':
        parts = tr['parts'] = circuit(rng)
        srcs = [p[1] for p in parts if p[0] in 'vi']
        spec = dict(u=srcs, p=[], x=[p[1] for p in parts if p[0] in 'LC'],
                    fs=48e3, subs={'p' + p[1]: p[4] for p in parts
                                   if p[0] in 'RLC'})
    else:
        tr['model'] = rng.choice(MODELS)
        tr['key'] = rng.choice(KEYS)
        spec = pool[tr['model']].spec
    tr['inits'] = [_init(rng, spec, tier, kind)
                   for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    tr['via'] = rng.choice(['simulation', 'simulation', 'core', 'numeric'])
    return tr


def shrink(tr):
    n = tr['inits']
    for i in range(len(n)):
        if len(n) > 1:
            yield dict(tr, inits=n[:i] + n[i + 1:])
    for i, o in enumerate(n):
        def rep(**kw):
            return dict(tr, inits=n[:i] + [dict(o, **kw)] + n[i + 1:])
        if o['nt'] > 1:
            yield rep(nt=o['nt'] // 2)
            yield rep(nt=o['nt'] - 1)
        for k in list(o['config']):
            yield rep(config={a: b for a, b in o['config'].items() if a != k})
        if o['subs']:
            yield rep(subs={})
        if o['x0'] is not None:
            yield rep(x0=None)
        if o['uform'] != 'array':
            yield rep(uform='array')
    if tr['kind'] == 'random':
        s = tr['spec']
        d = len(s['M'])
        for i in range(d):
            for j in range(i + 1):
                if s['M'][i][j] != '0':
                    M = [list(r) for r in s['M']]
                    M[i][j] = M[j][i] = '0'
                    yield dict(tr, spec=dict(s, M=M))


def execute(tr, ctx):
    kind = tr['kind']
    ctx.probe({'random': 'random model', 'pool': 'pool model',
               'circuit': 'circuit'}[kind])

    def body():
        import pyphs
        if kind == 'pool':
            e = ctx.pool[tr['model']]
        elif kind == 'random':
            core = models.build_core(pyphs, 'rnd', tr['spec'])
            e = work.Entry('rnd', tr['spec'], core)
        else:
            path = os.path.join(ctx.mkdir('net'), 'c.net')
            with open(path, 'w') as f:
                f.write(netlist(tr['parts']))
            core = pyphs.Netlist(path).to_core()
            e = work.Entry('c', models.spec_of_core(core, 48e3, 1.0), core)
            e.spec['xs'] = 1e-5
            for p in tr['parts']:
                if p[0] in 'RLC':
                    ctx.check('p' + p[1] in e.spec['subs'],
                              'parameter-missing', name='p' + p[1])
            ctx.check(len(e.spec['x']) == sum(p[0] in 'LC'
                                              for p in tr['parts']),
                      'storages', got=e.spec['x'])
        spec = e.spec
        sim = None
        subs = {}
        cfg = {}
        for n, it in enumerate(tr['inits']):
            first = sim is None
            c = dict(it['config'], fs=it['fs'])
            cfg.update(c)
            if first:
                cfg['path'] = os.path.join(ctx.dir, 's')
                m = e.fresh(tr['key'])
                if tr['via'] == 'core':
                    sim = e.core.to_simulation(config=dict(
                        work.METHODS[tr['key']], **cfg))
                else:
                    sim = pyphs.Simulation(m, config=dict(cfg))
            subs.update(it['subs'])
            by = {str(s): s for s in sim.method.subs}
            x0 = {None: None, 0: np.zeros(len(spec['x']))}.get(
                it['x0'], 0) if it['x0'] in (None, 0) else \
                work.state(spec, it['x0'])
            u, p = work.inputs(spec, it['nt'], it['kind'], it['seed'],
                               it['scale'])
            inits = None if x0 is None else {'x': x0}
            fresh_x = x0 if x0 is not None else (
                np.zeros(len(spec['x'])) if first else None)
            kw = {}
            if spec['u']:
                kw['u'] = work.as_form(u, it['uform'])
            sim.init(nt=it['nt'], p=p, inits=inits, config=c,
                     subs={by[k]: v for k, v in it['subs'].items()} or None,
                     **kw)
            if tr['via'] == 'numeric' and not it['subs']:
                # the numerical core alone
                rows = work.numeric_rows(sim.method, it['fs'], u, p,
                                         inits=dict(sim.inits))
            else:
                sim.process()
                rows = work.read_all(sim.data)
            scheme = work.cfg_of(tr['key'])
            scheme.update({k: v for k, v in cfg.items()
                           if k in ('grad', 'theta', 'split')})
            for k in ('grad', 'theta', 'split'):
                ctx.check(sim.config[k] == scheme[k], 'scheme', key=k,
                          got=sim.config[k], want=scheme[k])
            ctx.check(work.same(rows['u'], u) and work.same(rows['p'], p),
                      'inputs')
            pr = work.physics_rows(e, sim.method, rows)
            if fresh_x is not None:
                ix = [list(map(str, sim.method.x)).index(k)
                      for k in spec['x']]
                fresh_x = np.asarray(fresh_x, float)[ix]
            bad = models.check_rows(e.phys(subs), scheme, it['fs'], pr,
                                    x0=fresh_x)
            ctx.check(bad is None, 'law', init=n, scheme=scheme, **(bad or {}))
            if kind == 'circuit':
                _circuit(tr, ctx, e, it, pr, subs, n)
            ctx.event(n, work.digest(rows))
            ctx.state(kind, tr.get('model'), len(spec['x']), len(spec['w']),
                      len(spec['u']), scheme, it['kind'], it['x0'] in (None, 0))
            ctx.simtime += it['nt'] / it['fs']
    ctx.proc(body)


def _circuit(tr, ctx, e, it, pr, subs, n):
    parts, spec = tr['parts'], e.spec
    lab = {p[1]: p for p in parts}
    ports = [s[1:] for s in spec['u']]
    ctx.check(sorted(ports) == sorted(k for k in lab if lab[k][0] in 'vi'),
              'ports', got=spec['u'])
    u = {k: pr['u'][:, i] for i, k in enumerate(ports)}
    x0 = {k[1:]: pr['x'][0, i] for i, k in enumerate(spec['x'])}
    values = {k[1:]: v for k, v in subs.items()}
    # orientation: the current of a part goes from its first to its second
    # node; states are signed the same way
    out, xs = mna(parts, it['fs'], x0, u, values)
    for i, k in enumerate(spec['x']):
        k = k[1:]
        a, b = pr['x'][:, i], np.array(xs[k])
        sc = np.max(np.abs(b)) + 1e-12
        ctx.check(np.all(np.abs(a - b) <= 1e-6 * sc), 'circuit-state',
                  part=lab[k], init=n, got=a.tolist()[:4], want=b.tolist()[:4])
    for i, k in enumerate(ports):
        j = 1 if lab[k][0] == 'v' else 0
        a, b = pr['y'][:, i], np.array([r[j] for r in out[k]])
        sc = np.max(np.abs(b)) + 1e-12
        ctx.check(np.all(np.abs(a - b) <= 1e-6 * sc), 'circuit-port',
                  part=lab[k], init=n, got=a.tolist()[:4], want=b.tolist()[:4])
