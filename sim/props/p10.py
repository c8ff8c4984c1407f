"""P10: everything is deterministic across environments."""
import gc
import os
import random
import re
import shutil
import subprocess
import sys
import json

import numpy as np

from .. import exports, loader, models, work

LOAD = False
PLAN = {'quick': dict(runs=65, budget=100),
        'thorough': dict(runs=8000, budget=1500)}
TIMEOUT = 120.0
RULE = ('one run = 1 to 3 tasks (build a core from equations, a netlist or two '
        'connected cores, transform it, make a method, simulate, export) done '
        'in a fresh process with plain import, and again, twice, in another '
        'process with a seeded permutation of every set pyphs iterates over, '
        'byte code cold or cached, seeded collection points, another working '
        'directory, random state and earlier tasks; non-trivial = a set was '
        'permuted or earlier tasks were done; distinct by the hash of the '
        'history')
STATE = 'hash of (kind of source, transformations, scheme, export, environment)'
REAL = ['pyphs, imported anew in each simulated process (from /repo)',
        'sympy, networkx', 'h5py, HDF5']
STUB = ['iteration order of the sets of pyphs, hash() and id() in pyphs '
        '(seeded)', 'clock (virtual)', 'C++ tools (scripts)']
ASSUME = ['orders inside sympy and networkx are not permuted (the hash seed '
          'of the whole interpreter is changed in some runs)']
NEED = {'sets permuted': 45, 'earlier work': 20, 'hash seed': 2,
        'cached byte code': 20}
NETS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'nets')
LIGHT = ('bjtamp', 'dlc', 'heat_transfer', 'magnetic_circuit', 'mka',
         'mka_dual', 'oscillator_nl', 'oscillator_nl_dual', 'piano_hammer',
         'pickup', 'rlc', 'thielesmall', 'thielesmall_NL', 'thielesmall_dual',
         'triodeamp', 'sp_circuit')
HEAVY = ('beam_cantilever', 'rhodes', 'fractional_integrator_ec',
         'fractional_derivator_fc')
# models whose simulation from rest with small inputs is well conditioned
SIMS = {'dlc': (48e3, 1.0), 'mka': (1e3, 1.0), 'mka_dual': (1e3, 1.0),
        'rlc': (48e3, 1.0), 'oscillator_nl': (1e3, 1.0),
        'oscillator_nl_dual': (1e3, 1.0), 'thielesmall': (48e3, 1.0),
        'thielesmall_dual': (48e3, 1.0), 'rhodes': (48e3, .1),
        'beam_cantilever': (48e3, .1)}
DATE = re.compile(rb'-?\d{1,6}/\d\d/\d\d \d\d:\d\d:\d\d')
SPECN = tuple(models.SPECS)
PORTS = [n for n in SPECN if models.SPECS[n]['u']]


def _names(n):
    s = models.SPECS[n]
    return set(s['x'] + s['w'] + s['u'] + s['y'] + s['p'] + list(s['o']) +
               list(s['subs']))


PAIRS = [(a, b) for a in PORTS for b in PORTS
         if a != b and not _names(a) & _names(b)]


# -- tasks -------------------------------------------------------------------

def _task(rng, small=False):
    k = work.pick(rng, spec=3, rand=2, net=4, heavy=0 if small else .25,
                  join=1.5, mine=1)
    t = dict(kind=k)
    if k == 'spec':
        t['a'] = rng.choice(SPECN)
    elif k == 'rand':
        t['a'] = rng.randrange(10**6)
    elif k == 'net':
        t['a'] = rng.choice(LIGHT)
    elif k == 'mine':
        t['a'] = rng.choice(sorted(models.NETLISTS))
    elif k == 'heavy':
        t['a'] = rng.choice(HEAVY)
    else:
        t['a'], t['b'] = rng.choice(PAIRS)
        t['alpha'] = rng.choice([1, -1, 0.5, None])
    t['then'] = [rng.choice(['copy', 'lnl', 'reduce', 'subs', 'inverse',
                             'moved', 'simplify'])
                 for _ in range(rng.choice([0, 0, 1, 2]))]
    if k == 'heavy' or t['a'] in ('bjtamp', 'oscillator_nl',
                                  'oscillator_nl_dual', 'triodeamp', 'sp_circuit',
                                  'heat_transfer', 'pickup'):
        t['then'] = [s for s in t['then'] if s in ('copy', 'lnl', 'moved')]
    t['key'] = rng.choice(['d', 'd', 't', 'z', 'n'])
    t['nt'] = rng.choice([0, rng.randint(2, 10)]) if not small else 0
    t['exp'] = rng.choice([None, None, 'cpp', 'simcpp', 'tex', 'faust',
                           'juce'])
    if k in ('heavy',) or (k == 'net' and t['exp'] == 'faust') or small:
        t['exp'] = None
    t['seed'] = rng.randrange(10**6)
    return t


def gen(rng, pool, tier):
    return dict(
        tasks=[_task(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
        earlier=[_task(rng, True) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
        order=rng.randrange(1, 10**9) if rng.random() < 0.85 else None,
        cached=rng.random() < 0.5, cwd=rng.random() < 0.5,
        collect=sorted(rng.randrange(1, 3000) for _ in
                       range(rng.choice([0, 0, 2, 4]))),
        hash=rng.randrange(1, 4 * 10**9) if rng.random() < 0.08 else None,
        rseed=rng.randrange(10**6))


def shrink(tr):
    if tr['hash'] is not None:
        yield dict(tr, hash=None)
    ts = tr['tasks']
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(tr, tasks=ts[:i] + ts[i + 1:])
    es = tr['earlier']
    for i in range(len(es)):
        yield dict(tr, earlier=es[:i] + es[i + 1:])
    for k, v in (('order', None), ('cached', False), ('cwd', False),
                 ('collect', [])):
        if tr[k] != v:
            yield dict(tr, **{k: v})
    for i, t in enumerate(ts):
        for k, v in (('exp', None), ('nt', 0), ('then', [])):
            if t[k] != v:
                yield dict(tr, tasks=ts[:i] + [dict(t, **{k: v})] +
                           ts[i + 1:])


def _core(pyphs, t, aux):
    """(core, spec or None, (fs, amp) or None, netlist or None)."""
    k = t['kind']
    if k == 'spec':
        spec = models.SPECS[t['a']]
        return models.build_core(pyphs, t['a'], spec), (spec['fs'], spec[
            'amp']), None
    if k == 'rand':
        spec = models.random_spec(random.Random(t['a']))
        return models.build_core(pyphs, 'rand', spec), (spec['fs'], spec[
            'amp']), None
    if k in ('net', 'heavy', 'mine'):
        p = os.path.join(aux, t['a'] + '.net')
        if k == 'mine':
            with open(p, 'w') as f:
                f.write(models.NETLISTS[t['a']])
            fsamp = models.NET_FS[t['a']]
        else:
            shutil.copy(os.path.join(NETS, t['a'] + '.net'), p)
            fsamp = SIMS.get(t['a'])
        net = pyphs.Netlist(p)
        g = net.to_graph()
        if t['a'] == 'sp_circuit':
            g.sp_split()
            core = g.to_core(label=t['a'], merge_all=True)
        else:
            core = g.to_core(label=t['a'])
        return core, fsamp, net
    cs = [models.build_core(pyphs, n, models.SPECS[n])
          for n in (t['a'], t['b'])]
    core = cs[0] + cs[1]
    kw = {} if t['alpha'] is None else dict(alpha=t['alpha'])
    core.add_connector((core.y.index(cs[0].y[0]), core.y.index(cs[1].y[0])),
                       **kw)
    core.connect()
    fs = min(models.SPECS[n]['fs'] for n in (t['a'], t['b']))
    if t['a'] == 'rlc' or t['b'] == 'rlc':
        return core, None, None
    return core, (fs, 0.5), None


def _then(core, steps):
    for s in steps:
        if s == 'copy':
            core = core.__copy__()
        elif s == 'lnl':
            core.linear_nonlinear()
        elif s == 'reduce':
            core.reduce_z()
        elif s == 'subs':
            core.substitute(selfexprs=True)
        elif s == 'inverse':
            core.subsinverse()
        elif s == 'simplify':
            core.simplify()
        elif s == 'moved' and core.dims.x() > 1:
            core.move_storage(0, core.dims.x() - 1)
    return core


def _signature(core):
    """Symbols in order, and expressions, as strings."""
    o = {k: [str(s) for s in (v() if callable(v) else v)] for k, v in
         ((k, getattr(core, k)) for k in ('x', 'w', 'u', 'y', 'p', 'cu', 'cy',
                                          'o', 'dx', 'g', 'z_symbols'))}
    n = core.M.shape[0]
    e = dict(H=[str(core.H)], z=[str(z) for z in core.z],
             M=[str(core.M[i, j]) for i in range(n) for j in range(n)],
             observers=[str(v) for v in core.observers.values()],
             dxH=[str(v) for v in core.dxH()])
    o['dims'] = [core.dims.x(), core.dims.xl(), core.dims.w(), core.dims.wl(),
                 core.dims.y(), core.dims.p(), core.dims.cy()]
    o['subs'] = sorted([str(k), repr(v) if isinstance(v, (int, float))
                        else str(v)] for k, v in core.subs.items())
    return o, e


def do(pyphs, t, folder, aux):
    """Perform a task: {'exact':…, 'expr':…, 'rows':…, 'files':…}"""
    out = {}
    core, fsamp, net = _core(pyphs, t, aux)
    core = _then(core, t['then'])
    out['exact'], out['expr'] = _signature(core)
    cfg = dict(work.METHODS[t['key']])
    m = core.to_method(config=cfg)
    o, e = _signature(m)
    out['exact'] = [out['exact'], o, [str(s) for s in m.args()]]
    out['expr'] = [out['expr'], e]
    if t['nt'] and fsamp:
        fs, amp = fsamp
        sim = pyphs.Simulation(m, config=dict(path=os.path.join(folder, 's'),
                                              fs=fs))
        r = np.random.RandomState(t['seed'])
        kw = {}
        if m.dims.y():
            kw['u'] = amp * r.uniform(-1, 1, (t['nt'], m.dims.y()))
        if m.dims.p():
            kw['p'] = r.uniform(.5, 1.5, (t['nt'], m.dims.p()))
        sim.init(nt=t['nt'], **kw)
        sim.process()
        rows = work.read_all(sim.data)
        out['rows'] = {k: np.asarray(v).tolist() for k, v in rows.items()}
    if t['exp'] and (t['exp'] != 'tex' or net is not None):
        _export(pyphs, t, core, m, net, folder, aux)
        files = {}
        for d, ds, fs_ in os.walk(folder):
            for f in fs_:
                p = os.path.join(d, f)
                if f.endswith(('.h5', '.hdf5')):
                    continue
                with open(p, 'rb') as h:
                    b = h.read()
                b = DATE.sub(b'DATE', b)
                files[os.path.relpath(p, folder)] = b.decode('latin1')
        out['files'] = files
    return out


def _export(pyphs, t, core, m, net, folder, aux):
    n = t['exp']
    if n == 'cpp':
        m.to_cpp(path=os.path.join(folder, 'cpp'))
    elif n == 'simcpp':
        sim = pyphs.Simulation(m, config=dict(
            path=os.path.join(folder, 'simcpp'), lang='c++',
            cmake=exports.tool(aux, m.label)))
        sim.init(nt=5)
        sim.process()
    elif n == 'juce':
        if m.dims.y():
            from pyphs.misc.juce._fx import method2jucefx
            os.makedirs(os.path.join(folder, 'juce'))
            method2jucefx(m, path=os.path.join(folder, 'juce'))
    elif n == 'faust':
        if t['a'] in ('rlc', 'netrlc', 'par') and t['kind'] != 'join':
            pyphs.core2faustfx(core, path=os.path.join(folder, 'fx.dsp'),
                               nIt=2)
    else:
        pyphs.texdocument(pyphs.netlist2tex(net),
                          os.path.join(folder, 'doc.tex'))


# -- one environment -----------------------------------------------------------

def _clean(root, aux):
    for d in (root, aux):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)


def environment(tr, root, aux, odd):
    """Everything done in one process.  With odd, in the odd environment."""
    _clean(root, aux)
    os.chdir(aux)
    if not odd:
        pyphs = loader.load_pyphs()
        return [do(pyphs, t, _mk(root, i), aux)
                for i, t in enumerate(tr['tasks'])], {}
    loader._state['collect'] = tuple(tr['collect'])
    random.seed(tr['rseed'])
    np.random.seed(tr['rseed'])
    if tr['cwd']:
        d = os.path.join(aux, 'elsewhere', 'deep')
        os.makedirs(d)
        os.chdir(d)
    here = os.getcwd()
    pyphs = loader.load_pyphs(cached=tr['cached'], order=tr['order'])
    for i, t in enumerate(tr['earlier']):
        c = do(pyphs, t, _mk(root, 'e%d' % i), aux)
        del c
    first = [do(pyphs, t, _mk(root, i), aux)
             for i, t in enumerate(tr['tasks'])]
    if os.getcwd() != here:
        first.append('working directory changed')
    _clean(root, aux)
    os.chdir(aux)
    again = [do(pyphs, t, _mk(root, i), aux)
             for i, t in enumerate(tr['tasks'])]
    info = dict(shuffles=loader.shuffles())
    return first, again, info


def _mk(root, name):
    p = os.path.join(root, str(name))
    os.makedirs(p)
    return p


def _purge():
    for n in list(sys.modules):
        if n.split('.')[0] == 'pyphs':
            del sys.modules[n]


def prepare():
    """Warm the libraries below pyphs, then forget pyphs."""
    base = os.environ['VERIF_BASE']
    root, aux = os.path.join(base, 'wroot'), os.path.join(base, 'waux')
    here = os.getcwd()
    _clean(root, aux)
    os.chdir(aux)
    loader._state['keep'] = True
    loader.load_pyphs(order=1)
    _purge()
    pyphs = loader.load_pyphs()
    loader._state['keep'] = False
    rng = random.Random(5)
    for i in range(14):
        t = _task(rng)
        if t['kind'] != 'heavy':
            do(pyphs, t, _mk(root, i), aux)
    os.chdir(here)
    shutil.rmtree(root)
    shutil.rmtree(aux)
    del pyphs
    _purge()
    gc.collect()
    return {}


def _same_expr(a, b):
    if a == b:
        return True
    import sympy
    try:
        names = set(re.findall(r'[A-Za-z_]\w*', a + ' ' + b))
        loc = {n: sympy.Symbol(n) for n in names
               if not hasattr(sympy, n) or len(n) == 1 or
               isinstance(getattr(sympy, n, None), type(sympy))}
        ea, eb = (sympy.sympify(s, locals=loc) for s in (a, b))
        r = random.Random(7)
        for _ in range(4):
            v = {s: r.uniform(.3, 1.7)
                 for s in ea.free_symbols | eb.free_symbols}
            x, y = complex(ea.evalf(subs=v)), complex(eb.evalf(subs=v))
            if not abs(x - y) <= 1e-9 * (1 + abs(x)):
                return False
        return True
    except Exception:                               # noqa
        return False


def _diff(a, b, exact_rows):
    """What differs, or None."""
    if a['exact'] != b['exact']:
        for p, q in zip(a['exact'], b['exact']):
            if p == q:
                continue
            if not isinstance(p, dict):
                return 'arguments', p, q
            for k in p:
                if p[k] != q[k]:
                    return k, p[k], q[k]
    for p, q in zip(a['expr'], b['expr']):
        for k in p:
            if len(p[k]) != len(q[k]):
                return k, p[k], q[k]
            for i, (s, t) in enumerate(zip(p[k], q[k])):
                if not _same_expr(s, t):
                    return '%s[%d]' % (k, i), s, t
    if sorted(a.get('rows', {})) != sorted(b.get('rows', {})):
        return 'rows', sorted(a.get('rows', {})), sorted(b.get('rows', {}))
    ra = {k: np.array(v) for k, v in a.get('rows', {}).items()}
    rb = {k: np.array(v) for k, v in b.get('rows', {}).items()}
    if ra:
        d = work.same_rows(ra, rb) if exact_rows else work.close_rows(ra, rb)
        if d is not None:
            return 'rows', repr(d)[:300], ''
    fa, fb = a.get('files', {}), b.get('files', {})
    if sorted(fa) != sorted(fb):
        return 'files', sorted(fa), sorted(fb)
    for k in fa:
        if fa[k] != fb[k]:
            for s, t in zip(fa[k].splitlines(), fb[k].splitlines()):
                if s != t:
                    return k, s, t
            return k, len(fa[k]), len(fb[k])
    return None


def execute(tr, ctx):
    root, aux = ctx.mkdir('r'), ctx.mkdir('aux')
    clk = dict(mono=10**12, wall=1600000000 * 10**9, step=1000)

    def plain():
        return environment(tr, root, aux, False)

    def odd():
        return environment(tr, root, aux, True)
    want, _ = ctx.proc(plain, clock=clk).value
    kinds = [(t['kind'], t['then'], t['key'], t['exp']) for t in tr['tasks']]
    if tr['hash'] is not None:
        out = os.path.join(ctx.dir, 'child.json')
        env = dict(os.environ, PYTHONHASHSEED=str(tr['hash']),
                   PYTHONPATH=os.path.dirname(os.path.dirname(
                       os.path.dirname(os.path.abspath(__file__)))))
        r = subprocess.run(
            [sys.executable, '-c', 'from sim.props.p10 import child; child()',
             json.dumps(tr), root, aux, out], env=env, cwd=aux,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            timeout=TIMEOUT)
        ctx.check(r.returncode == 0, 'raised',
                  tb=r.stderr.decode('latin1')[-1500:].replace(ctx.dir, ''))
        with open(out) as f:
            first, again, info = json.load(f)
        ctx.probe('hash seed')
    else:
        r = ctx.proc(odd, clock=clk, expect=('ok', 'exc'))
        if r.status == 'exc':
            ctx.violate('raised', exc=r.exc, tb=r.tb[-1500:])
        first, again, info = r.value
    if info['shuffles']:
        ctx.fault('sets permuted')
    if tr['cached']:
        ctx.fault('cached byte code')
    if tr['collect']:
        ctx.fault('garbage collection points')
    if tr['cwd']:
        ctx.fault('other working directory')
    if tr['earlier']:
        ctx.probe('earlier work')
    ctx.event(kinds, info['shuffles'] > 0, len(tr['earlier']))
    ctx.check(len(first) == len(want), 'environment-changed', what=first[-1])
    for i, (a, b, c) in enumerate(zip(want, first, again)):
        d = _diff(a, b, False)
        ctx.check(d is None, 'depends-on-environment', task=tr['tasks'][i],
                  what=d and d[0], want=d and str(d[1])[:500],
                  got=d and str(d[2])[:500])
        d = _diff(b, c, True)
        ctx.check(d is None, 'not-repeatable', task=tr['tasks'][i],
                  what=d and d[0], first=d and str(d[1])[:500],
                  again=d and str(d[2])[:500])
        ctx.state(kinds[i], bool(tr['order']), tr['cached'], tr['cwd'],
                  len(tr['earlier']), tr['hash'] is not None)
        if 'rows' in a:
            ctx.probe('simulated')
            ctx.simtime += len(a['rows']['x'] or a['rows']['y'] or [0])
        if a.get('files'):
            ctx.probe('exported')


def child():
    """The odd environment in a new interpreter."""
    tr = json.loads(sys.argv[1])
    os.environ.pop('LD_PRELOAD', None)
    loader.preload()
    r = environment(tr, sys.argv[2], sys.argv[3], True)
    with open(sys.argv[4], 'w') as f:
        json.dump(r, f)
    sys.stdout.flush()
    os._exit(0)
