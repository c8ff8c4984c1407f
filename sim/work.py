"""Workload helpers shared by the scenarios."""
import os

import numpy as np

from . import models

# configurations of the numerical method
METHODS = {
    'd': {},
    'n': {'split': False},
    't': {'grad': 'theta', 'theta': 0.5},
    'z': {'grad': 'trapez'},
    'h': {'theta': 0.5},
    'tn': {'grad': 'theta', 'theta': 0.5, 'split': False},
}
NAMES = ('x', 'dx', 'dxH', 'w', 'z', 'y')
ALL = ('u', 'p') + NAMES
FULL = {'grad': 'discret', 'theta': 0.0, 'split': True}


class Entry:
    """One model of the pool."""

    def __init__(self, name, spec, core):
        self.name, self.spec, self.core = name, spec, core
        self.methods = {}
        self._phys = {}

    def method(self, key):
        """The shared method object of this configuration."""
        if key not in self.methods:
            self.methods[key] = self.core.to_method(config=dict(METHODS[key]))
        return self.methods[key]

    def fresh(self, key):
        """A method object nobody else holds."""
        return self.core.to_method(config=dict(METHODS[key]))

    def phys(self, subs=None):
        key = repr(sorted((subs or {}).items()))
        if key not in self._phys:
            self._phys[key] = models.Physics(self.spec, subs)
        return self._phys[key]


def cfg_of(key):
    c = dict(FULL)
    c.update(METHODS[key])
    return c


def make_pool(names, keys=('d',), folder=None):
    import pyphs
    folder = folder or os.environ['VERIF_BASE']
    pool = {}
    for n in names:
        if n in models.SPECS:
            spec = models.SPECS[n]
            core = models.build_core(pyphs, n, spec)
        else:
            core = models.build_netlist_core(pyphs, n, folder)
            fs, amp = models.NET_FS[n]
            spec = models.spec_of_core(core, fs, amp)
            spec['xs'] = models.NET_XS.get(n, 1.0)
        pool[n] = Entry(n, spec, core)
        pool[n].phys()
        for k in keys:
            pool[n].method(k)
    return pool


def warm(pool, keys=('d',), derived=False):
    """Fill the caches of sympy and of the interpreter's compiler; the runs
    fork from here."""
    import shutil
    from pyphs import Simulation
    folder = os.path.join(os.environ['VERIF_BASE'], 'warm')
    os.makedirs(folder)
    for e in pool.values():
        for k in keys:
            sim = Simulation(e.method(k), config=dict(path=folder,
                                                      fs=e.spec['fs']))
            u, p = inputs(e.spec, 6, 'noise', 1)
            sim.init(u=u, p=p)
            sim.process()
            read_all(sim.data)
            if derived:
                sim.data.E()
                sim.data.pd()
    shutil.rmtree(folder)


# -- inputs ------------------------------------------------------------------

KINDS = ('noise', 'sine', 'step', 'impulse', 'zero', 'burst')


def signal(kind, seed, nt, amp):
    r = np.random.RandomState(seed)
    if kind == 'noise':
        s = r.uniform(-1, 1, nt)
    elif kind == 'sine':
        s = np.sin(2 * np.pi * r.uniform(0.005, 0.2) * np.arange(nt) +
                   r.uniform(0, 6))
    elif kind == 'step':
        s = (np.arange(nt) >= r.randint(0, max(nt, 1))).astype(float)
    elif kind == 'impulse':
        s = np.zeros(nt)
        if nt:
            s[r.randint(0, nt)] = 1.0
    elif kind == 'zero':
        s = np.zeros(nt)
    else:
        s = r.uniform(-1, 1, nt) * (r.uniform(0, 1, nt) < 0.3)
    return amp * s


def inputs(spec, nt, kind, seed, scale=1.0):
    """(u, p) arrays for a specification."""
    ny, npar = len(spec['u']), len(spec['p'])
    u = np.stack([signal(kind, seed + 17 * i, nt, scale * spec['amp'])
                  for i in range(ny)], 1) if ny else np.zeros((nt, 0))
    r = np.random.RandomState(seed + 5)
    if npar:
        # parameters stay non negative: the model stays passive
        p = r.uniform(0, 2, (nt, npar))
        hold = r.randint(1, 6)
        p = p[(np.arange(nt) // hold)] if nt else p
    else:
        p = np.zeros((nt, 0))
    return u, p


def state(spec, seed, scale=0.4):
    r = np.random.RandomState(seed)
    return r.uniform(-1, 1, len(spec['x'])) * scale * spec.get('xs', 1.0)


def as_form(a, form):
    """The same sequence in one of the forms users give."""
    if a is None or form == 'none':
        return None
    if form == 'array':
        return np.array(a)
    if form == 'lists':
        return [list(map(float, r)) for r in a]
    if form == 'rows':
        return [np.array(r) for r in a]
    if form == 'gen':
        return (np.array(r) for r in a)
    if form == 'flat':
        return np.array(a)[:, 0]
    if form == 'flatlist':
        return [float(v) for v in np.array(a)[:, 0]]
    if form == 'fortran':
        return np.asfortranarray(a)
    raise ValueError(form)


def forms(n, rng, param=False):
    if param:
        c = ['array', 'lists', 'rows', 'fortran'] + (['flat'] if n == 1 else [])
    else:
        c = ['array', 'lists', 'rows', 'gen', 'fortran'] + (
            ['flat', 'flatlist'] if n == 1 else [])
    return rng.choice(c)


# -- reference ---------------------------------------------------------------

def numeric_rows(method, fs, u, p, inits=None, config=None):
    """Drive a numerical core directly, without simulation or storage."""
    from pyphs import Numeric
    cfg = {'fs': fs}
    cfg.update(config or {})
    nums = Numeric(method, inits=inits, config=cfg)
    rows = {n: [] for n in NAMES}
    for k in range(len(u)):
        nums.update(u=np.array(u[k]), p=np.array(p[k]))
        for n in NAMES:
            rows[n].append(np.array(getattr(nums, n)(), float).ravel())
    out = {}
    for n in NAMES:
        out[n] = np.array(rows[n]).reshape(len(u), -1)
    out['u'], out['p'] = np.array(u, float), np.array(p, float)
    return out


def read_all(data, names=ALL):
    out = {}
    nt = data.nt
    for n in names:
        out[n] = np.array(getattr(data, n)(tslice=slice(0, nt, 1)))
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def same_rows(a, b, names=ALL):
    """None or the first name and step that differ."""
    for n in names:
        if a[n].shape != b[n].shape:
            return dict(name=n, shapes=[list(a[n].shape), list(b[n].shape)])
        bad = np.argwhere(~((a[n] == b[n]) | ((a[n] != a[n]) & (b[n] != b[n]))))
        if len(bad):
            k = tuple(bad[0])
            return dict(name=n, step=int(k[0]), component=int(k[1]),
                        got=float(a[n][k]), want=float(b[n][k]))
    return None


def close_rows(a, b, names=ALL, rtol=1e-7, atol=1e-9):
    for n in names:
        if a[n].shape != b[n].shape:
            return dict(name=n, shapes=[list(a[n].shape), list(b[n].shape)])
        if not a[n].size:
            continue
        sc = np.max(np.abs(b[n]))
        bad = np.argwhere(~(np.abs(a[n] - b[n]) <= rtol * sc + atol))
        if len(bad):
            k = tuple(bad[0])
            return dict(name=n, step=int(k[0]), component=int(k[1]),
                        got=float(a[n][k]), want=float(b[n][k]), scale=float(sc))
    return None


def physics_rows(entry, method, rows):
    """Rows with components in the order of the specification."""
    s = entry.spec
    ix = [list(map(str, method.x)).index(k) for k in s['x']]
    iw = [list(map(str, method.w)).index(k) for k in s['w']]
    out = dict(rows)
    for k in ('x', 'dx', 'dxH'):
        out[k] = rows[k][:, ix]
    for k in ('w', 'z'):
        out[k] = rows[k][:, iw]
    return out


def check_physics(entry, method, rows, fs, x0=None, subs=None):
    """x0 in the order of method.x."""
    pr = physics_rows(entry, method, rows)
    if x0 is not None:
        ix = [list(map(str, method.x)).index(k) for k in entry.spec['x']]
        x0 = np.asarray(x0, float)[ix]
    return models.check_rows(entry.phys(subs), dict(method.config), fs, pr,
                             x0=x0)


def digest(rows, names=ALL):
    import hashlib
    h = hashlib.sha256()
    for n in names:
        if n in rows:
            a = np.ascontiguousarray(rows[n], dtype=float)
            h.update(n.encode())
            h.update(repr(a.shape).encode())
            h.update(a.tobytes())
    return h.hexdigest()[:16]


def open_files(folder):
    """Files under folder this process holds open."""
    out = []
    root = os.path.realpath(folder)
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(root + os.sep):
            out.append(os.path.relpath(p, root))
    return out


def calm_tree(ctx, folder):
    """tree() from inside a simulated process, unseen by the seam."""
    ctx.seam.off()
    try:
        return tree(folder)
    finally:
        ctx.seam.on()


def tree(folder):
    """Content of a folder: {relative path: bytes}."""
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fd:
                out[os.path.relpath(p, folder)] = fd.read()
    return out


def pick(rng, **weights):
    names = sorted(weights)
    return rng.choices(names, [weights[n] for n in names])[0]
