"""Model pool and the independent physics oracle.

A model is described by a plain specification (energy, dissipation law,
interconnection matrix, parameters).  pyphs builds its Core from it; the oracle
evaluates the same specification with sympy alone, never with pyphs code.
"""
import os
import numpy as np

# --------------------------------------------------------------------------
# specifications: all names are strings, parsed by sympy

SPECS = {
    # series RLC driven by a voltage (linear)
    'rlc': dict(
        x=['xL', 'xC'], H='xL**2/(2*L)+xC**2/(2*C)',
        w=['wR'], z=['R*wR'], u=['vin'], y=['iout'], p=[], o={},
        M=[['0', '-1', '-1', '-1'],
           ['1', '0', '0', '0'],
           ['1', '0', '0', '0'],
           ['1', '0', '0', '0']],
        subs={'L': 0.05, 'C': 2e-6, 'R': 1e3}, fs=48e3, amp=5.0),
    # mass with hardening spring and nonlinear friction
    'duff': dict(
        x=['q', 'pm'], H='k*q**2/2+k3*q**4/4+pm**2/(2*ma)',
        w=['vd'], z=['r*vd+r3*vd**3'], u=['f'], y=['vel'], p=[], o={},
        M=[['0', '1', '0', '0'],
           ['-1', '0', '-1', '-1'],
           ['0', '1', '0', '0'],
           ['0', '1', '0', '0']],
        subs={'k': 30.0, 'k3': 5.0, 'ma': 0.4, 'r': 0.3, 'r3': 0.02},
        fs=1e3, amp=4.0),
    # two ports, two free parameters that change during the run
    'par': dict(
        x=['x1', 'x2'], H='x1**2/(2*c1)+x2**2/(2*c2)',
        w=['w1', 'w2'], z=['ga*w1', 'gb*w2+g0*w2'],
        u=['u1', 'u2'], y=['y1', 'y2'], p=['ga', 'gb'], o={},
        M=[['0', '-1', '-1', '0', '-1', '0'],
           ['1', '0', '0', '-1', '0', '-1'],
           ['1', '0', '0', '0', '0', '0'],
           ['0', '1', '0', '0', '0', '0'],
           ['1', '0', '0', '0', '0', '0'],
           ['0', '1', '0', '0', '0', '0']],
        subs={'c1': 0.8, 'c2': 1.3, 'g0': 0.1}, fs=500.0, amp=2.0),
    # energy that does not separate, conservative but for one port
    'multi': dict(
        x=['xa', 'xb'], H='(xa**2+xb**2)/2+g*xa**2*xb**2/2',
        w=[], z=[], u=['ue'], y=['ys'], p=[], o={},
        M=[['0', '-1', '0'],
           ['1', '0', '-1'],
           ['0', '1', '0']],
        subs={'g': 0.4}, fs=400.0, amp=1.5),
    # rigid body: state dependent interconnection, no port, no dissipation
    'euler': dict(
        x=['l1', 'l2', 'l3'],
        H='l1**2/(2*i1)+l2**2/(2*i2)+l3**2/(2*i3)',
        w=[], z=[], u=[], y=[], p=[], o={},
        M=[['0', '-l3', 'l2'],
           ['l3', '0', '-l1'],
           ['-l2', 'l1', '0']],
        subs={'i1': 1.0, 'i2': 2.0, 'i3': 3.5}, fs=200.0, amp=0.0),
    # observers, one feeding the dissipation law
    'obs': dict(
        x=['q', 'pm'], H='k*q**2/2+pm**2/(2*ma)',
        w=['vd'], z=['r*vd*(1+oq)'], u=['f'], y=['vel'], p=[],
        o={'oq': 'q**2'},
        M=[['0', '1', '0', '0'],
           ['-1', '0', '-1', '-1'],
           ['0', '1', '0', '0'],
           ['0', '1', '0', '0']],
        subs={'k': 20.0, 'ma': 0.5, 'r': 0.4}, fs=1e3, amp=3.0),
    # modulated port and dissipation: everything moves with the state
    'mod': dict(
        x=['q', 'pm'], H='k*q**2/2+pm**2/(2*ma)',
        w=['vd'], z=['(r+r3*q**2)*vd'], u=['f'], y=['vel'], p=[], o={},
        M=[['0', '1', '0', '0'],
           ['-1', '0', '-1', '-(1+q**2)'],
           ['0', '1', '0', '0'],
           ['0', '1+q**2', '0', '0']],
        subs={'k': 30.0, 'ma': 0.4, 'r': 0.3, 'r3': 2.0},
        fs=200.0, amp=3.0),
    # resistive matrix part: dissipation through M, not through z
    'damp': dict(
        x=['x1', 'x2'], H='x1**2/(2*c1)+cosh(x2*s)-1',
        w=[], z=[], u=['u1'], y=['y1'], p=[], o={},
        M=[['-d1', '-1', '-1'],
           ['1', '-d2', '0'],
           ['1', '0', '0']],
        subs={'c1': 0.7, 's': 0.8, 'd1': 0.25, 'd2': 0.1},
        fs=300.0, amp=1.0),
}

NETLISTS = {
    'netrlc': ("electronics.source in ('#', 'n1'): type=voltage;\n"
               "electronics.resistor R ('n1', 'n2'): R=('R', 1e3);\n"
               "electronics.inductor L ('n2', 'n3'): L=('L', 0.05);\n"
               "electronics.capacitor C ('n3', '#'): C=('C', 2e-06);\n"),
    'netmka': ("mechanics.mass M1 ('A', '#'): M=('Mass', 0.1);\n"
               "mechanics.springcubic K1 ('A', '#'): F1=('F1', 3.0); "
               "F3=('F3', 0.8); xref=('xref', 0.1);\n"
               "mechanics.damper A1 ('A', '#'): A=('Adamp', 0.5);\n"
               "mechanics.source FS ('A', '#'): type='force';\n"),
    'netclip': ("electronics.source IN ('#', 'n1'): type=voltage;\n"
                "electronics.resistor R1 ('n1', 'n2'): R=('R1', 1e3);\n"
                "electronics.diode D ('n2', '#'): v0=('v0', 0.026); "
                "mu=('mu', 1.7); Is=('Is', 2e-09); R=('Rd', 0.5);\n"
                "electronics.capacitor C ('n2', '#'): C=('C', 1e-7);\n"),
}
NET_XS = {'netrlc': 1e-5, 'netclip': 2e-7}
NET_FS = {'netrlc': (48e3, 5.0), 'netmka': (1e3, 1.0), 'netclip': (48e3, 0.8)}


def random_spec(rng, n=None):
    """A random passive linear/nonlinear structure."""
    nx = rng.randint(1, 3) if n is None else n
    nw = rng.randint(0, 2)
    ny = rng.randint(0, 2)
    x = ['x%d' % i for i in range(nx)]
    w = ['w%d' % i for i in range(nw)]
    u = ['u%d' % i for i in range(ny)]
    y = ['y%d' % i for i in range(ny)]
    subs = {}
    H = []
    for i in range(nx):
        subs['c%d' % i] = round(rng.uniform(0.3, 3.0), 3)
        H.append('c%d*x%d**2/2' % (i, i))
        if rng.random() < 0.3:
            subs['k%d' % i] = round(rng.uniform(0.1, 2.0), 3)
            H.append('k%d*x%d**4/4' % (i, i))
    z = []
    for i in range(nw):
        subs['r%d' % i] = round(rng.uniform(0.1, 3.0), 3)
        z.append('r%d*w%d' % (i, i) +
                 ('+w%d**3/10' % i if rng.random() < 0.3 else ''))
    d = nx + nw + ny
    M = [['0'] * d for _ in range(d)]
    for i in range(d):
        for j in range(i):
            # no algebraic loop between dissipations, none between ports
            if i < nx or (j < nx):
                if rng.random() < 0.7:
                    v = rng.choice([1, -1, 0.5, -0.5, 2])
                    M[i][j], M[j][i] = repr(v), repr(-v)
    return dict(x=x, H='+'.join(H), w=w, z=z, u=u, y=y, p=[], o={}, M=M,
                subs=subs, fs=float(rng.choice([200, 500, 1000])),
                amp=round(rng.uniform(0.2, 3.0), 2))


# --------------------------------------------------------------------------
# building with pyphs

def build_core(pyphs, name, spec):
    core = pyphs.Core(label=name)
    S = core.symbols
    allnames = (spec['x'] + spec['w'] + spec['u'] + spec['y'] + spec['p'] +
                list(spec['o']) + list(spec['subs']))
    loc = {n: S(n) for n in allnames}
    import sympy

    def E(s):
        return sympy.sympify(s, locals=loc)
    if spec['x']:
        core.add_storages([loc[n] for n in spec['x']], E(spec['H']))
    if spec['w']:
        core.add_dissipations([loc[n] for n in spec['w']],
                              [E(s) for s in spec['z']])
    if spec['u']:
        core.add_ports([loc[n] for n in spec['u']],
                       [loc[n] for n in spec['y']])
    core.subs.update({loc[k]: v for k, v in spec['subs'].items()})
    if spec['p']:
        core.add_parameters([loc[n] for n in spec['p']])
    if spec['o']:
        core.add_observer({loc[k]: E(v) for k, v in spec['o'].items()})
    core.init_M()
    core.M = sympy.SparseMatrix([[E(e) for e in row] for row in spec['M']])
    return core


def build_netlist_core(pyphs, name, folder):
    path = os.path.join(folder, name + '.net')
    with open(path, 'w') as f:
        f.write(NETLISTS[name])
    return pyphs.Netlist(path).to_core()


def spec_of_core(core, fs=48e3, amp=1.0):
    """Specification read back from a core built by the graph analysis."""
    H = core.H
    M = core.M
    subs = {}
    for k, v in core.subs.items():
        subs[str(k)] = v
    n = M.shape[0]
    return dict(x=list(map(str, core.x)), H=str(H), w=list(map(str, core.w)),
                z=[str(z) for z in core.z], u=list(map(str, core.u)),
                y=list(map(str, core.y)), p=list(map(str, core.p)),
                o={str(k): str(v) for k, v in core.observers.items()},
                M=[[str(M[i, j]) for j in range(n)] for i in range(n)],
                subs=subs, fs=fs, amp=amp)


# --------------------------------------------------------------------------
# the oracle

class Physics:
    """Evaluates a specification with sympy only."""

    def __init__(self, spec, subs=None):
        import sympy
        self.spec = spec
        values = dict(spec['subs'])
        values.update(subs or {})
        # parameter values may be expressions of other parameters
        names = (spec['x'] + spec['w'] + spec['u'] + spec['y'] + spec['p'] +
                 list(spec['o']))
        loc = {n: sympy.Symbol(n, real=True)
               for n in names + list(values)}
        self.loc = loc

        def E(s):
            e = sympy.sympify(s, locals=loc)
            for _ in range(10):
                e2 = e.subs({loc[k]: sympy.sympify(v, locals=loc)
                             for k, v in values.items() if k not in spec['p']})
                if e2 == e:
                    break
                e = e2
            return e
        xs = [loc[n] for n in spec['x']]
        args = ([loc[n] for n in spec['x']] + [loc[n] for n in spec['w']] +
                [loc[n] for n in spec['p']] + [loc[n] for n in spec['o']] +
                [loc[n] for n in spec['u']])
        H = E(spec['H']) if spec['x'] else sympy.Integer(0)
        self._H = sympy.lambdify(xs, H, 'math')
        self._g = [sympy.lambdify(xs, sympy.diff(H, s), 'math') for s in xs]
        self._z = [sympy.lambdify(args, E(s), 'math') for s in spec['z']]
        # pyphs allows gradients (gX) in M/z of dictionary components; not used
        self._M = [[(lambda v: (lambda *a: v))(float(e)) if e.is_number
                    else sympy.lambdify(args, e, 'math')
                    for e in map(E, row)] for row in spec['M']]
        self._o = [sympy.lambdify(args, E(s), 'math')
                   for s in spec['o'].values()]
        # terms of the energy that do not vanish at rest
        self.offset = 2.0 if any(s in str(H) for s in ('cosh', 'log', 'exp',
                                                       'cos')) else 0.0
        self.nx, self.nw = len(spec['x']), len(spec['w'])
        self.ny, self.np = len(spec['y']), len(spec['p'])

    def H(self, x):
        return float(self._H(*x)) if self.nx else 0.0

    def grad(self, x):
        return np.array([float(g(*x)) for g in self._g])

    def _args(self, x, w, p, o, u):
        return list(x) + list(w) + list(p) + list(o) + list(u)

    def obs(self, x, w, p, u):
        a = self._args(x, w, p, [0.0] * len(self._o), u)
        return [float(f(*a)) for f in self._o]

    def M(self, x, w, p, o, u):
        a = self._args(x, w, p, o, u)
        return np.array([[float(f(*a)) for f in row] for row in self._M]
                        ).reshape(len(self._M), len(self._M))

    def z(self, x, w, p, o, u):
        a = self._args(x, w, p, o, u)
        return np.array([float(f(*a)) for f in self._z])

    # ----------------------------------------------------------------------
    def check_step(self, cfg, fs, row, prev_dx=None):
        """Residuals of one stored step.  row: dict of arrays x, dx, dxH, w, z,
        y, u, p.  Returns a list of (law, size, scale)."""
        x, dx, dxH = row['x'], row['dx'], row['dxH']
        w, z, y, u, p = row['w'], row['z'], row['y'], row['u'], row['p']
        out = []
        theta = cfg['theta']
        rough = np.zeros(self.nx)
        # gradient
        if self.nx:
            if cfg['grad'] == 'theta':
                g = self.grad(x + theta * dx)
                out.append(('gradient', np.max(np.abs(g - dxH)),
                            np.max(np.abs(g)) + np.max(np.abs(dxH))))
            elif cfg['grad'] == 'trapez':
                g = 0.5 * (self.grad(x) + self.grad(x + dx))
                out.append(('gradient', np.max(np.abs(g - dxH)),
                            np.max(np.abs(g)) + np.max(np.abs(dxH))))
            else:
                h0, h1 = self.H(x), self.H(x + dx)
                out.append(('energy-increment', abs(dxH.dot(dx) - (h1 - h0)),
                            abs(dxH).dot(abs(dx)) + 1e-3 * (abs(h0) + abs(h1))))
                # a discrete gradient is consistent: it lies between the
                # gradients met along the step (up to curvature)
                pts = np.array([self.grad(x + a * dx)
                                for a in (0.0, 0.25, 0.5, 0.75, 1.0)])
                # each coordinate may be incremented before or after others
                alt = np.array([self.grad(np.where(m, x + dx, x))
                                for m in _masks(self.nx)])
                lo = np.minimum(pts.min(0), alt.min(0))
                hi = np.maximum(pts.max(0), alt.max(0))
                # a quotient of differences of the energy is rounded
                rough = np.where(dx == 0, 0, 8e-16 * (
                    self.offset + abs(h0) + abs(h1)) / np.where(
                        dx == 0, 1, abs(dx)))
                sl = hi - lo + 1e-6 * (abs(hi) + abs(lo)) + 4 * rough
                exc = np.maximum(lo - sl - dxH, dxH - hi - sl).max()
                out.append(('gradient-consistency', max(exc, 0.0),
                            np.max(abs(hi)) + np.max(abs(lo))))
        # structure
        o = self.obs(x, w, p, u)
        if cfg['grad'] == 'trapez':
            M = 0.5 * (self.M(x, w, p, o, u) + self.M(x + dx, w, p, o, u))
            zz = 0.5 * (self.z(x, w, p, o, u) + self.z(x + dx, w, p, o, u))
        else:
            M = self.M(x + theta * dx, w, p, o, u)
            zz = self.z(x + theta * dx, w, p, o, u)
        if self.nw:
            out.append(('dissipation-law', np.max(np.abs(zz - z)),
                        np.max(np.abs(z)) + np.max(np.abs(zz))))
        a = np.concatenate([dxH, z, u])
        b = np.concatenate([dx * fs, w, y])
        if len(a):
            r = b - M.dot(a)
            # scale: what the row's terms amount to
            sc = np.max(np.abs(M).dot(np.abs(a)) + np.abs(b))
            slack = np.abs(M)[:, :self.nx].dot(rough)
            out.append(('structure', np.max(np.abs(r) - slack), sc))
            # power balance: dxH.dtx + z.w + u.y + dissipation in M = 0
            R = -0.5 * (M + M.T)
            pb = (dxH.dot(dx) * fs + z.dot(w) + u.dot(y) + a.dot(R.dot(a)))
            sc = (abs(dxH).dot(abs(dx)) * fs + abs(z).dot(abs(w)) +
                  abs(u).dot(abs(y)))
            out.append(('power-balance', abs(pb), sc))
        return out


def _masks(n):
    if n > 4:
        return [np.zeros(n, bool), np.ones(n, bool)]
    return [np.array([(k >> i) & 1 == 1 for i in range(n)])
            for k in range(2 ** n)]


RTOL, ATOL = 1e-6, 1e-9


def check_rows(phys, cfg, fs, rows, x0=None, dx0=None, rtol=RTOL, atol=ATOL,
               first=0):
    """Check a whole stored trajectory.  Returns None or a description of the
    first law that fails."""
    n = rows['x'].shape[0]
    for k in range(n):
        row = {name: np.asarray(rows[name][k], float) for name in rows}
        if not all(np.all(np.isfinite(v)) for v in row.values()):
            return dict(step=first + k, law='finite')
        if k == 0:
            if x0 is not None:
                want = np.asarray(x0, float)
                if dx0 is not None:
                    want = want + np.asarray(dx0, float)
                if not np.array_equal(row['x'], want):
                    return dict(step=first, law='initial-state',
                                got=row['x'].tolist(), want=want.tolist())
        else:
            want = rows['x'][k - 1] + rows['dx'][k - 1]
            if not np.array_equal(np.asarray(want), row['x']):
                return dict(step=first + k, law='state-chaining',
                            got=row['x'].tolist(), want=want.tolist())
        for law, size, scale in phys.check_step(cfg, fs, row):
            if not size <= rtol * scale + atol:
                return dict(step=first + k, law=law, size=float(size),
                            scale=float(scale))
    return None
