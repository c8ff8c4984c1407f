"""The exporters of pyphs behind one interface, used by P08 and P09."""
import os

import numpy as np

from . import work

TOOL = """#!/bin/sh
mkdir -p bin
printf '#!/bin/sh\\nexit 0\\n' > "bin/$1"
"""


def tool(folder, label):
    """A C++ tool chain that builds a program doing nothing."""
    p = os.path.join(folder, 'cmake-' + label)
    with open(p, 'w') as f:
        f.write("#!/bin/sh\nmkdir -p bin\n"
                "printf '#!/bin/sh\\nexit 0\\n' > 'bin/%s'\n"
                "chmod 755 'bin/%s'\n" % (label, label))
    os.chmod(p, 0o755)
    return p


def opts(rng, name, spec):
    o = dict(exp=name, x0=rng.choice([None, rng.randrange(10**6)]))
    if name in ('cpp', 'juce', 'simcpp'):
        o['fs'] = rng.choice([None, 44100.0, 96e3])
        o['obj'] = rng.choice([None, 'device'])
        o['key'] = rng.choice(['d', 'z'])
    if name == 'juce':
        o['params'] = rng.random() < 0.5
        o['io'] = rng.random() < 0.5
    if name == 'faust':
        o['nit'] = rng.choice([1, 3, 10])
    if name == 'tex':
        o['title'] = rng.choice([None, 'A title', 'Caf\u00e9 & co'])
    if name == 'wav':
        o['sig'] = rng.choice(['x', 'y', 'dxH'])
        o['index'] = rng.randrange(2)
        o['gain'] = rng.choice([1.0, 0.5])
        o['norm'] = rng.choice([True, True, 4.0])
        o['fs'] = rng.choice([None, None, 8000.0])
        o['fades'] = rng.choice([0.0, 0.0, 0.004])
        o['window'] = rng.choice([None, [3, 20]])
    return o


EXPS = ('cpp', 'simcpp', 'faust', 'juce', 'tex', 'wav')


def usable(name, entry):
    s = entry.spec
    if name == 'tex':
        return entry.name.startswith('net')
    if name in ('juce',):
        return bool(s['u'])
    if name == 'wav':
        return bool(s['u'] and s['x'])
    return True


def run(entry, o, folder, aux):
    """Perform one export below folder.  aux: a folder nobody watches.  Gives
    the objects of the caller that the export was given."""
    import pyphs
    name = o['exp']
    spec = entry.spec
    inits = None
    if o['x0'] is not None:
        inits = {'x': [float(v) for v in work.state(spec, o['x0'])]}
    given = dict(inits=inits)
    if name == 'cpp':
        m = entry.method(o['key'])
        cfg = {'fs': o['fs']} if o['fs'] else None
        given['config'] = cfg
        m.to_cpp(objlabel=o['obj'], path=os.path.join(folder, 'cpp'),
                 inits=inits, config=cfg)
    elif name == 'simcpp':
        cfg = dict(path=os.path.join(folder, 'sim'), lang='c++',
                   cmake=tool(aux, entry.name))
        if o['fs']:
            cfg['fs'] = o['fs']
        given['config'] = cfg
        sim = pyphs.Simulation(entry.method(o['key']), config=cfg,
                               inits=inits)
        sim.init(nt=7)
        sim.process()
    elif name == 'juce':
        m = entry.method(o['key'])
        params = {p: (0.0, 2.0, 1.0) for p in m.p} if o['params'] else None
        io = ([m.u[0]], [m.y[0]]) if o['io'] else None
        cfg = {'fs': o['fs']} if o['fs'] else None
        given.update(config=cfg, params=params, io=io)
        p = os.path.join(folder, 'juce')
        if not os.path.exists(p):
            os.mkdir(p)
        from pyphs.misc.juce._fx import method2jucefx
        method2jucefx(m, path=p, inits=inits, params=params, io=io,
                      config=cfg)
    elif name == 'faust':
        pyphs.core2faustfx(entry.core, path=os.path.join(folder, 'fx.dsp'),
                           inits=inits, nIt=o['nit'])
    elif name == 'tex':
        net = pyphs.Netlist(os.path.join(os.environ['VERIF_BASE'],
                                         entry.name + '.net'))
        pyphs.texdocument(pyphs.netlist2tex(net),
                          os.path.join(folder, 'doc.tex'), title=o['title'])
    elif name == 'wav':
        sim = entry.wavsim(aux)
        d = sim.data
        if o['window']:
            d.start, d.stop = o['window']
        try:
            d.wavwrite(o['sig'], o['index'] % _dim(spec, o['sig']),
                       path=os.path.join(folder, 'sound'), gain=o['gain'],
                       fs=o['fs'], normalize=o['norm'],
                       timefades=o['fades'])
        finally:
            d.start, d.stop = None, None
    return given


def _dim(spec, sig):
    return len(spec['y' if sig == 'y' else 'x'])


class Source(work.Entry):
    """A pool entry with a finished simulation to read from."""
    WAVNT = 40

    def __init__(self, e):
        self.__dict__.update(e.__dict__)
        self._sim = None

    def wavsim(self, aux):
        if self._sim is None:
            from pyphs import Simulation
            m = self.method('d')
            self._sim = Simulation(m, config=dict(
                path=os.path.join(aux, 'wav-' + self.name), fs=16000.0))
            u, p = work.inputs(self.spec, self.WAVNT, 'noise', 3)
            self._sim.init(u=u, p=p)
            self._sim.process()
        return self._sim


def wav_expected(entry, o, aux):
    """What the wave file has to contain: (rate, samples or None)."""
    sim = entry.wavsim(aux)
    m = sim.method
    rows = work.read_all(sim.data, (o['sig'],))[o['sig']]
    s = rows[:, o['index'] % _dim(entry.spec, o['sig'])] * o['gain']
    if o['window']:
        s = s[o['window'][0]:o['window'][1]]
    nf = int(o['fades'] * 16000.0)
    if nf and len(s) >= 2 * nf:
        f = np.concatenate([np.arange(nf) / nf, np.ones(len(s) - 2 * nf),
                            (nf - 1 - np.arange(nf)) / nf])
        s = s * f
    if o['fs'] and o['fs'] != 16000.0:
        return o['fs'], int(len(s) * o['fs'] / 16000.0), None
    sc = o['norm'] if isinstance(o['norm'], float) else \
        (np.max(np.abs(s)) or 1.0)
    return 16000.0, len(s), (2 ** 15 - 1.0) * s / sc
