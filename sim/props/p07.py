"""P07: netlists survive writing, reading and editing."""
import gc
import glob
import json
import os

import numpy as np

from .. import work
from ..seam import FATAL
from .p06 import diff, snap

REPO = os.environ.get('VERIF_REPO', '/repo')
PLAN = {'quick': dict(runs=600, budget=150),
        'thorough': dict(runs=30000, budget=1500)}
RULE = ('one run = 1 to 3 simulated processes editing, writing and reading '
        'netlists on 3 paths, with storage errors or a crash at seeded '
        'operations; after every operation the listed components are compared '
        'with a reference list, cores built from written netlists with those '
        'of the lines they were written from; non-trivial = at least one '
        'write; distinct by the hash of the recorded history')
STATE = 'hash of (operation, number of lines, size class, fault, outcome)'
REAL = ['pyphs Netlist, Graph, dictionary, graph analysis (from /repo)']
STUB = ['system calls on the folder (LD_PRELOAD seam)']
ASSUME = ['labels and nodes are words of letters, digits and # _, string '
          'values are words that are not literals (the documented format)',
          'an interrupted or failed write may leave any content in the file '
          'being written, never in another one']
NEED = {'reads': 100, 'cores compared': 20}
HARD = ('ENOSPC', 'EIO', 'FULL', 'EACCES', 'EMFILE')

# what dictionary components accept
COMPONENTS = [
    ('electronics', 'resistor', 2, {'R': 'lv'}),
    ('electronics', 'capacitor', 2, {'C': 'lv'}),
    ('electronics', 'inductor', 2, {'L': 'lv'}),
    ('electronics', 'source', 2, {'type': ['voltage', 'current']}),
    ('electronics', 'diode', 2, {'Is': 'lv', 'v0': 'lv', 'mu': 'lv',
                                 'R': 'lv'}),
    ('mechanics', 'mass', 1, {'M': 'lv'}),
    ('mechanics', 'damper', 2, {'A': 'lv'}),
    ('mechanics', 'stiffness', 2, {'K': 'lv'}),
    ('mechanics', 'springcubic', 2, {'F1': 'lv', 'F3': 'lv', 'xref': 'lv'}),
    ('connectors', 'transformer', 4, {'alpha': 'lv'}),
    ('connectors', 'gyrator', 4, {'alpha': 'lv'}),
    ('magnetics', 'capacitor', 2, {'C': 'lv'}),
    ('thermics', 'capacitor', 1, {'C': 'lv'}),
    ('pwl', 'storage', 2, {'file': ['/data/a.pwl', 'rel/b.pwl', './c-1.pwl',
                                    '2N2222'], 'integ': 'bool'}),
    ('pwl', 'dissipative', 2, {'ctrl': ['e', 'f'], 'x_vals': 'list',
                               'f_vals': 'list'}),
]


def prepare():
    from pyphs import Netlist
    folder = os.path.join(os.environ['VERIF_BASE'], 'warm7')
    os.makedirs(folder)
    pool = {}
    for p in sorted(glob.glob(os.path.join(REPO, 'pyphs', '*', '*', '*.net')) +
                    glob.glob(os.path.join(REPO, 'pyphs', '*', '*.net'))):
        with open(p) as f:
            text = f.read()
        pool[os.path.relpath(p, REPO)] = text
    q = os.path.join(folder, 'a.net')
    with open(q, 'w') as f:
        f.write(ladder_text(np.random.RandomState(1), 3))
    Netlist(q).to_core()
    return pool


# -- lines -------------------------------------------------------------------

def value(rng, form, tag):
    x = rng.choice([rng.uniform(1e-9, 1e-6), rng.uniform(0.1, 10),
                    rng.randint(1, 9), rng.uniform(1e3, 1e7), 1e-300,
                    0.1 + 0.2, 12345678.123456789, -rng.uniform(0, 3)])
    if form == 'bool':
        return rng.random() < 0.5
    if form == 'list':
        return [round(rng.uniform(-9, 9), 3) for _ in range(rng.randint(1, 4))]
    if isinstance(form, list):
        return rng.choice(form)
    k = rng.choice(['lv', 'lv', 'v', 'l', 'q'])
    if k == 'lv':
        return [tag, x]
    if k == 'v':
        return x
    if k == 'q':
        return [tag, rng.randint(-5, 5)]
    return tag


def line(rng, n):
    d, c, k, pars = rng.choice(COMPONENTS)
    nodes = [rng.choice(['#', 'n1', 'n2', 'N_3', 'A', 7, 'node%d' % n])
             for _ in range(k)]
    args = {p: value(rng, f, '%s%d_%s' % (p, n, rng.choice('abc')))
            for p, f in sorted(pars.items()) if rng.random() < 0.9}
    return dict(dictionary=d, component=c, label='%s%d' % (
        rng.choice(['R', 'c_', 'Xy']), n), nodes=nodes, arguments=args)


def real(ln):
    """JSON form -> what users give (tuples)."""
    out = dict(ln)
    out['nodes'] = tuple(ln['nodes'])
    out['arguments'] = {k: tuple(v) if isinstance(v, list) and len(v) == 2 and
                        isinstance(v[0], str) else v
                        for k, v in ln['arguments'].items()}
    return out


def plain(item):
    """what pyphs lists -> JSON form, exact types."""
    def f(v):
        if isinstance(v, tuple):
            return ['tuple'] + [f(e) for e in v]
        if isinstance(v, list):
            return ['list'] + [f(e) for e in v]
        return [type(v).__name__, repr(v)]
    return dict(dictionary=item['dictionary'], component=item['component'],
                label=item['label'], nodes=f(tuple(item['nodes'])),
                arguments=[[k, f(v)] for k, v in item['arguments'].items()])


def ladder(r, n):
    """A realisable circuit: source, then sections."""
    out = [dict(dictionary='electronics', component='source', label='in',
                nodes=['#', 'a0'], arguments={'type': 'voltage'})]
    for i in range(n):
        k = r.randint(0, 3)
        out.append(dict(
            dictionary='electronics', component='resistor', label='R%d' % i,
            nodes=['a%d' % i, 'a%d' % (i + 1)],
            arguments={'R': ['R%d' % i, round(float(r.uniform(1, 1e4)), 2)]}))
        if k < 2:
            out.append(dict(
                dictionary='electronics', component='capacitor',
                label='C%d' % i, nodes=['a%d' % (i + 1), '#'],
                arguments={'C': ['C%d' % i, float(r.uniform(1e-9, 1e-6))]}))
        else:
            out.append(dict(
                dictionary='electronics', component='inductor',
                label='L%d' % i, nodes=['a%d' % (i + 1), '#'],
                arguments={'L': [['L%d' % i, float(r.uniform(1e-3, 1))],
                                 float(r.uniform(1e-3, 1)),
                                 'L%d' % i][r.randint(3)]}))
    return out


def sound(lst):
    return 2 < len(lst) < 9 and all(
        x['label'] == 'in' or (x['label'][0] in 'RCL' and
                               str(x['nodes'][0])[0] == 'a') for x in lst
    ) and lst[0]['label'] == 'in' and len(lst) % 2 == 1 and \
        len({x['label'] for x in lst}) == len(lst)


def ladder_text(r, n):
    from pyphs.graphs.netlists import print_netlist_line
    return ''.join(print_netlist_line(real(x)) for x in ladder(r, n))


# -- traces ------------------------------------------------------------------

def gen(rng, pool, tier):
    procs = []
    n = 0
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(3, 12)):
            k = work.pick(rng, open=2, add=4, set=2, delete=1.5, write=4,
                          ladder=1, example=0.7, core=1, revalue=1.5, concat=0.5,
                          many=1, clear=0.3, lines=0.5, gc=0.6)
            i = rng.randrange(2)
            n += 1
            if k in ('open', 'clear'):
                ops.append([k, i, rng.randrange(3)])
            elif k == 'write':
                ops.append([k, i, rng.choice([None, None, 0, 1, 2])])
            elif k == 'add':
                ops.append([k, i, line(rng, n)])
            elif k == 'many':
                ops.append([k, i, line(rng, n), rng.choice([60, 140, 300])])
            elif k == 'set':
                ops.append([k, i, rng.randrange(6), line(rng, n)])
            elif k == 'delete':
                ops.append([k, i, rng.randint(-3, 6)])
            elif k == 'ladder':
                ops.append([k, i, rng.randrange(10**6), rng.randint(1, 3)])
            elif k == 'revalue':
                ops.append([k, i, rng.randrange(7),
                            value(rng, 'lv', 'par%d' % n)])
            elif k == 'example':
                ops.append([k, i, rng.choice(sorted(pool)),
                            rng.randrange(3)])
            else:
                ops.append([k, i])
        nw = sum(o[0] in ('write', 'open', 'clear') for o in ops)
        est = 3 * nw + 2
        faults, rfaults = [], []
        fate = work.pick(rng, none=2, crash=2, error=3, soft=1)
        if fate == 'crash':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(FATAL),
                           arg=rng.choice([rng.randint(1, 100),
                                           rng.randint(1, 9000)]))]
        elif fate == 'error':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(HARD),
                           arg=rng.randint(0, 9000))
                      for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.3:
                rfaults = [dict(at=rng.randint(1, est), kind=rng.choice(
                    ['EIO', 'EMFILE', 'EACCES']), arg=1)]
        elif fate == 'soft':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(
                ['SHORT', 'EINTR']), arg=rng.randint(1, 3000))
                for _ in range(2)]
            rfaults = [dict(at=rng.randint(1, est), kind=rng.choice(
                ['SHORT', 'EINTR']), arg=rng.randint(1, 300))
                for _ in range(2)]
        procs.append(dict(ops=ops, faults=faults, rfaults=rfaults))
    return dict(procs=procs)


def shrink(tr):
    p = tr['procs']
    for i in range(len(p)):
        if len(p) > 1:
            yield dict(procs=p[:i] + p[i + 1:])
    for i, q in enumerate(p):
        for j in range(len(q['ops'])):
            yield dict(procs=p[:i] + [dict(q, ops=q['ops'][:j] +
                                           q['ops'][j + 1:])] + p[i + 1:])
        for k in ('faults', 'rfaults'):
            for j in range(len(q[k])):
                yield dict(procs=p[:i] + [dict(q, **{
                    k: q[k][:j] + q[k][j + 1:]})] + p[i + 1:])


# -- execution ---------------------------------------------------------------

def execute(tr, ctx):
    root = ctx.mkdir('nets')
    journal = os.path.join(ctx.dir, 'journal')
    disk = {}                   # path number -> list of lines, or '?' unknown
    for q in tr['procs'] + [dict(ops='last', faults=[], rfaults=[])]:
        open(journal, 'w').close()
        out = ctx.proc(lambda: _process(q, ctx, root, journal, disk),
                       root=root, faults=q['faults'], rfaults=q['rfaults'],
                       expect=('ok', 'crash'))
        if out.status == 'crash':
            ctx.check(any(k in FATAL for k, _ in out.fired), 'died',
                      fired=out.fired)
            ctx.probe('crashes')
        with open(journal) as f:
            for s in f.read().splitlines():
                k, v = json.loads(s)
                disk[k] = v
        ctx.event('disk', [[os.path.basename(k), len(v)] for k, v in
                           sorted(disk.items())])


def _process(q, ctx, root, journal, disk):
    from pyphs import Netlist
    disk = dict(disk)
    paths = [os.path.join(root, n) for n in ('one.net', 'two.net',
                                             'net_3.x.net')]
    nets, lists, where = [None, None], [None, None], [None, None]

    def note(p, v):
        disk[p] = v
        with open(journal, 'a') as f:
            f.write(json.dumps([p, v]) + '\n')

    def listed(net):
        return [plain(net[n]) for n in range(net.nlines())]

    def want(lst):
        return [plain(real(x)) for x in lst]

    def check(i, what):
        if nets[i] is None:
            return
        got, exp = listed(nets[i]), want(lists[i])
        if got != exp:
            n = [a == b for a, b in zip(got, exp)] + [False]
            n = n.index(False)
            ctx.violate('lines-differ', after=what, line=n,
                        got=got[n:n + 1], want=exp[n:n + 1],
                        counts=[len(got), len(exp)])

    def others(touched):
        """Files nobody is writing are as they were."""
        ctx.seam.off()
        try:
            for p, v in disk.items():
                if p == touched or v == '?' or not os.path.exists(p):
                    continue
                with open(p) as f:
                    text = f.read()
                ctx.check(len([s for s in text.splitlines() if s]) == len(v),
                          'other-file-changed', path=os.path.basename(p),
                          touched=str(touched and os.path.basename(touched)))
        finally:
            ctx.seam.on()

    def open_(i, p, clear=False):
        path = paths[p]
        before = disk.get(path, [])
        had = len(ctx.seam.fired())
        exists = os.path.exists(path)
        if clear or not exists:
            note(path, '?')
        try:
            net = Netlist(path, clear=clear)
        except Exception as ex:                 # noqa
            fired = [k for k, _ in ctx.seam.fired()[had:]]
            ctx.check(before == '?' or fired or ctx.seam.c.full, 'read-failed',
                      error=repr(ex)[:300], lines=before if len(before) < 9
                      else len(before))
            ctx.event('open', p, type(ex).__name__)
            return False
        if clear or not exists:
            note(path, [])
            before = []
        if before == '?':
            # whatever is there: take it as it is
            ctx.event('open', p, 'unknown content')
            return False
        nets[i], lists[i], where[i] = net, list(before), path
        ctx.probe('reads')
        ctx.event('open', p, len(before))
        ctx.state('open', len(before), clear)
        check(i, 'reading')
        return True

    def write(i, p):
        path = paths[p] if p is not None else None
        target = path or where[i]
        had = len(ctx.seam.fired())
        note(target, '?')
        try:
            nets[i].write(path) if path else nets[i].write()
            note(target, list(lists[i]))
            res = 'ok'
        except Exception as ex:                 # noqa
            res = type(ex).__name__
            fired = [k for k, _ in ctx.seam.fired()[had:]]
            ctx.check(fired or ctx.seam.c.full, 'write-failed',
                      error=repr(ex)[:300])
        ctx.event('write', str(p), res, len(lists[i]))
        ctx.state('write', res, len(lists[i]), len(nets[i].netlist()) // 4096)
        ctx.probe('writes')
        check(i, 'writing')
        others(target if res != 'ok' else None)
        left = work.open_files(root)
        ctx.check(not left, 'left-open', files=left, outcome=res)

    def core(i):
        """The netlist read back gives the core of the lines."""
        folder = os.path.join(os.path.dirname(root), 'cores')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, 'x.net')
        nets[i].write(path)
        a = _build(Netlist(path))
        fresh = Netlist(os.path.join(folder, 'y.net'), clear=True)
        for x in lists[i]:
            fresh.add_line(real(x))
        b = _build(fresh)
        c = _build(nets[i])
        for what, v in (('written', a), ('edited', c)):
            if isinstance(v, str) or isinstance(b, str):
                ctx.check(v == b, 'core-differs', which=what,
                          got=str(v)[:300], want=str(b)[:300])
            else:
                v, bb = dict(v, label=0), dict(b, label=0)
                d = diff(v, bb)
                ctx.check(d is None, 'core-differs', which=what, **(d or {}))
                ctx.probe('cores compared')
        ctx.event('core', isinstance(b, str) and b)
        check(i, 'building the core')

    if q['ops'] == 'last':
        for p in range(3):
            if open_(0, p):
                if sound(lists[0]):
                    core(0)
        for p in range(3):
            # a rewrite makes every path good again
            lst = ladder(np.random.RandomState(p), 2)
            nets[1] = Netlist(paths[p], clear=True)
            lists[1], where[1] = lst, paths[p]
            for x in lst:
                nets[1].add_line(real(x))
            write(1, None)
            open_(0, p)
        return

    open_(0, 0)
    open_(1, 1)
    for op in q['ops']:
        k, i = op[0], op[1]
        if k in ('open', 'clear'):
            open_(i, op[2], k == 'clear')
            continue
        if k == 'gc':
            gc.collect()
            others(None)
            continue
        if nets[i] is None:
            continue
        net, lst = nets[i], lists[i]
        if k == 'add':
            net.add_line(real(op[2]))
            lst.append(op[2])
        elif k == 'many':
            for n in range(op[3]):
                x = dict(op[2], label='%s_%d' % (op[2]['label'], n))
                net.add_line(real(x))
                lst.append(x)
        elif k == 'set':
            if op[2] < len(lst):
                net.setline(op[2], real(op[3]))
                lst[op[2]] = op[3]
        elif k == 'revalue':
            if sound(lst) and op[2] < len(lst) and op[2] > 0:
                x = dict(lst[op[2]])
                x['arguments'] = {a: op[3] for a in x['arguments']}
                net.setline(op[2], real(x))
                lst[op[2]] = x
        elif k == 'delete':
            if -len(lst) <= op[2] < len(lst):
                net.delline(op[2])
                del lst[op[2]]
        elif k == 'ladder':
            for n in range(len(lst)):
                net.delline(0)
            del lst[:]
            for x in ladder(np.random.RandomState(op[2]), op[3]):
                net.add_line(real(x))
                lst.append(x)
        elif k == 'example':
            if not example(ctx, op[2], paths[op[3]], note):
                continue
        elif k == 'concat':
            o = 1 - i
            if nets[o] is None or len(lst) > 400:
                continue
            nets[i] = net + nets[o]
            lists[i] = lst + lists[o]
        elif k == 'write':
            write(i, op[2])
        elif k == 'lines':
            text = net.netlist()
            for n in range(len(lst)):
                ctx.check(net.line(n).rstrip('\n') ==
                          text.split('\n')[n], 'line-text', line=n)
            ctx.check([plain(x) for x in net] == listed(net), 'iteration')
        elif k == 'core':
            if sound(lst):
                ctx.seam.off()
                try:
                    core(i)
                finally:
                    ctx.seam.on()
        check(i, k)
        check(1 - i, k + ' on the other netlist')


def example(ctx, name, path, note):
    """Netlists shipped with pyphs: read, written, read again."""
    from pyphs import Netlist
    text = ctx.pool[name]
    note(path, '?')
    had = len(ctx.seam.fired())
    try:
        with open(path, 'w') as f:
            f.write(text)
        a = Netlist(path)
        n = len([s for s in text.splitlines()
                 if s.strip() and not s.startswith('#')])
        ctx.check(a.nlines() == n, 'example-lines', name=name,
                  got=a.nlines(), want=n)
        first = [plain(a[i]) for i in range(n)]
        a.write()
        b = Netlist(path)
    except OSError:
        ctx.check(len(ctx.seam.fired()) > had or ctx.seam.c.full,
                  'example-failed', name=name)
        return False
    again = [plain(b[i]) for i in range(b.nlines())]
    ctx.check(first == again, 'example-changed', name=name)
    ctx.probe('examples')
    ctx.event('example', name)
    return True


def _build(net):
    try:
        return snap(net.to_core())
    except Exception as ex:                     # noqa
        return type(ex).__name__
