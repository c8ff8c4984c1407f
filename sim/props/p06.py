"""P06: a saved core loads back as the same core, or loading fails."""
import json
import os

import numpy as np

from .. import models, work
from ..seam import FATAL

MODELS = ('rlc', 'duff', 'par', 'obs', 'damp', 'netmka', 'netclip')
PLAN = {'quick': dict(runs=140, budget=110),
        'thorough': dict(runs=20000, budget=1500)}
RULE = ('one run = 1 to 3 simulated processes, each a sequence of build, '
        'modify, save, load and simulate operations over 2 folders and 2 '
        'labels, with storage errors or a crash at seeded operations; '
        'non-trivial = at least one save; distinct by the hash of the '
        'recorded history')
STATE = 'hash of (operation, earlier content of the slot, fault, outcome)'
REAL = ['pyphs Core, save and load (from /repo)', 'shelve, pickle, gdbm']
STUB = ['system calls on the folder (LD_PRELOAD seam)']
ASSUME = ['a crash loses nothing that reached the page cache',
          'values are compared through their complete symbolic form '
          '(sympy.srepr)']
NEED = {'loaded': 100, 'overwritten by a crash': 5}
HARD = ('ENOSPC', 'EIO', 'FULL', 'EACCES')


def prepare():
    pool = work.make_pool(MODELS, ())
    work.warm(pool, ('d',))
    return pool


# -- cores as recipes: [model, [modification, seed], ...] --------------------

MODS = ('value', 'value', 'value', 'symbol', 'storage', 'dissipation', 'port',
        'entry', 'parameter', 'observer', 'split', 'reduce', 'connector',
        'gradient', 'force', 'substitute', 'label')


def apply_mod(core, kind, seed):
    import sympy
    r = np.random.RandomState(seed)
    n = '%d' % seed
    S = core.symbols
    subs = sorted(core.subs, key=str)
    if kind == 'value' and subs:
        k = subs[r.randint(len(subs))]
        core.subs[k] = round(float(r.uniform(1, 9)), 1)
    elif kind == 'symbol' and subs:
        k = subs[r.randint(len(subs))]
        core.subs[k] = S('k' + n) * 2
        core.subs[S('k' + n)] = 1.5
    elif kind == 'storage':
        core.add_storages(S('xs' + n), S('xs' + n)**2 / 2 +
                          S('xs' + n)**4 * int(r.randint(0, 2)))
        core.init_M()
    elif kind == 'dissipation':
        core.add_dissipations(S('wd' + n), S('rd' + n) * S('wd' + n))
        core.subs[S('rd' + n)] = float(r.randint(1, 9))
        core.init_M()
    elif kind == 'port':
        core.add_ports(S('up' + n), S('yp' + n))
        core.init_M()
    elif kind == 'entry' and core.M.shape[0] > 1:
        d = core.M.shape[0]
        i, j = r.randint(d), r.randint(d)
        v = S('m' + n) if r.randint(2) else sympy.Rational(int(r.randint(9)),
                                                           7)
        core.M[i, j] = v
        core.M[j, i] = -v
    elif kind == 'parameter' and subs:
        core.add_parameters(subs[r.randint(len(subs))])
    elif kind == 'observer' and core.x:
        core.add_observer({S('ob' + n): core.x[0]**2 + S('c' + n)})
    elif kind == 'split':
        core.linear_nonlinear()
    elif kind == 'reduce':
        core.reduce_z()
    elif kind == 'connector' and core.dims.y() >= 2:
        core.add_connector((0, 1), alpha=S('al' + n))
    elif kind == 'gradient' and core.x:
        core._dxH = [sympy.diff(core.H, x) for x in core.x]
    elif kind == 'force' and core.w:
        core.force_wnl.append(core.w[0])
    elif kind == 'substitute' and subs:
        core.substitute(subs={subs[0]: float(r.randint(1, 9))})
    elif kind == 'label':
        core.label = 'lab' + n


def cook(pool, recipe):
    from pyphs import Core
    e = pool[recipe[0]]
    if e.name in models.SPECS:
        import pyphs
        core = models.build_core(pyphs, e.name, e.spec)
    else:
        core = e.core.__copy__()
    for m in recipe[1:]:
        if m[0] == 'stored':
            core.label = m[1]
        else:
            apply_mod(core, m[0], m[1])
    assert isinstance(core, Core)
    return core


def _s(v):
    import sympy
    if isinstance(v, (list, tuple)):
        return [_s(e) for e in v]
    if isinstance(v, dict):
        return sorted([_s(k), _s(e)] for k, e in v.items())
    if isinstance(v, sympy.MatrixBase):
        return [list(v.shape), [sympy.srepr(e) for e in v]]
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, sympy.Basic):
        return sympy.srepr(v)
    return '%s %r' % (type(v).__name__, v)


def snap(core):
    out = {}
    for n in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'H', 'z', 'Q', 'Zl', 'bl',
              'M', 'subs', 'connectors', 'force_wnl', '_dxH', 'label'):
        out[n] = _s(getattr(core, n))
    out['observers'] = [[_s(k), _s(v)] for k, v in core.observers.items()]
    out['dims'] = {n: getattr(core.dims, n)() for n in
                   ('x', 'w', 'y', 'p', 'cy', 'xl', 'xnl', 'wl', 'wnl')}
    for n in ('dxH', 'o', 'dx', 'xl', 'wnl', 'Mxlxl', 'Mxx', 'Myw',
              'J', 'R'):
        v = getattr(core, n)
        out['m.' + n] = _s(v() if callable(v) else v)
    return json.loads(json.dumps(out))


_wanted = {}


def wanted(ctx, recipe):
    k = json.dumps(recipe)
    if k not in _wanted:
        _wanted[k] = snap(cook(ctx.pool, recipe))
    return _wanted[k]


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return dict(attribute=k, got=str(a.get(k))[:300],
                        want=str(b.get(k))[:300])
    return None


def rows_of(core):
    m = core.to_method()
    nu, npar = len(m.u), len(m.p)
    r = np.random.RandomState(1)
    return work.numeric_rows(m, 1000., r.uniform(-1e-3, 1e-3, (4, nu)),
                             r.uniform(0.5, 1, (4, npar)))


# -- traces ------------------------------------------------------------------

def _mod(rng):
    return ['mod', rng.randrange(2), rng.choice(MODS), rng.randrange(1000)]


def _op(rng):
    k = work.pick(rng, mod=3, save=4, load=3, new=0.7, sim=0.12, same=1,
                  into=1)
    v = rng.randrange(2)
    slot = rng.choice(['a/one', 'a/two', 'b/one', 'b/.', 'a/one'])
    if k == 'mod':
        return _mod(rng)
    if k == 'new':
        return ['new', v, rng.choice(MODELS)]
    if k == 'sim':
        return ['sim', v]
    # 'same' saves a core of equal size over the last one
    return [k, v, slot, rng.random() < 0.25]


def gen(rng, pool, tier):
    procs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = [['new', 0, rng.choice(MODELS)], ['new', 1, rng.choice(MODELS)]]
        ops += [_op(rng) for _ in range(rng.randint(2, 9))]
        nsave = sum(o[0] in ('save', 'same') for o in ops)
        faults, rfaults = [], []
        fate = work.pick(rng, none=2, crash=3, error=3, soft=1)
        est = 12 * (nsave + 1)
        if fate == 'crash':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(FATAL),
                           arg=rng.choice([rng.randint(1, 300),
                                           rng.randint(1, 20000)]))]
        elif fate == 'error':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(HARD),
                           arg=rng.randint(0, 30000))
                      for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.3:
                rfaults = [dict(at=rng.randint(1, est), kind=rng.choice(
                    ['EIO', 'SHORT', 'EINTR', 'EMFILE', 'EACCES']),
                    arg=rng.randint(1, 300))]
        elif fate == 'soft':
            faults = [dict(at=rng.randint(1, est), kind=rng.choice(
                ['SHORT', 'EINTR']), arg=rng.randint(1, 3000))
                for _ in range(2)]
        procs.append(dict(ops=ops, faults=faults, rfaults=rfaults))
    return dict(procs=procs)


def shrink(tr):
    p = tr['procs']
    for i in range(len(p)):
        if len(p) > 1:
            yield dict(procs=p[:i] + p[i + 1:])
    for i, q in enumerate(p):
        for j in range(2, len(q['ops'])):
            yield dict(procs=p[:i] + [dict(q, ops=q['ops'][:j] +
                                           q['ops'][j + 1:])] + p[i + 1:])
        for k in ('faults', 'rfaults'):
            for j in range(len(q[k])):
                yield dict(procs=p[:i] + [dict(q, **{
                    k: q[k][:j] + q[k][j + 1:]})] + p[i + 1:])


# -- execution ---------------------------------------------------------------

def execute(tr, ctx):
    root = ctx.mkdir('store')
    for f in ('a', 'b'):
        os.mkdir(os.path.join(root, f))
    journal = os.path.join(ctx.dir, 'journal')
    disk = {}                   # slot -> recipes it may hold; None: nothing
    for q in tr['procs'] + [dict(ops=None, faults=[], rfaults=[])]:
        open(journal, 'w').close()
        out = ctx.proc(lambda: _process(q, ctx, root, journal, disk),
                       root=root, faults=q['faults'], rfaults=q['rfaults'],
                       expect=('ok', 'crash'))
        if out.status == 'crash':
            ctx.check(any(k in FATAL for k, _ in out.fired), 'died',
                      fired=out.fired)
        with open(journal) as f:
            lines = [json.loads(s) for s in f.read().splitlines()]
        pending = None
        for ln in lines:
            if ln[0] == 'begin':
                pending = ln
                may = disk.setdefault(ln[1], [None])
                if ln[2] not in may:
                    may.append(ln[2])
            elif ln[0] == 'end':
                disk[ln[1]] = ln[2]
                pending = None
        if pending is not None and out.status == 'crash':
            ctx.probe('crash during a save')
            if disk[pending[1]][0] is not None:
                ctx.probe('overwritten by a crash')
        ctx.event('disk', sorted(disk.items()))


def _process(q, ctx, root, journal, disk):
    from pyphs import Core
    disk = {k: list(v) for k, v in disk.items()}
    cores, recipes = [None, None], [None, None]

    def note(*what):
        with open(journal, 'a') as f:
            f.write(json.dumps(what) + '\n')

    def args(slot, default, core):
        folder, label = slot.split('/')
        path = os.path.join(root, folder)
        kw = {}
        if default:
            os.chdir(path)
        else:
            kw['folder'] = path
        if label == '.':
            label = core.label
        else:
            kw['label'] = label
        return kw, folder + '/' + label, label

    def check_core(i, what):
        d = diff(snap(cores[i]), wanted(ctx, recipes[i]))
        ctx.check(d is None, 'core-differs', after=what, recipe=recipes[i],
                  **(d or {}))

    def load(i, slot, default, into):
        if not into:
            cores[i] = Core('one')
            recipes[i] = None
        kw, slot, label = args(slot, default, cores[i])
        may = disk.get(slot, [None])
        before = snap(cores[i])
        had = [k for k, _ in ctx.seam.fired()]
        files = work.calm_tree(ctx, root)
        try:
            cores[i].load(**kw)
        except Exception as ex:                 # noqa
            fired = [k for k, _ in ctx.seam.fired()][len(had):]
            ctx.event('load', slot, 'raised', type(ex).__name__)
            ctx.check(None in may or fired, 'load-failed', slot=slot, may=may,
                      error=repr(ex)[:300])
            ctx.check(diff(snap(cores[i]), before) is None,
                      'failed-load-changed-core', slot=slot)
            ctx.check(work.calm_tree(ctx, root) == files,
                      'load-changed-files', slot=slot)
            ctx.state('load', 'raised', len(may), may[0] is None)
            return False
        got = snap(cores[i])
        hits = [r for r in may if r is not None and
                diff(got, wanted(ctx, r)) is None]
        if not hits:
            known = [r for r in may if r is not None]
            d = diff(got, wanted(ctx, known[-1])) if known else {}
            ctx.violate('loaded-other-core', slot=slot, may=may, **d)
        recipes[i] = hits[-1]
        ctx.check(work.calm_tree(ctx, root) == files, 'load-changed-files', slot=slot)
        ctx.probe('loaded')
        ctx.event('load', slot, may.index(hits[-1]))
        ctx.state('load', 'ok', len(may), may[0] is None,
                  may.index(hits[-1]))
        return True

    if q['ops'] is None:
        # the last process reads everything, then saves everything again
        once = []
        for slot in sorted(disk):
            if load(0, slot, False, False) and not once and \
                    _simulable(recipes[0]):
                once.append(slot)
                want = rows_of(cook(ctx.pool, recipes[0]))
                bad = work.same_rows(rows_of(cores[0]), want)
                ctx.check(bad is None, 'loaded-core-simulates-differently',
                          recipe=recipes[0], **(bad or {}))
                ctx.probe('simulated')
        for slot in sorted(disk):
            rec = [MODELS[len(slot) % len(MODELS)]]
            folder, label = slot.split('/')
            cook(ctx.pool, rec).save(folder=os.path.join(root, folder),
                                     label=label)
            disk[slot] = [rec + [['stored', label]]]
            load(1, slot, False, False)
        return

    for op in q['ops']:
        k, i = op[0], op[1]
        if k == 'new':
            recipes[i] = [op[2]]
            cores[i] = cook(ctx.pool, recipes[i])
        elif k == 'mod':
            if recipes[i] is None:
                continue
            apply_mod(cores[i], op[2], op[3])
            recipes[i] = recipes[i] + [[op[2], op[3]]]
            j = 1 - i
            if recipes[j] is not None:
                check_core(j, 'change of the other core')
        elif k == 'sim':
            if recipes[i] is not None and _simulable(recipes[i]):
                want = rows_of(cook(ctx.pool, recipes[i]))
                bad = work.same_rows(rows_of(cores[i]), want)
                ctx.check(bad is None, 'simulates-differently',
                          recipe=recipes[i], **(bad or {}))
                ctx.probe('simulated')
        elif k in ('save', 'same'):
            if recipes[i] is None:
                continue
            kw, slot, label = args(op[2], op[3], cores[i])
            if k == 'same':
                apply_mod(cores[i], 'value', len(recipes[i]))
                recipes[i] = recipes[i] + [['value', len(recipes[i])]]
            may = disk.get(slot, [None])
            new = recipes[i] + [['stored', label]]
            had = len(ctx.seam.fired())
            note('begin', slot, new)
            try:
                cores[i].save(**kw)
                disk[slot] = [new]
                res = 'ok'
            except Exception as ex:             # noqa
                res = type(ex).__name__
                fired = [f for f, _ in ctx.seam.fired()[had:]]
                ctx.check(_full(ctx) or fired, 'save-failed', slot=slot,
                          error=repr(ex)[:300])
                disk[slot] = may + [new]
            note('end', slot, disk[slot])
            ctx.event('save', slot, res)
            ctx.state('save', res, len(may), may[0] is None)
            ctx.probe('saves')
            left = work.open_files(root)
            ctx.check(not left, 'left-open', files=left, outcome=res)
            check_core(i, 'save')
            if res != 'ok' and len(may) == 1 and may[0] is not None:
                ctx.probe('failed save over a good one')
        elif k == 'load' or k == 'into':
            load(i, op[2], op[3], k == 'into' and cores[i] is not None)
            if recipes[1 - i] is not None:
                check_core(1 - i, 'load of the other core')


def _full(ctx):
    return bool(ctx.seam.c.full)


def _simulable(recipe):
    return all(m[0] in ('value', 'storage', 'stored', 'split', 'label')
               for m in recipe[1:])
