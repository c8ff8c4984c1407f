"""P08: exporters write complete files or raise, deterministically."""
import copy
import gc
import os
import shutil
import wave

import numpy as np

from .. import exports, work
from .p03 import _config_sig, _core_sig, _same_sig, _eq

MODELS = ('rlc', 'duff', 'par', 'obs', 'netrlc', 'netmka')
KEYS = ('d', 'z')
FAUST = ('rlc', 'par', 'netrlc')
PLAN = {'quick': dict(runs=85, budget=100),
        'thorough': dict(runs=8000, budget=1500)}
TIMEOUT = 90.0
RULE = ('one run = 1 to 5 exports (C++ sources, C++ simulation, Faust, JUCE, '
        'LaTeX, wave) over an empty or filled folder, with at most one storage '
        'fault or crash in each, repeated after a failure, each compared byte '
        'for byte with an undisturbed export in a new process; non-trivial = a '
        'fault fired or two exports; distinct by the hash of the history')
STATE = ('hash of (previous exporter, exporter, earlier content, fault, '
         'operation number)')
REAL = ['pyphs exporters (from /repo)', 'Python io, wave, h5py']
STUB = ['storage errors and crashes (LD_PRELOAD)', 'clock (pinned)',
        'C++ tools (scripts)']
ASSUME = ['the date in the generated files is the virtual one, the same for '
          'all exports of a run']
NEED = {'ENOSPC': 5, 'EIO': 5, 'CRASH': 5, 'TORN': 3, 'complete': 100}
FAULTS = ('ENOSPC', 'EIO', 'CRASH', 'TORN', 'CRASH_AFTER', 'SHORT', 'EINTR',
          'FULL', 'EACCES', 'EMFILE')
CLOCK = dict(mono=10**12, wall=1700000000 * 10**9, step=0)


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    # warm the exporters
    base = os.environ['VERIF_BASE']
    d = os.path.join(base, 'warm')
    pool = {n: exports.Source(e) for n, e in pool.items()}
    for n, e in pool.items():
        for name in exports.EXPS:
            if not exports.usable(name, e) or name in ('simcpp', 'wav') or \
                    name == 'faust' and n not in FAUST:
                continue
            os.makedirs(d, exist_ok=True)
            exports.run(e, dict(exp=name, x0=None, fs=None, obj=None, key='d',
                                params=False, io=False, nit=1, title=None),
                        d, d)
    shutil.rmtree(d)
    return pool


def gen(rng, pool, tier):
    ops = []
    models = rng.sample(MODELS, rng.choice([1, 1, 2]))
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
        model = rng.choice(models)
        names = [n for n in exports.EXPS if exports.usable(n, pool[model]) and
                 (n != 'faust' or model in FAUST)]
        w = {'faust': .5, 'simcpp': 1, 'cpp': 2, 'juce': 1.5, 'tex': 1.5,
             'wav': 1.5}
        name = work.pick(rng, **{n: w[n] for n in names})
        o = exports.opts(rng, name, pool[model].spec)
        o['model'] = model
        o['fault'] = None
        if rng.random() < 0.6:
            o['fault'] = dict(kind=rng.choice(FAUST and FAULTS),
                              frac=rng.random(), arg=rng.randrange(400))
        o['retry'] = rng.choice(['inside', 'after', 'later'])
        ops.append(o)
    return dict(ops=ops, junk=rng.choice([None, None, 'longer', 'binary']),
                collect=rng.random() < 0.7)


def shrink(tr):
    ops = tr['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(tr, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o['fault']:
            yield dict(tr, ops=ops[:i] + [dict(o, fault=None)] + ops[i + 1:])
        if o['x0'] is not None:
            yield dict(tr, ops=ops[:i] + [dict(o, x0=None)] + ops[i + 1:])
        if o['retry'] != 'after':
            yield dict(tr, ops=ops[:i] + [dict(o, retry='after')] +
                       ops[i + 1:])
    if tr['junk']:
        yield dict(tr, junk=None)


def _keep(name, tree):
    """The exported files among those of the folder."""
    pre = {'cpp': 'cpp/', 'simcpp': 'sim/', 'juce': 'juce/',
           'faust': 'fx.dsp', 'tex': 'doc.tex', 'wav': 'sound.wav'}[name]
    return {k: v for k, v in tree.items() if k.startswith(pre) and not
            k.endswith(('.h5', 'build.log')) and '/bin/' not in k}


def execute(tr, ctx):
    folder = os.path.join(ctx.dir, 't')
    aux = ctx.mkdir('aux')
    ops = tr['ops']
    want, cost = [], []
    for i, o in enumerate(ops):
        e = ctx.pool[o['model']]

        def clean(o=o, e=e):
            os.mkdir(folder)
            if o['exp'] == 'wav':
                ctx.seam.off()
                e.wavsim(aux)
                ctx.seam.on()
                ctx.seam.c.nops = 0
            exports.run(e, o, folder, aux)
            return _keep(o['exp'], work.calm_tree(ctx, folder))
        r = ctx.proc(clean, root=folder, clock=CLOCK)
        want.append(r.value)
        cost.append(r.nops)
        shutil.rmtree(folder)
        ctx.check(r.value, 'nothing-written', exporter=o['exp'])
        ctx.event('clean', o['exp'], sorted(r.value), r.nops)
        if o['exp'] == 'wav':
            _wave(ctx, e, o, r.value['sound.wav'], aux)
    os.mkdir(folder)
    if tr['junk']:
        for w in want:
            for f, b in w.items():
                p = os.path.join(folder, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as fd:
                    fd.write(b + b'// junk\n' * 600 if tr['junk'] == 'longer'
                             else b'\xff\x00' * 40)

    def complete(i, where):
        """The files of export i are those of the undisturbed one."""
        got = _keep(ops[i]['exp'], work.calm_tree(ctx, folder))
        for f, b in sorted(want[i].items()):
            ctx.check(f in got, 'file-missing', file=f, where=where,
                      exporter=ops[i]['exp'])
            if got[f] != b:
                k = next((k for k, (a, c) in enumerate(zip(got[f], b))
                          if a != c), min(len(got[f]), len(b)))
                ctx.violate('file-differs', file=f, where=where,
                            exporter=ops[i]['exp'], position=k,
                            sizes=[len(got[f]), len(b)],
                            got=repr(got[f][max(0, k - 40):k + 60]),
                            want=repr(b[max(0, k - 40):k + 60]))
        if ops[i]['exp'] in ('juce', 'cpp') and not tr['junk']:
            if sum(p['exp'] == ops[i]['exp'] for p in ops) == 1:
                ctx.check(sorted(got) == sorted(want[i]), 'extra-files',
                          got=sorted(got), want=sorted(want[i]))

    def arm(fault, n):
        s = ctx.seam
        s.off()
        for f in s.c.fault:
            f.fired = 0
        plan = []
        if fault:
            plan = [dict(at=int(fault['frac'] * n), kind=fault['kind'],
                         arg=fault['arg'])]
        s.plan(folder, plan)
        s.on()

    def incarnation(start, skip):
        """Exports from start on; skip: its fault has been met."""
        cfg = _config_sig()
        names = sorted({o['model'] for o in ops})
        cores = {n: _core_sig(ctx.pool[n].core) for n in names}
        meths = {(n, k): _core_sig(ctx.pool[n].method(k)) for n in names
                 for k in KEYS}
        last = {}
        pending = []
        prev = None
        for n in names:
            if any(o['exp'] == 'wav' and o['model'] == n for o in ops):
                ctx.seam.off()
                ctx.pool[n].wavsim(aux)
                ctx.seam.on()
        for i in range(start, len(ops)):
            o = ops[i]
            e = ctx.pool[o['model']]
            fault = None if (skip and i == start) else o['fault']
            ctx.state(prev, o['exp'], tr['junk'], fault and fault['kind'],
                      fault and int(fault['frac'] * cost[i]))
            prev = o['exp']
            mark = os.path.join(aux, 'at')
            with open(mark, 'w') as f:
                f.write(str(i))
            arm(fault, cost[i])
            err = None
            try:
                given = exports.run(e, o, folder, aux)
            except Exception as ex:             # noqa
                err = ex
                fired = ctx.seam.fired()
                ctx.event('raised', o['exp'], type(ex).__name__, fired)
                for k, _ in fired:
                    ctx.fault(k)
                    ctx.probe('raised after ' + k)
                if not fired:
                    raise
                if o['retry'] == 'inside':
                    # the exception and what it holds are still alive
                    arm(None, 0)
                    exports.run(e, o, folder, aux)
                    complete(i, 'again, inside the handler')
                    last[o['exp']] = i
            if err is None:
                fired = ctx.seam.fired()
                for k, _ in fired:
                    ctx.fault(k)
                    ctx.probe('survived ' + k)
                arm(None, 0)
                complete(i, 'export')
                last[o['exp']] = i
                for n, v in given.items():
                    if n == 'inits' and v is not None:
                        ctx.check(list(v) == ['x'], 'caller-object-changed',
                                  object=n, now=repr(v)[:200])
                ctx.probe('complete')
            elif o['retry'] == 'after':
                arm(None, 0)
                exports.run(e, o, folder, aux)
                complete(i, 'again')
                last[o['exp']] = i
                ctx.probe('repeated')
            elif o['retry'] == 'later':
                pending.append(i)
                last.pop(o['exp'], None)
            err = None
        arm(None, 0)
        for i in pending:
            exports.run(ctx.pool[ops[i]['model']], ops[i], folder, aux)
            complete(i, 'again later')
            last[ops[i]['exp']] = i
        if tr['collect']:
            # objects forgotten by a failed export must not write any more
            gc.collect()
            gc.collect()
        for exp, i in sorted(last.items()):
            complete(i, 'at the end')
        ctx.check(_config_sig() == cfg, 'default-configuration')
        for n, s in cores.items():
            _same_sig(ctx, 'core-changed', n, s, _core_sig(ctx.pool[n].core),
                      'end')
        for n, s in meths.items():
            _same_sig(ctx, 'method-changed', n, s,
                      _core_sig(ctx.pool[n[0]].method(n[1])), 'end')
        return last

    start, skip = 0, False
    for _ in range(len(ops) + 2):
        r = ctx.proc(lambda: incarnation(start, skip), root=folder,
                     clock=CLOCK, expect=('ok', 'crash', 'signal'))
        if r.status == 'ok':
            break
        ctx.check(r.status == 'crash' or any(
            o['exp'] == 'simcpp' for o in ops), 'signal', code=r.code)
        with open(os.path.join(aux, 'at')) as f:
            start, skip = int(f.read()), True
        shutil.rmtree(aux)
        os.mkdir(aux)
        ctx.probe('restarted')
    else:
        ctx.violate('no-progress')

    def reader():
        # what later processes find
        for exp, i in sorted(r.value.items()):
            complete(i, 'in another process')
    ctx.proc(reader, clock=CLOCK)


def _wave(ctx, e, o, data, aux):
    p = os.path.join(aux, 'check.wav')
    with open(p, 'wb') as f:
        f.write(data)
    w = wave.open(p, 'rb')
    n = w.getnframes()
    raw = np.frombuffer(w.readframes(n), '<i2').astype(float)
    rate, width, ch = w.getframerate(), w.getsampwidth(), w.getnchannels()
    w.close()
    os.unlink(p)

    def expected():
        return exports.wav_expected(e, o, os.path.join(aux, 'ref'))
    os.makedirs(os.path.join(aux, 'ref'), exist_ok=True)
    r, m, s = ctx.proc(expected).value
    ctx.check((rate, width, ch) == (int(round(r)), 2, 1), 'wave-format',
              got=[rate, width, ch], want=r)
    ctx.check(n == m == len(raw), 'wave-length', got=n, want=m)
    if s is not None:
        ctx.check(np.all(np.abs(raw - s) <= 1.0 + 1e-6), 'wave-content',
                  worst=float(np.max(np.abs(raw - s))), opts=o)
    ctx.probe('wave read back')
