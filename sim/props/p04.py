"""P04: a failing C++ build or run is reported, a good one is complete."""
import os
import shutil
import stat

import numpy as np

from .. import work

MODELS = ('rlc', 'par', 'multi', 'duff', 'obs')
KEYS = ('d',)
PLAN = {'quick': dict(runs=90, budget=120),
        'thorough': dict(runs=9000, budget=1500)}
RULE = ('one run = one model and 2 to 5 attempts of an optional init (other '
        'inputs, initial values, sample rate, scheme, parameter values) and a '
        'process with seeded outcomes of the configure, build and run steps '
        '(exit codes, signals, missing or non executable program, missing '
        'tool, volumes of output), and storage faults while sources are '
        'written; non-trivial = a step fails or a fault fires; distinct by '
        'the hash of the recorded history')
STATE = 'hash of (outcome of each step, change made before, earlier outcome)'
REAL = ['pyphs Simulation, method2cpp, simu2cpp, cmake writer (from /repo)',
        'subprocess and shell']
STUB = ['cmake and the compiled program (scripts that record what they are '
        'given and end as the trace says)', 'clock', 'storage faults']
ASSUME = ['a tool that exits 0 did what it was asked']

HARD = ('ENOSPC', 'EIO', 'EACCES', 'FULL')
CLOCK = dict(mono=10**12, wall=1500000000 * 10**9, step=1)
STEPS = ('configure', 'build', 'exe')


def prepare():
    pool = work.make_pool(MODELS, KEYS)
    work.warm(pool, KEYS)
    return pool


def _act(rng, step, bad):
    a = dict(out=rng.choice([0, 0, 10, 5000, 200000]),
             err=rng.choice([0, 0, 10, 3000, 150000]),
             eol=rng.random() < 0.8, rc=0, sig=0, how='')
    if bad:
        how = rng.choice(['rc', 'rc', 'sig', 'missing'])
        if how == 'rc':
            a['rc'] = rng.choice([1, 2, 3, 77, 126, 255])
        elif how == 'sig':
            a['sig'] = rng.choice([6, 9, 11, 15])
        else:
            a['how'] = {'configure': 'notool', 'build': 'noexe',
                        'exe': 'noexec'}[step]
    return a


def gen(rng, pool, tier):
    model = rng.choice(MODELS)
    spec = pool[model].spec
    attempts = []
    for i in range(rng.randint(2, 4 if tier == 'quick' else 6)):
        ch = dict(nt=rng.randint(1, 6), seed=rng.randrange(1000))
        k = rng.choice(['u', 'u', 'x0', 'fs', 'scheme', 'subs', 'reuse'])
        if i == 0 and k == 'reuse':
            k = 'u'
        ch['what'] = k
        if k == 'x0':
            ch['x0'] = rng.randrange(10**6)
        elif k == 'fs':
            ch['fs'] = spec['fs'] * rng.choice([0.5, 1.5, 2.0])
        elif k == 'scheme':
            ch['cfg'] = rng.choice([{'theta': 0.5}, {'grad': 'trapez'},
                                    {'theta': 0.0}, {'grad': 'discret'},
                                    {'maxit': 37}, {'eps': 1e-10}])
        elif k == 'subs':
            n = rng.choice(sorted(spec['subs']))
            ch['subs'] = {n: round(spec['subs'][n] * rng.uniform(0.6, 1.6),
                                   9)}
        bad = rng.choice([None, None, 'configure', 'build', 'exe', 'exe'])
        attempts.append(dict(change=ch, acts={s: _act(rng, s, s == bad)
                                              for s in STEPS}))
    # it always works in the end
    attempts.append(dict(change=dict(what='reuse', nt=1, seed=0)
                         if rng.random() < 0.5 else
                         dict(what='u', nt=3, seed=rng.randrange(1000)),
                         acts={s: _act(rng, s, False) for s in STEPS}))
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            faults.append(dict(at=rng.randint(1, 70), kind=rng.choice(HARD),
                               arg=rng.randint(0, 4000)))
    return dict(model=model, attempts=attempts, faults=faults,
                x0=rng.choice([None, rng.randrange(10**6)]))


def shrink(tr):
    a = tr['attempts']
    for i in range(len(a) - 1):
        yield dict(tr, attempts=a[:i] + a[i + 1:])
    if len(a) > 1:
        yield dict(tr, attempts=a[:-1])
    for i in range(len(tr['faults'])):
        yield dict(tr, faults=tr['faults'][:i] + tr['faults'][i + 1:])
    if tr['x0'] is not None:
        yield dict(tr, x0=None)
    for i, t in enumerate(a):
        for s in STEPS:
            for k, v in (('out', 0), ('err', 0), ('eol', True)):
                if t['acts'][s][k] != v:
                    acts = dict(t['acts'])
                    acts[s] = dict(acts[s], **{k: v})
                    yield dict(tr, attempts=a[:i] + [dict(t, acts=acts)] +
                               a[i + 1:])
        if t['change']['what'] != 'u':
            yield dict(tr, attempts=a[:i] + [dict(t, change=dict(
                what='u', nt=2, seed=1))] + a[i + 1:])


TOOL = r"""#!/bin/sh
D='%(ctl)s'
step=configure
for a in "$@"; do [ "$a" = --build ] && step=build; done
n=$(wc -l < "$D/log")
echo "$step|$(pwd)|$*" >> "$D/log"
mkdir "$D/snap$n"
cp -r src CMakeLists.txt "$D/snap$n/" 2>/dev/null
if [ $step = build ]; then
    rm -rf bin
    if [ ! -f "$D/noexe" ]; then
        mkdir -p bin
        cp "$D/program" "bin/%(label)s"
        [ -f "$D/noexec" ] && chmod 644 "bin/%(label)s"
    fi
fi
. "$D/act.$step"
"""

PROGRAM = r"""#!/bin/sh
D='%(ctl)s'
n=$(wc -l < "$D/log")
echo "exe|$(pwd)|$*" >> "$D/log"
mkdir "$D/snap$n"
cp -r src CMakeLists.txt "$D/snap$n/" 2>/dev/null
. "$D/act.exe"
"""


def write_tools(ctl, label):
    os.makedirs(ctl, exist_ok=True)
    for name, text in (('cmake', TOOL), ('program', PROGRAM)):
        p = os.path.join(ctl, name)
        with open(p, 'w') as f:
            f.write(text % dict(ctl=ctl, label=label))
        os.chmod(p, 0o755)
    open(os.path.join(ctl, 'log'), 'w').close()


def set_acts(ctl, acts, label):
    for f in ('noexe', 'noexec'):
        p = os.path.join(ctl, f)
        if os.path.exists(p):
            os.unlink(p)
    for s in STEPS:
        a = acts[s]
        t = ''
        for n, fd in ((a['out'], ''), (a['err'], ' 1>&2')):
            if n:
                t += 'head -c %d /dev/zero | tr "\\0" x | fold -w 79%s\n' % (
                    n, fd)
                if a['eol']:
                    t += 'echo%s\n' % fd
        if a['sig']:
            t += 'kill -%d $$\nsleep 5\n' % a['sig']
        t += 'exit %d\n' % a['rc']
        with open(os.path.join(ctl, 'act.' + s), 'w') as f:
            f.write(t)
        if a['how'] in ('noexe', 'noexec'):
            open(os.path.join(ctl, a['how']), 'w').close()
    tool = os.path.join(ctl, 'cmake')
    if acts['configure']['how'] == 'notool':
        if os.path.exists(tool):
            os.unlink(tool)
    elif not os.path.exists(tool):
        with open(tool, 'w') as f:
            f.write(TOOL % dict(ctl=ctl, label=label))
        os.chmod(tool, stat.S_IRWXU)


def read_log(ctl):
    with open(os.path.join(ctl, 'log')) as f:
        return [x.rstrip('\n').split('|') for x in f]


def clear_log(ctl):
    for f in os.listdir(ctl):
        if f.startswith('snap'):
            shutil.rmtree(os.path.join(ctl, f))
    open(os.path.join(ctl, 'log'), 'w').close()


def bad_step(acts):
    """The step that fails, if any."""
    for s in STEPS:
        a = acts[s]
        if a['rc'] or a['sig'] or a['how']:
            # a missing program is noticed when it is run
            return s if a['how'] not in ('noexe', 'noexec') else 'exe'
    return None


def settings(tr, upto, spec):
    """The settings in force at an attempt."""
    s = dict(fs=spec['fs'], x0=tr['x0'], cfg={}, subs={}, nt=None, seed=None)
    for a in tr['attempts'][:upto + 1]:
        c = a['change']
        if c['what'] == 'reuse' and s['nt'] is not None:
            continue
        s['nt'], s['seed'] = c['nt'], c['seed']
        if c['what'] == 'x0':
            s['x0'] = c['x0']
        elif c['what'] == 'fs':
            s['fs'] = c['fs']
        elif c['what'] == 'scheme':
            s['cfg'] = dict(s['cfg'], **c['cfg'])
        elif c['what'] == 'subs':
            s['subs'] = dict(s['subs'], **c['subs'])
    return s


def symbols(method, subs):
    return {[k for k in method.subs if str(k) == n][0]: v
            for n, v in subs.items()}


def snapshot(folder, root):
    out = {}
    for n, b in work.tree(folder).items():
        out[n] = b.replace(root.encode(), b'ROOT')
    return out


def execute(tr, ctx):
    e = ctx.pool[tr['model']]
    spec, label = e.spec, tr['model']
    root = ctx.mkdir('sim')
    ctl = os.path.join(ctx.dir, 'ctl')
    good = {s: dict(out=0, err=0, eol=True, rc=0, sig=0, how='')
            for s in STEPS}

    def x_of(seed):
        return None if seed is None else {'x': work.state(spec, seed)}

    # ---- what a new simulation with the same settings gives to the tools
    refs = {}

    def reference(i):
        s = settings(tr, i, spec)
        key = repr(s)
        if key not in refs:
            folder = ctx.mkdir('ref%d' % i)
            rctl = os.path.join(ctx.dir, 'rctl%d' % i)

            def fresh():
                from pyphs import Simulation
                write_tools(rctl, label)
                set_acts(rctl, good, label)
                m = e.method('d')
                m.subs.update(symbols(m, s['subs']))
                cfg = dict(path=folder, fs=s['fs'], lang='c++',
                           cmake=os.path.join(rctl, 'cmake'))
                cfg.update(s['cfg'])
                sim = Simulation(m, config=cfg, inits=x_of(s['x0']))
                u, p = work.inputs(spec, s['nt'], 'noise', s['seed'])
                sim.init(u=u, p=p)
                sim.process()
                n = len(read_log(rctl)) - 1
                ctx.check(n == 2, 'fresh-steps', log=read_log(rctl))
                snap = snapshot(os.path.join(rctl, 'snap%d' % n), folder)
                for f in ('src/core.cpp', 'src/core.h', 'src/parameters.cpp',
                          'src/parameters.h', 'src/simu.cpp',
                          'CMakeLists.txt'):
                    ctx.check(snap.get(f), 'fresh-incomplete', file=f)
                return snap
            refs[key] = ctx.proc(fresh, clock=CLOCK).value
            shutil.rmtree(folder)
        return refs[key]
    want = [reference(i) for i in range(len(tr['attempts']))]

    def run():
        from pyphs import Simulation
        write_tools(ctl, label)
        set_acts(ctl, good, label)
        cwd = os.getcwd()

        def construct():
            return Simulation(
                e.method('d'), config=dict(path=root, fs=spec['fs'],
                                           lang='c++',
                                           cmake=os.path.join(ctl, 'cmake')),
                inits=x_of(tr['x0']))

        def guarded(fn, what):
            """Storage faults may make fn raise; it then works again."""
            before = len(ctx.seam.fired())
            try:
                return fn()
            except Exception as ex:             # noqa
                if len(ctx.seam.fired()) == before:
                    raise
                ctx.probe('storage error in ' + what)
                ctx.event(what, type(ex).__name__)
                ctx.seam.heal()
            return fn()
        sim = guarded(construct, 'construction')
        prev = None
        for i, a in enumerate(tr['attempts']):
            c = a['change']
            s = settings(tr, i, spec)
            u, p = work.inputs(spec, s['nt'], 'noise', s['seed'])
            if c['what'] != 'reuse' or i == 0:
                kw = dict(u=u, p=p)
                if c['what'] == 'x0':
                    kw['inits'] = x_of(c['x0'])
                elif c['what'] == 'fs':
                    kw['config'] = {'fs': c['fs']}
                elif c['what'] == 'scheme':
                    kw['config'] = dict(c['cfg'])
                elif c['what'] == 'subs':
                    kw['subs'] = symbols(sim.method, c['subs'])
                guarded(lambda: sim.init(**kw), 'init')
            clear_log(ctl)
            set_acts(ctl, a['acts'], label)
            bad = bad_step(a['acts'])
            before = len(ctx.seam.fired())
            err = None
            try:
                sim.process()
            except Exception as ex:             # noqa
                err = '%s: %s' % (type(ex).__name__, str(ex)[:200])
            faulted = len(ctx.seam.fired()) > before
            log = read_log(ctl)
            ctx.check(os.getcwd() == cwd, 'working-directory', attempt=i)
            ctx.event('attempt', i, bad, err and err.split(':')[0],
                      [x[0] for x in log])
            ctx.state(bad, [(v['rc'] != 0, v['sig'], v['how'])
                            for v in a['acts'].values()], c['what'], prev,
                      err is None)
            if bad:
                ctx.fault('tool:' + (a['acts'][bad]['how'] or (
                    'signal' if a['acts'][bad]['sig'] else 'exit')
                    if not any(v['how'] for v in a['acts'].values())
                    else 'missing'))
            if err is None:
                ctx.check(bad is None, 'failure-hidden', attempt=i, step=bad,
                          acts=a['acts'], log=log)
                _complete(ctx, i, log, sim, ctl, root, want[i])
                got = sim.data.u(tslice=slice(0, s['nt'], 1))
                ctx.check(work.same(got, u), 'inputs', attempt=i)
                got = sim.data.p(tslice=slice(0, s['nt'], 1))
                ctx.check(work.same(got, p), 'parameters', attempt=i)
                ctx.probe('completed')
            else:
                ctx.check(bad is not None or faulted, 'error-without-cause',
                          attempt=i, error=err, log=log)
                if faulted:
                    ctx.seam.heal()
                    ctx.probe('storage error in process')
                    # once more, with tools that work
                    clear_log(ctl)
                    set_acts(ctl, good, label)
                    sim.process()
                    _complete(ctx, i, read_log(ctl), sim, ctl, root, want[i])
                else:
                    # nothing is run after the step that fails
                    seen = [x[0] for x in log]
                    ctx.check(seen == list(STEPS)[:len(seen)], 'order',
                              attempt=i, log=log)
            left = work.open_files(os.path.join(root, 'data'))
            ctx.check(not left, 'left-open', files=left)
            prev = bad

    ctx.proc(run, root=os.path.join(root, label), faults=tr['faults'],
             clock=CLOCK)


def _complete(ctx, i, log, sim, ctl, root, want):
    ctx.check([x[0] for x in log] == list(STEPS), 'steps', attempt=i, log=log)
    home = os.path.realpath(sim.cpp_path)
    for n, x in enumerate(log):
        ctx.check(os.path.realpath(x[1]) == home, 'folder', attempt=i, log=x,
                  wanted=home)
        got = snapshot(os.path.join(ctl, 'snap%d' % n), root)
        for f in sorted(set(got) | set(want)):
            if got.get(f) != want.get(f):
                ctx.violate('sources', attempt=i, step=x[0], file=f,
                            **_first_difference(got.get(f), want.get(f)))


def _first_difference(a, b):
    if a is None or b is None:
        return dict(missing=a is None, unexpected=b is None)
    la, lb = a.decode().splitlines(), b.decode().splitlines()
    for k in range(max(len(la), len(lb))):
        x = la[k] if k < len(la) else None
        y = lb[k] if k < len(lb) else None
        if x != y:
            return dict(line=k + 1, got=x, want=y)
    return dict(bytes=True)
