"""The simulator's process side: zygote, workers, simulated processes.

One *run* is one trace executed by a runner process forked from the zygote.
A trace fixes the workload, the schedule and the faults; nothing is drawn at
random while it executes.  Inside a run, ``ctx.proc`` starts *simulated
processes*: forks of the runner that own the interpreter state of one
incarnation of the program and that die when a crash fault fires; only files
under the run's folder survive them.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

from . import seam as seam_mod
from .seam import Seam

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'pyphs') + os.sep

_time = time.monotonic


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    pass


def in_repo(tb_text):
    return PKG in tb_text or '/pyphs/' in tb_text


class Outcome:
    """How a simulated process ended."""
    # status: ok | exc | crash | signal | hang | violation | harness

    def __init__(self, status, value=None, exc=None, tb='', fired=(), nops=0,
                 nreads=0, code=None, clock=None, extra=None):
        self.status, self.value, self.exc, self.tb = status, value, exc, tb
        self.fired, self.nops, self.nreads = list(fired), nops, nreads
        self.code, self.clock = code, clock
        self.extra = extra or {}

    def __repr__(self):
        return 'Outcome(%s %s %s)' % (self.status, self.exc, self.fired)


class Ctx:
    """What a scenario may use while a trace executes."""

    def __init__(self, pool, folder, timeout):
        self.pool = pool
        self.dir = folder
        self.timeout = timeout
        self.deadline = _time() + timeout
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.nseam = 0
        self.in_proc = False
        self.seam = None
        self.clock_ns = 0

    # -- bookkeeping
    def event(self, *what):
        self.events.append(json.dumps(what, default=str))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *what):
        self.states.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    def violate(self, kind, **detail):
        raise Violation(kind, detail)

    def check(self, cond, kind, **detail):
        if not cond:
            raise Violation(kind, detail)

    def mkdir(self, *names):
        p = os.path.join(self.dir, *names)
        os.makedirs(p, exist_ok=True)
        return p

    # -- simulated processes
    def proc(self, fn, root=None, faults=(), rfaults=(), clock=None,
             expect=('ok',)):
        """Run fn() in a simulated process; see Outcome.  Exceptions of the
        code under test are outcomes, not errors."""
        self.nseam += 1
        folder = root or self.dir
        use_seam = bool(os.environ.get('VERIF_SHIM_LIB'))
        ctl = os.path.join(os.path.dirname(self.dir),
                           os.path.basename(self.dir) + '.ctl%d' % self.nseam)
        out = os.path.join(os.path.dirname(self.dir),
                           os.path.basename(self.dir) + '.out%d' % self.nseam)
        sm = None
        if use_seam:
            sm = Seam(ctl)
            sm.plan(folder, faults, rfaults)
            if clock:
                sm.clock(clock['mono'], clock['wall'], clock['step'],
                         clock.get('jumps', ()))
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                self.in_proc = True
                self.events, self.faults, self.probes = [], {}, {}
                self.states = set()
                self.simtime = 0.0
                self.seam = sm
                gc.disable()
                res = {}
                if sm is not None:
                    sm.attach()
                    if clock:
                        sm.clock_start()
                    sm.on()
                try:
                    res['value'] = fn()
                    res['status'] = 'ok'
                except Violation as v:
                    res['status'] = 'violation'
                    res['value'] = (v.kind, v.detail)
                except HarnessError:
                    res['status'] = 'harness'
                    res['tb'] = traceback.format_exc()
                except BaseException as e:      # noqa
                    res['status'] = 'exc'
                    res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:300])
                    res['tb'] = traceback.format_exc()
                finally:
                    if sm is not None:
                        sm.off()
                        sm.clock_stop()
                res['side'] = (self.events, self.faults, self.probes,
                               self.states, self.simtime)
                with open(out, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:               # noqa
                try:
                    with open(out + '.err', 'w') as f:
                        f.write(traceback.format_exc())
                except Exception:               # noqa
                    pass
            finally:
                os._exit(code)
        status = _wait(pid, self.deadline)
        fired, nops, nreads, clk = [], 0, 0, None
        if sm is not None:
            fired = sm.fired()
            nops, nreads = sm.c.nops, sm.c.nreads
            clk = dict(calls=sm.c.ncalls, jumped=sm.c.jumped,
                       slept=sm.c.slept_ns, mono=sm.c.mono_ns)
            sm.close()
        for kind, _ in fired:
            self.fault(kind)
        if status is None:
            raise Violation('hang', {'where': getattr(fn, '__name__', '?')})
        res = None
        if os.path.exists(out):
            try:
                with open(out, 'rb') as f:
                    res = pickle.load(f)
            except Exception:                   # noqa
                res = None
            os.unlink(out)
        err = ''
        if os.path.exists(out + '.err'):
            with open(out + '.err') as f:
                err = f.read()
            os.unlink(out + '.err')
        kw = dict(fired=fired, nops=nops, nreads=nreads, clock=clk)
        if os.WIFSIGNALED(status):
            o = Outcome('signal', code=os.WTERMSIG(status), **kw)
        elif os.WEXITSTATUS(status) == 137:
            o = Outcome('crash', **kw)
        elif res is None:
            raise HarnessError('simulated process lost: %s %s' % (status, err))
        else:
            ev, fa, pr, st, sim = res.pop('side')
            self.events += ev
            for k, v in fa.items():
                self.fault(k, v)
            for k, v in pr.items():
                self.probe(k, v)
            self.states |= st
            self.simtime += sim
            o = Outcome(res['status'], value=res.get('value'),
                        exc=res.get('exc'), tb=res.get('tb', ''), **kw)
        self.event('proc', o.status, o.exc and o.exc.split(':')[0], fired)
        if o.status == 'violation':
            raise Violation(*o.value)
        if o.status == 'harness':
            raise HarnessError(o.tb)
        if o.status == 'exc' and not in_repo(o.tb) and 'exc' not in expect:
            raise HarnessError(o.tb)
        if o.status not in expect:
            raise Violation('unexpected-' + o.status,
                            dict(exc=o.exc, tb=o.tb[-1500:], code=o.code,
                                 fired=fired))
        return o


def _wait(pid, deadline):
    """Wait for a child; None when it had to be killed."""
    delay = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        if _time() > deadline:
            for s in (signal.SIGKILL,):
                try:
                    os.kill(pid, s)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            return None
        time.sleep(delay)
        delay = min(delay * 1.5, 0.01)


# --------------------------------------------------------------------------
# one run

def run_trace(scen, pool, trace, base, timeout=60.0):
    """Execute a trace in a forked runner; returns the result dict."""
    n = random.SystemRandom().randrange(1 << 48)
    folder = os.path.join(base, 'r%012x' % n)
    out = folder + '.res'
    t0 = _time()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            os.mkdir(folder)
            os.chdir(folder)
            dn = os.open(os.path.join(base, 'log'),
                         os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            random.seed(0)
            import numpy
            numpy.random.seed(0)
            wd = os.path.join(folder, 'w')
            os.mkdir(wd)
            ctx = Ctx(pool, wd, timeout)
            res = {'status': 'ok'}
            try:
                scen.execute(trace, ctx)
            except Violation as v:
                res = {'status': 'violation', 'kind': v.kind,
                       'detail': v.detail}
            except Exception as e:              # noqa
                tb = traceback.format_exc()
                if in_repo(tb) and not isinstance(e, HarnessError):
                    res = {'status': 'violation', 'kind': 'exception',
                           'detail': {'exc': repr(e)[:300], 'tb': tb[-1500:]}}
                else:
                    res = {'status': 'harness', 'detail': tb}
            dig = hashlib.sha256('\n'.join(ctx.events).encode()).hexdigest()
            res.update(digest=dig, faults=ctx.faults, probes=ctx.probes,
                       states=sorted(ctx.states), simtime=ctx.simtime,
                       nevents=len(ctx.events))
            if trace.get('keep_events'):
                res['events'] = ctx.events
            with open(out, 'w') as f:
                json.dump(res, f, default=_json)
            code = 0
        except BaseException:                   # noqa
            try:
                with open(out + '.err', 'w') as f:
                    f.write(traceback.format_exc())
            except Exception:                   # noqa
                pass
        finally:
            os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    st = _wait(pid, _time() + timeout + 15)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    res = None
    if st is None:
        res = {'status': 'violation', 'kind': 'hang',
               'detail': {'where': 'runner'}}
    elif os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    elif os.path.exists(out + '.err'):
        with open(out + '.err') as f:
            res = {'status': 'harness', 'detail': f.read()}
    elif os.WIFSIGNALED(st):
        res = {'status': 'violation', 'kind': 'signal',
               'detail': {'signal': os.WTERMSIG(st)}}
    else:
        res = {'status': 'harness', 'detail': 'runner lost: %r' % st}
    for p in (out, out + '.err'):
        if os.path.exists(p):
            os.unlink(p)
    for f in os.listdir(base):
        if f.startswith(os.path.basename(folder)):
            p = os.path.join(base, f)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
    res['wall'] = _time() - t0
    for k, v in (('faults', {}), ('probes', {}), ('states', []),
                 ('simtime', 0.0), ('digest', ''), ('nevents', 0)):
        res.setdefault(k, v)
    return res


def _json(o):
    import numpy
    if isinstance(o, numpy.ndarray):
        return o.tolist()
    if isinstance(o, numpy.generic):
        return o.item()
    return str(o)


def rng_for(prop, seed, index):
    return random.Random('%s/%s/%s' % (prop, seed, index))


def make_trace(scen, prop, seed, index, pool, tier):
    rng = rng_for(prop, seed, index)
    trace = scen.gen(rng, pool, tier)
    trace['prop'] = prop
    trace['seed'] = seed
    trace['index'] = index
    # everything must survive the replay file
    return json.loads(json.dumps(trace))


# --------------------------------------------------------------------------
# workers

def worker(scen, prop, seed, pool, tier, indices, base, wfd, deadline,
           timeout):
    for i in indices:
        if _time() > deadline or os.path.exists(os.path.join(base, 'stop')):
            break
        try:
            trace = make_trace(scen, prop, seed, i, pool, tier)
            res = run_trace(scen, pool, trace, base, timeout)
            if res['status'] == 'ok' and i % 16 == 3:
                # the same trace must give the same execution
                again = run_trace(scen, pool, trace, base, timeout)
                res['again'] = again['digest'] == res['digest']
            msg = {'i': i, 'trace': trace, 'res': res}
        except Exception:                       # noqa
            msg = {'i': i, 'trace': None, 'res': {
                'status': 'harness', 'detail': traceback.format_exc()}}
        data = json.dumps(msg, default=_json).encode()
        _send(wfd, data)


def _send(fd, data):
    data = len(data).to_bytes(8, 'big') + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def campaign(scen, prop, seed, pool, tier, total, base, budget, timeout,
             nworkers=8, on_msg=None, start=0):
    """Run `total` traces over the workers; yields messages."""
    deadline = _time() + budget
    readers = {}
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(scen, prop, seed, pool, tier,
                       range(start + w, start + total, nworkers), base, wfd,
                       deadline, timeout)
            finally:
                os._exit(0)
        os.close(wfd)
        readers[r] = b''
        pids.append(pid)
    stop = os.path.join(base, 'stop')
    while readers:
        ready, _, _ = select.select(list(readers), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                os.close(r)
                del readers[r]
                continue
            buf = readers[r] + chunk
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + n:
                    break
                msg = json.loads(buf[8:8 + n].decode())
                buf = buf[8 + n:]
                if on_msg(msg):
                    open(stop, 'w').close()
            readers[r] = buf
    for pid in pids:
        os.waitpid(pid, 0)
    if os.path.exists(stop):
        os.unlink(stop)


# --------------------------------------------------------------------------
# minimisation

def minimise(scen, pool, trace, kind, base, timeout, budget=90.0):
    """Greedy: take the first smaller trace that still fails the same way."""
    t0 = _time()
    best, tried = trace, 0
    improved = True
    while improved and _time() - t0 < budget:
        improved = False
        for cand in scen.shrink(best):
            if _time() - t0 > budget:
                break
            cand = json.loads(json.dumps(cand))
            tried += 1
            res = run_trace(scen, pool, cand, base, timeout)
            if res['status'] == 'violation' and res['kind'] == kind:
                best = cand
                improved = True
                break
    return best, tried
