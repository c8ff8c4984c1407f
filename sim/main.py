"""Zygote: imports the code under test once, then searches or replays."""
import importlib
import json
import os
import sys
import time
import traceback

from . import loader, runtime

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'


def known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def matches(finding, kind, detail):
    text = json.dumps(detail, sort_keys=True, default=str)
    return finding['kind'] == kind and all(
        m in text for m in finding['match'])


def build_pool(scen):
    """Models of the pool; a failure of pyphs here is a violation."""
    return scen.prepare() if hasattr(scen, 'prepare') else {}


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    base = os.environ['VERIF_BASE']
    os.environ.pop('LD_PRELOAD', None)
    os.environ.pop('PYTHONPATH', None)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    scen = importlib.import_module('sim.props.' + prop.lower())
    log = os.open(os.path.join(base, 'log'),
                  os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(log, 1)
    os.dup2(log, 2)

    def say(*a):
        out.write(' '.join(map(str, a)) + '\n')
        out.flush()
    code = 2
    try:
        code = _main(prop, mode, base, tier, seed, t0, scen, say)
    except BaseException:                           # noqa
        say('HARNESS-ERROR', traceback.format_exc())
    out.flush()
    sys.stdout.flush()
    os._exit(code)


def _replay_path(prop, trace):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s-%s.json' % (prop, trace.get('seed'),
                                              trace.get('index')))


def _main(prop, mode, base, tier, seed, t0, scen, say):
    loader.preload()
    setup_violation = None
    pool = {}
    try:
        if getattr(scen, 'LOAD', True):
            loader.load_pyphs()
        pool = build_pool(scen)
    except Exception as e:                          # noqa
        tb = traceback.format_exc()
        if not (runtime.in_repo(tb) or 'pyphs' in tb):
            raise
        setup_violation = dict(kind='setup', detail=dict(exc=repr(e)[:300],
                                                         tb=tb[-2000:]))
    import gc
    gc.collect()
    t_ready = time.monotonic() - t0
    plan = scen.PLAN[tier]
    timeout = getattr(scen, 'TIMEOUT', 60.0)
    if os.environ.get('VERIF_RUNS'):
        plan = dict(plan, runs=int(os.environ['VERIF_RUNS']))
    if os.environ.get('VERIF_BUDGET'):
        plan = dict(plan, budget=float(os.environ['VERIF_BUDGET']))

    if mode == 'replay':
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        if setup_violation:
            say('VIOLATION property=%s replay=%s' % (prop, sys.argv[3]))
            say(json.dumps(setup_violation)[:3000])
            return 1
        if rep['trace'].get('setup'):
            say('replay: setup succeeds')
            return 0
        tr = dict(rep['trace'], keep_events=True)
        res = runtime.run_trace(scen, pool, tr, base, timeout * 2)
        say(json.dumps({k: res.get(k) for k in
                        ('status', 'kind', 'detail', 'digest')},
                       indent=1)[:6000])
        if os.environ.get('VERIF_EVENTS'):
            for e in res.get('events', ()):
                say(e)
        if res['status'] == 'violation':
            same = (res['kind'] == rep['kind'] and
                    res['digest'] == rep['digest'])
            say('replay: violation reproduced%s' % (
                ' exactly' if same else ' (the history differs)'))
            say('VIOLATION property=%s replay=%s' % (prop, sys.argv[3]))
            return 1
        if res['status'] == 'harness':
            return 2
        say('replay: no violation')
        return 0

    agg = dict(runs=0, faults={}, probes={}, states=set(), digests=set(),
               simtime=0.0, samples=[], again=0, diverged=[], harness=[],
               viol=[], wall=0.0, nontrivial=set(), retried=0)

    def on_msg(msg):
        res, trace = msg['res'], msg['trace']
        agg['runs'] += 1
        if res['status'] == 'harness':
            agg['harness'].append((msg['i'], res['detail']))
            return len(agg['harness']) >= 3
        agg['wall'] += res['wall']
        for k in ('faults', 'probes'):
            for n, v in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        agg['states'] |= set(res['states'])
        agg['digests'].add(res['digest'])
        agg['simtime'] += res['simtime']
        if res['faults'] or res['states']:
            agg['nontrivial'].add(res['digest'])
        if 'again' in res:
            agg['again'] += 1
            if not res['again']:
                agg['diverged'].append(msg['i'])
        if len(agg['samples']) < 2:
            agg['samples'].append({'trace': trace, 'outcome': res['status'],
                                   'faults': res['faults']})
        if res['status'] == 'violation':
            agg['viol'].append((trace, res))
            return len(agg['viol']) >= 4
        return False

    if setup_violation is None:
        runtime.campaign(scen, prop, seed, pool, tier, plan['runs'], base,
                         plan['budget'], timeout, on_msg=on_msg)

    # -- what was found
    findings = known(prop)
    reported, knowns = [], {}
    if setup_violation:
        trace = dict(prop=prop, seed=seed, index='setup', setup=True)
        path = _replay_path(prop, trace)
        with open(path, 'w') as f:
            json.dump(dict(setup_violation, trace=trace, digest=''), f,
                      indent=1)
        reported.append((path, setup_violation))
    for trace, res in agg['viol']:
        hit = [f for f in findings if matches(f, res['kind'], res['detail'])]
        if hit:
            knowns[hit[0]['id']] = hit[0]
            continue
        # it has to happen again, alone, with time to spare
        again = runtime.run_trace(scen, pool, trace, base, timeout * 3)
        if again['status'] != 'violation':
            again = runtime.run_trace(scen, pool, trace, base, timeout * 3)
        if again['status'] != 'violation':
            agg['retried'] += 1
            say('note: run %s gave %s once and not again: %s' % (
                trace['index'], res['kind'], json.dumps(res['detail'])[:500]))
            continue
        if reported:
            continue
        small, tried = trace, 0
        if hasattr(scen, 'shrink') and again['kind'] != 'hang':
            small, tried = runtime.minimise(
                scen, pool, trace, again['kind'], base, timeout,
                budget=plan.get('minimise', 60.0))
            final = runtime.run_trace(scen, pool, small, base, timeout * 2)
            if final['status'] == 'violation':
                again = final
            else:
                small = trace
        path = _replay_path(prop, trace)
        with open(path, 'w') as f:
            json.dump(dict(kind=again['kind'], detail=again['detail'],
                           digest=again['digest'], trace=small,
                           minimised_from=trace, candidates=tried,
                           replay_cmd='/verif/check.py %s --replay %s' % (
                               prop, path)), f, indent=1)
        reported.append((path, again))
    wall = time.monotonic() - t0
    for kf in findings:
        # a listed finding is shown whenever the check runs
        if kf['id'] in knowns or kf.get('always'):
            say('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))

    # -- evidence
    hours = max(wall, 1e-9) / 3600.0
    cov = dict(
        evaluations=agg['runs'],
        distinct_nontrivial=len(agg['nontrivial']),
        rule=scen.RULE,
        samples=agg['samples'],
        runs_per_hour=int(agg['runs'] / hours),
        seeds='VERIF_SEED=%d, run indices 0..%d' % (seed, plan['runs'] - 1),
        simulated_time_s=round(agg['simtime'], 6),
        faults_injected=agg['faults'],
        probes=agg['probes'],
        distinct_states=len(agg['states']),
        state_measure=scen.STATE,
        distinct_histories=len(agg['digests']),
        determinism_reruns=agg['again'],
        determinism_divergences=len(agg['diverged']),
        real_code=scen.REAL, stubbed=scen.STUB,
        startup_s=round(t_ready, 2), unreproduced=agg['retried'])
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov,
              assumptions=getattr(scen, 'ASSUME', []),
              wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s: %d runs in %.1fs (%d states, %d histories, faults %s, '
        'probes %s)' % (prop, agg['runs'], wall, len(agg['states']),
                        len(agg['digests']), agg['faults'], agg['probes']))
    for path, v in reported[:1]:
        say('violation kind=%s detail=%s' % (
            v['kind'], json.dumps(v['detail'], default=str)[:3000]))
        say('VIOLATION property=%s replay=%s' % (prop, path))
    if reported:
        return 1
    if agg['harness']:
        for i, d in agg['harness'][:2]:
            say('HARNESS-ERROR run %s: %s' % (i, d[-3000:]))
        return 2
    if agg['diverged']:
        say('HARNESS-ERROR runs are not repeatable: %s' % agg['diverged'])
        return 2
    need = getattr(scen, 'NEED', {})
    if agg['runs'] >= 0.9 * plan['runs']:
        for k, v in need.items():
            got = agg['faults'].get(k, 0) + agg['probes'].get(k, 0)
            if got < v:
                say('note: coverage: %s reached %d times, %d wanted'
                    % (k, got, v))
    return 0


if __name__ == '__main__':
    main()
