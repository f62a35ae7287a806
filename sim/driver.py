"""Search driver: batches of episodes in forked processes, verdict, evidence."""
import argparse
import json
import os
import pickle
import select
import shutil
import subprocess
import sys
import tempfile
import time

from . import core
from .plans import PLANS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
WALL = dict(quick=420, thorough=3000)
BATCH_TIMEOUT = 400


def worlds_for(prop):
    from . import boot  # noqa
    out = {}
    for kind in PLANS[prop].worlds.split():
        mod = __import__('sim.%s_world' % kind, fromlist=['WORLDS'])
        out.update(mod.WORLDS)
    return out


def run_batch(worlds, prop, tier, seed, lo, hi):
    """Child process: episodes lo..hi.  Stops at a violation of `prop`."""
    st = core.Stats()
    eps, digests, sample = [], [], None
    spec = PLANS[prop]
    for index in range(lo, hi):
        ep = core.new_episode(prop, tier, seed, index, spec.plan)
        v, d = core.run_episode(worlds, ep, st, True)
        eps.append(ep)
        digests.append(d)
        if sample is None:
            sample = ep
        if v is not None:
            if prop in v['tags']:
                return dict(stats=st, digests=digests,
                            sample=sample, violation=v, episodes=eps)
            st.bump(st.foreign, '%s %s' % ('/'.join(v['tags']), v['klass']))
    return dict(stats=st, digests=digests, sample=sample, violation=None,
                episodes=None)


def find_culprit(worlds, prop, tier, seed, lo, hi):
    """A batch died or hung: regenerate its episodes one by one."""
    for index in range(lo, hi):
        ep = core.new_episode(prop, tier, seed, index, PLANS[prop].plan)
        ep['generate'] = True
        v = core.replay_episodes(worlds, [ep], 60)
        if v is not None and prop in v['tags']:
            return v, [ep]
    return None, None


def search(prop, tier, seed, total, batch, wall, log):
    worlds = worlds_for(prop)
    merged = core.Stats()
    todo = [(lo, min(lo + batch, total)) for lo in range(0, total, batch)]
    running, done = {}, {}
    samples, errors = [], []
    digests = {}
    bad = None               # (lo, result)
    nxt, t0, nrun = 0, time.time(), 0
    while running or (nxt < len(todo) and bad is None):
        while (bad is None and nxt < len(todo) and len(running) < JOBS
               and time.time() - t0 < wall):
            lo, hi = todo[nxt]
            nxt += 1
            pid, fd = core.spawn(
                lambda: run_batch(worlds, prop, tier, seed, lo, hi))
            running[fd] = [pid, lo, hi, [], time.time()]
        if not running:
            break
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in list(running):
            pid, lo, hi, buf, start = running[fd]
            res = None
            if fd in rl:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    buf.append(chunk)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                res = pickle.loads(b''.join(buf)) if buf else ('died', None)
            elif time.time() - start > BATCH_TIMEOUT:
                core.kill_group(pid)
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                res = ('timeout', None)
            if res is None:
                continue
            status, r = res
            if status == 'error':
                errors.append(r)
                continue
            if status in ('died', 'timeout'):
                v, eps = find_culprit(worlds, prop, tier, seed, lo, hi)
                if v is None:
                    errors.append('batch %d-%d %s, not reproducible'
                                  % (lo, hi, status))
                    continue
                r = dict(stats=core.Stats(), digests=[], sample=None,
                         violation=v, episodes=eps)
            merged.merge(r['stats'])
            nrun += len(r['digests'])
            for k, d in enumerate(r['digests']):
                digests[lo + k] = d
            if r['sample'] is not None and len(samples) < 40:
                samples.append((lo, r['sample']))
            if r['violation'] is not None and (bad is None or lo < bad[0]):
                bad = (lo, r)
        if bad is not None:
            # earlier batches may still hold an earlier violation
            for fd in list(running):
                if running[fd][1] > bad[0]:
                    core.kill_group(running[fd][0])
                    os.close(fd)
                    os.waitpid(running[fd][0], 0)
                    del running[fd]
    samples.sort(key=lambda x: x[0])
    return dict(stats=merged, runs=nrun, bad=bad,
                samples=[s for _, s in samples], errors=errors,
                digests=digests, wall=time.time() - t0, worlds=worlds,
                complete=nxt >= len(todo))


def confirm(prop, path):
    """Replay in a fresh interpreter."""
    env = dict(os.environ)
    env.pop('VERIF_CHILD', None)
    p = subprocess.Popen([sys.executable, '-B', os.path.join(
        HERE, 'check.py'), prop, '--replay', path], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.communicate()[0].decode('utf8', 'replace')
    return p.returncode == 1, out


def report(prop, tier, seed, res):
    """Minimise, write and confirm the replay file.  Returns its path."""
    lo, r = res['bad']
    worlds, v, eps = res['worlds'], r['violation'], r['episodes']
    want = dict(klass=v['klass'], tags=v['tags'], keep=[prop])
    cands = [eps[-1:], eps] if len(eps) > 1 else [eps]
    chosen = None
    for attempt in range(2):
        for c in cands:
            got = core.replay_episodes(worlds, c)
            if got is not None and prop in got['tags']:
                want = dict(klass=got['klass'], tags=got['tags'], keep=[prop])
                chosen, v = c, got
                break
        if chosen:
            break
    if chosen is None:
        return None, 'violation %r did not replay' % (v,)
    budget = 15 if v['klass'] == 'hang' else 45
    small, tries = core.minimise(worlds, chosen, want, budget_s=budget)
    got = core.replay_episodes(worlds, small)
    if not core.same_violation(got, want):
        small, got = chosen, v
    if not os.path.isdir(OUT):
        os.makedirs(OUT)
    path = os.path.join(OUT, '%s-seed%d-%d.json' % (prop, seed,
                                                    small[-1]['index']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed,
                       violation=dict(klass=got['klass'], tags=got['tags'],
                                      msg=got['msg']),
                       minimiser_runs=tries,
                       recorded_ops=sum(len(e['ops']) for e in eps[-1:]),
                       episodes=small), f, indent=1, sort_keys=True)
    ok, out = confirm(prop, path)
    if not ok:
        return None, 'replay of %s in a fresh process: %s' % (path, out)
    return path, got['msg']


def shorten(ep, nops=12):
    d = dict(ep)
    d['ops'] = ep['ops'][:nops]
    if len(ep['ops']) > nops:
        d['ops'] = d['ops'] + ['... %d more' % (len(ep['ops']) - nops)]
    for k in ('sched',):
        if d.get(k):
            d[k] = d[k][:40]
    return d


def evidence(prop, tier, seed, res, violations, wall):
    spec, st = PLANS[prop], res['stats']
    hours = max(res['wall'], 1e-9) / 3600
    cov = dict(
        evaluations=st.evals, distinct_nontrivial=len(st.states),
        rule=spec.rule, samples=[shorten(s) for s in res['samples'][:2]],
        simulated_runs=res['runs'], seeds_per_hour=int(res['runs'] / hours),
        simulated_steps=st.steps,
        simulated_time='mpnum has no clock; logical time = %d scheduled steps'
        % st.steps + (' and %d scheduler decisions' % st.simtime
                      if st.simtime else ''),
        operations=dict(sorted(st.ops.items())),
        outcomes=dict(sorted(st.outcomes.items())),
        faults_injected=dict(sorted(st.faults.items())),
        faults_total=sum(st.faults.values()),
        probes=dict(sorted(st.probes.items())),
        known_findings_seen=dict(sorted(st.known.items())),
        violations_of_other_properties_seen=st.foreign,
        all_planned_runs_done=res['complete'],
        components_real=spec.real, components_stub=spec.stub)
    d = dict(property=prop, tier=tier, seed=seed, level=spec.level,
             coverage=cov, assumptions=spec.assumptions,
             wall_s=round(wall, 2), violations=violations)
    path = os.path.join(HERE, 'evidence')
    if not os.path.isdir(path):
        os.makedirs(path)
    tmp = os.path.join(path, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, os.path.join(path, prop + '.json'))


def main(argv):
    # Everything the simulated clients write lives below one scratch
    # directory, also when a simulated process is killed.
    base = tempfile.mkdtemp(prefix='verif-scratch-')
    tempfile.tempdir = base
    try:
        return run(argv)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', choices=sorted(PLANS))
    ap.add_argument('--replay')
    ap.add_argument('--digests', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--batch', type=int)
    ap.add_argument('--tier')
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in WALL else 'quick'
    seed = a.seed if a.seed is not None else int(
        os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        v = core.replay_episodes(worlds_for(prop), rec['episodes'])
        if v is None:
            print('replay of %s: no violation' % a.replay)
            return 0
        if v['klass'] == 'harness-error':
            print(v['msg'])
            return 2
        print('replayed: %s %s: %s' % ('/'.join(v['tags']), v['klass'],
                                       v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1
    spec = PLANS[prop]
    total = a.runs or (spec.quick if tier == 'quick' else spec.thorough)
    if a.digests:
        total = a.digests
    res = search(prop, tier, seed, total, a.batch or spec.batch, WALL[tier],
                 None)
    if a.digests:
        for i in sorted(res['digests']):
            print(i, res['digests'][i])
        return 2 if res['errors'] else 0
    code = 0
    nviol = 0
    if res['bad'] is not None:
        path, msg = report(prop, tier, seed, res)
        if path is None:
            print('ERROR: %s' % msg)
            code = 2
        else:
            nviol = 1
            print('%s: %s' % (prop, msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            code = 1
    if res['errors']:
        for e in res['errors'][:3]:
            print('HARNESS ERROR:\n%s' % e)
        code = code or 2
    for k, n in sorted(res['stats'].known.items()):
        text = core.KNOWN.get((prop, k))
        if text:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    evidence(prop, tier, seed, res, nviol, time.time() - t0)
    st = res['stats']
    print('%s %s seed=%d: %d runs, %d evaluations, %d distinct, %d faults, '
          '%.1f s%s' % (prop, tier, seed, res['runs'], st.evals,
                        len(st.states), sum(st.faults.values()),
                        time.time() - t0, '' if res['complete'] or res['bad']
                        else ' (wall limit reached)'))
    if st.foreign:
        print('violations of other properties seen: %r' % st.foreign)
    sys.stdout.flush()
    return code
