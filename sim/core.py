"""Simulator kernel: seeds, episodes, violations, parallel driver, minimiser.

An *episode* is one simulated run: one integer seed decides every operation,
argument, interleaving and fault.  While an episode is generated, each decision
is appended to ``episode['ops']`` as plain JSON; executing that list again is a
pure function of the list and the code.  Episodes run in batches inside one
forked process, so nothing leaks from one batch to the next.
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

ALL = ['C%02d' % i for i in range(1, 13)]


class Violation(Exception):
    """The library broke a property."""

    def __init__(self, tags, klass, msg):
        Exception.__init__(self, msg)
        self.tags = sorted(set([tags] if isinstance(tags, str) else tags))
        self.klass = klass
        self.msg = msg


class Skip(Exception):
    """The operation does not apply in the current state."""


class Hang(BaseException):
    """No progress within the (generous) real-time bound of an episode."""


def need(cond):
    if not cond:
        raise Skip()


def seed_int(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_rng(*parts):
    return random.Random(seed_int(*parts))


class Stats(object):
    """What an episode covered.  Plain data, merged by the driver."""

    def __init__(self):
        self.ops = {}
        self.outcomes = {}
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.known = {}
        self.foreign = {}
        self.steps = 0
        self.evals = 0
        self.simtime = 0

    def bump(self, d, key, n=1):
        d[key] = d.get(key, 0) + n

    def probe(self, key, n=1):
        self.bump(self.probes, key, n)

    def fault(self, key, n=1):
        self.bump(self.faults, key, n)

    def state(self, *key):
        self.states.add(hash_small(key))

    def merge(self, o):
        for name in ('ops', 'outcomes', 'faults', 'probes', 'known',
                     'foreign'):
            mine, theirs = getattr(self, name), getattr(o, name)
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        self.states |= o.states
        self.steps += o.steps
        self.evals += o.evals
        self.simtime += o.simtime


KNOWN_FILE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.txt')


def load_known():
    """{(property, class): text} of the findings that are not repaired."""
    out = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith('known: '):
                    prop, klass, text = line[7:].strip().split(' ', 2)
                    out[prop.split('=')[1], klass.split('=')[1]] = text
    except IOError:
        pass
    return out


KNOWN = load_known()


def finding(stats, prop, klass, msg):
    """The library did exactly what a listed finding describes."""
    if (prop, klass) not in KNOWN:
        raise Violation([prop], klass, msg)
    stats.bump(stats.known, klass)


def pass_over(ep, stats, v):
    """Raise `v` if it violates the property under test.  A violation of
    another property is counted, and the episode goes on: its consequences may
    violate this one."""
    if ep['prop'] in v.tags:
        raise v
    stats.bump(stats.foreign, '%s %s' % ('/'.join(v.tags), v.klass))


def hash_small(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


def _alarm(signum, frame):
    raise Hang()


def in_library(e):
    """Where in mpnum the exception was raised (numpy frames below it do not
    count); None if the innermost relevant frame is the simulator's."""
    here = os.path.dirname(os.path.abspath(__file__))
    where = None
    for f, line, name, _ in traceback.extract_tb(e.__traceback__):
        f = os.path.abspath(f)
        if os.sep + 'mpnum' + os.sep in f and 'site-packages' not in f:
            where = '%s:%s' % (os.path.basename(f), name)
        elif f.startswith(here) and os.path.basename(f) != 'seams.py':
            where = None
    return where


def run_episode(worlds, ep, stats, generate, limit_s=90):
    """Run one episode.  Returns (violation or None, digest)."""
    world, before = None, sum(stats.foreign.values())
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit_s)
    try:
        world = worlds[ep['world']](ep, stats)
        if generate or ep.get('generate'):
            ep['ops'] = []
            world.generate()
        else:
            world.replay()
        world.finish()
        return None, world.digest()
    except Violation as v:
        return (dict(tags=v.tags, klass=v.klass, msg=v.msg),
                world.digest() if world else 'setup')
    except Hang:
        return dict(tags=ALL, klass='hang',
                    msg='no progress within %d s' % limit_s), 'hang'
    except Exception as e:
        where = in_library(e)
        if where:
            # The library raised where nothing was wrong with the arguments.
            return dict(tags=[ep['prop']], klass='raised:unexpected',
                        msg='%s: %s (%s)' % (type(e).__name__, str(e)[:200],
                                             where)), 'raised'
        if sum(stats.foreign.values()) > before:
            # The model lost track after a violation of another property.
            return None, 'lost'
        if isinstance(e, (OSError, MemoryError)):
            raise
        # The oracle cannot make sense of what the library returned.
        f, line, name, _ = traceback.extract_tb(e.__traceback__)[-1]
        return dict(tags=[ep['prop']], klass='unusable:' + type(e).__name__,
                    msg='the library returned something unusable: %s: %s '
                    '(%s:%s)' % (type(e).__name__, str(e)[:200],
                                 os.path.basename(f), name)), 'unusable'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if world is not None:
            world.close()


def new_episode(prop, tier, seed, index, plan):
    """Episode description for (seed, index); ops are filled while running."""
    rng = make_rng('episode', prop, seed, index)
    world, cfg = plan(rng, index, tier)
    return dict(world=world, cfg=cfg, prop=prop, index=index,
                seed=rng.getrandbits(62), ops=[])


# ---------------------------------------------------------------------------
#  Forked execution
# ---------------------------------------------------------------------------
def spawn(fn):
    """Fork, run fn() in the child, return (pid, read fd) of pickled result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        try:
            res = ('ok', fn())
        except BaseException:
            res = ('error', traceback.format_exc())
        data = pickle.dumps(res)
        with os.fdopen(w, 'wb') as f:
            f.write(data)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def kill_group(pid):
    for target in (-pid, pid):
        try:
            os.kill(target, signal.SIGKILL)
        except OSError:
            pass


def collect(pid, fd, timeout):
    """Wait for a spawned child."""
    buf, end = [], time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            kill_group(pid)
            os.close(fd)
            os.waitpid(pid, 0)
            return ('timeout', None)
        rl, _, _ = select.select([fd], [], [], left)
        if rl:
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                break
            buf.append(chunk)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    if not buf:
        return ('died', status)
    return pickle.loads(b''.join(buf))


def in_fork(fn, timeout=300):
    pid, fd = spawn(fn)
    return collect(pid, fd, timeout)


def replay_episodes(worlds, episodes, limit_s=90):
    """Run a list of recorded episodes in one fresh forked process."""
    def body():
        out = None
        for ep in episodes:
            ep = dict(ep)
            v, _ = run_episode(worlds, ep, Stats(), False, limit_s)
            if v is not None:
                out = dict(v, index=ep.get('index'))
                break
        return out
    status, res = in_fork(body, timeout=limit_s * len(episodes) + 60)
    if status == 'ok':
        return res
    if status == 'timeout':
        return dict(tags=ALL, klass='hang', msg='no progress')
    if status == 'died':
        return dict(tags=ALL, klass='process-died',
                    msg='the process running the library died: %r' % (res,))
    return dict(tags=[], klass='harness-error', msg=str(res))


def same_violation(v, want):
    return (v is not None and v['klass'] == want['klass']
            and set(want['tags']) & set(v['tags']) & set(want['keep']))


def minimise(worlds, episodes, want, budget_s=60, limit_s=60):
    """Delta-debug episodes, then operations, then faults and arguments."""
    end = time.time() + budget_s
    tries = [0]

    def fails(eps):
        if time.time() > end:
            return False
        tries[0] += 1
        return same_violation(replay_episodes(worlds, eps, limit_s), want)

    if len(episodes) > 1:
        if fails(episodes[-1:]):
            episodes = episodes[-1:]
        else:
            i = 0
            while i < len(episodes) - 1 and time.time() < end:
                cand = episodes[:i] + episodes[i + 1:]
                if fails(cand):
                    episodes = cand
                else:
                    i += 1
    for n in range(len(episodes)):
        ep = episodes[n]

        def with_ops(ops):
            return (episodes[:n] + [dict(ep, ops=ops)] + episodes[n + 1:])
        ops = ep['ops']
        size = max(1, len(ops) // 2)
        while size >= 1 and time.time() < end:
            i, changed = 0, False
            while i < len(ops) and time.time() < end:
                cand = ops[:i] + ops[i + size:]
                if cand and fails(with_ops(cand)):
                    ops, changed = cand, True
                else:
                    i += size
            if size == 1 and not changed:
                break
            if not changed or size > len(ops):
                size = size // 2
        sched = ep.get('sched')
        if sched:
            def with_sched(sc):
                return (episodes[:n] + [dict(ep, ops=ops, sched=sc)]
                        + episodes[n + 1:])
            size = max(1, len(sched) // 2)
            while size >= 1 and time.time() < end:
                i, changed = 0, False
                while i < len(sched) and time.time() < end:
                    cand = sched[:i] + sched[i + size:]
                    if fails(with_sched(cand)):
                        sched, changed = cand, True
                    else:
                        i += size
                if size == 1 and not changed:
                    break
                if not changed or size > len(sched):
                    size = size // 2
            ep = dict(ep, sched=sched)
        for i in range(len(ops)):
            for key in ('fault', 'retry', 'sched'):
                if isinstance(ops[i], dict) and ops[i].get(key):
                    cand = list(ops)
                    cand[i] = {k: v for k, v in ops[i].items() if k != key}
                    if fails(with_ops(cand)):
                        ops = cand
        episodes = with_ops(ops)
    return episodes, tries[0]
