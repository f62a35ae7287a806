"""Cooperative scheduler for real threads.

Client threads run real library code.  A trace function turns every source
line executed inside mpnum into a scheduling point; only the thread holding
the token runs, so the interleaving is exactly the sequence of decisions taken
here.  Decisions come from a seeded generator (recorded as segments
``[thread, lines]``) or from a recorded list of segments.
"""
import os
import sys
import threading
import time

from . import boot

try:
    # PyPy's compiled loops swallow some line events, depending on timing.
    import pypyjit
    pypyjit.set_param('off')
except ImportError:
    pass

PREFIX = os.path.join(os.path.realpath(boot.REPO), 'mpnum') + os.sep


class ThreadDeath(BaseException):
    """A simulated thread dies here."""


class Scheduler(object):
    """Runs ``bodies`` (callables) to completion under one schedule."""

    def __init__(self, bodies, decide, kills, stats, stall_s=6.0):
        self.bodies = bodies
        self.n = len(bodies)
        self.decide = decide          # (live, current) -> (tid, lines)
        self.kills = dict(kills)      # tid -> line number at which it dies
        self.stats = stats
        self.stall_s = stall_s
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.state = ['parked'] * self.n
        self.live = list(range(self.n))
        self.lines = [0] * self.n
        self.budget = [0] * self.n
        self.trace = []               # executed segments [tid, lines]
        self.nopreempt = [0] * self.n
        self.progress = 0
        self.all_done = threading.Event()
        self.mutex = threading.Lock()
        self.abort = False
        self.errors = []
        self.killed = set()
        self.cache = {}
        self.current = None
        self.tls = threading.local()
        self.watch = None             # callable: did shared state change?
        self.linger = None            # lines to run on after such a change

    # -- called with the token held -----------------------------------------
    def pass_token(self):
        """Choose the next thread and hand the token over.  Returns its id."""
        while self.live:
            tid, lines = self.decide(self.live, self.current)
            if tid not in self.live:
                continue
            self.current = tid
            self.budget[tid] = max(1, lines)
            self.trace.append([tid, 0])
            return tid
        self.all_done.set()
        return None

    def local_trace(self, frame, event, arg):
        if event == 'line':
            self.line()
        return self.local_trace

    def global_trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        inside = self.cache.get(fn)
        if inside is None:
            inside = self.cache[fn] = os.path.realpath(fn).startswith(PREFIX)
        return self.local_trace if inside else None

    def line(self):
        me = self.tls.me
        self.progress += 1
        self.lines[me] += 1
        if self.abort:
            raise ThreadDeath()
        if self.kills.get(me) == self.lines[me]:
            self.killed.add(me)
            raise ThreadDeath()
        if self.nopreempt[me]:
            return
        self.trace[-1][1] += 1
        self.budget[me] -= 1
        if self.watch is not None and self.watch():
            self.stats.probe('stores-seen')
            self.budget[me] = min(self.budget[me], self.linger())
        if self.budget[me] > 0:
            return
        with self.mutex:
            nxt = self.pass_token()
        self.stats.simtime += 1
        if nxt != me:
            self.go[nxt].release()
            self.go[me].acquire()
            if self.abort:
                raise ThreadDeath()

    def run_thread(self, me):
        self.tls.me = me
        self.go[me].acquire()
        try:
            if self.abort:
                return
            sys.settrace(self.global_trace)
            try:
                self.bodies[me]()
            finally:
                sys.settrace(None)
        except ThreadDeath:
            pass
        except BaseException as e:      # harness problem
            self.errors.append(e)
        finally:
            with self.mutex:
                self.progress += 1
                if self.trace:
                    # one more than executed: it ended by itself
                    self.trace[-1][1] += 1
                if me in self.live:
                    self.live.remove(me)
                nxt = self.pass_token() if not self.abort else None
            if nxt is not None:
                self.go[nxt].release()

    def run(self):
        """Returns True if all threads ended."""
        ts = [threading.Thread(target=self.run_thread, args=(i,))
              for i in range(self.n)]
        for t in ts:
            t.daemon = True
            t.start()
        with self.mutex:
            nxt = self.pass_token()
        self.go[nxt].release()
        last, since = -1, time.time()
        ok = True
        while not self.all_done.wait(0.5):
            if self.progress != last:
                last, since = self.progress, time.time()
            elif time.time() - since > self.stall_s:
                # The running thread waits for something a parked thread
                # holds: let another one run.
                if not self.unblock():
                    ok = False
                    break
                since = time.time()
        if ok:
            for t in ts:
                t.join(5)
        return ok

    def unblock(self):
        with self.mutex:
            others = [t for t in self.live if t != self.current]
            tried = getattr(self, 'tried', set())
            others = [t for t in others if t not in tried] or None
            if not others:
                return False
            tried.add(self.current)
            self.tried = tried
            nxt = others[0]
            self.current = nxt
            self.budget[nxt] = 10 ** 9
            self.trace.append([nxt, 0])
        self.go[nxt].release()
        return True

    def shutdown(self):
        self.abort = True
        for g in self.go:
            g.release()


def random_decider(rng, style):
    """Seeded choice of the next thread and the length of its segment."""
    kind, mean = style

    def decide(live, current):
        if kind == 'burst' and len(live) > 1 and current in live:
            cand = [t for t in live if t != current]
        else:
            cand = live
        tid = rng.choice(cand)
        if kind == 'mixed' and rng.random() < .2:
            return tid, rng.choice([1, 1, 2, 3])
        return tid, 1 + int(rng.expovariate(1.0 / mean))
    return decide


def hot_decider(rng):
    """Let the others run far after every store to shared state."""
    def decide(live, current):
        cand = [t for t in live if t != current] or live
        if rng.random() < .1:
            cand = live
        return rng.choice(cand), rng.choice([20, 100, 400, 2000])
    return decide


def replay_decider(segments):
    """Follow recorded segments, then run the rest thread by thread."""
    it = iter(segments)

    def decide(live, current):
        for tid, lines in it:
            if tid in live and lines > 0:
                return tid, lines
        return live[0], 10 ** 9
    return decide
