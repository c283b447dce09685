"""Deterministic simulator core: decisions, virtual time, tasks, processes.

One `World` is one simulated execution.  Everything that could vary between
two executions (which task runs next, how long a delay is, which I/O operation
fails and how, what the wall clock says) is asked of `World.decide`, which
draws it from one seeded generator and records every answer that is not the
benign default.  Feeding the recorded answers back reproduces the execution
without any generator.
"""
import errno
import hashlib
import os as _os
import random
import sys
import time as _real_time

import greenlet

REAL_TIME = _real_time.time
PERF = _real_time.perf_counter

# The world being simulated right now in this interpreter (None: passthrough)
CUR = None


class SimCrash(BaseException):
    """The simulated process died here. Never visible to surviving code."""


class SimKilled(BaseException):
    """Raised inside a task the simulator is tearing down."""


class StepLimit(BaseException):
    """The run used up its step budget: no progress within the bound."""


class Deadlock(BaseException):
    """Every task is blocked with no timer to wait for."""


class HarnessError(Exception):
    """The simulator itself is wrong; never reported as a violation."""


class CpuLimit(BaseException):
    """The run used up its real CPU time."""


class Violation(Exception):
    def __init__(self, kind, message, **facts):
        self.kind = kind
        self.message = message
        self.facts = facts
        super(Violation, self).__init__('{}: {}'.format(kind, message))


class Policy(object):
    """Decides how often non-default answers are drawn, per label prefix."""

    def __init__(self, rates=None, default=0.0):
        self.rates = rates or {}
        self.default = default

    def rate(self, label):
        best, best_len = self.default, -1
        for prefix, r in self.rates.items():
            if label.startswith(prefix) and len(prefix) > best_len:
                best, best_len = r, len(prefix)
        return best


class Task(object):
    _n = 0

    def __init__(self, world, proc, fn, name, daemon=False):
        self.world = world
        self.proc = proc
        self.name = name
        self.daemon = daemon
        self.cond = None
        self.deadline = None
        self.done = False
        self.started = False
        self.result = None
        self.exc = None
        self.timed_out = False
        self.ident = None
        self._fn = fn
        self.glet = greenlet.greenlet(self._run)

    def _run(self, *_):
        self.started = True
        try:
            self.result = self._fn()
        except SimCrash:
            pass
        except SimKilled:
            pass
        except (StepLimit, Deadlock, HarnessError, CpuLimit):
            raise
        except BaseException as e:  # recorded; the owner decides
            self.exc = e
        self.done = True
        if self.proc is not None:
            self.proc.task_finished(self)
        return None

    def ready(self, now):
        if self.done:
            return False
        if self.proc is not None and self.proc.dead:
            return False
        if self.cond is None and self.deadline is None:
            return True
        if self.cond is not None and self.cond():
            return True
        return self.deadline is not None and self.deadline <= now


class World(object):
    EPOCH = 1700000000.0

    def __init__(self, seed, root, decisions=None, policy=None,
                 max_steps=20000):
        self.seed = seed
        self.root = root
        self.rng = random.Random(seed)
        self.replay = decisions is not None
        self.given = dict(decisions or {})
        self.decisions = {}
        self.label_counts = {}
        self.n_decisions = 0
        self.policy = policy or Policy()
        self.max_steps = max_steps
        self.steps = 0
        self.elapsed = 0.0          # true (monotonic) simulated seconds
        self.clock_offset = 0.0     # wall clock error: jumps
        self.clock_grain = 0.0      # wall clock granularity (0: fine)
        self.clock_drift = 0.0
        self.clock_policy = None    # called at each wall-clock read
        self.per_op = 0.0001        # simulated cost of one operation
        self.fault_counts = {}
        self.events = []
        self.log_hash = hashlib.sha1()
        self.n_events = 0
        self.tasks = []
        self.current = None         # current Task
        self.proc = None            # current SimProcess
        self.procs = []
        self.hub = None
        self.faults_on = False
        self.keep = []              # strong refs: no finaliser runs mid-run
        self.closed = False
        self.states = set()
        self.switches = 0
        self.fs = None
        self.net = None
        self.spawn_handler = None
        self.next_pid = 4000
        self.next_tid = 1
        self.crash_hook = None
        self.observers = []

    # -- decisions ---------------------------------------------------------
    def decide(self, label, n, rate=None):
        """Pick an int in [0, n). 0 is always the benign default."""
        k = self.label_counts.get(label, 0)
        self.label_counts[label] = k + 1
        self.n_decisions += 1
        if n <= 1:
            return 0
        key = '{}#{}'.format(label, k)
        if self.replay:
            v = self.given.get(key, 0)
            if not isinstance(v, int) or v >= n or v < 0:
                v = 0
        else:
            if rate is None:
                rate = self.policy.rate(label)
            v = 0
            if rate > 0 and self.rng.random() < rate:
                v = self.rng.randrange(1, n)
        if v:
            self.decisions[key] = v
        return v

    def fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # -- log ---------------------------------------------------------------
    def log(self, *event):
        text = repr(event).replace(self.root, '$S')
        self.n_events += 1
        self.log_hash.update(text.encode('utf-8', 'replace'))
        self.events.append(text)
        if len(self.events) > 4000:
            del self.events[:2000]

    def digest(self):
        return self.log_hash.hexdigest()

    def note_state(self, *state):
        self.states.add(hashlib.sha1(repr(state).encode()).hexdigest()[:12])

    # -- clock -------------------------------------------------------------
    def wall(self):
        t = self.EPOCH + self.elapsed * (1.0 + self.clock_drift) \
            + self.clock_offset
        if self.clock_grain:
            t = int(t / self.clock_grain) * self.clock_grain
        return t

    def jump_clock(self, delta):
        self.clock_offset += delta
        self.fault('clock_jump_back' if delta < 0 else 'clock_jump_forward')
        self.log('clock_jump', round(delta, 6))

    # -- tasks -------------------------------------------------------------
    def step(self, label):
        """One seam operation by simulated code."""
        self.steps += 1
        self.elapsed += self.per_op
        if self.steps > self.max_steps:
            raise StepLimit('{} steps, last: {}'.format(self.steps, label))
        p = self.proc
        if p is not None and p.dead:
            raise SimCrash()
        t = self.current
        if t is not None and len(self.tasks) > 1:
            self.maybe_switch(label)

    def maybe_switch(self, label):
        others = [t for t in self.tasks
                  if t is not self.current and t.ready(self.elapsed)]
        if not others:
            return
        v = self.decide('switch', len(others) + 1)
        if v:
            self.switches += 1
            self._park_current(None, None, others[v - 1])

    def _park_current(self, cond, deadline, to=None):
        t = self.current
        t.cond = cond
        t.deadline = deadline
        t.timed_out = False
        self._next_hint = to
        self.hub.switch()
        t.cond = None
        t.deadline = None
        if t.proc is not None and t.proc.dead:
            raise SimCrash()

    def block(self, cond, timeout=None, label='block'):
        """Block the current task until cond() (or timeout). Returns bool."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit('{} steps, blocked at: {}'.format(self.steps,
                                                             label))
        if self.proc is not None and self.proc.dead:
            raise SimCrash()
        if self.current is None:
            # Outside any task (checker code): nothing else may run.
            if cond is not None and cond():
                return True
            if timeout is not None:
                self.elapsed += timeout
            return bool(cond and cond())
        deadline = None if timeout is None else self.elapsed + max(0, timeout)
        if cond is not None and cond():
            return True
        if cond is None and deadline is None:
            deadline = self.elapsed
        self._park_current(cond if cond is not None else (lambda: False),
                           deadline)
        return bool(cond and cond())

    def spawn(self, fn, name, proc=None, daemon=False):
        t = Task(self, proc, fn, name, daemon)
        t.ident = self.next_tid
        self.next_tid += 1
        self.tasks.append(t)
        if proc is not None:
            proc.tasks.append(t)
        return t

    def run(self, until=None):
        """Schedule tasks until `until()` or until every task is finished."""
        global CUR
        self.hub = greenlet.getcurrent()
        self._next_hint = None
        self.deadlocked = False
        while True:
            self.tasks = [t for t in self.tasks if not t.done
                          and not (t.proc is not None and t.proc.dead)]
            if until is not None and until():
                break
            if not self.tasks:
                break
            ready = [t for t in self.tasks if t.ready(self.elapsed)]
            if not ready:
                deadlines = [t.deadline for t in self.tasks
                             if t.deadline is not None]
                if not deadlines:
                    self.deadlocked = True
                    break
                self.elapsed = max(self.elapsed, min(deadlines))
                continue
            hint = self._next_hint
            self._next_hint = None
            if hint is not None and hint in ready:
                t = hint
            elif len(ready) == 1:
                t = ready[0]
            else:
                t = ready[self.decide('pick', len(ready))]
            self._enter(t)
        self._leave()

    def _enter(self, t):
        if t.proc is not self.proc:
            if self.proc is not None:
                self.proc.switch_out()
            self.proc = t.proc
            if t.proc is not None:
                t.proc.switch_in()
        self.current = t
        if not t.started:
            t.glet.parent = self.hub
        try:
            t.glet.switch()
        finally:
            self.current = None

    def _leave(self):
        if self.proc is not None:
            self.proc.switch_out()
            self.proc = None

    def activate(self):
        global CUR
        CUR = self

    def close(self):
        """End of the run: nothing simulated may have effects any more."""
        global CUR
        self.closed = True
        for p in self.procs:
            p.dead = True
        self._leave()
        CUR = None


def current_proc():
    w = CUR
    if w is None or w.closed:
        return None
    return w.proc


def os_error(code, path=None):
    return OSError(code, _os.strerror(code), path) if path is not None \
        else OSError(code, _os.strerror(code))
