"""Control over the executed lines of the code under test.

Every line executed in REPO code is an event (sys.monitoring).  On top of that:

* ``Injector``: raises a chosen exception at the n-th event of a call.
* ``Scheduler``: runs several real threads one at a time; at every event the simulator decides
  which thread goes on.  Nothing but the case decides the interleaving.

Threads are never parked inside a JAX trace: tracing holds library-internal caches that block
other threads tracing the same function, so a switch there is not a schedule of the code under
test but a deadlock of the simulator.
"""
import gc
import importlib
import os
import pkgutil
import sys
import threading
import types
import _thread

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = 4
mon = sys.monitoring

_real_lock = _thread.allocate_lock


class Hub:
    """Receives line events and forwards them to the active consumer."""
    handler = None
    installed = False
    codes = 0


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _walk(k, seen)


def _on_line(code, line):
    h = Hub.handler
    if h is not None:
        h(code, line)


def install(prefix=None):
    """Instrument all code of the package under test."""
    prefix = prefix or os.path.join(REPO, 'cyjax') + os.sep
    if not Hub.installed:
        mon.use_tool_id(TOOL, 'sim')
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        Hub.installed = True
    import cyjax
    for m in pkgutil.walk_packages(cyjax.__path__, 'cyjax.'):
        importlib.import_module(m.name)
    seen = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
            _walk(o.__code__, seen)
    for c in seen:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    Hub.codes = len(seen)
    return len(seen)


def loc(code, line):
    return f'{os.path.basename(code.co_filename)}:{line}'


class Injected(Exception):
    """Marker base for exceptions raised by the simulator."""


class InjectedRuntime(RuntimeError, Injected):
    pass


class InjectedMemory(MemoryError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


class InjectedOS(OSError, Injected):
    pass


EXC = {'runtime': InjectedRuntime, 'memory': InjectedMemory, 'interrupt': InjectedInterrupt,
       'os': InjectedOS}


class Recorder:
    """Counts events of the calling thread and keeps their locations."""

    def __init__(self, keep=True, limit=200000):
        self.n = 0
        self.locs = [] if keep else None
        self.limit = limit
        self.thread = threading.get_ident()

    def __call__(self, code, line):
        if threading.get_ident() != self.thread:
            return
        self.n += 1
        if self.locs is not None and self.n <= self.limit:
            self.locs.append((code.co_filename, line, code.co_name))

    def __enter__(self):
        self.prev = Hub.handler
        Hub.handler = self
        return self

    def __exit__(self, *exc):
        Hub.handler = self.prev


class Injector(Recorder):
    """Raises ``exc`` at event number ``at`` (counting from 1), once."""

    def __init__(self, at, exc):
        super().__init__(keep=False)
        self.at, self.exc = at, exc
        self.fired = None

    def __call__(self, code, line):
        if threading.get_ident() != self.thread:
            return
        self.n += 1
        if self.n == self.at and self.fired is None:
            self.fired = loc(code, line)
            raise EXC[self.exc](f'injected at event {self.n}')


def pick_event(locs, f_loc, f_occ):
    """Event number: a distinct line chosen by f_loc, one of its executions by f_occ.

    Uniform over distinct lines rather than over events, so that rarely executed lines (cache
    handling) are hit as often as lines of hot loops.
    """
    if not locs:
        return None
    distinct = {}
    for i, l in enumerate(locs):
        distinct.setdefault(l, []).append(i + 1)
    keys = sorted(distinct)
    occ = distinct[keys[min(len(keys) - 1, int(f_loc * len(keys)))]]
    return occ[min(len(occ) - 1, int(f_occ * len(occ)))]


# --- cooperative locks, so that code protecting itself with locks can be simulated -----------

class SimLock:
    """Replacement for threading.Lock/RLock: real outside the scheduler, cooperative inside."""
    reentrant = False

    def __init__(self):
        self._lock = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        sched = Scheduler.current
        if sched is not None and sched.manages(me) and blocking:
            while not self._lock.acquire(False):
                sched.block(self)
            got = True
        else:
            got = self._lock.acquire(blocking, timeout)
        if got:
            self._owner, self._count = me, 1
        return got

    def release(self):
        if self.reentrant:
            if self._owner != threading.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()


class SimRLock(SimLock):
    reentrant = True


def patch_locks():
    """After jax is imported, before the package under test is."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Unjudgeable(Exception):
    """The simulator lost control (for example a thread blocked outside its reach)."""


class Deadlock(Exception):
    pass


class Scheduler:
    """Runs thread bodies one at a time; ``preempt[t]`` maps an event count of thread t to the
    thread that takes over at that event."""
    current = None

    def __init__(self, bodies, preempt, max_steps=400000, rng=None, p_switch=0.0, stall_s=90,
                 free_s=120):
        self.n = len(bodies)
        self.bodies = bodies
        self.preempt = preempt            # {t: {k: u}}
        self.rng, self.p = rng, p_switch
        self.max_steps = max_steps
        self.gates = [_real_lock() for _ in range(self.n)]
        for g in self.gates:
            g.acquire()
        self.ctl = threading.Semaphore(0) if False else _SimpleSem()
        self.ids = {}
        self.count = [0] * self.n          # events per thread
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.errors = [None] * self.n
        self.running = None
        self.steps = 0
        self.switches = []                 # (from, its event count, to, location)
        self.free = False
        self.stall_s, self.free_s = stall_s, free_s
        self.pending = {}

    def manages(self, ident):
        return not self.free and ident in self.ids

    # -- called in sim threads
    def _handler(self, code, line):
        t = self.ids.get(threading.get_ident())
        if t is None or self.free:
            return
        self.steps += 1
        self.count[t] += 1
        if self.steps > self.max_steps:
            # some thread waits for another by trying again and again: let all go on in turn
            if self.steps > 2 * self.max_steps:
                raise Deadlock('no progress: threads execute lines without finishing')
            if self.steps % 20:
                return
            u = next((v for d in range(1, self.n) for v in [(t + d) % self.n] if self._runnable(v)), None)
            if u is not None:
                self._switch(t, u)
            return
        u = self.preempt.get(t, {}).get(self.count[t])
        if u is None and self.rng is not None and self.rng.random() < self.p:
            u = self.rng.randrange(self.n)
        if u is None:
            u = self.pending.pop(t, None)
        if u is None or u == t:
            return
        if not self._runnable(u):
            # any other thread that can go on
            u = next((v for d in range(1, self.n) for v in [(t + d) % self.n] if self._runnable(v)), None)
            if u is None:
                return
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_name.startswith('trace_to_'):
                # not inside a trace: at the first event after it
                self.pending[t] = u
                return
            f = f.f_back
        self.switches.append((t, self.count[t], u, loc(code, line)))
        self._switch(t, u)

    def _runnable(self, u):
        if self.done[u]:
            return False
        b = self.blocked[u]
        return b is None or not b.locked()

    def _switch(self, t, u):
        self.running = u
        self.blocked[u] = None
        self.gates[u].release()
        self.gates[t].acquire()

    def block(self, lock):
        """Called by SimLock when the lock is taken: let another thread go on."""
        t = self.ids[threading.get_ident()]
        self.blocked[t] = lock
        for d in range(1, self.n + 1):
            u = (t + d) % self.n
            if u != t and self._runnable(u):
                self.switches.append((t, self.count[t], u, 'lock'))
                self._switch(t, u)
                return
        raise Deadlock('all threads wait for locks')

    def _body(self, t):
        self.gates[t].acquire()
        try:
            self.bodies[t]()
        except BaseException as e:
            self.errors[t] = e
        finally:
            self.done[t] = True
            if self.free:
                self.ctl.release()
            else:
                for d in range(1, self.n + 1):
                    u = (t + d) % self.n
                    if self._runnable(u):
                        self.running = u
                        self.blocked[u] = None
                        self.gates[u].release()
                        break
                self.ctl.release()

    def run(self, first=0):
        threads = []
        for t in range(self.n):
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            self.ids[th.ident] = t
            threads.append(th)
        prev_handler, prev_sched = Hub.handler, Scheduler.current
        Hub.handler, Scheduler.current = self._handler, self
        try:
            self.running = first
            self.gates[first].release()
            finished = 0
            last = -1
            while finished < self.n:
                if self.ctl.acquire(self.stall_s):
                    finished += 1
                    continue
                if self.steps != last:
                    last = self.steps
                    continue
                # no event and no completion for a long time: let everything run freely
                self.free = True
                for g in self.gates:
                    if g.locked():
                        g.release()
                while finished < self.n:
                    if not self.ctl.acquire(self.free_s):
                        raise Deadlock('threads do not finish even when run freely')
                    finished += 1
                raise Unjudgeable('a thread blocked outside the control of the simulator')
        finally:
            Hub.handler, Scheduler.current = prev_handler, prev_sched


class _SimpleSem:
    """Counting semaphore on raw locks (threading primitives may be patched)."""

    def __init__(self):
        self.q = __import__('_queue').SimpleQueue()

    def release(self):
        self.q.put(1)

    def acquire(self, timeout):
        try:
            self.q.get(True, timeout)
            return True
        except __import__('_queue').Empty:
            return False
