"""Deterministic scheduler for code that uses the threading module.

The lock primitives of `threading` (Lock, RLock, and through them Event, Condition,
Semaphore, Barrier) are replaced by virtual ones, and exactly one registered worker runs at a time;
the baton is handed over at synchronisation points, at marks set by the driver, and -
when line tracing is on - between any two lines of chosen source files.
"""
import _thread, sys, threading, time

_real_alloc = _thread.allocate_lock
_real_sleep = time.sleep


class Stuck(BaseException):
    """Raised inside abandoned workers (never seen by the code under test in accepted runs)."""


class Worker:
    def __init__(self, wid, fn):
        self.wid, self.fn = wid, fn
        self.sem = _real_alloc(); self.sem.acquire()
        self.state = "ready"        # ready | blocked | done
        self.wait_on = None
        self.deadline = False       # blocked with a timeout: may be fired
        self.fired = False
        self.ident = None
        self.error = None


class Sched:
    current = None

    def __init__(self, rng, policy="random", preempt=0.5, trace_files=(), max_steps=6000, budget=None):
        self.rng, self.policy, self.preempt = rng, policy, preempt
        self.workers, self.by_ident = [], {}
        self.main = _real_alloc(); self.main.acquire()
        self.steps = 0
        self.max_steps = max_steps
        self.trace_files = tuple(trace_files)
        self.dead = False
        self.stuck = False
        self.budget = budget          # bounded number of pre-emptions (None: unbounded)
        self.prio = {}
        self.limit = 20               # seconds

    # -- worker side
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self, weight=1.0):
        """A place where another worker may run."""
        w = self.me()
        if w is None or self.dead:
            return
        if self.budget is not None:
            if self.budget <= 0 or self.rng.random() >= self.preempt * weight:
                return
            self.budget -= 1
        elif self.rng.random() >= self.preempt * weight:
            return
        self._switch(w)

    def block(self, w, on, timed=False):
        w.state, w.wait_on, w.deadline, w.fired = "blocked", on, timed, False
        self._switch(w)
        return w.fired

    def wake(self, on):
        for w in self.workers:
            if w.state == "blocked" and w.wait_on is on:
                w.state, w.wait_on = "ready", None

    def _switch(self, w):
        self.steps += 1
        nxt = self._pick(w)
        if nxt is w:
            return
        if nxt is None:
            self.dead = self.stuck = True
            self.main.release()
            w.sem.acquire()            # parked for ever
            raise Stuck
        nxt.sem.release()
        w.sem.acquire()

    def _pick(self, cur):
        if self.steps > self.max_steps:
            return None
        ready = [w for w in self.workers if w.state == "ready"]
        timed = [w for w in self.workers if w.state == "blocked" and w.deadline]
        if timed and (not ready or self.rng.random() < 0.1):
            w = self.rng.choice(timed)
            w.state, w.wait_on, w.fired = "ready", None, True
            return w
        if not ready:
            return None
        if self.steps > self.max_steps // 2:      # fair tail: round robin
            ids = sorted(w.wid for w in ready)
            after = [i for i in ids if cur is not None and i > cur.wid]
            wid = (after or ids)[0]
            return next(w for w in ready if w.wid == wid)
        if self.policy == "pct":
            return max(ready, key=lambda w: self.prio.setdefault(w.wid, self.rng.random()))
        others = [w for w in ready if w is not cur]
        if cur is not None and cur.state == "ready" and others and self.rng.random() < 0.8:
            return self.rng.choice(others)
        return self.rng.choice(ready)

    def _tracer(self, frame, event, arg):
        if event == "call":
            if frame.f_code.co_filename in self.trace_files:
                return self._line
            return None
        return None

    def _line(self, frame, event, arg):
        if event == "line" and not self.dead:
            if self.policy == "pct" and self.rng.random() < 0.05:
                w = self.me()
                if w is not None:
                    self.prio[w.wid] = self.rng.random() * 0.1
            self.point(0.3)
        return self._line

    def _body(self, w):
        w.ident = _thread.get_ident()
        self.by_ident[w.ident] = w
        w.sem.acquire()
        if self.trace_files:
            sys.settrace(self._tracer)
        try:
            w.fn()
        except Stuck:
            return
        except BaseException as e:      # noqa
            w.error = e
        finally:
            sys.settrace(None)
        w.state = "done"
        if self.dead:
            return
        nxt = self._pick(w)
        if nxt is None:
            self.dead = True
            self.stuck = any(x.state != "done" for x in self.workers)
            self.main.release()
        else:
            nxt.sem.release()

    def run(self, fns):
        Sched.current = self
        for i, fn in enumerate(fns):
            w = Worker(i + 1, fn)
            self.workers.append(w)
        for w in self.workers:
            _thread.start_new_thread(self._body, (w,))
        while len(self.by_ident) < len(self.workers):
            _real_sleep(0.0001)
        first = self._pick(None)
        first.sem.release()
        if not self.main.acquire(timeout=self.limit):
            self.dead = self.stuck = True      # blocked outside the scheduler's control
        Sched.current = None
        return not self.stuck


class VLock:
    def __init__(self):
        self._owner = None
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        w = s.me() if s else None
        if w is None:
            if self._held and blocking:
                raise RuntimeError("unmanaged thread would block")
            if self._held:
                return False
            self._held, self._owner = True, None
            return True
        s.point()
        while self._held:
            if not blocking:
                return False
            if s.block(w, self, timed=(timeout is not None and timeout >= 0)):
                if self._held:
                    return False
        self._held, self._owner = True, w
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held, self._owner = False, None
        s = Sched.current
        if s:
            s.wake(self)
            s.point()

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class VRLock:
    def __init__(self):
        self._l = VLock(); self._n = 0; self._who = None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._who == me:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._who, self._n = me, 1
            return True
        return False

    def release(self):
        if self._who != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._who = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = VLock(); self._n = 0; self._who = None

    def _is_owned(self):
        return self._who == _thread.get_ident()

    def _release_save(self):
        st = (self._n, self._who)
        self._n, self._who = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._n, self._who = st


class patched:
    """Context: threading primitives are virtual."""
    NAMES = {"Lock": VLock, "RLock": VRLock, "_allocate_lock": VLock, "_RLock": VRLock, "_PyRLock": VRLock, "_CRLock": VRLock}

    def __enter__(self):
        self.saved = {n: getattr(threading, n) for n in self.NAMES if hasattr(threading, n)}
        for n in self.saved:
            setattr(threading, n, self.NAMES[n])
        self.sleep = time.sleep

        def vsleep(x):
            s = Sched.current
            w = s.me() if s else None
            if w is None:
                return self.sleep(min(x, 0.001))
            s._switch(w)
        time.sleep = vsleep
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(threading, n, v)
        time.sleep = self.sleep
