"""A controlled scheduler: runs two Python programs in two real threads, one at a time, switching exactly where it is told.

Switch points are the executed source lines (or bytecode instructions) of the library. A schedule is a list of segments
(thread, number of points to run); when a thread is through with its segment the other one goes on, and after the last segment each
thread runs to its end. `focus` may restrict the switch points to frames that can reach the shared data, `visits` to the first
few times a thread comes to each line. Locks the library may use are replaced (at import) by ones that hand control to the other thread."""
import sys, threading
from _thread import allocate_lock

STALL_S = 20.0


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, prefix):
        self.prefix = prefix
        self.gate = [allocate_lock(), allocate_lock()]
        self.job = [allocate_lock(), allocate_lock()]
        self.done_lock = allocate_lock()
        self.ident = {}
        for l in self.gate + self.job + [self.done_lock]:
            l.acquire()
        for k in (0, 1):
            t = threading.Thread(target=self._worker, args=(k,), daemon=True)
            t.start()
        self.cur = None

    # ---- in the worker threads
    def _worker(self, k):
        self.ident[threading.get_ident()] = k
        while True:
            self.job[k].acquire()
            self.gate[k].acquire()              # wait for the first turn
            opcodes = self.opcodes
            prefix = self.prefix
            visits = self.visits
            count = {}

            def local(frame, event, arg):
                if event == ("opcode" if opcodes else "line"):
                    self.events[k] += 1
                    if visits:
                        w = frame.f_code, frame.f_lineno
                        n = count[w] = count.get(w, 0) + 1
                        if n > visits:
                            return local
                    self.steps[k] += 1
                    if self.left == 0:
                        self._switch(k)
                    self.left -= 1
                return local

            focus = self.focus

            def tracer(frame, event, arg):
                if frame.f_code.co_filename.startswith(prefix):
                    if focus is not None and not focus(frame):
                        return None
                    if opcodes:
                        frame.f_trace_opcodes = True
                        frame.f_trace_lines = False
                    return local
                return None
            try:
                sys.settrace(tracer)
                try:
                    r = self.progs[k]()
                finally:
                    sys.settrace(None)
                self.result[k] = ("ok", r)
            except BaseException as e:
                self.result[k] = ("raised", f"{type(e).__name__}: {e}")
            self.done[k] = True
            o = 1 - k
            if self.done[o]:
                self.done_lock.release()
            else:
                self._next()
                self.gate[o].release()

    def _next(self):
        """Enter the next segment."""
        self.seg += 1
        if self.seg < len(self.schedule):
            self.left = self.schedule[self.seg]
        else:
            self.left = -1                      # never reaches 0: run to the end

    def _switch(self, k):
        o = 1 - k
        if self.done[o]:
            self._next()
            if self.left == 0:
                self.left = -1
            return
        self._next()
        self.preempted += 1
        self.gate[o].release()
        self.gate[k].acquire()

    def blocked(self):
        """Called by a lock of the library that another thread holds: let the other thread go on."""
        k = self.ident.get(threading.get_ident())
        if k is None or self.done[1 - k]:
            raise Deadlock("waits for a lock nobody will release")
        self.stuck += 1
        if self.stuck > 10000:
            raise Deadlock("both threads wait for locks")
        self.gate[1 - k].release()
        self.gate[k].acquire()

    # ---- in the controlling thread
    def run(self, progs, first, schedule, opcodes=False, focus=None, visits=0):
        """Start with thread `first`; schedule[n] = how many points the n-th segment runs before it is preempted."""
        self.progs, self.schedule, self.opcodes, self.focus, self.visits = progs, schedule, opcodes, focus, visits
        self.seg, self.left = 0, (schedule[0] if schedule else -1)
        self.steps, self.done, self.result, self.events = [0, 0], [False, False], [None, None], [0, 0]
        self.preempted = self.stuck = 0
        self.job[0].release()
        self.job[1].release()
        self.gate[first].release()
        if not self.done_lock.acquire(timeout=STALL_S):
            raise RuntimeError(f"the schedule {schedule} came to a standstill (steps {self.steps}, done {self.done})")
        return self.result


class CoopLock:
    """Stand-in for threading.Lock/RLock in the library."""
    sched = None
    reentrant = False

    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            CoopLock.sched.blocked()
        self.owner = me
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


def reach(obj):
    """focus: frames one of whose arguments (or closed-over variables) is the object or a mutable part of it."""
    from mc import state
    atom = state.ATOM

    def ids():
        out, todo = set(), [(obj, 0)]
        while todo:
            o, d = todo.pop()
            if isinstance(o, atom) or id(o) in out:
                continue
            if not isinstance(o, tuple):
                out.add(id(o))
            if d > 4:
                continue
            if isinstance(o, (list, tuple)):
                if len(o) and isinstance(o[0], tuple) and o[0] and isinstance(o[0][0], atom):
                    continue                    # a list of points
                todo += [(x, d + 1) for x in o]
            elif isinstance(o, dict):
                todo += [(x, d + 1) for x in o.values()]
            elif type(o).__module__.startswith("PathLib"):
                todo += [(getattr(o, n), d + 1) for n in state.attrs(o) if hasattr(o, n)]
        return out

    key = memo = None

    def now():
        nonlocal key, memo
        d = getattr(obj, "__dict__", None)
        if d is None:
            return ids()
        k = [(id(v), len(v) if isinstance(v, (list, dict, set)) else -1) for v in d.values()]
        if k != key:
            key, memo = k, ids()
        return memo

    def focus(frame):
        args = [v for v in frame.f_locals.values() if not isinstance(v, atom) and not isinstance(v, tuple)]
        for v in args:
            if v is obj:
                return True
        if not args:
            return False
        s = now()
        # anything that isn't plain data (an iterator, a function, ...) might lead anywhere
        return any(id(v) in s or not (isinstance(v, (list, dict, set)) or type(v).__module__.startswith("PathLib") or isinstance(v, type)) for v in args)
    return focus
