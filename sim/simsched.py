"""Schedules and asynchronous faults.

Client threads are real threads of which exactly one is ever runnable; every other one is
parked.  Control can change hands before every traced event (source line, or byte-code
instruction) executed in the package under test: since its compiled parts never release the
interpreter lock, these are the points at which the interpreter itself could switch threads.
Locks created by the package are replaced by ones that park the thread in this scheduler.
"""
import dis
import os
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT = None            # the running Scheduler, if any
TRACE = None
MAX_SWITCHES = 1500
# instructions that change objects other threads may see; a switch right behind one is more telling than elsewhere
STORES = frozenset(dis.opmap[n] for n in (
    'STORE_ATTR', 'STORE_SUBSCR', 'STORE_SLICE', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR') if n in dis.opmap)

# CPython 3.12 instruments byte-code events only if some frame asked for them before settrace()
sys._getframe().f_trace_opcodes = True


class SimHang(BaseException):
    pass


class SimDeadlock(BaseException):
    pass


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'TimeoutError': TimeoutError,
    'SystemExit': SystemExit,
}


class SimLock:
    """stand-in for threading.Lock/RLock in code under test"""

    def __init__(self, reentrant=False):
        self._l = _real_lock()
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        s = CURRENT
        if s is None or not s.is_client():
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking:
                if timeout is not None and timeout >= 0:
                    return False
                s.blocked(self)
                ok = self._l.acquire(False)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        if CURRENT is not None:
            CURRENT.unblocked()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    # what threading.Condition expects of an RLock
    def _is_owned(self):
        return self._owner == _thread.get_ident() if self._re else self._l.locked()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        if CURRENT is not None:
            CURRENT.unblocked()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._n = None, 0


def patch_locks():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda *a: SimLock(True)


class Tracer:
    """counts events in frames of the package; raises the planned fault at its event"""

    def __init__(self, prefix, opcodes=False, fault=None, limit=None, on_event=None):
        self.prefix = prefix
        self.opcodes = opcodes
        self.fault = fault          # (event number, exception name) or None
        self.limit = limit
        self.on_event = on_event
        self.n = 0
        self.fired = None

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event != ('opcode' if self.opcodes else 'line'):
            return self.local
        self.n += 1
        if self.on_event is not None:
            self.on_event(frame)
        if self.fault is not None and self.n == self.fault[0]:
            self.fired = (frame.f_code.co_name, frame.f_lineno, os.path.basename(frame.f_code.co_filename))
            raise EXC[self.fault[1]]('injected')
        if self.limit is not None and self.n > self.limit:
            raise SimHang('more than %d events' % self.limit)
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *_):
        sys.settrace(None)


class Scheduler:

    def __init__(self, prefix, rng=None, p=0., preempt=None, opcodes=False, limit=None, p_store=None):
        self.prefix = prefix
        self.rng = rng
        self.p = p                                      # probability of a switch at an event
        self.p_store = p_store if opcodes else None     # ... at one that follows a store (byte-code events only)
        self.stored = {}                                # thread -> did its last event precede a store?
        self.plan = {s: t for s, t in (preempt or [])}  # or explicit: event number -> thread
        self.opcodes = opcodes
        self.limit = limit
        self.step = 0
        self.taken = []                                 # (event number, thread) actually performed
        self.threads = []
        self.gates = []
        self.state = []                                 # 'ready' | 'blocked' | 'done'
        self.cur = None
        self.done = _real_lock()
        self.done.acquire()
        self.errors = []
        self.ids = {}
        self.points = set()                             # (thread, place) pairs at which switches happened

    def is_client(self):
        return _thread.get_ident() in self.ids

    def spawn(self, fn):
        i = len(self.threads)
        gate = _real_lock()
        gate.acquire()
        self.gates.append(gate)
        self.state.append('ready')

        def body():
            gate.acquire()
            self.ids[_thread.get_ident()] = i
            try:
                fn(i)
            except BaseException as e:
                self.errors.append((i, e))
            finally:
                sys.settrace(None)
                self.state[i] = 'done'
                self._next()

        self.threads.append(body)

    def tracer(self, i, fault=None):
        return Tracer(self.prefix, self.opcodes, fault, None, lambda frame: self._event(i, frame))

    def _ready(self, but=None):
        return [k for k, s in enumerate(self.state) if s == 'ready' and k != but]

    def _event(self, i, frame):
        self.step += 1
        if TRACE is not None:
            TRACE.append((i, frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
        if self.limit and self.step > self.limit:
            raise SimHang('no progress within %d events' % self.limit)
        target = None
        if self.rng is not None:
            p = self.p
            if self.p_store is not None:
                if self.stored.get(i):
                    p = self.p_store
                self.stored[i] = frame.f_code.co_code[frame.f_lasti] in STORES
            if p and len(self.taken) < MAX_SWITCHES and self.rng.random() < p:
                others = self._ready(i)
                if others:
                    target = self.rng.choice(others)
        else:
            t = self.plan.get(self.step)
            if t is not None and t != i and t < len(self.state) and self.state[t] == 'ready':
                target = t
        if target is not None:
            self.taken.append((self.step, target))
            self.points.add((i, frame.f_code.co_name, frame.f_lineno, target))
            self._switch(i, target)

    def _switch(self, i, target):
        self.cur = target
        tr = sys.gettrace()
        sys.settrace(None)
        self.gates[target].release()
        self.gates[i].acquire()
        sys.settrace(tr)

    def blocked(self, lock):
        """the running client waits for a lock held by another one"""
        i = self.ids[_thread.get_ident()]
        others = self._ready(i)
        if not others:
            raise SimDeadlock('all clients blocked')
        self.state[i] = 'blocked'
        self._switch(i, others[0])
        self.state[i] = 'ready'

    def unblocked(self):
        self.state = ['ready' if s == 'blocked' else s for s in self.state]

    def _next(self):
        nxt = self._ready() or [k for k, s in enumerate(self.state) if s == 'blocked']  # the latter: dead-locked
        if nxt:
            self.cur = nxt[0]
            self.gates[nxt[0]].release()
        else:
            self.done.release()

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            for b in self.threads:
                _thread.start_new_thread(b, ())
            self.cur = 0
            self.gates[0].release()
            self.done.acquire()
        finally:
            CURRENT = None
