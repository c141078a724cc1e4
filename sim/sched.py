"""A seeded preemptive scheduler for real threads.

Every managed thread is parked on a lock of its own but one.  Preemption points
are the line, call and return trace events of the code under test and of
generated modules (not opcodes: CPython 3.12 miscomputes and crashes when
several threads trace opcodes).  Who runs next, and when, is decided by the schedule of the world
only.  Locks created by the code under test are replaced by cooperative ones:
a thread that waits for one is not runnable."""
import _thread
import os
import sys
import threading

from sim import ops

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT = None


class Abort(BaseException):
    """Ends a managed thread after a deadlock or at the step limit."""


class CoopLock:
    """Lock or RLock known to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        sched = CURRENT
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if sched is None or me not in sched.by_ident:
                if sched is None:
                    raise RuntimeError("deadlock: lock held and nobody else to run")
                os.sched_yield()
                continue
            if timeout is not None and timeout >= 0:
                # time does not pass here: whoever can run does so first
                if not sched.others(me):
                    return False
            sched.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # what threading.Condition needs of an RLock
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        s = (self.owner, self.depth)
        self.owner, self.depth = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.depth = s[1]


def _ours():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(ops.CTYPESLIB) or f.f_code.co_filename == "<string>":
            return True
        f = f.f_back
    return False


def _lock():
    return CoopLock(False) if _ours() else _real_lock()


def _rlock():
    return CoopLock(True) if _ours() else _real_rlock()


def patch():
    """Before the code under test is imported."""
    threading.Lock = _lock
    threading._allocate_lock = _lock
    threading.RLock = _rlock
    _thread.allocate_lock = _lock


class Scheduler:
    """schedule: {"list": [[gap, pick], ...]} preempt after so many events;
    "sites": [salt, modulus, budget, each, whole] also at every line whose place
    hashes to 0, at most `each` times at one place; `whole`: the place is a
    function, all lines of it."""

    def __init__(self, schedule, limit=3000000):
        self.list = schedule["list"]
        self.sites = schedule.get("sites")
        self.budget = self.sites[2] if self.sites else 0
        self.limit = limit
        self.steps = 0
        self.pos = 0
        self.left = self.list[0][0] if self.list else 1 << 60
        self.threads = []          # [lock, state, ident]
        self.by_ident = {}
        self.current = None
        self.abort = None
        self.switches = []
        self.done = _real_lock()
        self.done.acquire()
        self.errors = []
        self.each = self.sites[3] if self.sites and len(self.sites) > 3 else 1 << 30
        self.whole = bool(self.sites and len(self.sites) > 4 and self.sites[4])
        self.hit = {}
        self.spent = {}

    # -- choosing

    def runnable(self):
        return [i for i, t in enumerate(self.threads)
                if t["state"] == "ready" or t["state"] == "blocked" and (t["lock"].owner is None)]

    def others(self, ident):
        return [i for i in self.runnable() if i != self.by_ident[ident]]

    def switch_to(self, k, why):
        me = self.current
        if k == me:
            return
        self.current = k
        self.threads[k]["state"] = "ready"
        self.threads[k]["park"].release()
        if me is not None and self.threads[me]["state"] != "dead":
            self.threads[me]["park"].acquire()
        if self.abort and self.threads[me]["state"] != "dead":
            raise Abort(self.abort)

    def block(self, lock):
        me = self.current
        self.threads[me]["state"] = "blocked"
        self.threads[me]["lock"] = lock
        cand = [i for i in self.runnable() if i != me]
        if not cand:
            if lock.owner is None:
                self.threads[me]["state"] = "ready"
                return
            self.abort = "deadlock"
            self.threads[me]["state"] = "ready"
            raise Abort("deadlock")
        self.switch_to(cand[self.steps % len(cand)], "block")
        self.threads[me]["state"] = "ready"

    # -- preemption points

    def step(self, frame):
        self.steps += 1
        if self.abort:
            raise Abort(self.abort)
        if self.steps > self.limit:
            self.abort = "no progress after %d steps" % self.limit
            raise Abort(self.abort)
        self.left -= 1
        pick = None
        if self.left <= 0:
            pick = self.list[self.pos][1]
            self.pos += 1
            self.left = self.list[self.pos][0] if self.pos < len(self.list) else 1 << 60
        elif self.budget > 0:
            code = frame.f_code
            key = (code, frame.f_lineno)
            h = self.hit.get(key)
            if h is None:
                name = "%s:%s:%d" % (os.path.basename(code.co_filename), code.co_name,
                                     -1 if self.whole else frame.f_lineno - code.co_firstlineno)
                h = self.hit[key] = hash_of(self.sites[0], name) % self.sites[1]
            if h == 0 and self.spent.get(key, 0) < self.each:
                self.spent[key] = self.spent.get(key, 0) + 1
                self.budget -= 1
                pick = self.steps
        if pick is None:
            return
        cand = [i for i in self.runnable() if i != self.current]
        if not cand:
            return
        # an import in progress holds the interpreter's own locks
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return
            f = f.f_back
        k = cand[pick % len(cand)]
        self.switches.append((self.current, k, os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
        self.switch_to(k, "preempt")

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(ops.CTYPESLIB) or f == "<string>":
            self.step(frame)
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" or event == "return":
            self.step(frame)
        return self.local

    # -- running

    def body(self, k, fn):
        t = self.threads[k]
        t["park"].acquire()
        try:
            if not self.abort:
                sys.settrace(self.glob)
                try:
                    t["result"] = fn()
                finally:
                    sys.settrace(None)
        except Abort:
            t["result"] = None
        except BaseException as e:
            import traceback
            self.errors.append((k, type(e).__name__, traceback.format_exc()))
        finally:
            sys.settrace(None)
            t["state"] = "dead"
            live = [i for i, x in enumerate(self.threads) if x["state"] != "dead"]
            if not live:
                self.done.release()
            else:
                cand = [i for i in self.runnable()]
                if not cand:
                    # they wait for a lock nobody will release
                    self.abort = self.abort or "deadlock"
                    cand = live
                k2 = cand[self.steps % len(cand)]
                self.current = k2
                self.threads[k2]["state"] = "ready"
                self.threads[k2]["park"].release()

    def run(self, fns):
        global CURRENT
        CURRENT = self
        for k, fn in enumerate(fns):
            park = _real_lock()
            park.acquire()
            self.threads.append({"park": park, "state": "ready", "lock": None, "result": None})
        for k, fn in enumerate(fns):
            ident = _thread.start_new_thread(self.body, (k, fn))
            self.by_ident[ident] = k
        self.current = 0
        self.threads[0]["park"].release()
        self.done.acquire()
        CURRENT = None
        return [t["result"] for t in self.threads]


_hashes = {}


def hash_of(salt, name):
    import zlib
    return zlib.crc32(("%s/%s" % (salt, name)).encode())
