"""What a property gets to run one world in a forked child."""
import gc
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from sim import core


class ChildDied(Exception):
    def __init__(self, status):
        Exception.__init__(self, "child died, wait status %#x" % status)
        self.status = status
        self.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None


class ChildTimeout(Exception):
    pass


_exit = os._exit
reply = None        # in a child made by fork_call: sends the result ahead of time


def _sender(fd):
    def send(res):
        data = pickle.dumps(res)
        data = struct.pack("<I", len(data)) + data
        while data:
            n = os.write(fd, data)
            data = data[n:]
    return send


def fork_call(fn, args=(), kwargs=None, timeout=60.0, new_group=False):
    """Run fn in a forked copy of this process, return its pickled result."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            if new_group:
                os.setpgid(0, 0)
            os.close(r)
            # move the pipe out of the way: the code under test sees low fds
            import fcntl
            w2 = fcntl.fcntl(w, fcntl.F_DUPFD_CLOEXEC, 200)
            os.close(w)
            global reply
            reply = send = _sender(w2)
            try:
                res = ("ok", fn(*args, **(kwargs or {})))
            except BaseException as e:  # pylint: disable=broad-except
                if isinstance(e, core.Violation):
                    res = ("viol", (e.klass, e.msg))
                elif isinstance(e, core.Skip):
                    res = ("skip", str(e))
                elif isinstance(e, ChildTimeout):
                    res = ("timeout", str(e))
                elif isinstance(e, ChildDied):
                    res = ("died", e.status)
                else:
                    res = ("exc", traceback.format_exc())
            send(res)
            code = 0
        finally:
            _exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
                break
    finally:
        os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if timed_out and new_group:
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    _, status = os.waitpid(pid, 0)
    if new_group and not timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    if timed_out:
        raise ChildTimeout("no result after %s s" % timeout)
    if len(buf) < 4:
        raise ChildDied(status)
    kind, val = pickle.loads(buf[4:])
    if kind == "viol":
        raise core.Violation(*val)
    if kind == "skip":
        raise core.Skip(val)
    if kind == "timeout":
        raise ChildTimeout(val)
    if kind == "died":
        raise ChildDied(val)
    if kind == "exc":
        raise RuntimeError("in forked child:\n" + val)
    return val


class Ctx:
    """Scratch space, event log and counters of one run."""

    def __init__(self, scratch, shared, tier="quick"):
        self.root = scratch
        self.shared = shared
        self.tier = tier
        self.events = []
        self.stats = {}
        self.nontrivial = False
        self.states = set()
        self.steps = 0

    def log(self, *ev):
        self.events.append(json.loads(self.norm(json.dumps(ev, sort_keys=True, default=str))))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def state(self, *key):
        """A state / interleaving reached, for the distinctness measure."""
        self.states.add(core.digest([str(k) for k in key]))

    def norm(self, s):
        return core.norm(s, self.root, self.shared)

    def dig(self, obj):
        """Digest of an outcome, scratch paths hidden."""
        return core.digest(self.norm(json.dumps(obj, sort_keys=True, default=str)))

    def fresh(self, fn, *args, timeout=40.0, **kw):
        return fork_call(fn, args, kw, timeout=timeout)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        return d

    def write(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, str):
            text = text.encode("utf-8")
        with open(p, "wb") as f:
            f.write(text)
        return p


def run_world(prop, world, scratch, shared, tier):
    """In a forked child: execute one world, return a JSON-able result."""
    if os.path.isdir(scratch):
        shutil.rmtree(scratch)
    os.makedirs(scratch)
    os.chdir(scratch)
    ctx = Ctx(scratch, shared, tier)
    res = {"viol": None, "skip": None}
    try:
        prop.run(world, ctx)
    except core.Violation as v:
        res["viol"] = {"class": v.klass, "msg": core.norm(v.msg, scratch, shared)}
    except core.Skip as s:
        res["skip"] = str(s)
    res["digest"] = core.digest(ctx.events)
    res["nontrivial"] = bool(ctx.nontrivial)
    res["stats"] = ctx.stats
    res["states"] = sorted(ctx.states)
    res["steps"] = ctx.steps
    res["events"] = len(ctx.events)
    res["tail"] = ctx.events[-12:] if res["viol"] else ctx.events[:6]
    os.chdir("/")
    return res
