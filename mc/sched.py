"""Controlled scheduler: real threads running the real code, exactly one at a time, switched only where a
schedule says so.  A scheduling point is a line (or byte code instruction) of the repository's code."""
import sys
import threading

from . import impl
from .engine import Violation

PREFIX = impl.REPO.rstrip("/") + "/"
_inside = {}


def ours(code):
    r = _inside.get(code)
    if r is None:
        r = _inside[code] = code.co_filename.startswith(PREFIX)
    return r


def _want_opcodes():
    """Makes settrace ask for instruction events.  To be called while no thread is traced: the interpreter (3.12) calls
    the trace function of a frame marked like this even if its thread has none."""
    sys._getframe().f_trace_opcodes = True


class _Thread:
    def __init__(self, ctl, body, opcodes):
        self.ctl = ctl
        self.body = body
        self.go = threading.Semaphore(0)
        self.budget = 0
        self.steps = 0
        self.done = False
        self.result = None
        self.error = None
        self.opcodes = opcodes
        self.th = threading.Thread(target=self.main, daemon=True)

    def point(self):
        self.steps += 1
        if self.budget is None:
            return
        if self.budget > 0:
            self.budget -= 1
            return
        self.ctl.release()
        self.go.acquire()
        if self.budget is not None:
            self.budget -= 1        # the point at which it was stopped is now passed

    def trace(self, frame, event, arg):
        if not ours(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.local_op
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def local_op(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self.local_op

    def main(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.result = self.body()
        except BaseException as e:                                   # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.ctl.release()


def _asleep(t):
    """What tells whether a thread has run since last asked: its CPU time, None while it is runnable or unknown."""
    try:
        with open("/proc/self/task/%d/stat" % t.th.native_id) as f:
            state = f.read().rpartition(")")[2].split()[0]
        with open("/proc/self/task/%d/schedstat" % t.th.native_id) as f:
            return f.read().split()[0] if state == "S" else None
    except (OSError, IndexError, TypeError):
        return None


def _waits(ctl, t, block):
    """False when the thread has come to its point; True when it waits for a thread that is stopped."""
    seen = None
    same = 0
    spent = 0.0
    pause = 0.002         # most segments are over by then
    while True:
        if ctl.acquire(timeout=pause):
            return False
        pause = 0.001
        now = (t.steps, _asleep(t))
        same = same + 1 if now == seen else 0
        if same and now[1] is not None and same >= 3:
            return True
        spent = spent + pause if same else 0.0
        if spent > block:
            return True
        seen = now


def run(bodies, schedule, opcodes=False, block=0.3):
    """schedule: list of (thread, number of points).  Afterwards every thread runs to its end, the one that
    ran last after all others.
    -> (results, forced) ; forced: a thread was blocked by another, so the schedule was abandoned."""
    ctl = threading.Semaphore(0)
    if opcodes:
        _want_opcodes()
    ts = [_Thread(ctl, b, opcodes) for b in bodies]
    for t in ts:
        t.th.start()
    forced = False
    last = schedule[-1][0] if schedule else len(ts) - 1
    for i, k in list(schedule) + [((last + 1 + j) % len(ts), None) for j in range(len(ts))]:
        t = ts[i]
        if t.done:
            continue
        t.budget = k
        t.go.release()
        if _waits(ctl, t, block):
            forced = True
            break
    if forced:
        for t in ts:
            t.budget = None
            t.go.release()
    for t in ts:
        t.th.join(10)
        if not t.done:
            raise Violation("the threads block each other for ever")
    for t in ts:
        if t.error is not None:
            raise Violation("a thread failed: %s: %s" % (type(t.error).__name__, t.error))
    return [t.result for t in ts], forced


def record(body, probe=None, opcodes=False, limit=None):
    """The scheduling points of one undisturbed run: [(code, line or offset, is first line of a call)];
    with a probe, also the indices of the points between which the probed value changed.  With a limit, the
    probe is read at the first executions of each line only, at function entries and at the end."""
    pts = []
    times = {}
    changed = []
    last = [probe() if probe else None]
    entered = [False]

    def note(frame, where):
        look = probe is not None
        if look and limit is not None and not entered[0]:
            k = (frame.f_code, where)
            n = times[k] = times.get(k, 0) + 1
            look = n <= limit
        if look:
            v = probe()
            if v != last[0]:
                changed.append(len(pts))
                last[0] = v
        pts.append((frame.f_code, where, entered[0]))
        entered[0] = False

    def local(frame, event, arg):
        if event == "opcode" and opcodes:
            note(frame, frame.f_lasti)
        elif event == "line" and not opcodes:
            note(frame, frame.f_lineno)
        return local

    def tr(frame, event, arg):
        if not ours(frame.f_code):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        entered[0] = True
        return local

    box = []

    def main():
        sys.settrace(tr)
        try:
            box.append(body())
        finally:
            sys.settrace(None)
    if opcodes:
        _want_opcodes()
    th = threading.Thread(target=main, daemon=True)
    th.start()
    th.join()
    if not box:
        raise Violation("the traced run failed")
    if probe and probe() != last[0]:
        changed.append(len(pts))
    return pts, changed, box[0]


SIMPLE = (int, float, str, bytes, bool, type(None), complex)
IGNORED = ("__slotnames__",)        # a cache the copy module keeps on classes


def fingerprint_shared(extra=()):
    """A function returning a number that grows whenever the state reachable from modules and classes of the
    repository (and the extra objects) has changed, i.e. everything two parses could share."""
    mods = [m for n, m in sorted(sys.modules.items()) if getattr(m, "__file__", None) and m.__file__.startswith(PREFIX)]
    own = {m.__name__ for m in mods}
    maps, others = [], []

    def watch_map(o):
        maps.append((o, dict(o)))

    def image(kind, o):
        if kind == "cell":
            try:
                v = o.cell_contents
            except ValueError:
                return None
            return v if isinstance(v, SIMPLE) else id(v)
        if kind == "slots":
            out = []
            for c in type(o).__mro__:
                n = c.__dict__.get("__slots__", ())
                for a in (n,) if isinstance(n, str) else n:
                    v = getattr(o, a, None)
                    out.append(v if isinstance(v, SIMPLE) else id(v))
            return out
        if kind == "cache":
            return o().currsize
        if kind == "set":
            return set(o)
        return repr(o)

    def collect():
        maps.clear()
        others.clear()
        seen = set()
        todo = [vars(m) for m in mods] + list(extra)
        top = {id(vars(m)) for m in mods}
        while todo:
            o = todo.pop()
            if isinstance(o, SIMPLE) or id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, type) or type(o).__name__ == "mappingproxy":
                if isinstance(o, type):
                    if o.__module__ not in own:
                        continue
                    o = vars(o)
                watch_map(o)
                todo += [v for k, v in o.items() if k not in ("__dict__", "__weakref__", "__doc__")]
                continue
            if type(o).__module__ in own:
                if isinstance(getattr(o, "__dict__", None), dict):
                    todo.append(o.__dict__)
                if any("__slots__" in c.__dict__ for c in type(o).__mro__):
                    others.append(("slots", o, image("slots", o)))
                    for c in type(o).__mro__:
                        n = c.__dict__.get("__slots__", ())
                        todo += [getattr(o, a, None) for a in ((n,) if isinstance(n, str) else n) if a not in ("__dict__", "__weakref__")]
            if isinstance(o, dict):
                watch_map(o)
                todo += [v for k, v in o.items() if not (id(o) in top and str(k).startswith("__"))]
                todo += [k for k in o if not isinstance(k, SIMPLE)]
            elif isinstance(o, (list, tuple)):
                if not isinstance(o, tuple):
                    maps.append((o, list(o)))
                todo += list(o)
            elif isinstance(o, (set, frozenset)):
                others.append(("set", o, set(o)))
            elif isinstance(o, (staticmethod, classmethod)):
                todo.append(o.__func__)
            elif isinstance(o, property):
                todo += [o.fget, o.fset]
            elif callable(getattr(o, "cache_info", None)):
                others.append(("cache", o.cache_info, image("cache", o.cache_info)))
                todo.append(getattr(o, "__wrapped__", None))
            elif hasattr(o, "__code__"):
                todo += [getattr(o, "__defaults__", None), getattr(o, "__kwdefaults__", None), getattr(o, "__dict__", None)]
                for c in getattr(o, "__closure__", None) or ():
                    others.append(("cell", c, image("cell", c)))
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
            elif type(o).__name__ in ("deque", "Counter", "array", "bytearray", "local", "count"):
                others.append(("repr", o, repr(o)))
            elif isinstance(getattr(o, "__dict__", None), dict) and type(o).__name__ != "module" and type(o).__module__ not in own:
                watch_map(o.__dict__)       # an object of a library kept by the repository's code

    def differs(o, snap):
        if isinstance(snap, dict):
            d = dict(o)
            for k in IGNORED:
                d.pop(k, None)
                snap.pop(k, None)
            return d != snap
        return list(o) != snap

    def changed():
        for o, snap in maps:
            if o != snap and differs(o, snap):
                return True
        for k, o, snap in others:
            if image(k, o) != snap:
                return True
        return False

    def checked():
        if changed():
            collect()
            count[0] += 1
        return count[0]
    collect()
    count = [0]
    checked.size = lambda: sum(len(o) for o, _ in maps)
    return checked


def selftest():
    """The schedules asked for are the executions that happen: the order of events of small threads under every
    single preemption and every pair, by lines and by instructions, with 2 and 3 threads, and with a lock."""
    n = 6
    src = "def f(log, me):\n" + "".join("    log.append((me, %d))\n" % i for i in range(n))
    ns = {}
    exec(compile(src, PREFIX + "<selftest>", "exec"), ns)
    f = ns["f"]

    def go(threads, schedule, opcodes=False):
        log = []
        _, forced = run([(lambda i=i: f(log, i)) for i in range(threads)], schedule, opcodes=opcodes)
        assert not forced, schedule
        return log

    def seg(i, a, b):
        return [(i, j) for j in range(a, min(b, n))]
    for k in range(n + 2):
        assert go(2, [(0, k)]) == seg(0, 0, k) + seg(1, 0, n) + seg(0, k, n), (0, k)
        assert go(2, [(1, k)]) == seg(1, 0, k) + seg(0, 0, n) + seg(1, k, n), (1, k)
        for m in range(1, n + 1):
            want = seg(0, 0, k) + seg(1, 0, m) + seg(0, k, n) + seg(1, m, n)
            assert go(2, [(0, k), (1, m)]) == want, (k, m)
            want = seg(0, 0, k) + seg(1, 0, m) + seg(2, 0, n) + seg(0, k, n) + seg(1, m, n)
            assert go(3, [(0, k), (1, m)]) == want, (k, m, 3)
    seen = set()
    for k in range(12 * n):
        seen.add(tuple(go(2, [(0, k)], opcodes=True)))
    want = {tuple(seg(0, 0, k) + seg(1, 0, n) + seg(0, k, n)) for k in range(n + 1)}
    assert want == seen, "opcodes"
    pts, _, _ = record(lambda: f([], 0))
    assert len(pts) == n, "record"
    lock = threading.Lock()
    src = "def g(log, me):\n    log.append((me, 0))\n    with lock:\n        log.append((me, 1))\n        log.append((me, 2))\n    log.append((me, 3))\n"
    ns["lock"] = lock
    exec(compile(src, PREFIX + "<selftest>", "exec"), ns)
    blocked = 0
    for k in range(8):
        log = []
        _, forced = run([(lambda i=i: ns["g"](log, i)) for i in range(2)], [(0, k)])
        blocked += forced
        at = [i for i, (_, what) in enumerate(log) if what == 1]
        assert len(log) == 8 and all(log[i + 1] == (log[i][0], 2) or log[i + 1][1] not in (1, 2) for i in at), ("lock", k, log)
    assert blocked, "lock"
