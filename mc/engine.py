"""Exhaustive exploration driver: shards families of executions over processes, judges every one of
them, collects the model states and transitions visited, and writes evidence and replay files."""
import ctypes
import itertools
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


ITEM_SECONDS = 20          # processor time for one execution that normally takes far below a millisecond
WAIT_SECONDS = 150         # wall clock, for one that waits for ever (a machine may be busy with other things)
WORKER_BYTES = 3 << 30


class TooSlow(Exception):
    pass


_LIMIT = [0, 0, 0]         # of the execution at hand: seconds, processor time and wall clock at its beginning


def _alarm(signum, frame):
    sec, cpu, wall = _LIMIT
    if time.process_time() - cpu < sec * 0.9 and time.monotonic() - wall < max(WAIT_SECONDS, 2 * sec):
        signal.setitimer(signal.ITIMER_REAL, sec)
        return
    raise TooSlow("no result after %d s" % sec)


def _busy(signum, frame):
    raise TooSlow("no result after %d s" % (_LIMIT[0] or 600))


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Stats:
    """What one worker visited."""

    def __init__(self):
        self.states = set()
        self.transitions = set()
        self.steps = 0
        self.execs = 0
        self.findings = set()
        self.extra = {}

    def model(self, m):
        """Account for one run of the reference machine."""
        tr = m.trace
        st, ts, kinds = self.states, self.transitions, m.kinds
        prev = None
        for i, a in tr:
            h = hash(a)
            st.add(h)
            if prev is not None:
                ts.add(hash((prev[1], kinds[prev[0]], h)))
            prev = (i, h)
        self.steps += len(tr)

    def state(self, s):
        self.states.add(hash(s))

    def transition(self, a, op, b):
        self.states.add(hash(a))
        self.states.add(hash(b))
        self.transitions.add(hash((a, op, b)))
        self.steps += 1

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def in_child(f, *a):
    """Result of f in a process of its own, so that this one stays as it is."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGPROF, _busy)
            signal.setitimer(signal.ITIMER_PROF, _LIMIT[0] or 600)
            try:
                res = (True, f(*a))
            except BaseException as e:                               # noqa: BLE001
                res = (False, (getattr(e, "what", None) or "%s: %s" % (type(e).__name__, e), getattr(e, "detail", {})))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation("a process parsing a field died")
    ok, res = pickle.loads(data)
    if not ok:
        raise Violation(res[0], **res[1])
    return res


class Family:
    """A finite set of executions: gen() yields items, judge(item, stats) raises Violation."""

    def __init__(self, name, gen, judge, shards=None, seconds=ITEM_SECONDS, fresh=False):
        self.fresh = fresh      # judged by processes that judge nothing but fresh families, and before the others
        self.seconds = seconds
        self.name = name
        self.gen = gen
        self.judge = judge
        self.shards = shards


_FAMS = []
_STOP = None
def _work(args):
    fi, shard, n = args
    fam = _FAMS[fi]
    if JOBS != 1:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
    signal.signal(signal.SIGALRM, _alarm)
    st = Stats()
    first = None
    samples = []
    bad = None
    try:
        for idx, item in enumerate(itertools.islice(fam.gen(), shard, None, n)):
            if idx & 255 == 0 and _STOP is not None and _STOP.is_set():
                break
            st.execs += 1
            try:
                _LIMIT[:] = fam.seconds, time.process_time(), time.monotonic()
                signal.setitimer(signal.ITIMER_REAL, fam.seconds)
                try:
                    fam.judge(item, st)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    _LIMIT[0] = 0
            except Exception as v:
                if not isinstance(v, (Violation, TooSlow, MemoryError)) and not from_repo(v):
                    raise
                bad = (shard + idx * n, item, getattr(v, "what", None) or repr(v),
                       getattr(v, "detail", {}))
                _STOP.set()
                break
            if idx == 0 and shard == 0:
                first = item
            if shard == 1 and idx == 97:
                samples.append(item)
        if first is not None:
            samples.insert(0, first)
    except Exception:
        return fi, None, ("crash", traceback.format_exc())
    return fi, (st.states, st.transitions, st.steps, st.execs, st.findings, st.extra, samples), bad


def _end_with_parent():
    """A worker does not outlive a check that is killed."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def from_repo(e):
    """Did the exception come out of the repository's code (rather than out of the harness)?"""
    from . import impl
    prefix = impl.REPO.rstrip("/") + "/"
    return any(f.filename.startswith(prefix) for f in traceback.extract_tb(e.__traceback__))


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, (list, tuple)):
            return [_jsonable(y) for y in x]
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        return repr(x)


class Outcome:
    def __init__(self):
        self.states = set()
        self.transitions = set()
        self.steps = 0
        self.execs = 0
        self.findings = set()
        self.extra = {}
        self.families = {}
        self.samples = []
        self.bad = None
        self.crash = None


def use(families):
    global _FAMS
    _FAMS = families


def explore(families):
    global _FAMS, _STOP
    _FAMS = families
    ctx = mp.get_context("fork")
    _STOP = ctx.Event()
    out = Outcome()
    tasks, fresh = [], []
    for fi, f in enumerate(families):
        out.families[f.name] = 0
        n = f.shards or JOBS * 2
        (fresh if f.fresh else tasks).extend([(fi, s, n) for s in range(n)])

    def results():
        for ts in (fresh, tasks):
            if JOBS == 1:
                yield from map(_work, ts)
            elif ts:
                with ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=_end_with_parent) as pool:
                    try:
                        yield from (f.result() for f in as_completed([pool.submit(_work, t) for t in ts]))
                    except BrokenProcessPool:
                        yield 0, None, ("crash", "a process running executions died\n")
                        return
    bads = []
    for fi, res, bad in results():
        if bad and bad[0] == "crash":
            out.crash = bad[1]
            continue
        s, t, steps, execs, finds, extra, samples = res
        out.states |= s
        out.transitions |= t
        out.steps += steps
        out.execs += execs
        out.findings |= finds
        for k, v in extra.items():
            out.extra[k] = out.extra.get(k, 0) + v
        out.families[families[fi].name] += execs
        if samples and len(out.samples) < 12:
            out.samples += [{"family": families[fi].name, "case": _jsonable(x)} for x in samples]
        if bad:
            bads.append((fi,) + bad)
    if bads:
        out.bad = min(bads, key=lambda b: (b[0], b[1]))
    return out


def finish(pid, tier, out, t0, assumptions, bounds, known=()):
    os.makedirs(EVID, exist_ok=True)
    if out.crash and not out.bad:
        sys.stderr.write(out.crash)
        print("ERROR: the check itself failed, see stderr")
        return 2
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": len(out.states), "transitions": len(out.transitions),
            "traces_validated_against_impl": out.execs,
            "model_steps": out.steps,
            "families": out.families, "bounds": bounds, "samples": out.samples or ["none"],
            "exhaustive": out.bad is None,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if out.bad else 0,
    }
    if out.extra:
        ev["coverage"]["counters"] = out.extra
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in sorted(out.findings):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    replay = os.path.join(EVID, "replay-%s.json" % pid)
    if out.bad:
        fi, idx, item, what, detail = out.bad
        with open(replay, "w") as f:
            json.dump({"property": pid, "family": _FAMS[fi].name, "index": idx, "item": _jsonable(item),
                       "what": what, "detail": _jsonable(detail),
                       "how": "python check.py %s --replay %s" % (pid, replay)}, f, indent=1)
        print("property %s violated by %r: %s" % (pid, item, what))
        for k, v in detail.items():
            print("   %s: %s" % (k, str(v)[:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("property %s held on %d executions (%d model states, %d transitions) in %.1f s" % (
        pid, out.execs, len(out.states), len(out.transitions), time.time() - t0))
    return 0
