"""C19 interleavings of concurrent parses, C20 histories of parses."""
import contextlib
import hashlib
import io
import itertools
import os
import re
import signal
import subprocess
import sys

from . import fields as F
from . import impl, sched, spec
from .checks_parse import prefixes, roomy
from .checks_tok import guard
from .engine import Family, Stats, Violation, in_child

BASE, SUB = impl.BASE, impl.SUB
ASSUMPTIONS = [
    "C19: code outside the repository (re, geographiclib, builtins) is thread safe; switches happen at lines (in some families at byte "
    "code instructions) of the repository's code; preemption bounds as stated",
    "C20: the outcome of a field 'on its own' is the outcome in a process that has parsed nothing else",
]

_REF = {}


def outcome(field, parser=None, tokenizer=None):
    if tokenizer is None:
        tokenizer = impl.Tokenize()
    tokenizer.set_string_to_tokenize(field)
    tokenizer.set_whitespace(impl.DELIMS)
    tokenizer.tokenize()
    tokens = tokenizer.get_tokens()
    ers = impl.ExtractedRouteSequence()
    v = (parser or impl.ParseF15()).parse_f15(ers, tokens)
    return view(v, ers, tokens), (v, ers, tokens)


def view(v, ers, tokens):
    return (impl.snapshot(v, ers), tuple((t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in
                                         tokens.get_tokens()), ers.as_xml())


def pristine(fields):
    """The outcome of every field, each in a process that has parsed nothing before."""
    for f in fields:
        if f in _REF:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    data = repr(outcome(f)[0])
                except BaseException as e:                           # noqa: BLE001
                    data = "!%s: %s" % (type(e).__name__, e)
                with os.fdopen(w, "w", encoding="utf-8", errors="surrogatepass") as fh:
                    fh.write(data)
            except BaseException:                                    # noqa: BLE001
                code = 1
            os._exit(code)
        os.close(w)
        with os.fdopen(r, encoding="utf-8", errors="surrogatepass") as fh:
            _REF[f] = fh.read()
        os.waitpid(pid, 0)
    return fields


def check_out(field, out, what=""):
    if repr(out) != _REF[field]:
        raise Violation("outcome of %r%s differs from its outcome on its own" % (field, what), expected=_REF[field], got=repr(out))


# -- C19 ------------------------------------------------------------------------------------------

FIELDS19 = [
    "N0450F350 ABC/N0460F370 10N020E 11N021E",
    "M082S1130 LNZ1A GHI C/JKL/M083F290F350 STAR",
    "N0120VFR TEXT IFR PQR/N0300A095 STAY2/0130",
    "N0250F100 XYZ OAT A GAT 12S034W090060",
    "K0830M0840 6B6B/ ABC VFR",
    "N0450F350 DEF/N0200VFR IFR DEF/N0100VFR X",
    "",
    "N0400F330 91N020E B9 ABC1D",
    "N0410F310 12N020E DCT GHI STAY1 C",
]
LONG19 = "N0400F330 91N020E B9 ABC B9 DEF STAY1 / C/ GHI/N0410F350PLUS IFPSTOP Z IFPSTART 00N001W"


def body(field, parser):
    def f():
        return outcome(field, parser)[0]
    return f


# every remaining line of the parser that a field can reach (used in pairs with the fields above)
FIELDS19 += [
    "N0451F350/A1 3301S04359E C/16S026W/M074A110PLUS",
    "N0451F350 SID/SID T KL/M086S1010",
    "6B6B C STAY9/0059/ C/1234567 UL607 C UM982",
    "N0451F350 5130S06145W400010 IFPSTART N0411F201F302 D STAY9/0059 L9 XYZ/",
    "N0451F350 DCT C C STAR A1 SID 50N060E361060 D999001",
    "N0451F350 D DCT 1234567/M076S0910A200 10S181W DVR3X 3301S04360E",
    "N0451F350 ABC IFPSTOP <&> IFPSTART N0424M0730PLUS C/KL/M076S0910A200 T",
]
NEW19 = 9


def _patterns():
    for f in FIELDS19:
        outcome(f)
    return [(k[1], k[2]) for k in getattr(re, "_cache", {}) if isinstance(k, tuple) and len(k) == 3 and isinstance(k[1], str)]


def warm_re():
    """Compiles the regular expressions (of the re module, not of the repository) once for all processes."""
    try:
        for p, fl in in_child(_patterns):
            re.compile(p, fl)
    except Violation:
        pass


_PTS = {}


def record_cold(field, kind):
    """In a process that has not parsed: where each point is (as text), and the points after a change of shared state."""
    p = impl.ParseF15()
    pts, changed, _ = sched.record(body(field, p), sched.fingerprint_shared((p,)) if not kind.startswith("op") else None,
                                   opcodes=kind.startswith("op"))
    ids = {}
    return [(ids.setdefault(c, len(ids)), w, first) for c, w, first in pts], changed


def trace_of(field, opc=False):
    """(scheduling points of a first run of the field in a process, points at which shared state changed)"""
    key = (field, opc)
    if key not in _PTS:
        try:
            _PTS[key] = in_child(record_cold, field, "op" if opc else "line")
        except Violation:
            _PTS[key] = [], []          # fails on its own: reported by the run without preemptions
    return _PTS[key]


def points(field, kind):
    """Indices of scheduling points of a run of the field, thinned to the kind."""
    key = (field, kind)
    if key not in _PTS:
        pts = trace_of(field, kind.startswith("op"))[0]
        if kind == "all":
            idx = range(len(pts) + 1)
        elif kind == "call":
            idx, seen = [], set()
            for i, (c, w, first) in enumerate(pts):
                if first and c not in seen:
                    seen.add(c)
                    idx.append(i)
        else:
            n = {"line": 1, "line3": 3, "op": 1, "op3": 3}[kind]
            cnt, idx = {}, []
            for i, (c, w, _) in enumerate(pts):
                k = cnt[(c, w)] = cnt.get((c, w), 0) + 1
                if k <= n:
                    idx.append(i)
            last = {}
            for i, (c, w, _) in enumerate(pts):
                last[(c, w)] = i
            if n > 1:
                idx = sorted(set(idx) | set(last.values()))
        _PTS[key] = list(idx)
    return _PTS[key]


def shared_writes(field):
    """Indices of the points right after a change of anything two parses share (none: every step of a parse
    commutes with every step of another one, so all interleavings are equivalent to running one after the other)."""
    return trace_of(field)[1]


def places(field):
    """The first change of shared state at each line of the code, and the last one of all."""
    pts, changed = trace_of(field)
    first = {}
    for i in changed:
        first.setdefault(pts[min(i, len(pts) - 1)][:2], i)
    return sorted(set(first.values()) | set(changed[-1:]))


def spread(xs, n):
    """At most n of the values, evenly spread, the first and the last among them."""
    xs = list(xs)
    return xs if len(xs) <= n else [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def around(xs, n):
    return spread(sorted({x + d for x in xs for d in (-1, 0, 1) if x + d >= 0}), n)


def j19_cold(item, st):
    """The threads are the first thing their process does."""
    fields, schedule, own, opc = item
    in_child(j19, item, Stats())
    st.transition((fields, own, "cold"), tuple(schedule), tuple(fields))
    st.count("preemptions", len(schedule))


_MET = set()


def partners(field):
    """Fields for the threads that run with it: its twin, others, one that ends alike, and itself."""
    return [F.twin(field), FIELDS19[0], FIELDS19[5], "N0333F100 XYZ" + field[9:] if field[9:10] == " " else "N0111F010 " + field, field]


def judge_run(fields, schedule, parser=None):
    p = parser or impl.ParseF15()
    res, _ = sched.run([body(f, p) for f in fields], schedule)
    for f, r in zip(fields, res):
        check_out(f, r, " among threads %r under schedule %r" % (fields, schedule))


def where_changed(pts, changed):
    return frozenset((pts[min(i, len(pts) - 1)][0].co_name, pts[min(i, len(pts) - 1)][1]) for i in changed)


def j19_watch(field, st):
    """Watches everything two parses could share at the lines of a parse; where it changes, interleaves it with others."""
    p = impl.ParseF15()
    ref = repr(guard(outcome, field, p)[0])
    pts, changed, out = sched.record(body(field, p), sched.fingerprint_shared((p,)), limit=2)
    st.state((field.count(" "), len(pts)))
    st.count("lines of parses at which shared state was compared", len(pts))
    if repr(out) != ref:
        raise Violation("parsing %r again gives another outcome" % field, first=ref, again=repr(out))
    if not changed:
        return
    st.count("fields whose parse changes shared state")
    # where the state changes: explored in full the first times a process meets it, with one schedule afterwards
    sig = where_changed(pts, changed)
    full = sig not in _MET and len(_MET) < 25
    _MET.add(sig)
    if not full:
        k = changed[len(changed) // 2]
        pristine([field, FIELDS19[0]])
        judge_run([field, FIELDS19[0]], [(0, k)], p)
        return
    for j, other in enumerate(partners(field)):
        pristine([field, other])
        q = sched.record(body(other, p), sched.fingerprint_shared((p,)), limit=2)[1]
        for k in around(changed, 12):
            for sch in [[(0, k)]] + [[(0, k), (1, m)] for m in around(q, 6)]:
                judge_run([field, other], sch, p)
        if not j:       # three and four threads that do the same thing
            for k in around(changed, 9):
                for m in around(q, 9):
                    judge_run([field, other, field], [(0, k), (1, m)], p)
            for k in around(changed, 5):
                for m in around(q, 5):
                    judge_run([field, other, field, other], [(0, k), (1, m), (2, k)], p)


def watch_cold(field):
    p = impl.ParseF15()
    pts, changed, out = sched.record(body(field, p), sched.fingerprint_shared((p,)), limit=2)
    return len(pts), changed, where_changed(pts, changed) if changed else None


def j19_watch_cold(field, st):
    """The same for the first parse of a process; the interleavings are those of processes that have not parsed."""
    n, changed, sig = in_child(watch_cold, field)
    st.state((field.count(" "), n))
    st.count("lines of first parses at which shared state was compared", n)
    if not changed or sig in _MET or len(_MET) >= 8:
        return
    _MET.add(sig)
    for other in (field, F.twin(field)):
        pristine([field, other])
        q = in_child(watch_cold, other)[1]
        for k in around(changed, 8):
            for sch in [[(0, k)]] + [[(0, k), (1, m)] for m in around(q, 4)]:
                in_child(judge_run, [field, other], sch)


def j19(item, st):
    fields, schedule, own, opc = item
    p = impl.ParseF15()
    bodies = [body(FIELDS19[i], impl.ParseF15() if own else p) for i in fields]
    res, forced = sched.run(bodies, schedule, opc)
    if forced:
        st.count("schedules abandoned because a thread waited for another")
    st.transition((fields, own), tuple(schedule), tuple(fields))
    st.count("preemptions", len(schedule))
    for i, r in zip(fields, res):
        check_out(FIELDS19[i], r, " among threads %r under schedule %r" % ([FIELDS19[k] for k in fields], schedule))


def events19(n):
    """In a process of its own: n different fields one after the other with one parser.  The numbers of the first fields at which what
    parses share shrinks, and changes without growing (a memory that is full and gives something up)."""
    p = impl.ParseF15()
    probe = sched.fingerprint_shared((p,))
    prev, size = probe(), probe.size()
    shrunk, flat = [], []
    for i in range(n):
        outcome(distinct(i), p)
        c = probe()
        if c != prev:
            s = probe.size()
            if s <= size and i:
                (shrunk if s < size else flat).append(i)
            prev, size = c, s
        if len(shrunk) > 1:
            break
    return shrunk[:2] + flat[:1]


def several(fields, parser):
    return lambda: [outcome(f, parser)[0] for f in fields]


def judge_burst(field, burst, schedule, parser):
    res, _ = sched.run([several([field], parser), several(burst, parser)], schedule)
    for f, r in zip([field] + burst, res[0] + res[1]):
        check_out(f, r, " among threads that parse %r and %r under schedule %r" % (field, burst, schedule))


def there(i, which, length, chunk, chunks):
    """After i fields: one of them interleaved with several new ones, each schedule in a process of its own."""
    p = impl.ParseF15()
    for j in range(i):
        outcome(distinct(j), p)
    field, burst = distinct(which), [distinct(j) for j in range(i, i + length)]
    pts = in_child(lambda: [(c.co_name, c.co_firstlineno, w) for c, w, _ in sched.record(body(field, p))[0]])
    first = {}
    for k, x in enumerate(pts):
        first.setdefault(x, k)
    last = {x: k for k, x in enumerate(pts)}
    changed = in_child(lambda: sched.record(body(burst[0], p), sched.fingerprint_shared((p,)), limit=2)[1]) if length == 1 else []
    n = 0
    for k in sorted(set(first.values()) | set(last.values()))[chunk::chunks]:
        for sch in [[(0, k)]] + [[(0, k), (1, m)] for m in around(changed, 3)]:
            in_child(judge_burst, field, burst, sch, p)
            n += 1
    return n


def j19_there(item, st):
    st.count("schedules after long histories", in_child(there, *item))
    st.state(("there",) + tuple(item[:3]))


def c19(tier):
    th = tier == "thorough"
    warm_re()
    pristine(FIELDS19)
    n = range(NEW19)
    some = [(0, 1), (2, 3), (3, 0), (5, 1), (4, 2), (7, 5), (8, 7)]
    every = range(len(FIELDS19))
    new = [(a, b) for k, a in enumerate(every[NEW19:]) for b in (every[k % NEW19], every[NEW19 + (k + 1) % (len(FIELDS19) - NEW19)])] + \
        [(k % NEW19, a) for k, a in enumerate(every[NEW19:])]

    def bound1(kind, own, pairs=None):
        opc = kind.startswith("op")

        def gen():
            for a, b in pairs or itertools.product(n, n):
                for k in points(FIELDS19[a], kind):
                    yield (a, b), [(0, k)], own, opc
        return gen

    def bound2(kind, pairs, own=False):
        opc = kind.startswith("op")

        def gen():
            for a, b in pairs:
                for k in points(FIELDS19[a], kind):
                    for m in points(FIELDS19[b], kind):
                        yield (a, b), [(0, k), (1, m)], own, opc
        return gen

    def bound3(kind, pairs):
        def gen():
            for a, b in pairs:
                pa = points(FIELDS19[a], kind)
                for i, k in enumerate(pa):
                    for k2 in pa[i + 1:]:
                        for m in points(FIELDS19[b], kind):
                            yield (a, b), [(0, k), (1, m), (0, k2 - k)], False, False
        return gen

    def three(kind, triples):
        def gen():
            for a, b, c in triples:
                for k in points(FIELDS19[a], kind):
                    for m in points(FIELDS19[b], kind):
                        yield (a, b, c), [(0, k), (1, m)], False, False
        return gen

    def writes():
        """One preemption around every change; two around the changes at each place of the code."""
        for a, b in itertools.product(n, n):
            w, v = around(shared_writes(FIELDS19[a]), 40), around(shared_writes(FIELDS19[b]), 40)
            if (a, b) not in some and not th:
                w, v = around(places(FIELDS19[a]), 13), around(places(FIELDS19[b]), 13)
            for k in w:
                yield (a, b), [(0, k)], False, False
                for m in v:
                    yield (a, b), [(0, k), (1, m)], False, False

    def solo():
        for own in (False, True):
            for a in every:
                yield (a,), [], own, False
            for a, b in itertools.product(n, n):
                yield (a, b), [], own, False

    cold = [(0, 0), (0, 1), (4, 2), (3, 10), (9, 5)]

    def cold1():
        for a, b in cold if not th else itertools.product(every, every):
            yield (a, b), [], False, False
            for k in points(FIELDS19[a], "line"):
                yield (a, b), [(0, k)], False, False
        for k in points(FIELDS19[0], "line"):
            yield (0, 1), [(0, k)], True, False
        for a in every if not th else ():
            if (a, a) not in cold:
                for k in points(FIELDS19[a], "line"):
                    yield (a, a), [(0, k)], False, False

    def watched_cold():
        yield from F.words_upto(F.CLASSES + F.WRONG, 1, ("SPALT",))
        yield from F.from_states(prefixes("coarse" if th else "loc"), F.CLASSES, 1)

    def cold2():
        for a, b in cold:
            for k in around(shared_writes(FIELDS19[a]), 24):
                for m in around(shared_writes(FIELDS19[b]), 24):
                    yield (a, b), [(0, k), (1, m)], False, False

    def watched():
        yield from FIELDS20
        yield from F.words_upto(F.CLASSES + F.WRONG + ["ODD"], 2, ("SPALT",))
        yield from F.from_states(prefixes("mid" if th else "coarse"), F.CLASSES if th else F.COARSE[::4], 1)
        yield from F.from_states(prefixes("loc"), F.CLASSES, 2 if th else 1)
        yield from F.words_upto(F.CLASSES, 2)
        for s in F.SEGS:
            yield F.field(("SPALT",) + s * (12 // len(s) + 1))

    try:
        events = in_child(events19, 4000 if not th else 20000)
    except Violation:
        events = []         # fails without threads
    there_items = [(i, w, n, c, 12) for i in events for w, n in dict.fromkeys([(i, 1), (i - 1, 1), (1, 25), (i - 1, 25)]) for c in range(12)]
    for i in events:
        pristine([distinct(j) for j in range(max(0, i - 1), i + 25)] + [distinct(1)])

    fams = [
        Family("after long histories, where what parses share stops growing (%d places)" % len(events), lambda: iter(there_items), j19_there, 64, 120,
               fresh=True),
        Family("in a process that has parsed nothing, 1 preemption at every distinct line", cold1, j19_cold, 64, fresh=True),
        Family("in a process that has parsed nothing, 2 preemptions around changes of shared state", cold2, j19_cold, 64, fresh=True),
        Family("in a process that has parsed nothing, everything shared watched", watched_cold, j19_watch_cold, 64, 120, fresh=True),
        Family("one after the other", solo, j19),
        Family("everything shared watched at the lines of every kind of parse", watched, j19_watch, 64, 120),
        Family("around changes of shared state, <= 2 preemptions", writes, j19, 64),
        Family("1 preemption at every distinct line, all pairs, shared parser", bound1("line3" if th else "line", False), j19, 64),
        Family("1 preemption at every distinct line, fields for the other lines of the parser", bound1("line", False, new), j19, 64),
        Family("1 preemption at every line executed, shared parser", bound1("all", False, some if th else some[:2]), j19, 64),
        Family("1 preemption at every distinct line, own parsers", bound1("line", True, None if th else some), j19, 64),
        Family("2 preemptions at every function entered", bound2("call", some if th else some[:2]), j19, 64),
        Family("1 preemption at every distinct instruction", bound1("op", False, some if th else some[:1]), j19, 64),
        Family("3 threads, 2 preemptions", three("call", [(0, 1, 2), (3, 2, 1), (5, 0, 7)][:3 if th else 1]), j19, 64),
    ]
    if th:
        fams += [Family("2 preemptions at every distinct line", bound2("line", some[:3]), j19, 256),
                 Family("3 preemptions at every function entered", bound3("call", some[:1]), j19, 256),
                 Family("1 preemption at the first instructions executed, all pairs", bound1("op3", False, some[:3]), j19, 256)]
    nw = sum(len(shared_writes(f)) for f in FIELDS19)
    return fams, "%d fields, all ordered pairs of %d and %d more; threads switched by a controlled scheduler; <= %d preemptions; %d of the lines " \
        "executed by the fields change state that two parses share (0 means that every step of one parse commutes with every step of another)" % (
            len(FIELDS19), NEW19, len(new), 3 if th else 2, nw)


# -- C20 ------------------------------------------------------------------------------------------

FIELDS20 = FIELDS19[:6] + [LONG19, 
    "N0450F350", "N0450VFR", "N0450F350 ABC ABC1D", "N0450F350 ABC1D ABC", "N0450F350 10N020E B9 11N021E", "N0450F350 ABC STAY1/0130",
    "N0450F350 10N020E 11N021E", "ABC", "N0450F350 ABC VFR", "N0450F350 ABC VFR GHI IFR DEF/N0420F330 JKL",
]


def near_fields():
    """Fields alike in all but one respect: whatever is remembered too coarsely shows up."""
    out = []
    for s in ("N0450", "K0450", "M045", "N0045", "K0451"):
        for lv in ("F350", "A350", "S0350", "M0350", "F035", "F355", "S0355"):
            out.append("%s%s ABC" % (s, lv))
        out.append("N0300F200 ABC/%sVFR X" % s)
        for l2 in ("F390", "A390", "S0390", "PLUS"):
            out.append("N0300F200 ABC C/DEF/%sF350%s GHI" % (s, l2))
            out.append("N0300F200 ABC C/DEF/%sS0350%s GHI" % (s, l2))
    for a in ("10N020E", "10S020E", "10N020W", "1000N02000E", "1001N02000E", "10N021E", "11N020E", "10N020E090010", "10N020E090011",
              "10N020E091010", "ABC090010", "91N020E", "10N181E", "00N000E", "90N020E", "1060N02000E"):
        out += ["N0300F200 %s" % a, "N0300F200 %s 12N022E" % a, "N0300F200 12N022E %s" % a, "N0300F200 ABC DCT %s DEF" % a]
    for t in ("0130", "0131", "1030", "0230", "2360", "130"):
        out += ["N0300F200 ABC STAY1/%s DEF" % t, "N0300F200 ABC STAY2/%s" % t]
    for x in ("B9", "b9", "B99", "ABC1D", "ABC1", "ABC", "abc", "ABCD", "SID", "STAR", "T", "C", "DCT", "VFR", "IFR", "OAT", "GAT", "IFPSTOP",
              "IFPSTART", "/", "STAY1", "N0450F350", "N0450VFR", "6B6B", "A" * 25, "A" * 26, "A" * 27, "N0450F350F370", "N0450F350PLUS",
              "VFR A", "VFR A B", "VFR IFR DEF/N0300F200", "OAT GAT DEF", "OAT A GAT DEF", "VFR IFR DEF", "VFR IFR DEF/"):
        out += ["N0300F200 %s" % x, "N0300F200 ABC %s" % x, "N0300F200 %s ABC" % x, x]
    return list(dict.fromkeys(out))


def quiet(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        guard(f, *a)
    return out.getvalue()


def ops20():
    o = []
    for i in range(len(FIELDS20)):
        o.append(("own", i))
        o.append(("shared", i))
    o += [("tok", i) for i in (0, 2, 3, 5)] + [("tokshared", i) for i in (0, 2)]
    return o + [("late", 0), ("lateown", -1), ("reuse", 0), ("first", 0), ("report", 0), ("tokenize", 0), ("classify", 0)]


LAST_OPS = 7
OWNER_OPS = [("fill", 0), ("mess", 0)]


def fill(ers):
    """What the owner of a result does with it: fills in every attribute of every record, adds to it."""
    from .checks_out import SETTERS
    for i, r in enumerate(list(ers.get_all_elements()) + list(ers.get_all_errors())):
        for k, *values in SETTERS:
            getattr(r, k if k.startswith("append_") else "set_" + k)(values[i % len(values)])
    ers.create_append_element("OWN", 1, 2, 3, 4)
    ers.add_error("OWN", 1, 2, 3, 4, "OWN ERROR")
    ers.set_derived_flight_rules("X")


def mess(tokens):
    """What the owner of a token list does with it."""
    for i, t in enumerate(tokens.get_tokens()):
        t.set_token_string("OWN%d" % i)
        t.set_token_start_index(7 + i)
        t.set_token_end_index(9 + i)
        t.set_token_base_type(impl.TokenBaseType.F15_POINT)
        t.set_token_sub_type(impl.TokenSubType.F15_SB_PRP)
    tokens.create_append_token("OWN", 900, 903)
    tokens.get_last_token()


def j20(ops, st):
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    kept, waiting = [], []
    a = ()
    for op, i in ops:
        if op in ("own", "shared"):
            f = FIELDS20[i]
            out, objs = guard(outcome, f, *((parser, tokenizer) if op == "shared" else ()))
            check_out(f, out)
            kept.append((f, objs))
        elif op in ("tok", "tokshared"):
            t = tokenizer if op == "tokshared" else impl.Tokenize()
            guard(t.set_string_to_tokenize, FIELDS20[i])
            guard(t.set_whitespace, impl.DELIMS)
            guard(t.tokenize)
            waiting.append((FIELDS20[i], guard(t.get_tokens)))
        elif op in ("late", "lateown"):
            if not waiting:
                return
            f, tokens = waiting.pop(i)
            ers = impl.ExtractedRouteSequence()
            v = guard((parser if op == "late" else impl.ParseF15()).parse_f15, ers, tokens)
            check_out(f, guard(view, v, ers, tokens), " tokenized earlier")
            kept.append((f, (v, ers, tokens)))
        elif op in ("reuse", "first"):
            if not kept:
                return
            f, (_, _, tokens) = kept[0 if op == "first" else -1]
            ers = impl.ExtractedRouteSequence()
            v = guard(parser.parse_f15, ers, tokens)
            check_out(f, guard(view, v, ers, tokens), " parsed again")
            kept.append((f, (v, ers, tokens)))
        elif op == "report":
            for f, (v, ers, tokens) in kept[-2:]:
                quiet(ers.print_ers)
                quiet(tokens.print_tokens)
                guard(ers.as_xml)
                for r in list(ers.get_all_elements()) + list(ers.get_all_errors()):
                    impl.rec_tuple(r)
        elif op == "fill":
            if not kept:
                return
            guard(fill, kept.pop()[1][1])
        elif op == "mess":
            if not kept:
                return
            tokens = kept[-1][1][2]
            kept = [k for k in kept if k[1][2] is not tokens]
            guard(mess, tokens)
        elif op == "tokenize":
            tokenizer.set_string_to_tokenize("A/B C")
            tokenizer.set_whitespace("A ")
            guard(tokenizer.tokenize)
        else:
            s = impl.Syntax()
            for t in ("ABC", "N0450F350", "VFR", "ABC1D", "xyz"):
                guard(s.get_token_type, t)
            quiet(s.print_descriptions)
        b = a[-1:] + ((op, i),)
        st.transition(a, (op, i), b)
        a = b
    for f, tokens in waiting:
        ers = impl.ExtractedRouteSequence()
        v = guard(parser.parse_f15, ers, tokens)
        check_out(f, guard(view, v, ers, tokens), " tokenized earlier")
    for f, objs in kept:
        check_out(f, guard(view, *objs), " looked at later")


def j20_pair(item, st):
    a, b, mode = item
    parser, tokenizer = (impl.ParseF15(), impl.Tokenize()) if mode else (None, None)
    o1, k1 = guard(outcome, a, parser, tokenizer)
    check_out(a, o1)
    o2, k2 = guard(outcome, b, parser, tokenizer)
    check_out(b, o2, " after %r" % a)
    check_out(a, guard(view, *k1), " looked at after %r" % b)
    st.transition(a, "then", b)


def j20_after(item, st):
    """One of a few fields directly after any kind of field, with one parser and tokenizer."""
    a, b = item
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    o1, k1 = guard(outcome, a, parser, tokenizer)
    if len(a) % 2:
        guard(fill, k1[1])
        guard(mess, k1[2])
    o2, k2 = guard(outcome, b, parser, tokenizer)
    check_out(b, o2, " after %r%s" % (a, " whose result its owner changed" if len(a) % 2 else ""))
    st.transition(a, "then", b)


def deeper(n, f):
    return f() if n <= 0 else deeper(n - 1, f)


def j20_given_up(item, st):
    """A field parsed after a parse that was given up: a field too long for the interpreter's recursion limit, met at every
    depth of the caller's own calls, or a result, list or text that is none."""
    a, depth, b = item
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    try:
        if a is None:
            tokens = guard(impl.tokenise, "N0450F350 ABC VFR X")
            (lambda: parser.parse_f15(None, tokens), lambda: parser.parse_f15(impl.ExtractedRouteSequence(), None),
             lambda: outcome(None, parser, tokenizer), lambda: impl.Syntax().get_token_type(None), lambda: parser.parse_f15(None, None))[depth]()
        else:
            deeper(depth, lambda: outcome(a, parser, tokenizer))
        st.count("parses not given up after all")
    except (RecursionError, AttributeError, TypeError):
        st.count("parses given up")
    for p, k in ((parser, tokenizer), (parser, None), (None, None)):
        o2, _ = guard(outcome, b, p, k)
        check_out(b, o2, " after a parse that was given up, of %r" % (a or "")[:60])
    st.transition((a or "")[10:40], "given up, then", b)


def given_up(th):
    n = 0
    for i, f in enumerate(F.huge_fields((1030,))):
        for d in range(0, 60, 1 if th else 6):
            n += 1
            yield f, d + i % 6, FIELDS20[n % len(FIELDS20)]
    for d in range(5):
        for b in FIELDS20:
            yield None, d, b


def j20_again(field, st):
    m = spec.parse(field, True)
    st.model(m)
    p = impl.ParseF15()
    out, (v, ers, tokens) = guard(outcome, field, p)
    e2 = impl.ExtractedRouteSequence()
    v2 = guard(p.parse_f15, e2, tokens)
    o2 = guard(view, v2, e2, tokens)
    if repr(o2) != repr(out):
        raise Violation("parsing the token list of %r again gives another outcome" % field, first=repr(out), again=repr(o2))
    e3 = impl.ExtractedRouteSequence()
    v3 = guard(impl.ParseF15().parse_f15, e3, tokens)
    if repr(guard(view, v3, e3, tokens)) != repr(out):
        raise Violation("parsing the token list of %r a third time gives another outcome" % field, first=repr(out))
    quiet(ers.print_ers)
    quiet(tokens.print_tokens)
    if repr(guard(view, v, ers, tokens)) != repr(out):
        raise Violation("the first result of %r changed" % field, first=repr(out))


def j20_edited(item, st):
    """A token list changed by its owner after a parse, parsed again: as a new list of the same tokens."""
    field, op, i, text, mode = item
    parser = impl.ParseF15() if mode else None
    out, (v, ers, tokens) = guard(outcome, field, parser)
    if op == "text":
        tokens.get_token_at(i).set_token_string(text)
    elif op == "insert":
        tokens.insert_token(impl.Token(text, 3, 3 + len(text)), i)
    elif op == "append":
        tokens.create_append_token(text, 900, 900 + len(text))
    elif op == "cut":
        tokens.remove_tokens_from_end_of_list(i)
    else:
        a, b = tokens.get_token_at(i), tokens.get_token_at(i + 1)
        x, y = a.get_token_string(), b.get_token_string()
        a.set_token_string(y)
        b.set_token_string(x)
    fresh = impl.Tokens()
    for t in tokens.get_tokens():
        fresh.create_append_token(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index())

    def parse(p, toks):
        e = impl.ExtractedRouteSequence()
        return view(p.parse_f15(e, toks), e, toks)
    got, exp = guard(parse, parser or impl.ParseF15(), tokens), guard(parse, impl.ParseF15(), fresh)
    if repr(got) != repr(exp):
        raise Violation("parsing the changed token list of %r depends on what it was before" % field, expected=exp, got=got)
    if repr(impl.snapshot(v, ers)) != repr(out[0]):
        raise Violation("changing and parsing the token list of %r again changed the first result" % field)
    st.transition(("tokens", field), (op, i, text), ("tokens", repr(got[1])))


def edits():
    """Token lists of every location (and every state at its end) and every change of one of them."""
    k = 0
    for p in prefixes("loc"):
        n = len(F.realise(p))
        f = F.field(p)
        for i in range(n):
            for c in F.COARSE:
                k += 1
                v = F.VARIANTS[c]
                yield f, "text", i, v[k % len(v)], k % 2
                if i > n - 4:
                    yield f, "insert", i, v[k % len(v)], k % 2
            if i + 1 < n:
                yield f, "swap", i, "", i % 2
            yield f, "cut", i, "", i % 2
        for c in F.CLASSES:
            yield f, "append", 0, F.VARIANTS[c][-1], n % 2
    for j, p in enumerate(prefixes("full")):
        c = F.CLASSES[j % len(F.CLASSES)]
        v = F.VARIANTS[c]
        n = len(F.realise(p))
        yield F.field(p), "text", n - 1 - j % min(3, n), v[j % len(v)], j % 2


def j20_many(item, st):
    n, mode, step = item
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    kept = []
    for i in range(n):
        f = FIELDS20[(i * step) % len(FIELDS20)]
        out, objs = guard(outcome, f, *((parser, tokenizer) if mode else (None, None)))
        check_out(f, out, " as parse number %d" % (i + 1))
        if i % 50 == 0:
            kept.append((f, objs))
    for f, objs in kept:
        check_out(f, guard(view, *objs), " looked at later")
    st.count("parses in long histories", n)
    st.state((n, mode))


def distinct(i):
    """The i-th of very many fields without an element in common but the first and DCT."""
    a, b, c, d = i // 676 % 26, i // 26 % 26, i % 26, i // 17576 % 26
    x = "".join(chr(65 + k) for k in (d, a, b, c))
    return ("N0%03dF%03d %sX %sA DCT %02dN%03dE %s%d %s9 DCT STAY1/%02d%02d %sB/K0%03dS%04d VFR %s %d" % (
        i % 1000, i % 200 * 5, x, x, i % 90, i % 180, x[1:3], i % 1000, x, i % 24, i % 60, x, i % 1000, i % 10000, x, i))


def digest(out):
    return hashlib.sha256(repr(out).encode("utf-8", "surrogatepass")).digest()[:12]


def many(order, mode):
    """In a process of its own: the outcomes of the fields with these numbers, in this order."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    got = {}
    for i in order:
        d = digest(outcome(distinct(i), *((parser, tokenizer) if mode else (None, None)))[0])
        if got.setdefault(i, d) != d:
            raise Violation("outcome of %r changes in a history of many" % distinct(i))
    return got


def alone(field):
    return repr(outcome(field)[0])


def j20_distinct(item, st):
    """Thousands of different fields one after the other, some of them again much later; the other way round; and alone."""
    n, mode = item
    one = in_child(many, list(range(n)) + list(range(0, n, 7)) + list(range(n - 1, 0, -11)), mode)
    two = in_child(many, list(range(n - 1, -1, -1)), 1 - mode)
    for i in one:
        if one[i] != two[i]:
            raise Violation("outcome of %r depends on the many fields parsed before it" % distinct(i))
    for i in range(0, n, max(1, n // 100)):
        if digest(in_child(outcome_only, distinct(i))) != one[i]:
            raise Violation("outcome of %r among many differs from its outcome on its own" % distinct(i))
    st.count("parses in long histories", 2 * n)
    st.state((n, mode))


def outcome_only(field):
    return outcome(field)[0]


def long_alike():
    """Pairs of long fields that differ in one element, in the order of two, or in the end of one."""
    bases = [("SPALT",) + seg * (m // len(seg) + 1) for m in (8, 20, 45) for seg in (
        ("PRP", "DCT"), ("LLD", "DCT"), ("RT", "PRP"), ("PRP", "SL", "SPALT"), ("LLBM",), ("PRP", "STAY", "SL", "ST"), ("UNK", "PRP"),
        ("C", "SL", "PRP", "SL", "SAA"), ("PRP", "VFR", "UNK", "IFR", "PRP", "SL", "SPALT"), ("PRP", "OAT", "UNK", "GAT"))]
    for classes in bases:
        texts = F.realise(classes)
        a = F.join(texts)
        n = len(texts)
        for i in sorted({0, 1, 2, 3, n // 2, n // 2 + 1, n - 4, n - 3, n - 2, n - 1}):
            if not 0 <= i < n:
                continue
            for v in F.VARIANTS[classes[i]]:
                if v != texts[i] and len(v) == len(texts[i]):
                    yield a, F.join(texts[:i] + [v] + texts[i + 1:])
                    break
            if i + 1 < n and texts[i] != texts[i + 1]:
                yield a, F.join(texts[:i] + [texts[i + 1], texts[i]] + texts[i + 2:])
            for c in ("UNK", "PRP", "RT", "LLD"):
                v = F.VARIANTS[c][i % len(F.VARIANTS[c])]
                if len(v) == len(texts[i]) and c != classes[i]:
                    yield a, F.join(texts[:i] + [v] + texts[i + 1:])
        t = a[:-1] + ("X" if a[-1] != "X" else "Y")
        yield a, t
        yield a, a + "X"
        yield a, a.replace("N0451F350", "N0452F350", 1)
        yield a, " " + a
        yield a, a + "  "


def then(a, b):
    """In a process of its own: a, then b with the same parser and tokenizer, then a again; then with new ones."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    o1, k1 = outcome(a, parser, tokenizer)
    o2, k2 = outcome(b, parser, tokenizer)
    o3 = view(*k1)
    o4 = outcome(a)[0]
    o5 = outcome(b)[0]
    return [repr(x) for x in (o1, o2, o3, o4, o5, view(*k2))]


def j20_alike(item, st):
    a, b = item
    ra, rb = in_child(alone, a), in_child(alone, b)
    for x, y in ((a, b), (b, a)):
        rx, ry = (ra, rb) if x == a else (rb, ra)
        got = in_child(then, x, y)
        for k, (g, e, f) in enumerate(zip(got, (rx, ry, rx, rx, ry, ry), (x, y, x, x, y, y))):
            if g != e:
                raise Violation("outcome of %r (step %d of parsing %r and %r in turn) differs from its outcome on its own" % (f, k, x, y),
                                expected=e, got=g)
        st.transition(x, "then", y)


def after_all(b):
    """In a process of its own: b after each of the fields in which everything happens, with one parser and tokenizer."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    got = []
    for w in F.everything():
        outcome(F.field(w), parser, tokenizer)
        got.append(repr(outcome(b, parser, tokenizer)[0]))
    got.append(repr(outcome(b)[0]))
    return got


def j20_after_all(b, st):
    ref = in_child(alone, b)
    for k, got in enumerate(in_child(after_all, b)):
        if got != ref:
            raise Violation("outcome of %r after a field in which everything happens (number %d) differs from its outcome on its own" % (b, k),
                            expected=ref, got=got)
    st.state(("after", len(b)))


def owned(a, b):
    """In a process of its own: the owner of the very first results changes them, and of those after."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    got = []
    for x, y in ((a, b), (b, a), (a, a)):
        _, (v, ers, tokens) = outcome(x, parser, tokenizer)
        fill(ers)
        mess(tokens)
        got.append((y, repr(outcome(y, parser, tokenizer)[0])))
        got.append((y, repr(outcome(y)[0])))
    return got


def j20_owned(item, st):
    a, b = item
    ref = {a: in_child(alone, a), b: in_child(alone, b)}
    for k, (f, got) in enumerate(in_child(owned, a, b)):
        if got != ref[f]:
            raise Violation("outcome of %r (step %d) after the owner of the results of %r and %r before changed them differs from its outcome "
                            "on its own" % (f, k, a, b), expected=ref[f], got=got)
    st.transition(a, "changed, then", b)


def brief(v, ers):
    return repr(impl.snapshot(v, ers))


def parse_with(field, parser, tokenizer):
    tokenizer.set_string_to_tokenize(field)
    tokenizer.set_whitespace(spec.DELIMS)
    tokenizer.tokenize()
    ers = impl.ExtractedRouteSequence()
    return brief(parser.parse_f15(ers, tokenizer.get_tokens()), ers)


def parse_new(field):
    return parse_with(field, impl.ParseF15(), impl.Tokenize())


def every_pair(b):
    """In a process of its own: b directly after a field ending in each kind of state, each time with a new parser."""
    for p in prefixes("coarse"):
        a = F.field(p)
        parser, tokenizer = impl.ParseF15(), impl.Tokenize()
        parse_with(a, parser, tokenizer)
        yield a, parse_with(b, parser, tokenizer)
        yield a, parse_new(b)


def j20_ends(b, st):
    ref = in_child(parse_new, b)
    bad = in_child(lambda: [x for x in every_pair(b) if x[1] != ref][:1])
    if bad:
        raise Violation("outcome of %r after %r differs from its outcome on its own" % (b, bad[0][0]), expected=ref, got=bad[0][1])
    st.count("pairs of fields", 2 * len(prefixes("coarse")))
    st.state(b)


def sticky(fields):
    """In a process of its own: fields that end in every state, then these, all with one parser and tokenizer."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    for p in prefixes("full"):
        parse_with(F.field(p), parser, tokenizer)
    return [parse_with(f, parser, tokenizer) for f in fields]


def unsticky(fields):
    return [parse_new(f) for f in reversed(fields)][::-1]


def j20_sticky(fields, st):
    for f, a, b in zip(fields, in_child(sticky, fields), in_child(unsticky, fields)):
        if a != b:
            raise Violation("outcome of %r after fields ending in every state differs from its outcome with a new parser" % f, expected=b, got=a)
    st.count("parses after every state", len(fields))
    st.state(fields[0])


def alike_all(fields):
    """In a process of its own: the fields in this order and backwards, the first of them before each, one parser and tokenizer for all."""
    parser, tokenizer = impl.ParseF15(), impl.Tokenize()
    got = []
    for f in fields + fields[::-1]:
        got.append((f, repr(outcome(f, parser, tokenizer)[0])))
        got.append((fields[0], repr(outcome(fields[0], parser, tokenizer)[0])))
    for f in fields:
        got.append((f, repr(outcome(f)[0])))
    return got


def j20_elements(fields, st):
    ref = {f: in_child(alone, f) for f in fields}
    for order in (fields, fields[::-1]):
        for f, got in in_child(alike_all, order):
            if got != ref[f]:
                raise Violation("outcome of %r after fields that differ in one element differs from its outcome on its own" % f, expected=ref[f], got=got)
    for f in fields:
        st.transition(fields[0], "then", f)


def alike_groups():
    for c, bases in F.ALIKE_BASE.items():
        for b in bases:
            for p in F.ALIKE_PLACES[c]:
                yield [p % ((x,) * p.count("%s")) for x in [b] + F.alike(b)]


def state_ends(step):
    out = [F.field(p + (c,)) for p in prefixes("full") for c in F.COARSE]
    for i in range(0, len(out), step):
        yield tuple(out[i:i + step])


SCRIPT = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from mc import checks_hist
sys.stdout.reconfigure(encoding="utf-8", errors="surrogatepass")
for f in eval(sys.stdin.buffer.read().decode("utf-8", "surrogatepass")):
    print(ascii(repr(checks_hist.outcome(f)[0])))
"""


def j20_seed(seed, st):
    """A Python process with another seed for the order of sets, and another environment."""
    fields = [f for f in _REF]
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=impl.REPO)
    if seed % 2:
        env.update(LC_ALL="C", TZ="Asia/Tokyo")
    r = subprocess.run([sys.executable, "-B"] + (["-O"] if seed % 3 == 2 else []) + ["-c", SCRIPT % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
                       input=repr(fields).encode("utf-8", "surrogatepass"), env=env, capture_output=True, cwd="/")
    lines = r.stdout.decode("utf-8", "surrogatepass").splitlines()
    for f, got in zip(fields, lines):
        if got != ascii(_REF[f]):
            raise Violation("outcome of %r depends on the seed of the process" % f, seed=seed, expected=_REF[f], got=got)
    if len(lines) != len(fields):
        raise Violation("parsing %r failed in a process with another seed" % (fields[len(lines)],), error=r.stderr.decode(errors="replace")[-500:])
    st.count("parses in processes with other seeds", len(fields))
    st.state(("seed", seed))


def c20(tier):
    th = tier == "thorough"
    near = pristine(near_fields())
    pristine(FIELDS20)
    after = FIELDS20 + (near if th else near[3::7])
    ops = ops20() + OWNER_OPS

    def hist():
        for k in range(1, 3):
            yield from itertools.product(ops, repeat=k)
        if th:
            yield from itertools.product(ops, repeat=3)
        else:
            few = [("shared", i) for i in range(len(FIELDS20))] + [o for o in ops if o[0] in ("tok", "tokshared")] + ops[-LAST_OPS - len(OWNER_OPS):]
            yield from itertools.product(few, repeat=3)
        special = [("shared", 0), ("shared", 2), ("own", 3), ("shared", 8), ("tok", 2), ("tokshared", 0)] + ops20()[-LAST_OPS:]
        yield from itertools.product(special, repeat=5 if th else 4)

    fams = [
        Family("long fields alike but for one element, in processes that have parsed nothing", long_alike, j20_alike, 64, fresh=True),
        Family("every state after fields in which everything happens", lambda: (
            F.field(p + ((c,) if c else ()), 1) for i, p in enumerate(prefixes("full"))
            for c in ((None, F.CLASSES[i % len(F.CLASSES)]) if not th else (None,) + tuple(F.CLASSES))), j20_after_all, 32, fresh=True),
        Family("every location x class after fields that end in each of %d states" % len(prefixes("coarse")), lambda: (
            F.field(p + c) for p in prefixes("loc") for c in [()] + [(c,) for c in F.CLASSES]), j20_ends, 32, fresh=True),
        Family("every state x class after fields that end in every state", lambda: state_ends(700), j20_sticky, 16, fresh=True),
        Family("results changed by their owner, in processes that have parsed nothing", lambda: (
            (F.field(p), FIELDS20[i % len(FIELDS20)]) for i, p in enumerate(prefixes("full"))), j20_owned, 32, fresh=True),
        Family("fields that differ in one element, in processes that have parsed nothing", alike_groups, j20_elements, 16, fresh=True),
        Family("long histories of different fields", lambda: iter([(n, m) for n in (300, 1500, 5000 if not th else 50000) for m in (0, 1)]),
               j20_distinct, 6, fresh=True),
        Family("processes with other seeds and environments", lambda: iter(range(1, 9 if not th else 65)), j20_seed, 8, fresh=True),
        Family("all histories of operations", hist, j20, 64),
        Family("all pairs of %d fields" % len(near), lambda: ((a, b, (i + j) % 2) for i, a in enumerate(near) for j, b in enumerate(near)),
               j20_pair, 64),
        Family("%d fields after every state of the machine" % len(after), lambda: (
            (F.field(p), b) for p in prefixes("full") for b in after), j20_after, 64),
        Family("every state x classes: the same token list three times", lambda: F.from_states(prefixes("full"), F.CLASSES if th else F.COARSE[::2], 1),
               j20_again, 64),
        Family("all pairs of classes: the same token list three times", lambda: F.words_upto(F.CLASSES, 3 if th else 2, ("SPALT",)), j20_again, 64),
        Family("one of %d fields after each long field" % len(FIELDS20), lambda: (
            (f, FIELDS20[(i + i // len(FIELDS20)) % len(FIELDS20)]) for i, f in enumerate(itertools.islice(F.long_fields(), 0, None, 1 if th else 3))), j20_after),
        Family("one of %d fields after fields of 270 to 2,600 elements, with room to recurse" % len(FIELDS20), lambda: (
            (f, FIELDS20[(i + i // len(FIELDS20)) % len(FIELDS20)]) for i, f in enumerate(F.huge_fields((270, 1030, 2600)))), roomy(j20_after)),
        Family("fields of 270 and 1,030 elements: the same token list three times, with room to recurse", lambda: F.huge_fields((270, 1030)), roomy(j20_again)),
        Family("fields after parses that were given up", lambda: given_up(th), j20_given_up, 32),
        Family("token lists changed by their owner and parsed again", edits, j20_edited, 32),
        Family("long histories", lambda: iter([(n, m, s) for n in (300, 1100 if not th else 20000) for m in (0, 1) for s in (1, 7)]), j20_many, 8),
    ]
    for f in fams:
        if f.name.startswith(("long histories", "processes with", "every state x class after")):
            f.seconds = 300
    return fams, "all histories of up to %d of %d operations (parse with shared or own objects, parse again, report, tokenize, classify), all pairs of " \
        "%d near-alike fields, a field of each kind after every state of the machine, every state of the machine parsed three times from one token list, histories of up to %d parses, and of 5,000 different fields" % (
            3, len(ops), len(near), 20000 if th else 1100)


CHECKS = {"C19": c19, "C20": c20}
