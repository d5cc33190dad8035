"""C04 - C16: properties of the parse outcome.  Every execution of the reference machine within the
bounds is replayed against the implementation and the property's own projection of the outcome compared."""
import itertools
import math
import sys

from . import fields as F
from . import impl, spec
from .engine import Family, Violation

BASE, SUB = impl.BASE, impl.SUB


def run_both(field, st):
    m = spec.parse(field, True)
    st.model(m)
    try:
        v, ers = impl.parse(field)
        return m, v, ers, ers.get_all_elements(), ers.get_all_errors()
    except (Violation, MemoryError):
        raise
    except Exception as e:                                           # noqa: BLE001
        if type(e).__name__ == "TooSlow":
            raise
        raise Violation("parsing raised %s: %s" % (type(e).__name__, e)) from e


def differ(what, exp, got):
    """Raise on the first position at which two lists differ."""
    for i, (a, b) in enumerate(itertools.zip_longest(exp, got, fillvalue="<nothing>")):
        if a != b:
            raise Violation("%s: at place %d expected %r, got %r" % (what, i, a, b), expected=exp, got=got)


def near(got, exact, tol=0.5 + 1e-6):
    return isinstance(got, (int, float)) and abs(got - exact) <= tol


# -- families shared by the properties of the whole grammar --------------------------------------

_PREF = {}


def prefixes(kind):
    if kind not in _PREF:
        key = {"full": lambda a: a,
               "mid": lambda a: a and (a[0], a[1], a[2], a[3], a[4], a[5], a[7]),
               "coarse": lambda a: a and (a[0], a[1], a[2], a[5]),
               "loc": lambda a: a and (a[0], a[4], a[5])}[kind]
        _PREF[kind] = F.access_prefixes(F.CLASSES, 9, key)
    return _PREF[kind]


ALLC = F.CLASSES + F.WRONG


def roomy(judge):
    """Judge with room to recurse, so that fields longer than the interpreter's limit allows by default (the known finding of
    C04, which judges that) show what they are parsed to."""
    def j(field, st):
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)
        try:
            judge(field, st)
        except RecursionError:
            st.count("fields beyond any recursion limit")
        except Violation as v:
            if not isinstance(v.__cause__, RecursionError):
                raise
            st.count("fields beyond any recursion limit")
        finally:
            sys.setrecursionlimit(old)
    return j


def core(judge, tier, depth4=True):
    """The bounded exhaustive core: every element sequence up to a depth, every abstract state of the
    machine followed by every continuation, and long histories of grammar segments."""
    full, mid, coarse, loc = (prefixes(k) for k in ("full", "mid", "coarse", "loc"))
    fams = [
        Family("all sequences of <= 2 element classes from any first class",
               lambda: F.words_upto(ALLC, 3), judge),
        Family("speed/VFR . all sequences of <= 3 classes",
               lambda: F.words_upto(F.CLASSES, 3, ("SPV",), 2), judge),
        Family("every abstract state x every class", lambda: F.from_states(full, ALLC, 1), judge),
        Family("every abstract state x every class, in other texts",
               lambda: F.turned_states(full, ALLC, (1, 2, 3)), judge),
        Family("every abstract state x COARSE^2" if depth4 else "abstract states x COARSE^2",
               lambda: F.from_states(full if depth4 else mid, F.COARSE, 2), judge),
        Family("locations x COARSE^3", lambda: F.from_states(loc, F.COARSE, 3), judge),
        Family("histories of 3 of %d grammar segments" % len(F.SEGS_MORE),
               lambda: F.segments_upto(F.SEGS_MORE, 3, ("SPALT",)), judge),
        Family("histories of 4 of %d grammar segments" % len(F.SEGS_FEW),
               lambda: F.segments(F.SEGS_FEW, 4, ("SPALT",)), judge),
        Family("histories of 2 grammar segments after speed/VFR",
               lambda: F.segments_upto(F.SEGS, 2, ("SPV", "UNK", "IFR", "PRP", "SL", "SPALT")), judge),
        Family("locations x every class after histories of everything", lambda: F.after_everything(coarse, ALLC, 1), judge),
        Family("locations x COARSE^2 after a history of everything", lambda: F.after_everything(loc, F.COARSE, 2, (3,)), judge),
        Family("characters and expressions without a meaning, in every place", F.odd_fields, judge),
        Family("pairs of punctuation characters", F.odd_pairs, judge),
        Family("characters taken for a letter, digit or blank by some conversion", F.confusable_fields, judge),
        Family("long fields and what follows them", F.long_fields, judge),
        Family("shapes and limits of every class in %d places" % len(F.SHAPE_PLACES), F.shape_fields, judge),
        Family("elements of 22 to 5,003 characters, and wide white space, in %d places" % len(F.SHAPE_PLACES), F.wide_fields, judge),
        Family("sequences of identical texts", lambda: F.same_text_words(4), judge),
        Family("two elements that are alike, in the same place", F.alike_fields, judge),
        Family("fields of 270 to 2,600 elements, with room to recurse", F.huge_fields, roomy(judge)),
    ]
    if tier == "thorough":
        fams += [
            Family("speed/level . all sequences of 4 classes",
                   lambda: F.words(F.CLASSES, 4, ("SPALT",)), judge, shards=64),
            Family("abstract states x all classes^2", lambda: F.from_states(full, F.CLASSES, 2), judge, 64),
            Family("coarse states x COARSE^3", lambda: F.from_states(coarse, F.COARSE, 3), judge, 64),
            Family("histories of 4 grammar segments",
                   lambda: F.segments(F.SEGS, 4, ("SPALT",)), judge, 64),
            Family("speed/VFR . COARSE^4", lambda: F.words(F.COARSE, 4, ("SPV",)), judge, 64),
            Family("speed/level . COARSE^5", lambda: F.words(F.COARSE, 5, ("SPALT",)), judge, 64),
        ]
    return fams


CORE_BOUNDS = ("29 element classes (several texts each, chosen by place): all sequences of up to 3 classes from "
               "any first class; every abstract state of the machine (2,059 states: location, last record's "
               "type/rules/coordinates, ...) followed by every class in four choices of texts, 505 states (all 2,059 in C04, C07, "
               "C08) by every pair and 53 locations by every triple of 21 coarse classes; all histories of up to 3 of 55 and "
               "of 4 of 16 multi element segments; "
               "all characters U+0020-U+017E and 90 regular expression, format, markup and number expressions in 18 "
               "places; all pairs of ASCII punctuation; every segment and class repeated to 7-100 elements and followed by every class; "
               "about 800 shapes and limit values of all classes in 24 places; all sequences of up to 4 of 11 identical texts; 166 locations x every "
               "class after 6 histories (50-93 elements) in which every handler, element kind and error has occurred, 53 x every coarse pair after "
               "one; 3,619 characters beyond Latin-1 that a conversion or character class takes for letters, digits or blanks, in 17 places")


# -- C04 ------------------------------------------------------------------------------------------

CHARS = ["A", "T", "C", "9", "/", " ", "\n", "!", "<", "é"]


def j04(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    n = ers.get_number_of_errors()
    if n != len(errs):
        raise Violation("error count %r but %d errors listed" % (n, len(errs)))
    if bool(v) != (n == 0):
        raise Violation("verdict %r with %d errors" % (v, n), errors=[e.get_error_text() for e in errs])
    if len(recs) < 2:
        raise Violation("fewer than two records")
    if not m.toks and (n != 1 or "empty" not in errs[0].get_error_text()):
        raise Violation("an empty field is not reported as empty")
    if m.toks and any("is empty" in e.get_error_text() for e in errs):
        raise Violation("a field with elements is reported as empty")


SAFE_TOKENS = 150       # elements for which termination without exhausting the interpreter is demanded
KNOWN_LONG = "parsing raises RecursionError for fields of about 330 elements or more " \
             "(e.g. N0450F350 followed by 2000 points)"


def j04_long(item, st):
    seg, count, known = item
    texts = ["N0450F350"]
    while len(texts) < count:
        texts += F.realise(seg)
    field = F.join(texts)
    try:
        v, ers = impl.parse(field)
    except RecursionError:
        if known:
            st.findings.add(KNOWN_LONG)
            return
        raise Violation("RecursionError for a field of %d elements" % len(texts))
    except Exception as e:                                           # noqa: BLE001
        if type(e).__name__ == "TooSlow":
            raise
        raise Violation("parsing raised %s: %s" % (type(e).__name__, e)) from e
    m = spec.parse(field, True)
    st.model(m)
    if bool(v) != (ers.get_number_of_errors() == 0) or ers.get_number_of_errors() != len(m.errs):
        raise Violation("verdict %r, %d errors, expected %d" % (v, ers.get_number_of_errors(), len(m.errs)))
    if len(ers.get_all_elements()) != len(m.recs):
        raise Violation("%d records, expected %d" % (len(ers.get_all_elements()), len(m.recs)))


def c04(tier):
    k = 7 if tier == "thorough" else 5

    def strings(n, pre=""):
        for j in range(n + 1):
            for w in itertools.product(CHARS, repeat=j):
                yield pre + "".join(w)

    def huge():
        for n in (26, 27, 60, 100, 255, 256, 257, 1000, 20000):
            for u in ("A", "9", "A9", "ABC12D", "N0450F350", "10N020E", "STAY1", "VFR", "\\", "(a+)+", "<", "\u0663", "a", "A1B", "NAT", "M082", "0130"):
                t = (u * n)[:n]
                for x in (t, t + "!", "!" + t):
                    for c in ("%s", "N0450F350 %s", "N0450F350 ABC %s DEF", "N0450F350 ABC VFR %s IFR %s ABC/N0450F350", "N0450F350 ABC/%s"):
                        yield c.replace("%s", x)
        for n in (100, 5000, 100000):
            for w in (" ", "\n", "\t \r\n"):
                yield w * n
                yield w * n + "N0450F350" + w * n + "ABC" + w * n
                yield w * n + "ABC"

    long_segs = [s for s in F.SEGS] + [(c,) for c in F.CLASSES]
    vfr = [("PRP", "VFR")]

    def longs():
        for seg in long_segs:
            for n in (40, 80, 120, SAFE_TOKENS):
                yield seg, n, False
            yield seg, 2000, True

    odd = ["ODD", "PRP", "SL", "VFR", "IFR", "UNK", "SPALT", "TL"]
    fams = core(j04, tier) + [
        Family("all texts over %d characters up to length %d" % (len(CHARS), k),
               lambda: strings(k), j04),
        Family("speed/level and all texts up to length %d after it" % (k - 1),
               lambda: strings(k - 1, "N0450F350 "), j04),
        Family("odd characters inside elements", lambda: F.words_upto(odd, 4, ("SPALT",)), j04),
        Family("odd characters after a break", lambda: F.words_upto(odd, 3, ("SPALT", "PRP", "VFR")), j04),
        Family("long fields", longs, j04_long),
        Family("very long elements and white space", huge, j04),
        Family("every character of the basic plane", F.char_fields, j04),
    ]
    return fams, CORE_BOUNDS + "; all texts of up to %d characters over %d characters; fields of up to %d elements " \
        "for every class and segment (2,000 elements: only RecursionError is tolerated, as the known finding)" \
        % (k, len(CHARS), SAFE_TOKENS)


# -- C05 ------------------------------------------------------------------------------------------

def j05(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    if len(recs) < 2:
        raise Violation("no departure and destination")
    for which, r, e in (("departure", recs[0], m.recs[0]), ("destination", recs[-1], m.recs[-1])):
        got = (r.get_name(), r.get_start_index(), r.get_end_index(), BASE.get(r.get_base_type()),
               SUB.get(r.get_sub_type()), r.get_speed(), r.get_altitude(), r.get_flight_rules(),
               r.get_break_text(), bool(r.is_lat_long_valid()))
        exp = (e.name, 0, 0, "POINT", "PRP_AERO", e.speed, e.alt, e.rules, "", False)
        if got != exp:
            raise Violation("%s is %r, expected %r" % (which, got, exp))
        if not near(r.get_speed_si(), e.speed_si, 1) or not near(r.get_altitude_si(), e.alt_si, 1):
            raise Violation("%s SI values %r %r, expected %r %r" % (
                which, r.get_speed_si(), r.get_altitude_si(), e.speed_si, e.alt_si))
    for r in recs[1:-1]:
        if r.get_end_index() <= r.get_start_index():
            raise Violation("a placeholder record inside the route: %r" % r.get_name())


def first_values():
    for sp in ("N0%03d", "K1%03d", "M%03d"):
        for lv in ("F%03d", "A%03d", "S0%03d", "M1%03d"):
            for a in range(0, 1000, 37):
                for b in (0, 5, 50, 245, 360, 361, 995):
                    yield (sp % a) + (lv % b)
        for a in range(0, 1000, 9):
            yield (sp % a) + "VFR"


def c05(tier):
    tails = ["", " ABC", " ABCD B9 DEF", "/", " VFR", " C/", " 10N020E STAY1/", " ADEP ADES", " ADES", " 6B6B"]
    fams = core(j05, tier, depth4=False) + [
        Family("values of the first element x endings", lambda: (a + t for a in first_values() for t in tails), j05),
        Family("routes naming ADEP/ADES themselves", lambda: (
            " ".join(("N0450F350",) + w) for k in range(5) for w in itertools.product(
                ("ADEP", "ADES", "ABC", "B9", "VFR", "IFR"), repeat=k)), j05),
        Family("blank fields", lambda: ("".join(w) for k in range(6) for w in itertools.product(
            " \n\t\r", repeat=k)), j05),
        Family("rule changes before the end", lambda: F.segments_upto(
            RULE_SEGS, 4 if tier == "thorough" else 3, ("SPALT",)), j05),
    ]
    return fams, CORE_BOUNDS + "; first elements of all units over a grid of values with 10 endings"


RULE_SEGS = [
    ("PRP",), ("RT", "PRP"), ("UNK",), ("IFR",), ("GAT",), ("C",),
    ("PRP", "VFR"), ("PRP", "OAT"), ("PRP", "STOP"), ("PRP", "SL", "SPV"), ("SPV",),
    ("VFR",), ("OAT",), ("STOP",),
    ("IFR", "PRP", "SL", "SPALT"), ("IFR", "PRP", "SL", "SPV"), ("GAT", "PRP"), ("START", "PRP"),
    ("PRP", "SL", "SPALT"), ("DCT",), ("SAA",), ("PRP", "STAY", "SL", "ST"), ("T",),
]


# -- C06 ------------------------------------------------------------------------------------------

def j06(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    spans = {(s, e): t for t, s, e in m.toks}
    last = 0
    for r in recs[1:-1]:
        s, e = r.get_start_index(), r.get_end_index()
        t = spans.get((s, e))
        if t is None:
            raise Violation("record %r at %r-%r: not the place of an element" % (r.get_name(), s, e))
        if s < last:
            raise Violation("record %r at %d overlaps or precedes the one before" % (r.get_name(), s))
        last = e
        if t != r.get_name() and not (r.get_name() == "VFR" and spec.classify(t)[0] == "SPEED_VFR"):
            raise Violation("record %r points at %r" % (r.get_name(), t))
    exp = [(r.name, r.start, r.end) for r in m.recs[1:-1]]
    got = [(r.get_name(), r.get_start_index(), r.get_end_index()) for r in recs[1:-1]]
    if [x[0] for x in exp] == [x[0] for x in got]:
        differ("source position of records", exp, got)
    last = 0
    for r in errs:
        s, e = r.get_start_index(), r.get_end_index()
        if not m.toks:
            if (s, e) != (0, 0):
                raise Violation("the error of a field without elements is at %r-%r" % (s, e))
            continue
        if spans.get((s, e)) != r.get_name():
            raise Violation("error at %r-%r names %r but the source has %r" % (s, e, r.get_name(), spans.get((s, e))))
        if s < last:
            raise Violation("error positions go backwards at %d" % s)
        last = s
    exp = [(r[1], r[2], r[3]) for r in m.errs]
    got = [(r.get_name(), r.get_start_index(), r.get_end_index()) for r in errs]
    if m.toks and [x[0] for x in exp] == [x[0] for x in got]:
        differ("source position of errors", exp, got)


SEPS = [" ", "\n", "\t", "\r\n", "  ", " \t "]


def layouts(seqs, seps, lead=("", " ", "\n\t ")):
    """Every sequence in every combination of separators (and leading white space)."""
    for texts in seqs:
        gaps = []
        for a, b in zip(texts, texts[1:]):
            gaps.append(("", " ", "\n") if "/" in (a, b) else seps)
        for ld in lead:
            for g in itertools.product(*gaps):
                s = [ld]
                for t, x in zip(texts, g + (("" if ld == "" else ld),)):
                    s.append(t)
                    s.append(x)
                yield "".join(s)


LAYOUT_SEQS = [
    ("SPALT", "PRP", "RT", "PRP"), ("SPALT", "SS", "PRP", "DCT", "LLD"), ("SPALT", "PRP", "SL", "SPALT", "PRP"),
    ("SPALT", "PRP", "VFR", "UNK", "IFR", "PRP", "SL", "SPALT"), ("SPV", "PRP", "IFR", "PRP", "SL", "SPALT"),
    ("SPALT", "C", "SL", "PRP", "SL", "SAA"), ("SPALT", "PRP", "STAY", "SL", "ST"), ("SPALT", "PRP", "SL", "SPV"),
    ("UNK", "UNK", "PRP"), ("SPALT", "SL", "SL"), ("SPALT", "PRP", "OAT", "SL", "GAT", "PRP"),
    ("SPALT", "PRP", "T", "PRP"), ("SPALT", "TL", "PRP", "STAR"), ("SPALT", "LLBD", "LLD!"), ("SPALT", "C", "SL"),
    ("SPALT", "PRP", "SL"), ("SPALT",), ("PRP",), ("SL",),
]


def wide_layouts():
    for n in list(range(1, 34)) + [63, 64, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 9999, 65536, 100001]:
        for w in (" ", "\n", "\t", "\r\n"):
            for q in LAYOUT_SEQS[::2] if n < 100 else LAYOUT_SEQS[:6]:
                t = F.realise(q)
                yield w * n + F.join(t)
                yield (w * n).join(t)
                yield t[0] + w * n + F.join(t[1:]) + w * n


def c06(tier):
    k = 5 if tier == "thorough" else 4
    fams = core(j06, tier, depth4=False) + [
        Family("repeated identical texts, <= %d elements" % k, lambda: F.same_text_words(k), j06),
        Family("wide white space", wide_layouts, j06),
        Family("all layouts of %d element sequences" % len(LAYOUT_SEQS),
               lambda: layouts([F.realise(s) for s in LAYOUT_SEQS], SEPS if tier == "thorough" else SEPS[:5]), j06),
    ]
    return fams, CORE_BOUNDS + "; all sequences of <= %d elements over 11 identical texts; all separator layouts of %d sequences" % (k, len(LAYOUT_SEQS))


# -- C07 ------------------------------------------------------------------------------------------

def j07(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [(spec.message(n, t), t, b, s) for n, t, _, _, b, s in m.errs]
    got = [(e.get_error_text(), e.get_name(), BASE.get(e.get_base_type()), SUB.get(e.get_sub_type())) for e in errs]
    differ("errors", exp, got)
    if bool(v) != (not exp):
        raise Violation("verdict %r although %d errors are due" % (v, len(exp)))


def c07(tier):
    # every class with every text variant in every location
    def all_variants():
        for p in prefixes("loc"):
            pre = F.realise(p)
            for c in F.VARIANTS:
                for t in F.VARIANTS[c]:
                    yield F.join(pre + [t])
                    for nxt in ("ABC", "/", "N0450F350"):
                        yield F.join(pre + [t, nxt])

    fams = core(j07, tier) + [
        Family("every text variant in every location", all_variants, j07),
        Family("flight levels", lambda: ("N0450F%03d ABC/N0450F%03d C/ABC/N0450F%03dF%03d" % (
            a, (a * 7) % 1000, (a * 3) % 1000, (a * 11) % 1000) for a in range(1000)), j07),
        Family("cruise climb", lambda: F.words_upto(
            ["C", "SL", "PRP", "LLD", "SAA", "SAA!", "PLUS", "SPALT", "UNK"], 6 if tier == "thorough" else 5,
            ("SPALT", "PRP")), j07),
        Family("stay", lambda: F.words_upto(["STAY", "SL", "ST", "PRP", "UNK", "VFR", "C", "RT", "SPALT"],
                                            6 if tier == "thorough" else 5, ("SPALT", "PRP")), j07),
        Family("rule changes", lambda: F.segments_upto(RULE_SEGS, 3, ("SPALT",)), j07),
        Family("geography", lambda: F.words_upto(["PRP", "LLD", "LLM!", "BD", "RT", "DCT", "SS", "SL", "STAY", "ST"],
                                                 4, ("SPALT",)), j07),
    ]
    return fams, CORE_BOUNDS + "; every text variant of every class in every location; all 1,000 flight levels; " \
        "specialised alphabets for cruise climb, STAY, rule changes and coordinates"


# -- C08 ------------------------------------------------------------------------------------------

def j08(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [(r.name, r.base, r.sub) for r in m.recs]
    got = [(r.get_name(), BASE.get(r.get_base_type()), SUB.get(r.get_sub_type())) for r in recs]
    differ("extracted records", exp, got)
    if ers.get_number_of_elements() != len(recs):
        raise Violation("record count %r for %d records" % (ers.get_number_of_elements(), len(recs)))


def c08(tier):
    def all_variants():
        for p in prefixes("loc"):
            pre = F.realise(p)
            for c in F.VARIANTS:
                for t in F.VARIANTS[c]:
                    yield F.join(pre + [t])
                    yield F.join(pre + [t, "ZZ", "Z9", "ZZZ"])

    fams = core(j08, tier) + [
        Family("every text variant in every location", all_variants, j08),
        Family("recovery", lambda: F.words_upto(["UNK", "PRP", "RT", "SL", "IFR", "DCT", "C", "SPALT", "VFR", "STAR"],
                                                6 if tier == "thorough" else 5, ("SPALT",)), j08),
        Family("error, then grammar segments", lambda: (
            x for e in ("UNK", "SL", "TL", "SAA", "ST") for x in F.segments_upto(F.SEGS, 2, ("SPALT", "PRP", e))), j08),
        Family("long fields", lambda: (
            F.join(F.realise(("SPALT",) + s * n)) for s in F.SEGS for n in (5, 10, 20)), j08),
    ]
    return fams, CORE_BOUNDS + "; specialised alphabet for recovery to depth %d" % (6 if tier == "thorough" else 5)


# -- C09 ------------------------------------------------------------------------------------------

def j09(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [(r.name, r.speed, r.alt, r.cruise) for r in m.recs]
    got = [(r.get_name(), r.get_speed(), r.get_altitude(), r.get_altitude_cruise_to()) for r in recs]
    differ("speed, level and cruise target", exp, got)
    for r, e in zip(recs, m.recs):
        if r.get_speed_si() != e.speed_si or r.get_altitude_si() != e.alt_si or \
                r.get_altitude_cruise_to_si() != e.cruise_si:
            if near(r.get_speed_si(), e.speed_si, 1) and near(r.get_altitude_si(), e.alt_si, 1) and \
                    near(r.get_altitude_cruise_to_si(), e.cruise_si, 1):
                continue        # rounding is the subject of C10
            raise Violation("SI values at %r: %r, expected %r" % (
                e.name, (r.get_speed_si(), r.get_altitude_si(), r.get_altitude_cruise_to_si()),
                (e.speed_si, e.alt_si, e.cruise_si)))


MOD_SEGS = [("PRP",), ("PRP", "SL", "SPALT"), ("PRP", "SL", "SPV"), ("C", "SL", "PRP", "SL", "SAA"),
            ("C", "SL", "PRP", "SL", "PLUS"), ("RT",), ("DCT",), ("IFR", "PRP", "SL", "SPALT"),
            ("IFR", "PRP", "SL", "SPV"), ("PRP", "OAT"), ("GAT", "PRP"), ("PRP", "VFR"), ("UNK",), ("SPALT",),
            ("SPV",), ("SL", "SAA"), ("PRP", "STAY", "SL", "ST"), ("C",), ("LLD",), ("STAR",)]


def unit_pairs():
    """Every form of modifier followed by every other form, in every kind of place."""
    forms = []
    for s in ("N0311", "K0622", "M079"):
        forms.append(s + "VFR")
        for lv in ("F130", "S0440", "A055", "M0660"):
            forms.append(s + lv)
            forms.append(s + lv + "PLUS")
            for l2 in ("F190", "S0700", "A085", "M0910"):
                forms.append(s + lv + l2)

    def place(f, i):
        if f.endswith("VFR"):
            return ["ABC%s" % "XYZ"[i], "/", f, "IFR", "DE"]
        k = spec.classify(f)[0]
        if k == "SPEED_ALTITUDE":
            return ["ABC%s" % "XYZ"[i], "/", f, "B%d" % i, "DE"]
        return ["C", "/", "ABC%s" % "XYZ"[i], "/", f, "FG"]

    for a in forms:
        for b in forms:
            yield F.join(["N0100F010"] + place(a, 0) + place(b, 1) + ["UL1", "XY"])
            if a.endswith("VFR"):
                yield F.join(["N0100F010"] + place(a, 0)[:4] + place(b, 1) + ["UL1", "XY"])
    for a in forms:
        for b in forms:
            yield F.join([a, "ABC", "6B6B", b, "DEF", "DCT", "GH"])


def c09(tier):
    fams = core(j09, tier, depth4=False) + [
        Family("histories of modifier segments", lambda: F.segments_upto(
            MOD_SEGS, 5 if tier == "thorough" else 4, ("SPALT",)), j09),
        Family("histories of modifier segments after speed/VFR", lambda: F.segments_upto(
            MOD_SEGS, 4 if tier == "thorough" else 3, ("SPV",)), j09),
        Family("all pairs of modifier forms", unit_pairs, j09),
    ]
    return fams, CORE_BOUNDS + "; all histories of up to %d of 20 modifier segments; all pairs of the 75 modifier forms" % (
        5 if tier == "thorough" else 4)


# -- C10 ------------------------------------------------------------------------------------------

LEVEL_FORMS = (("F", 3), ("A", 3), ("S", 4), ("M", 4))
SPEED_FORMS = (("N", 4), ("K", 4), ("M", 3))


def nums(letter, digits, step=1):
    return ("%s%0*d" % (letter, digits, i) for i in range(0, 10 ** digits, step))


CTX = ["%s ABC", "N0111F110 ABC/%s DEF", "N0111F110 ABC VFR IFR DEF/%s", "N0111F110 6B6B %s"]


def expect_si(item):
    """(field, record index, speed, level, cruise)"""
    return item


def j10(item, st):
    field, idx, sp, lv, cr = item
    try:
        v, ers = impl.parse(field)
        r = ers.get_all_elements()[idx]
    except Exception as e:                                           # noqa: BLE001
        if type(e).__name__ == "TooSlow":
            raise
        raise Violation("parsing raised %s: %s" % (type(e).__name__, e)) from e
    st.transition("value", (field[:1], lv[:1], cr[:1], idx), (sp[:1], lv[:1], cr[:1]))
    if r.get_speed() != sp or r.get_altitude() != lv or r.get_altitude_cruise_to() != cr:
        raise Violation("texts %r, expected %r" % (
            (r.get_speed(), r.get_altitude(), r.get_altitude_cruise_to()), (sp, lv, cr)))
    alt = spec.level_metres(lv)
    got = r.get_altitude_si()
    if not near(got, alt):
        raise Violation("level %s is %r m, expected %r" % (lv, got, alt))
    if got != int(got):
        raise Violation("level not rounded: %r" % got)
    exact = spec.speed_ms(sp, spec.rnd(alt))
    got = r.get_speed_si()
    if not near(got, exact) or got != int(got):
        raise Violation("speed %s at %s is %r m/s, expected %r" % (sp, lv, got, exact))
    if cr and cr != "PLUS":
        got = r.get_altitude_cruise_to_si()
        if not near(got, spec.level_metres(cr)) or got != int(got):
            raise Violation("cruise target %s is %r m, expected %r" % (cr, got, spec.level_metres(cr)))
    elif r.get_altitude_cruise_to_si() != 0:
        raise Violation("cruise target %r m without a cruise level" % r.get_altitude_cruise_to_si())
    bad = sum(1 for x in (lv, cr) if x[:1] == "F" and int(x[1:]) % 5)
    got = sum(1 for e in ers.get_all_errors() if "flight level" in e.get_error_text())
    if got != bad:
        raise Violation("%d flight level errors, expected %d" % (got, bad))


def c10(tier):
    th = tier == "thorough"

    def levels():
        for L, d in LEVEL_FORMS:
            for lv in nums(L, d):
                for S in ("N0480", "K0870", "M082"):
                    for c, ctx in enumerate(CTX):
                        if c in (0, 1) or th:
                            yield ctx % (S + lv), (0, 1, 3, 0)[c], S, lv, ""
                yield CTX[2] % ("N0480" + lv), 3, "N0480", lv, ""

    def speeds():
        for S, d in SPEED_FORMS:
            for sp in nums(S, d):
                for lv in ("F350", "S0110", "A005", "M0840"):
                    yield CTX[0] % (sp + lv), 0, sp, lv, ""
                yield CTX[1] % (sp + "F120"), 1, sp, "F120", ""
                yield "N0111F110 ABC/%sVFR" % sp, 2, sp, "F050", ""
                yield "N0111F110 ABC/%sVFR" % sp, 1, sp, "F050", ""
                yield "N0111F110 QQ C/ABC/%sF120A200" % sp, 2, sp, "F120", "A200"
                yield "N0111F110 QQ C/ABC/%sM0120S0200" % sp, 2, sp, "M0120", "S0200"
                yield "N0111F110 QQ C/ABC/%sS0120PLUS" % sp, 2, sp, "S0120", "PLUS"
                if sp[0] != "M":
                    yield "%sVFR" % sp, 0, sp, "F050", ""

    def cruises():
        for S in ("N0480", "K0870", "M082"):
            for L, d in LEVEL_FORMS:
                first = L + "130"[-d:] if d == 3 else L + "0330"
                for L2, d2 in LEVEL_FORMS:
                    other = L2 + ("250" if d2 == 3 else "0770")
                    for lv in nums(L2, d2):
                        yield "N0111F110 QQ C/ABC/%s DE" % (S + first + lv), 2, S, first, lv
                    for lv in nums(L, d, 1 if th or d == 3 else 7):
                        yield "N0111F110 QQ C/ABC/%s DE" % (S + lv + other), 2, S, lv, other
                for lv in nums(L, d, 1 if th or d == 3 else 3):
                    yield "N0111F110 QQ C/ABC/%s DE" % (S + lv + "PLUS"), 2, S, lv, "PLUS"

    def cruise_pairs():
        for L, d in LEVEL_FORMS:
            for L2, d2 in LEVEL_FORMS:
                for a in range(0, 10 ** d, 10 ** d // 20 + 1):
                    for b in range(0, 10 ** d2, 10 ** d2 // 20 + 1):
                        f, g = "%s%0*d" % (L, d, a), "%s%0*d" % (L2, d2, b)
                        yield "N0111F110 QQ C/ABC/%s%s%s DE" % (("N0480", "K0870", "M082")[(a + b) % 3], f, g), 2, ("N0480", "K0870", "M082")[(a + b) % 3], f, g
                        if L != "F" or a % 5 == 0:
                            yield "N0111%s ABC/N0222%s DE" % (f, g), 2, "N0222", g, ""
        for a in range(0, 1000, 5):
            for b in range(0, 1000, 5 if th else 15):
                yield "N0111F110 QQ C/ABC/N0480F%03dF%03d DE" % (a, b), 2, "N0480", "F%03d" % a, "F%03d" % b
                yield "M082F%03d ABC/M082F%03d DE" % (a, b), 2, "M082", "F%03d" % b, ""
        for L, d in LEVEL_FORMS:
            # the level before, and the same numbers in other units
            for a in range(10 ** min(d, 3)):
                n = "%0*d" % (d, a)
                for L2, d2 in LEVEL_FORMS:
                    m = "%0*d" % (d2, a)
                    yield "N0111F110 QQ C/ABC/N0480%s%s DE" % (L + n, L2 + m), 2, "N0480", L + n, L2 + m
                    if L != "F" or a % 5 == 0:
                        yield "M082%s ABC/M082%s DE" % (L + n, L2 + m), 2, "M082", L2 + m, ""

    edges = ["F000", "A000", "S0000", "M0000", "F001", "A001", "S0001", "M0001", "F360", "F361", "F365", "A360",
             "A361", "S1099", "S1100", "S1101", "M1099", "M1100", "M1101", "F410", "S9999", "M9999", "F999", "A999",
             "F050", "A050", "S0500", "F005", "A005"]

    def machs():
        for sp in nums("M", 3):
            for lv in itertools.chain(edges, nums("F", 3), nums("A", 3, 1 if th else 7), nums("S", 4, 10 if th else 90),
                                      nums("M", 4, 10 if th else 110)):
                yield CTX[0] % (sp + lv), 0, sp, lv, ""

    def utils():
        for a in range(0, 30001, 1 if th else 5):
            yield "sound", float(a), None
        for a in (0, 1, 10, 100, 1524, 5000, 10668, 10999, 11000, 11001, 12000, 20000, 99990):
            for mch in range(0, 1000):
                yield "mach", float(a), mch

    def j_utils(item, st):
        kind, a, mch = item
        U = impl.Utils
        st.state(("utils", kind, a > 11000, a == 0))
        if kind == "sound":
            got, exp = U.speed_of_sound_at_altitude(a), spec.speed_of_sound(a)
        else:
            got = U.mach_to_ms_speed(mch, a)
            exp = mch / 100 * (343.0 if a == 0 else spec.speed_of_sound(a))
        if not near(got, exp, 1e-6 * max(1.0, exp)):
            raise Violation("%s at %r: %r, expected %r" % (kind, a, got, exp))

    fams = [Family("every level value", levels, j10), Family("every speed value", speeds, j10),
            Family("every cruise climb level value", cruises, j10), Family("every Mach number x levels", machs, j10),
            Family("pairs of levels", cruise_pairs, j10),
            Family("speed of sound", utils, j_utils),
            Family("modifier histories", lambda: F.segments_upto(MOD_SEGS, 3, ("SPALT",)), j10_hist)]
    return fams, "all 1,000/10,000 values of each level form with each speed unit in 3 to 4 places, all values of each speed " \
        "form, all second levels and first levels of cruise climbs for all 48 combinations of units, all Mach numbers at " \
        "all flight levels and a grid of levels of the other forms; histories of 3 modifier segments"


def j10_hist(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    for r, e in zip(recs, m.recs):
        if r.get_altitude() == e.alt and e.alt and not near(r.get_altitude_si(), spec.level_metres(e.alt)):
            raise Violation("level %s at %s is %r m" % (e.alt, e.name, r.get_altitude_si()))
        if r.get_speed() == e.speed and r.get_altitude() == e.alt and e.speed and not near(
                r.get_speed_si(), spec.speed_ms(e.speed, e.alt_si)):
            raise Violation("speed %s/%s at %s is %r m/s" % (e.speed, e.alt, e.name, r.get_speed_si()))
        if r.get_altitude_cruise_to() == e.cruise and e.cruise not in ("", "PLUS") and not near(
                r.get_altitude_cruise_to_si(), spec.level_metres(e.cruise)):
            raise Violation("cruise target %s at %s is %r m" % (e.cruise, e.name, r.get_altitude_cruise_to_si()))


# -- C11 ------------------------------------------------------------------------------------------

def j11(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    differ("flight rules", [(r.name, r.rules) for r in m.recs], [(r.get_name(), r.get_flight_rules()) for r in recs])
    if ers.get_derived_flight_rules() != m.derived:
        raise Violation("derived rules %r, expected %r" % (ers.get_derived_flight_rules(), m.derived),
                        rules=[r.rules for r in m.recs])


def c11(tier):
    k = 5 if tier == "thorough" else 4
    fams = core(j11, tier, depth4=False) + [
        Family("histories of rule changes", lambda: F.segments_upto(RULE_SEGS, k, ("SPALT",)), j11),
        Family("histories of rule changes after speed/VFR", lambda: F.segments_upto(RULE_SEGS, k - 1, ("SPV",)), j11),
        Family("histories of rule changes after a wrong start", lambda: F.segments_upto(RULE_SEGS, k - 1, ("UNK",)), j11),
        Family("long alternations", lambda: F.segments(
            [("PRP", "VFR", "IFR", "PRP", "SL", "SPALT"), ("PRP", "OAT", "GAT", "PRP"), ("PRP", "STOP", "START", "PRP"),
             ("PRP", "SL", "SPV", "IFR", "PRP", "SL", "SPV", "IFR", "PRP", "SL", "SPALT")], 6, ("SPALT",)), j11),
    ]
    return fams, CORE_BOUNDS + "; all histories of up to %d of 23 rule change segments" % k


# -- C12 ------------------------------------------------------------------------------------------

def j12(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [(r.name, r.text) for r in m.recs]
    got = [(r.get_name(), r.get_break_text()) for r in recs]
    differ("records and break text", exp, got)
    exp = [t for n, t, *_ in m.errs if n == 22]
    got = [e.get_name() for e in errs if "to complete rule change to IFR" in e.get_error_text()]
    differ("incomplete rule changes", exp, got)
    if any(r.get_break_text() for r in errs):
        raise Violation("an error record has break text")


BREAK_ALPHA = ["IFR", "GAT", "START", "VFR", "PRP", "LLD", "SL", "SPALT", "SPV", "UNK", "TL", "OAT", "C"]
STARTS = [("SPALT", "PRP", "VFR"), ("SPALT", "PRP", "OAT"), ("SPALT", "PRP", "STOP"), ("SPV",),
          ("SPALT", "PRP", "SL", "SPV"), ("SPALT", "UNK", "VFR"), ("SPALT", "PRP", "STAY", "SL", "ST", "OAT")]


def c12(tier):
    th = tier == "thorough"
    k = 6 if th else 4
    segs = [("PRP", "VFR"), ("PRP", "OAT"), ("PRP", "STOP"), ("PRP", "SL", "SPV"), ("IFR", "PRP", "SL", "SPALT"),
            ("IFR", "LLD", "SL", "SPV"), ("GAT", "PRP"), ("START", "LLD"), ("IFR",), ("IFR", "PRP"), ("GAT",),
            ("IFR", "PRP", "SL"), ("IFR", "PRP", "SL", "SAA"), ("UNK",), ("RT",), ("TL",), ("SL",), ("C",), ("PRP",),
            ("ODD",), ("SPALT",)]
    fams = [Family("text after %s: %d^%d" % (" ".join(s), len(BREAK_ALPHA), k),
                   (lambda s: lambda: F.words_upto(BREAK_ALPHA, k, s))(s), j12) for s in STARTS]
    fams += [Family("all classes after %s" % " ".join(s), (lambda s: lambda: F.words_upto(
        F.CLASSES, 3, s))(s), j12) for s in STARTS[:4]]
    fams += [Family("true and false ends: %d segments" % (5 if th else 4),
                    lambda: F.segments_upto(segs, 5 if th else 4, ("SPALT",)), j12),
             Family("IFR . 6 elements", lambda: F.words(["IFR", "PRP", "SL", "SPALT", "SPV", "UNK"], 7 if th else 6,
                                                        ("SPALT", "PRP", "VFR")), j12),
             Family("long texts", lambda: (F.join(F.realise(s + (a,) * n + (b,) * n + e)) for s in STARTS for a in
                                           ("UNK", "RT", "PRP", "SL", "TL", "ODD") for b in ("IFR", "GAT", "START", "VFR", "ST")
                                           for n in (1, 5, 12, 25) for e in ((), ("IFR", "PRP", "SL", "SPALT", "PRP"),
                                                                             ("GAT", "PRP"), ("START", "PRP"))), j12),
             ] + core(j12, "quick", depth4=False)
    return fams, "after 7 ways to start a break: all texts of up to %d elements over 13 classes, all texts of up to 3 over 29 " \
        "classes; all histories of up to %d of 21 segments with true and false ends; texts of up to 50 elements" % (
            k, 5 if th else 4)


# -- C13 ------------------------------------------------------------------------------------------

GEO_MSG = {n: spec.MESSAGES[n].split("'")[0] for n in (42, 43, 44, 45, 46)}


def j13(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [r.name for r in m.recs]
    got = [r.get_name() for r in recs]
    if exp != got:
        differ("records", exp, got)
    for r, e in zip(recs, m.recs):
        if bool(r.is_lat_long_valid()) != e.ll:
            raise Violation("%r is %smarked as located" % (e.name, "" if r.is_lat_long_valid() else "not "))
        if e.ll and e.ok_ll:
            if not near(r.get_latitude(), e.lat, 1e-9) or not (
                    near(r.get_longitude(), e.lon, 1e-9) or abs(abs(r.get_longitude() - e.lon) - 360) < 1e-9):
                raise Violation("%r is at %r %r, expected %r %r" % (e.name, r.get_latitude(), r.get_longitude(), e.lat, e.lon))
        elif not e.ll and (r.get_latitude() != 0 or r.get_longitude() != 0):
            raise Violation("%r has coordinates %r %r" % (e.name, r.get_latitude(), r.get_longitude()))
    exp = [(n, t) for n, t, *_ in m.errs if n in GEO_MSG]
    got = []
    for e in errs:
        for n, s in GEO_MSG.items():
            if e.get_error_text().startswith(s):
                got.append((n, e.get_name()))
    differ("coordinate errors", exp, got)


GEO_CTX = ["N0450F350 %s", "N0450F350 ABC DCT %s ABC", "N0450F350 ABC VFR IFR %s/N0450F350",
           "N0450F350 ABC VFR IFR %s/N0450VFR", "N0450F350 C/%s/N0450F350F370", "N0450F350 ABC C/%s/N0450F350F370", "N0450F350 ABC B9 %s",
           "N0450F350 6B6B %s", "N0450F350 6B6B/%s", "N0450F350 ABC OAT GAT %s", "N0450F350 C %s",
           "N0450F350 ABC STAY1/0010 %s", "N0450F350 ABC/N0450F350 %s", "N0450F350 10N010E %s", "N0450VFR IFR %s/N0450F350",
           "N0450F350 ABC1D %s", "N0450F350 6B6B GAT %s", "N0450F350 ABC IFPSTOP IFPSTART %s", "%s"]


def c13(tier):
    th = tier == "thorough"

    def deg():
        for ns in "NS":
            for ew in "EW":
                for la in range(100):
                    for lo in range(1000):
                        yield GEO_CTX[0] % ("%02d%s%03d%s" % (la, ns, lo, ew))

    def minutes():
        for ns in "NS":
            for la in range(10000):
                for lo in ("00000E", "18000W") if not th else ("00000E", "18000W", "17959E", "09030W", "18001E"):
                    yield GEO_CTX[0] % ("%04d%s%s" % (la, ns, lo))
        for ew in "EW":
            for lo in range(100000):
                yield GEO_CTX[0] % ("4530N%05d%s" % (lo, ew))
                if lo < 18200 or th:
                    yield GEO_CTX[1] % ("0059S%05d%s" % (lo, ew))
        for la in (0, 59, 60, 99, 100, 159, 160, 8959, 8960, 9000, 9001, 9059, 9100, 9999):
            for lo in (0, 59, 60, 99, 100, 17959, 17960, 18000, 18001, 18059, 18100, 99999, 9000, 12345):
                for ns in "NS":
                    for ew in "EW":
                        for c in GEO_CTX:
                            yield c % ("%04d%s%05d%s" % (la, ns, lo, ew))

    def bd():
        for name in ("A", "AB", "ABC", "ABCD", "ABCDE"):
            for b in range(1000):
                yield GEO_CTX[0] % ("%s%03d%03d" % (name, b, (b * 7) % 1000))
        for p in ("00N000E", "45N090W", "90S180E", "5230S01015E", "0000N17959W", "89N179E"):
            for b in range(1000):
                yield GEO_CTX[0] % ("%s%03d%03d" % (p, b, (b * 7) % 1000))
            for d in range(1000):
                yield GEO_CTX[0] % ("%s%03d%03d" % (p, (d * 13) % 361, d))

    pts = ["00N000E", "90N180E", "90S180W", "91N000E", "00S181E", "99S999W", "4530N10015W", "9000S18000E", "9001N00000E",
           "0060N00000E", "0000N00060W", "0000N18001W", "ABC360001", "ABC361001", "ABC000000", "12S034W360001",
           "12S034W361001", "91S034W361001", "1230N03459W090150", "1260N18060W400150", "00N180W000999", "45S045E225300"]

    def contexts():
        for c in GEO_CTX:
            for p in pts:
                yield c % p
            for p in pts:
                for q in pts:
                    yield (c % p) + " " + q
        for c in GEO_CTX:
            for d in GEO_CTX:
                for p in pts[::3]:
                    yield (c % p) + " " + (d % p)[(d % p).index(" ") + 1:] if " " in (d % p) else c % p

    def semantics():
        for dg in range(1000):
            for mx in (0, 59, 90, 180, 360):
                yield "deg", "%03d" % dg, mx, 0
        for dm in range(10000):
            yield "dm", "%04d" % dm, 90, 2
        for dm in range(0, 100000, 1 if th else 3):
            yield "dm", "%05d" % dm, 180, 3
        for dm in range(17900, 18200):
            yield "dm", "%05d" % dm, 180, 3

    def j_sem(item, st):
        kind, s, mx, split = item
        st.state((kind, mx))
        if kind == "deg":
            got, exp = impl.Utils.is_degree_semantics(s, mx), int(s) <= mx
        else:
            d, mi = int(s[:split]), int(s[split:])
            got, exp = impl.Utils.is_degree_minute_semantics(s, mx, split), mi <= 59 and d * 60 + mi <= mx * 60
        if bool(got) != exp:
            raise Violation("range check %r: %r, expected %r" % (item, got, exp))

    alpha = ["LLD", "LLM", "LLBD", "LLBM", "BD", "PRP", "RT", "DCT", "UNK", "C", "SL", "LLD!", "LLM!", "LLBD!", "BD!", "LLBM!"]
    segs = [("LLD",), ("LLM",), ("LLBM",), ("BD",), ("PRP", "VFR", "IFR", "LLD", "SL", "SPALT"),
            ("PRP", "VFR", "IFR", "LLM", "SL", "SPV"), ("IFR", "LLD", "SL", "SPALT"), ("C", "SL", "LLM", "SL", "SAA"),
            ("C", "SL", "LLD", "SL"), ("PRP", "OAT", "LLD", "GAT", "LLM"), ("RT",), ("UNK",), ("SL", "LLD"),
            ("STOP", "LLM", "START", "LLD!"), ("LLD", "STAY", "SL", "ST"), ("PRP",), ("STAR",), ("LLD", "SL", "SPV")]
    fams = [Family("every degree value", deg, j13), Family("every degree/minute value", minutes, j13),
            Family("every bearing and distance", bd, j13), Family("coordinates in every construct", contexts, j13),
            Family("range predicates", semantics, j_sem),
            Family("sequences of coordinates", lambda: F.words_upto(alpha, 5 if th else 4, ("SPALT",)), j13),
            Family("histories of constructs with coordinates", lambda: F.segments_upto(segs, 5 if th else 4, ("SPALT",)), j13),
            ] + core(j13, "quick", depth4=False)
    return fams, "all latitudes 00-99 with all longitudes 000-999 all ddmm and dddmm, all " \
        "bearings and distances, 22 boundary coordinates in 18 constructs, all sequences of up to %d of 16 classes" % (5 if th else 4)


# -- C14 ------------------------------------------------------------------------------------------

def j14(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    exp = [r.name for r in m.recs]
    got = [r.get_name() for r in recs]
    if exp != got:
        differ("records", exp, got)
    for r, e in zip(recs, m.recs):
        b, d = r.get_bearing(), r.get_distance()
        if e.brg is None:
            continue
        if e.leg is None:
            if b != 0 or d != 0:
                raise Violation("%r has bearing %r and distance %r, expected none" % (e.name, b, d))
            continue
        if not near(d, e.dist, 1e-5):
            raise Violation("distance at %r is %r, expected %r" % (e.name, d, e.dist))
        if not spec.same_leg(b, d, e.brg, e.dist, e.leg):
            raise Violation("bearing at %r is %r, expected %r" % (e.name, b, e.brg))


def c14(tier):
    th = tier == "thorough"
    lats = ["90S", "60S", "33S", "10S", "01S", "00S", "00N", "01N", "45N", "72N", "89N", "90N"]
    lons = ["000E", "000W", "001E", "001W", "045W", "045E", "090E", "090W", "099E", "100W", "135W", "179E", "179W", "180E", "180W"]

    def grid():
        pts = [a + b for a in lats for b in lons]
        joins = [" ", " DCT ", " B9 ", " C/", "/N0450F350 ", " VFR IFR ", " STAY1/0010 "]
        for a in pts:
            for b in pts:
                yield "N0450F350 %s %s" % (a, b)
        for a in pts[::7]:
            for b in pts[::3]:
                for j in joins[1:]:
                    if j == " C/":
                        yield "N0450F350 %s C/%s/N0450F350PLUS" % (a, b)
                    elif j == " VFR IFR ":
                        yield "N0450F350 %s VFR IFR %s/N0450F350" % (a, b)
                        yield "N0450F350 %s VFR IFR %s/N0450VFR" % (a, b)
                    else:
                        yield "N0450F350 %s%s%s" % (a, j, b)
        mins = ["3015N04030E", "3016N04030E", "3015S04030W", "0001N00001E", "0000N17959W", "8959N00000E", "0001S00001W", "0000N00000E",
                "4559S09959E", "9000N18000W", "8959S17959E", "1030N01959W"]
        for a in mins:
            for b in mins + pts[::4]:
                yield "N0450F350 %s %s" % (a, b)
                yield "N0450F350 %s DCT %s" % (b, a)

    def projected():
        base = ["10N020E", "00N179E", "60S001W", "5230N01030E"]
        for p in base:
            for b in range(0, 361, 1 if th else 5):
                for d in (0, 1, 60, 999):
                    yield "N0450F350 %s%03d%03d 11N021E" % (p, b, d)
                    yield "N0450F350 11N021E %s%03d%03d" % (p, b, d)
                    yield "N0450F350 11N021E DCT %s%03d%03d DCT %s" % (p, b, d, p)

    alpha = ["LLD", "LLM", "LLBD", "PRP", "BD", "C", "RT", "DCT", "UNK", "SS", "LLBM"]
    segs = [("LLD",), ("LLM",), ("LLBD",), ("PRP",), ("BD",), ("DCT", "LLD"), ("RT", "LLD"), ("DCT", "PRP"), ("C",),
            ("LLD", "SL", "SPALT"), ("LLD", "SL", "SPV"), ("LLM", "VFR"), ("IFR", "LLD", "SL", "SPALT"),
            ("IFR", "LLM", "SL", "SPV"), ("LLD", "OAT", "GAT"), ("PRP", "STOP", "START"), ("C", "SL", "LLD", "SL", "SAA"),
            ("UNK",), ("LLM", "STAY", "SL", "ST"), ("DCT",), ("LLD!",), ("UNK", "GAT"), ("AERO",)]
    fams = [Family("pairs of coordinates", grid, j14), Family("projected points", projected, j14),
            Family("sequences of points and connectors", lambda: F.words_upto(alpha, 6 if th else 5, ("SPALT",)), j14),
            Family("histories of located points", lambda: F.segments_upto(segs, 5 if th else 4, ("SPALT",)), j14),
            Family("after speed/VFR", lambda: F.segments_upto(segs, 3, ("SPV",)), j14),
            Family("geodesy helpers", lambda: itertools.product(
                (-90, -60.5, -10, 0, 0.25, 33, 89.9, 90), (-180, -179.5, -90, 0, 1, 90.25, 180),
                (-90, -45, 0, 1, 60.75, 90), (-180, -1, 0, 0.5, 179.9, 180)), j_geo),
            Family("geodesy helpers: projection", lambda: ((a, b, c, d) for a in (-80, -10.5, 0, 45, 89) for b in (-180, -0.5, 0, 100)
                                                           for c in range(0, 361, 15) for d in (0.0, 1852.0, 111120.0, 1850148.0)), j_proj),
            ] + core(j14, "quick", depth4=False)
    return fams, "all 32,400 ordered pairs of 180 coordinates in every octant (poles, date line, coincident, antipodal); all sequences of " \
        "up to %d of 11 classes; all histories of up to %d of 23 segments" % (6 if th else 5, 5 if th else 4)


def j_geo(item, st):
    st.state(("geo", item[0] > 0, item[1] > 0, item[2] > 0, item[3] > 0))
    g = impl.Utils().get_bearing_distance_between_points(*item)
    b, d = spec.inverse(*map(float, item))
    if not spec.same_leg(g[0], g[1], b, d, item):
        raise Violation("bearing, distance %r, expected %r" % (g, (b, d)))


def j_proj(item, st):
    st.state(("proj", item[0] > 0, item[1] > 0, item[2] > 180, item[3] > 0))
    g = impl.Utils().get_bearing_distance_projected_point(*item)
    r = spec.Geodesic.WGS84.Direct(*map(float, item))
    if not near(g[0], r["lat2"], 1e-9) or not near(g[1], r["lon2"], 1e-9):
        raise Violation("projected point %r, expected %r" % (g, (r["lat2"], r["lon2"])))


# -- C15 ------------------------------------------------------------------------------------------

STAY_MSG = {n: spec.MESSAGES[n] for n in (10, 15, 35, 36, 37, 38, 39)}


def j15(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    for r in recs[:1] + [r for r in recs if r.get_base_type() not in (impl.TokenBaseType.F15_POINT, impl.TokenBaseType.F15_C)]:
        if r.get_stay_time():
            raise Violation("%r is no point and has a stay time of %r" % (r.get_name(), r.get_stay_time()))
    differ("stay times", [(r.name, r.stay) for r in m.recs], [(r.get_name(), r.get_stay_time()) for r in recs])
    exp = [spec.message(n, t) for n, t, *_ in m.errs if n in STAY_MSG]
    pats = [x.split("!") for x in STAY_MSG.values()]
    got = [e.get_error_text() for e in errs if any(
        e.get_error_text().startswith(p[0]) and e.get_error_text().endswith(p[-1]) for p in pats)]
    differ("stay errors", exp, got)


def c15(tier):
    th = tier == "thorough"
    pts = ["ABC", "ABCD", "10N020E", "3015N04030E", "ABC120030", "10N020E120030", "3015N04030E120030"]

    def times():
        for t in range(10000):
            yield "N0450F350 ABC STAY1/%04d DEF" % t
            yield "N0450F350 10N020E STAY3/%04d" % t
            if th:
                yield "N0450F350 ABC B9 DEF/N0450F340 GHI STAY0/%04d B9 DEF" % t
        for t in range(1000):
            yield "N0450F350 ABC STAY1/%03d DEF" % t
            yield "N0450F350 ABC STAY1/0%04d DEF" % t
        for t in range(10000):
            for n in range(10):
                yield "N0450F350 %s STAY%d/%04d DEF STAY%d/%02d%02d GHI" % (pts[(t + n) % len(pts)], n, t, (n + t) % 10, (t * 7 + n) % 24, (t + 11 * n) % 60)
        for n in range(10):
            for p in pts:
                for t in ("0000", "0001", "0100", "1259", "2359", "2400", "0060"):
                    for nxt in ("", " DEF", " B9 DEF", " DCT DEF", " VFR", " C/DEF/N0450F350PLUS", " STAY2/0005", " T", "/N0450F350"):
                        yield "N0450F350 %s STAY%d/%s%s" % (p, n, t, nxt)

    alpha = ["PRP", "STAY", "SL", "ST", "LLD", "RT", "SPALT", "UNK", "VFR", "IFR", "C", "DCT", "TL"]
    segs = [("PRP", "STAY", "SL", "ST"), ("STAY", "SL", "ST"), ("STAY", "SL"), ("STAY",), ("SL", "ST"), ("ST",), ("LLM", "STAY", "SL", "ST"),
            ("PRP",), ("RT", "PRP"), ("DCT",), ("PRP", "SL", "SPALT"), ("C",), ("C", "SL", "PRP", "SL", "SAA"), ("UNK",), ("PRP", "VFR"),
            ("IFR", "PRP", "SL", "SPALT"), ("PRP", "OAT"), ("GAT", "PRP"), ("STAR",), ("T",), ("LLBM",), ("BD",), ("STAY", "SL", "UNK")]
    fams = [Family("every time", times, j15),
            Family("sequences around STAY", lambda: F.words_upto(alpha, 6 if th else 5, ("SPALT",)), j15),
            Family("histories with STAY", lambda: F.segments_upto(segs, 5 if th else 4, ("SPALT",)), j15),
            Family("after speed/VFR", lambda: F.segments_upto(segs, 3, ("SPV",)), j15)] + core(j15, "quick", depth4=False)
    return fams, "all four digit times, all three and five digit near misses; all sequences of up to %d of 13 classes; all histories of up " \
        "to %d of 23 segments" % (6 if th else 5, 5 if th else 4)


# -- C16 ------------------------------------------------------------------------------------------

SID_MSG = {n: spec.MESSAGES[n] for n in (30, 31, 32, 34, 54)}


def j16(field, st):
    m, v, ers, recs, errs = run_both(field, st)
    keep = ("SID", "STAR", "SID_STAR")
    exp = [(i, r.name, r.base, r.sub) for i, r in enumerate(m.recs) if r.base in keep]
    got = [(i, r.get_name(), BASE.get(r.get_base_type()), SUB.get(r.get_sub_type())) for i, r in enumerate(recs)
           if BASE.get(r.get_base_type()) in keep]
    differ("SID and STAR records", exp, got)
    differ("records", [r.name for r in m.recs], [r.get_name() for r in recs])
    exp = [spec.message(n, t) for n, t, *_ in m.errs if n in SID_MSG]
    pats = [x.split("!") for x in SID_MSG.values()]
    got = [e.get_error_text() for e in errs if any(
        e.get_error_text().startswith(p[0]) and e.get_error_text().endswith(p[-1]) for p in pats)]
    differ("SID/STAR errors", exp, got)


def c16(tier):
    th = tier == "thorough"
    shapes = ["ABC1D", "ABC12D", "ABCDE1", "ABCDE12", "ABCD1E", "ABCDE1F", "ABCDEF1G", "ABCDE12F", "SID", "STAR", "SIDS1A",
              "STAR1A", "SID1A", "STARS1"]
    pre = ["", "ABC ", "ABC B9 ", "ABC B9 DEF ", "DCT ", "ABC DCT ", "10N020E ", "6B6B ", "C ", "ABC/N0450F350 ", "ABC STAY1/0010 ",
           "ABC OAT GAT DEF ", "ABC VFR X ", "ABC VFR IFR DEF/N0450F350 ", "ABC1D ", "SID ", "STAR ", "C/ABC/N0450F350F370 ", "ABC C/DEF/N0450F350F370 ", "T ", "/ ",
           "ABC/ ", "ABC STAY1 ", "ABC C/ ", "ABC VFR IFR DEF/N0450VFR "]
    post = ["", " ABC", " B9 ABC", " DCT ABC", " T", " ABC1D", " SID", " STAR", " VFR", " /N0450F350", " 6B6B", " C", " STAY1/0010", " IFR",
            " N0450F350", " 0130"]

    def places():
        for s in shapes:
            for a in pre:
                for z in post:
                    yield "N0450F350 %s%s%s" % (a, s, z)
            for z in post:
                yield s + z
                yield "N0450VFR " + s + z
                yield "6B6B " + s + z
        for s in shapes:
            for t in shapes:
                for a in ("", " ABC", " ABC B9 DEF", " B9 DEF", " DCT DEF"):
                    yield "N0450F350 %s%s %s" % (s, a, t)
                    yield "N0450F350 %s%s %s ABC" % (s, a, t)

    alpha = ["SS", "SID", "STAR", "PRP", "RT", "DCT", "SL", "UNK", "SPALT", "T", "C", "LLD"]
    segs = F.SEGS + [("SID",), ("PRP", "SS"), ("SS", "PRP")]
    fams = [Family("every shape in every place", places, j16),
            Family("sequences around SID/STAR", lambda: F.words_upto(alpha, 6 if th else 5, ("SPALT",)), j16),
            Family("histories with SID/STAR", lambda: (x for f in (("SPALT", "SS"), ("SPALT", "SID"), ("SPALT",)) for x in
                                                       F.segments_upto(segs, 3 if th else 2, f)), j16)] + core(j16, "quick", depth4=False)
    return fams, "14 designator shapes in 25 preceding and 16 following contexts, all pairs of designators; all sequences of up to %d of 12 " \
        "classes" % (6 if th else 5)


CHECKS = {"C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
          "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
