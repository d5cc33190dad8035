"""C01 tokenizing, C02 classification, C03 token list, C21 white space layout."""
import contextlib
import io
import itertools

from . import fields as F
from . import impl, spec
from .checks_parse import LAYOUT_SEQS, SEPS, layouts
from .dfa import Dfa
from .engine import Family, Violation, in_child

BASE, SUB = impl.BASE, impl.SUB

ASSUMPTIONS = [
    "the reference in mc/spec.py states tokenizing and the element syntax as documented at the pinned commit",
    "C02: completeness of the W-method argument needs the classifier to tell apart no more states of its input than "
    "the reference automaton plus the stated number of extra states; the direct families do not need it",
]


def guard(f, *a):
    """Call the implementation; any exception is a violation."""
    try:
        return f(*a)
    except (Violation, MemoryError):
        raise
    except Exception as e:                                           # noqa: BLE001
        if type(e).__name__ == "TooSlow":
            raise
        raise Violation("raised %s: %s" % (type(e).__name__, e)) from e


def tok_list(tokens):
    return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()]


# -- C01 ------------------------------------------------------------------------------------------

DELIM_SETS = [" \n\t\r/", " \n\t\r", "/", " ", "", "/ ", "A", "A/", "\n/", ",;/", "\t \n/\r", "//", "  ", "é/", "bA", "B", "|"]


def j01(item, st):
    text, delims = item
    exp = spec.segment(text, delims)
    t = impl.Tokenize()
    guard(t.set_string_to_tokenize, text)
    if delims is not None:
        guard(t.set_whitespace, delims)
    guard(t.tokenize)
    toks = guard(t.get_tokens)
    got = guard(tok_list, toks)
    st.transition("start", ("text", min(len(text), 4), len(delims)), ("toks", min(len(got), 4)))
    check_tokens(text, exp, toks, got)


def check_tokens(text, exp, toks, got):
    if got != exp:
        raise Violation("tokens of %r are %r, expected %r" % (text, got, exp))
    if toks.get_number_of_tokens() != len(exp):
        raise Violation("%r tokens counted, expected %d" % (toks.get_number_of_tokens(), len(exp)))
    for s, a, b in got:
        if text[a:b] != s:
            raise Violation("token %r at %r-%r but the text there is %r" % (s, a, b, text[a:b]))


def j01_default(text, st):
    t = impl.Tokenize()
    guard(t.set_string_to_tokenize, text)
    guard(t.tokenize)
    toks = guard(t.get_tokens)
    got = guard(tok_list, toks)
    st.state(("default", min(len(got), 4)))
    check_tokens(text, spec.segment(text, " \n\t\r"), toks, got)


T_OPS = [("s", x) for x in ("", "AB/C D", "/", "A", " B  CC/\n", "//X", "A/B/C")] + \
        [("w", x) for x in (" \n\t\r/", " \n\t\r", "", "/", "A ")] + [("t", None), ("g", None), ("m", None)]
T_OPS = list(dict.fromkeys(T_OPS))


def j01_hist(ops, st):
    """A history of uses of one tokenizer against the model (text, delimiters, last result)."""
    t = guard(impl.Tokenize)
    text, delims, last = "", " \n\t\r", []
    kept = []
    state = (text, delims, 0)
    for op in ops + (("t", None), ("g", None)):
        k, x = op
        if k == "s":
            guard(t.set_string_to_tokenize, x)
            text = x
        elif k == "w":
            guard(t.set_whitespace, x)
            delims = x
        elif k == "t":
            guard(t.tokenize)
            last = spec.segment(text, delims)
        elif k == "m":
            # the owner of the tokens changes them: nothing that a later tokenizing may show
            toks = guard(t.get_tokens)
            if toks is not None and guard(toks.get_number_of_tokens):
                guard(guard(toks.get_token_at, 0).set_token_string, "XX")
                guard(toks.get_token_at(0).set_token_base_type, impl.TokenBaseType(9))
                guard(toks.remove_tokens_from_end_of_list, 0)
                guard(toks.create_append_token, "YY", 7, 9)
                guard(toks.get_last_token)
                guard(toks.get_next_token)
                kept = [x for x in kept if x[0] is not toks]
                last = tok_list(toks)
        else:
            toks = guard(t.get_tokens)
            if tok_list(toks) != last:
                raise Violation("tokens %r, expected %r" % (tok_list(toks), last))
            kept.append((toks, last))
        if t.get_string_to_tokenize() != text or t.get_whitespace() != delims:
            raise Violation("text/delimiters read back as %r %r, expected %r %r" % (
                t.get_string_to_tokenize(), t.get_whitespace(), text, delims))
        new = (text, delims, tuple(last))
        st.transition(state, op, new)
        state = new
    for toks, exp in kept:
        if tok_list(toks) != exp:
            raise Violation("an earlier token list changed to %r, was %r" % (tok_list(toks), exp))


T_SINGLE = [("s", "AB/C D"), ("s", "X\nY"), ("s", ""), ("w", " \n\t\r/"), ("w", "/"), ("w", " B"), ("t", None), ("g", None), ("rs", None), ("rw", None)]


def j01_single(ops, st):
    """As j01_hist, where nothing is read but what the history reads."""
    t = guard(impl.Tokenize)
    text, delims, last = "", " \n\t\r", []
    for op in ops + (("t", None), ("g", None), ("rw", None), ("rs", None)):
        k, x = op
        a = (text, delims, len(last))
        if k == "s":
            guard(t.set_string_to_tokenize, x)
            text = x
        elif k == "w":
            guard(t.set_whitespace, x)
            delims = x
        elif k == "t":
            guard(t.tokenize)
            last = spec.segment(text, delims)
        elif k == "g":
            got = tok_list(guard(t.get_tokens))
            if got != last:
                raise Violation("tokens %r, expected %r" % (got, last))
        else:
            got, exp = (guard(t.get_string_to_tokenize), text) if k == "rs" else (guard(t.get_whitespace), delims)
            if got != exp:
                raise Violation("%s read back as %r, expected %r" % ("text" if k == "rs" else "delimiters", got, exp))
        st.transition(a, op, (text, delims, len(last)))


D_OPS = [(w, k, x) for w in (0, 1) for k, x in (("s", "AB/C D"), ("s", "X\nY"), ("w", " \n\t\r/"), ("w", "/"), ("t", None), ("m", None))] + [(0, "n", None)]


def double_history(ops):
    """Uses of two tokenizers, and changes to their tokens by the owner; everything read after every one."""
    two = [[guard(impl.Tokenize), "", " \n\t\r", []] for _ in range(2)]
    kept, states = [], []

    def read(i):
        t, text, delims, last = two[i]
        got = [tview(x) for x in guard(guard(t.get_tokens).get_tokens)]
        if got != last:
            raise Violation("tokens %r, expected %r, of the %s tokenizer after %r" % (got, last, ("first", "second")[i], ops))
        if guard(t.get_string_to_tokenize) != text or guard(t.get_whitespace) != delims:
            raise Violation("text and delimiters %r %r, expected %r %r, of the %s tokenizer after %r" % (
                t.get_string_to_tokenize(), t.get_whitespace(), text, delims, ("first", "second")[i], ops))

    for n, (i, k, x) in enumerate(ops + ((0, "t", None), (1, "t", None))):
        t = two[i][0]
        if k == "s":
            guard(t.set_string_to_tokenize, x)
            two[i][1] = x
        elif k == "w":
            guard(t.set_whitespace, x)
            two[i][2] = x
        elif k == "n":
            kept.append((guard(t.get_tokens), two[i][3]))
            two[i] = [guard(impl.Tokenize), "", " \n\t\r", []]
        elif k == "t":
            old = guard(t.get_tokens)
            kept.append((old, two[i][3]))
            guard(t.tokenize)
            two[i][3] = [(a, b, c, 0, 0) for a, b, c in spec.segment(two[i][1], two[i][2])]
        else:
            toks = guard(t.get_tokens)
            for j, o in enumerate(guard(toks.get_tokens)):
                guard(o.set_token_string, "M%d" % j)
                guard(o.set_token_base_type, impl.TokenBaseType(9))
                guard(o.set_token_sub_type, impl.TokenSubType(20))
                guard(o.set_token_start_index, 70 + j)
                guard(o.set_token_end_index, 90 + j)
            m = [("M%d" % j, 70 + j, 90 + j, 9, 20) for j in range(len(two[i][3]))]
            guard(toks.create_append_token, "YY", 7, 9)
            two[i][3] = m + [("YY", 7, 9, 0, 0)]
        read(0)
        read(1)
        states.append((i, k, len(two[0][3]), len(two[1][3])))
    for toks, exp in kept:
        got = [tview(x) for x in guard(toks.get_tokens)]
        if got != exp:
            raise Violation("an earlier token list changed to %r, was %r, after %r" % (got, exp, ops))
    return states


def j01_double(ops, st):
    prev = None
    for s in double_history(ops):
        st.transition(prev, s[:2], s)
        prev = s


def j01_double_first(ops, st):
    prev = None
    for s in in_child(double_history, ops):
        st.transition(prev, s[:2], s)
        prev = s


def c01(tier):
    th = tier == "thorough"
    k = 8 if th else 7

    def texts(chars, n):
        for j in range(n + 1):
            for w in itertools.product(chars, repeat=j):
                yield "".join(w)

    def odd():
        chars = ["A", " ", "/", "\r", "\x0b", "\x0c", "\u00a0", "\u2028", "\x85", "\x00", "é", "١", "\ud800", "😀", "\\", "-"]
        return ((t, d) for t in texts(chars, 4 if th else 3) for d in DELIM_SETS[:6])

    def every_delimiter():
        pool = " \n\t/AB"
        for r in range(len(pool) + 1):
            for ds in itertools.combinations(pool, r):
                d = "".join(ds)
                for t in texts(pool, 6 if th else 5):
                    yield t, d

    def line_ends():
        for pool, n, most in (("A\r\n/ ", 6 if th else 5, 5), ("AB\r\n\t\x0b\x0c\x1c\x85\u2028/", 4 if th else 3, 3)):
            for r in range(most + 1):
                for ds in itertools.combinations(pool, r):
                    for t in texts(pool, n):
                        yield t, "".join(ds)

    def punctuation():
        """Delimiters with a meaning in patterns, in every order, against texts that contain everything."""
        pool = "".join(chr(c) for c in range(0x20, 0x7f) if not chr(c).isalnum()) + "AZaz09\n\t\r"
        every = "".join(chr(c) for c in range(0x00, 0x80))
        text = every + "".join("x%sY%s%s" % (c, c, c) for c in every) + "AB/C"
        for r in (0, 1, 2, 3):
            for ds in itertools.product(pool, repeat=r):
                yield text, "".join(ds)

    def singles():
        chars = [chr(c) for c in list(range(0x180)) + [0x2003, 0x2028, 0x3000, 0xfeff, 0xff0f, 0xff21, 0x1f600, 0x10ffff]]
        for c in chars:
            for d in chars:
                yield "A%sB%sC/" % (c, d), d
            yield "A%sB C/%s%s" % (c, c, c), " \n\t\r/"
            yield "A%sB C/%s%s" % (c, c, c), "/" + c
            yield "A%sB C/%s%s" % (c, c, c), " " + c + "A"

    def every_char():
        for c in F.every_char():
            yield "A%sB %s/%s%s\nC%s" % (c, c, c, c, c), " \n\t\r/"
            yield "A%sB %s/%s%s\nC%s" % (c, c, c, c, c), "/" + c

    def sizes():
        for n in list(range(0, 70)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 4096]:
            for t in ("A" * n, "A" * n + " B", "B/" + "A" * n, " " * n + "A", "A" + " " * n + "B", "/" * n, "A/" * n, "A " * n,
                      "A\n" * n + "B", "AB/" * n + "C", " " * n):
                for d in (" \n\t\r/", " \n\t\r", "/"):
                    yield t, d

    fams = [
        Family("every character of the basic plane", every_char, j01),
        Family("all texts over 6 characters up to length %d, field 15 delimiters" % k,
               lambda: ((t, " \n\t\r/") for t in texts("Ab/ \n\t", k)), j01),
        Family("all texts x all delimiter subsets of 6 characters", every_delimiter, j01, 64),
        Family("all texts of line ends, blanks, tabs and separators x delimiter subsets", line_ends, j01, 64),
        Family("all short texts of odd characters", odd, j01),
        Family("up to 3 delimiters of every kind in every order", punctuation, j01, 64),
        Family("every character as text and as delimiter", singles, j01),
        Family("all texts x delimiter sets", lambda: ((t, d) for d in DELIM_SETS for t in texts("Ab/ é", 5)), j01),
        Family("default delimiters", lambda: texts("A/ \n\r", 6), j01_default),
        Family("long texts", sizes, j01),
        Family("histories of one tokenizer", lambda: (h for n in range(7 if th else 6) for h in itertools.product(T_OPS, repeat=n)),
               j01_hist),
        Family("histories of two tokenizers", lambda: (h for n in range(6 if th else 5) for h in itertools.product(D_OPS, repeat=n)), j01_double, 64),
        Family("histories of two tokenizers, in processes that have tokenized nothing", lambda: (
            h for n in range(4 if th else 3) for h in itertools.product(D_OPS, repeat=n)), j01_double_first, 32, fresh=True),
        Family("long histories of two tokenizers, in processes that have tokenized nothing", lambda: (
            ((0, "s", "AB/C D"), (0, "w", " \n\t\r/"), (0, "t", None)) + h for h in itertools.product(D_OPS, repeat=2)), j01_double_first, 32, fresh=True),
        Family("histories of single settings and reads", lambda: (
            h for n in range(7 if th else 6) for h in itertools.product(T_SINGLE, repeat=n)), j01_single, 64),
    ]
    return fams, "all texts of up to %d of 6 characters; all texts of up to %d of 6 characters for all 64 delimiter subsets; all " \
        "histories of up to %d of %d tokenizer operations" % (k, 6 if th else 5, 6 if th else 5, len(T_OPS))


# -- C02 ------------------------------------------------------------------------------------------

_SYN = None


def classify_impl(s, fresh=False):
    global _SYN
    if _SYN is None or fresh:
        _SYN = impl.Syntax()
    r = guard(_SYN.get_token_type, s)
    try:
        return BASE.get(r[1]), SUB.get(r[2])
    except Exception as e:                                           # noqa: BLE001
        raise Violation("classification of %r gives %r" % (s, r)) from e


def j02(s, st):
    exp = spec.syntax(s)
    got = classify_impl(s)
    st.transition(DFA.run(s[:-1]), s[-1:], DFA.run(s))
    if got != exp:
        raise Violation("%r is classified %r, expected %r" % (s, got, exp))


def j02_pair(item, st):
    a, b, fresh = item
    sy = impl.Syntax()
    first = guard(sy.get_token_type, a)
    keep = (first[1], first[2])
    r = guard((impl.Syntax() if fresh else sy).get_token_type, b)
    st.transition(spec.syntax(a), "then", spec.syntax(b))
    if (BASE.get(r[1]), SUB.get(r[2])) != spec.syntax(b):
        raise Violation("%r after %r is classified %r, expected %r" % (b, a, (BASE.get(r[1]), SUB.get(r[2])), spec.syntax(b)))
    if (first[1], first[2]) != keep:
        raise Violation("the class of %r changed when %r was classified" % (a, b))


def j02_field(item, st):
    """Classes given to the elements of a parsed field."""
    field = item
    tokens = guard(impl.tokenise, field)
    ers = impl.ExtractedRouteSequence()
    guard(impl.ParseF15().parse_f15, ers, tokens)
    toks = tokens.get_tokens()
    exp = [spec.classify(t) for t, _, _ in spec.segment(field, spec.DELIMS)]
    if len(toks) != len(exp):
        raise Violation("%d tokens, expected %d" % (len(toks), len(exp)))
    for t, e in zip(toks, exp):
        b = BASE.get(t.get_token_base_type())
        s = SUB.get(t.get_token_sub_type())
        if b != e[0] or (s != e[1] and b not in ("TOO_LONG", "SID_STAR", "SID", "STAR")):
            raise Violation("%r is classified %r in a field, expected %r" % (t.get_token_string(), (b, s), e))
        st.state(e)


def patterns():
    """The documented shapes as lists of character sets, in order of precedence."""
    D, L = spec.DIGIT, spec.UPPER

    def lit(s):
        return [frozenset(c) for c in s]

    out = [lit(s) for s in spec.LITERALS]
    out.append(lit("STAY") + [D])
    out += [[frozenset("01"), D, frozenset("012345"), D], [frozenset("2"), frozenset("0123"), frozenset("012345"), D]]
    out += [lit("NAT") + [L], lit("NAT") + [L, D], lit("PTS") + [D], lit("PTS") + [L]]
    for n in (2, 4):
        b = [D] * n + [frozenset("NS")] + [D] * (n + 1) + [frozenset("EW")]
        out += [b, b + [D] * 6]
    out += [[L if c == "x" else D for c in s] for s in spec.SHAPES]
    lev = [lit(c) + [D] * n for c, n in (("F", 3), ("A", 3), ("S", 4), ("M", 4))]
    for c, n in (("N", 4), ("K", 4), ("M", 3)):
        sp = lit(c) + [D] * n
        out.append(sp + lit("VFR"))
        for l1 in lev:
            out += [sp + l1, sp + l1 + lit("PLUS")] + [sp + l1 + l2 for l2 in lev]
    return out


FOREIGN = ["a", "n", "z", "é", "Á", "\u0416", "\u0663", "\uff21", "\uff11", "\u00b2", "\u017f", "\u212a", "\u0131", "\n", " ", "\t",
           "-", "+", "_", ".", "/", "\\", "$", "^", "*", "\x00", "\u2167", "\u0660"]
SIGMA = sorted(spec.UPPER | spec.DIGIT) + FOREIGN
DFA = Dfa(patterns(), sorted(spec.UPPER | spec.DIGIT | {"/"}), spec.syntax)

REPS = ["/", "VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "DCT", "STAY1", "STAY0", "0130", "2359", "1959", "0000", "T", "C", "SID",
        "STAR", "NATA", "NATA1", "PTS1", "PTSA", "A", "AB", "ABC", "ABCD", "ABCDE", "ABC120030", "A120030", "AB120030", "ABCD120030",
        "ABCDE120030", "10N020E", "10S020W", "3015N04030E", "3015S04030W", "10N020E120030", "3015N04030E120030", "A1", "AB1", "A1B",
        "A12B", "A123B", "A12", "A123", "ABC123", "ABC1", "ABC12", "AB1C", "AB12", "AB123", "ABCD1", "ABCD12", "AB12C", "AB123C",
        "ABC1D", "ABC12D", "ABCDE1", "ABCDE12", "ABCD1E", "ABCDE1F", "ABCDEF1G", "ABCDE12F"]
for _s in ("N0450", "K0830", "M082"):
    REPS.append(_s + "VFR")
    for _l in ("F350", "A045", "S1130", "M0840"):
        REPS += [_s + _l, _s + _l + "PLUS"] + [_s + _l + _m for _m in ("F390", "A085", "S1190", "M0960")]


def mutations(s, alphabet):
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for c in alphabet:
            yield s[:i] + c + s[i + 1:]
    for i in range(len(s) + 1):
        for c in alphabet:
            yield s[:i] + c + s[i:]
    for i in range(len(s) - 1):
        yield s[:i] + s[i + 1] + s[i] + s[i + 2:]
    for i in range(len(s)):
        for j in range(i + 1, len(s) + 1):
            yield s[:i] + s[j:]
            yield s[:j] + s[i:j] + s[j:]
    yield s.lower()
    yield s.capitalize()
    yield s + s


def c02(tier):
    th = tier == "thorough"

    def short():
        for n in range(0, 3):
            for w in itertools.product(SIGMA, repeat=n):
                yield "".join(w)
        al = SIGMA if th else sorted(spec.UPPER | spec.DIGIT) + ["a", "\n", "\u0663"]
        for w in itertools.product(al, repeat=3):
            yield "".join(w)
        if th:
            for w in itertools.product(sorted(spec.UPPER | spec.DIGIT), repeat=4):
                yield "".join(w)

    def shapes():
        for n in range(0, 15 if th else 12):
            for w in itertools.product("x9", repeat=n):
                for L, D in (("A", "1"), ("Q", "0")) if not th else (("A", "1"), ("Q", "0"), ("N", "9"), ("S", "3")):
                    yield "".join(L if c == "x" else D for c in w)

    def digits():
        for n in range(1, 6 if th else 5):
            for i in range(10 ** n):
                yield "%0*d" % (n, i)
        for n in range(6, 31):
            for c in "0123456789AZ":
                yield c * n

    def words4():
        for w in itertools.product("NATPSIDRVFCGOTY", repeat=4):
            yield "".join(w)
        for w in itertools.product("NATPSIRVFCGOTY", repeat=3):
            for d in ("0", "7", "A1", "12"):
                yield "".join(w) + d

    def muts():
        for r in REPS:
            yield r
            yield from mutations(r, SIGMA)

    def muts2():
        al = ["A", "F", "M", "N", "S", "W", "V", "P", "0", "2", "6", "9", "a", "\n"]
        for r in REPS:
            seen = set(mutations(r, al))
            for m in seen:
                yield from mutations(m, al)

    near = []
    for r in REPS:
        near += [r, r.lower(), r + "\n", r[:-1], r[::-1]]
    near = list(dict.fromkeys(near))

    def pairs():
        for a in near:
            for b in REPS:
                yield a, b, False
                if th or hash(len(a)) % 2:
                    yield a, b, True

        for bases in F.ALIKE_BASE.values():
            for b in bases:
                for x in F.alike(b):
                    yield b, x, False
                    yield x, b, True

    def lengths():
        pads = ["A", "1", "ABC12D", "a", "N0450F350", "é", "10N020E"]
        for n in list(range(22, 32)) + [50, 51, 75, 100, 255, 256, 257, 300, 512]:
            for p in pads:
                s = (p * n)[:n]
                for c in ("%s", "N0450F350 %s", "N0450F350 ABC %s DEF", "N0450F350 ABC VFR %s IFR ABC/N0450F350", "N0450F350 ABC/%s",
                          "N0450F350 ABC %s/N0450F350", "N0450VFR %s", "N0450F350 ABC B9 %s DEF T %s", "N0450F350 C/%s/%s"):
                    yield c.replace("%s", s)

    def lengths2():
        """Limit lengths, with every character and every representative at either end, in the middle or throughout."""
        chars = [c for c in SIGMA + ["!", ",", "(", ")", "'", "\"", "#", ":", "\u00a0", "\u200b", "\ufeff", "\u0301"] if c not in spec.DELIMS]
        for n in (24, 25, 26, 27, 40):
            for w in chars + REPS:
                if len(w) >= n:
                    continue
                for p in ("A", "1", "é"):
                    k = n - len(w)
                    out = {(w * n)[:n], w + p * k, p * k + w, p * (k // 2) + w + p * (k - k // 2)}
                    if 2 * len(w) < n:
                        out.add(w + p * (n - 2 * len(w)) + w)
                    for t in sorted(out):
                        yield "N0450F350 ABC %s DEF" % t
                        if p == "A":
                            yield t

    def in_fields():
        for r in REPS:
            for c in ("%s", "%s ABC", "N0450F350 %s", "N0450F350 ABC %s", "N0450F350 ABC DCT %s DEF", "N0450F350 ABC B9 %s",
                      "N0450F350 ABC/%s", "N0450F350 ABC VFR %s %s IFR DEF/N0450F350 %s", "N0450F350 6B6B %s", "N0450F350 ABC C/%s/%s %s",
                      "N0450F350 ABC %s STAY1/%s T %s"):
                yield c.replace("%s", r)
                yield c.replace("%s", r.lower())
                yield c.replace("%s", "\u0663" + r)

    def wmethod(extra):
        def gen():
            for p in DFA.cover:
                for k in range(extra + 1):
                    for w in itertools.product(SIGMA, repeat=k + 1):
                        pw = p + "".join(w)
                        for suf in DFA.wset:
                            yield pw + suf
        return gen

    def unicode():
        t3 = ["%s", "A%sB", "1%s", "%sBC", "DC%s"]
        for c in F.every_char():
            for p in t3:
                yield p.replace("%s", c)
        reps = [r for r in REPS if len(r) < 12 and r not in ("/", "A", "T", "C")]
        for c in F.confusables():
            for r in reps:
                for i in sorted({0, len(r) // 2, len(r) - 1} if not th else range(len(r))):
                    yield r[:i] + c + r[i + 1:]
                yield r + c

    fams = [
        Family("every character of the basic plane; those taken for others in every class", unicode, j02),
        Family("W-method, %d states x every symbol x %d distinguishing suffixes" % (len(DFA.cover), len(DFA.wset)),
               wmethod(0), j02, 64),
        Family("all texts of <= 3 characters", short, j02),
        Family("all letter/digit shapes", shapes, j02),
        Family("all digit strings", digits, j02),
        Family("all words over the keyword letters", words4, j02),
        Family("one edit away from a legal element", muts, j02, 64),
        Family("pairs of texts", pairs, j02_pair),
        Family("elements of 22 and more characters in fields", lengths, j02_field),
        Family("limit lengths with every character and class at the ends", lengths2, j02_field),
        Family("every class in fields", in_fields, j02_field),
    ]
    if th:
        fams += [Family("W-method with one extra state", wm1_gen, j02, 256),
                 Family("two edits away", muts2, j02, 256)]
    return fams, "reference automaton of %d states: every access word x every one of %d symbols%s x %d distinguishing suffixes; all texts " \
        "of up to %d characters; all letter/digit shapes to length %d; all single edits of %d representatives over %d symbols; all " \
        "pairs of %d x %d texts" % (len(DFA.cover), len(SIGMA), " (and every two, reduced alphabet)" if th else "", len(DFA.wset),
                                   4 if th else 3, 14 if th else 11, len(REPS), len(SIGMA), len(near), len(REPS))


def wm1_gen():
    al = list("ACDEFGIKMNOPRSTUVWYXZ0123459") + ["a", "\n", "\u0663"]
    for p in DFA.cover:
        for w in itertools.product(al, repeat=2):
            pw = p + "".join(w)
            for suf in DFA.wset:
                yield pw + suf


# -- C03 ------------------------------------------------------------------------------------------

class ListModel:
    def __init__(self):
        self.items = []
        self.cur = 0

    def at(self, i):
        return self.items[i] if 0 <= i < len(self.items) else None


def tview(t):
    if t is None:
        return None
    return (t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(), int(t.get_token_base_type()),
            int(t.get_token_sub_type()))


def mk(n):
    """The n-th distinct token."""
    t = impl.Token("T%d" % n, 10 * n, 10 * n + 2 + n % 3)
    t.set_token_base_type(impl.TokenBaseType(n % 18 + 1))
    t.set_token_sub_type(impl.TokenSubType(n % 40 + 1))
    return t, ("T%d" % n, 10 * n, 10 * n + 2 + n % 3, n % 18 + 1, n % 40 + 1)


L_OPS = [("append", 0), ("create", 0), ("insert", 0), ("insert", 1), ("insert", "end"), ("insert", "mid"), ("cut", 0), ("cut", 1),
         ("cut", "last"), ("cut", 9), ("cut", -1), ("cut", -2), ("first", 0), ("last", 0), ("next", 0), ("prev", 0), ("again", 0)]


L_LOOKS = [("look", x) for x in ("count", "list", "peek", "peek2", "back", "at0", "atlast", "out", "print", "printtok")] + \
    [("set", x) for x in ("string", "start", "end", "base", "sub")]
L_OPS2 = [("append", 0), ("create", 0), ("insert", 0), ("insert", "end"), ("cut", 0), ("cut", "last"), ("cut", 9), ("first", 0), ("last", 0),
          ("next", 0), ("prev", 0)] + L_LOOKS


def look(t, m, x):
    """Reads in between, which must not matter to what comes after them."""
    n = len(m.items)
    if x in ("print", "printtok"):
        with contextlib.redirect_stdout(io.StringIO()):
            if x == "print":
                guard(t.print_tokens)
            elif n:
                guard(guard(t.get_token_at, 0).print_token)
        return
    got, exp = {
        "count": lambda: (guard(t.get_number_of_tokens), n),
        "list": lambda: ([tview(y) for y in guard(t.get_tokens)], m.items),
        "peek": lambda: (tview(guard(t.peek_next_token)), m.at(m.cur + 1)),
        "peek2": lambda: (tview(guard(t.peek_next_token, 2)), m.at(m.cur + 2)),
        "back": lambda: (tview(guard(t.peek_previous_token)), m.at(m.cur - 1)),
        "at0": lambda: (tview(guard(t.get_token_at, 0)), m.at(0)),
        "atlast": lambda: (tview(guard(t.get_token_at, n - 1)), m.at(n - 1)),
        "out": lambda: (tview(guard(t.get_token_at, n)), None)}[x]()
    if got != exp:
        raise Violation("reading %s gives %r, expected %r" % (x, got, exp))


def set_one(t, m, x, cnt):
    """One attribute of the current token set by itself."""
    o = guard(t.get_current_token)
    if o is None:
        return
    v = list(m.at(m.cur))
    if x == "string":
        v[0] = "S%d" % cnt
        guard(o.set_token_string, v[0])
    elif x == "start":
        v[1] = 500 + cnt
        guard(o.set_token_start_index, v[1])
    elif x == "end":
        v[2] = 600 + cnt
        guard(o.set_token_end_index, v[2])
    elif x == "base":
        v[3] = cnt % 18 + 1
        guard(o.set_token_base_type, impl.TokenBaseType(v[3]))
    else:
        v[4] = cnt % 50 + 1
        guard(o.set_token_sub_type, impl.TokenSubType(v[4]))
    m.items = m.items[:m.cur] + [tuple(v)] + m.items[m.cur + 1:]


def observe(t, m, deep=True):
    n = len(m.items)
    if guard(t.get_number_of_tokens) != n:
        raise Violation("%r tokens counted, expected %d" % (t.get_number_of_tokens(), n))
    got = [tview(x) for x in guard(t.get_tokens)]
    if got != m.items:
        raise Violation("list is %r, expected %r" % (got, m.items))
    if tview(guard(t.get_current_token)) != m.at(m.cur):
        raise Violation("current token %r, expected %r" % (tview(t.get_current_token()), m.at(m.cur)))
    for i in range(-n - 2, n + 3) if deep else (-1, n):
        if tview(guard(t.get_token_at, i)) != m.at(i):
            raise Violation("token at %d is %r, expected %r" % (i, tview(t.get_token_at(i)), m.at(i)))
    if tview(guard(t.peek_next_token)) != m.at(m.cur + 1) or tview(guard(t.peek_previous_token)) != m.at(m.cur - 1):
        raise Violation("peeks %r %r, expected %r %r" % (tview(t.peek_next_token()), tview(t.peek_previous_token()),
                                                         m.at(m.cur + 1), m.at(m.cur - 1)))
    for d in (0, 1, 2, 3, 4, 7, -1, -2) if deep else (2,):
        if tview(guard(t.peek_next_token, d)) != m.at(m.cur + d):
            raise Violation("peek %d ahead is %r, expected %r" % (d, tview(t.peek_next_token(d)), m.at(m.cur + d)))
        if tview(guard(t.peek_previous_token, d)) != m.at(m.cur - d):
            raise Violation("peek %d behind is %r, expected %r" % (d, tview(t.peek_previous_token(d)), m.at(m.cur - d)))
    if tview(guard(t.get_current_token)) != m.at(m.cur):
        raise Violation("looking moved the cursor to %r" % (tview(t.get_current_token()),))


def apply_op(t, m, op, cnt):
    k, x = op
    n = len(m.items)
    if k == "look":
        look(t, m, x)
    elif k == "set":
        set_one(t, m, x, cnt)
    elif k == "append":
        o, v = mk(cnt)
        guard(t.append_token, o)
        m.items = m.items + [v]
    elif k == "create":
        guard(t.create_append_token, "N%d" % cnt, cnt, cnt + 2)
        m.items = m.items + [("N%d" % cnt, cnt, cnt + 2, 0, 0)]
    elif k == "insert":
        i = {"end": n, "mid": n // 2}.get(x, x)
        if i > n:
            return
        o, v = mk(cnt)
        guard(t.insert_token, o, i)
        m.items = m.items[:i] + [v] + m.items[i:]
    elif k == "cut":
        i = n - 1 if x == "last" else x
        guard(t.remove_tokens_from_end_of_list, i)
        m.items = m.items[:max(i, -1) + 1]
    elif k == "again":
        if n:
            # change an attribute of a stored token: the list shows it there and nowhere else
            o = guard(t.get_token_at, n - 1)
            guard(o.set_token_string, "S%d" % cnt)
            guard(o.set_token_start_index, 500 + cnt)
            guard(o.set_token_end_index, 600 + cnt)
            guard(o.set_token_base_type, impl.TokenBaseType(cnt % 18 + 1))
            guard(o.set_token_sub_type, impl.TokenSubType(cnt % 50 + 1))
            m.items = m.items[:-1] + [("S%d" % cnt, 500 + cnt, 600 + cnt, cnt % 18 + 1, cnt % 50 + 1)]
    else:
        m.cur = {"first": 0, "last": n - 1, "next": m.cur + 1, "prev": m.cur - 1}[k]
        f = {"first": t.get_first_token, "last": t.get_last_token, "next": t.get_next_token, "prev": t.get_previous_token}[k]
        got = tview(guard(f))
        if got != m.at(m.cur):
            raise Violation("%s gives %r, expected %r" % (k, got, m.at(m.cur)))


def j03(ops, st):
    t, m = guard(impl.Tokens), ListModel()
    other, om = guard(impl.Tokens), ListModel()
    apply_op(other, om, ("create", 0), 77)
    a = (0, 0)
    for i, op in enumerate(ops):
        apply_op(t, m, op, i + 1)
        b = (len(m.items), m.cur, tuple(x[0][0] for x in m.items))
        st.transition(a, op, b)
        a = b
        if i >= len(ops) - 2:
            observe(t, m, i == len(ops) - 1)
    observe(t, m)
    observe(other, om, False)


def j03_last(ops, st):
    """As j03, with nothing read but what the history reads until its end."""
    t, m = guard(impl.Tokens), ListModel()
    for i, op in enumerate(ops):
        a = (len(m.items), m.cur)
        apply_op(t, m, op, i + 1)
        st.transition(a, op, (len(m.items), m.cur))
    observe(t, m)


def j03_long(ops, st):
    """As j03, with the places about the cursor and the last one looked at after every operation."""
    t, m = guard(impl.Tokens), ListModel()
    m.items = []
    for i, op in enumerate(ops):
        apply_op(t, m, op, i + 1)
        c, n = m.cur, len(m.items)
        for what, got, exp in (("current", t.get_current_token, m.at(c)), ("next", t.peek_next_token, m.at(c + 1)), ("before", t.peek_previous_token, m.at(c - 1)),
                               ("last place", lambda: t.get_token_at(n - 1), m.at(n - 1)), ("place after the last", lambda: t.get_token_at(n), None)):
            got = tview(guard(got))
            if got != exp:
                raise Violation("%s of %d tokens, cursor at %d: %r, expected %r" % (what, n, c, got, exp))
        if guard(t.get_number_of_tokens) != n:
            raise Violation("%r tokens counted, expected %d" % (t.get_number_of_tokens(), n))
        if i % 64 == 0:
            st.state((n, c))
    observe(t, m)


A_GETS = ["string", "start_index", "end_index", "base_type", "sub_type"]
A_OPS = [("get", i) for i in range(5)] + [("set", i) for i in range(5)] + [("print", 0)]


def j03_token(item, st):
    """Histories of single getters and setters of one token in a list, each getter judged where it stands."""
    how, ops = item
    t = guard(impl.Tokens)
    guard(t.create_append_token, "OTHER", 1, 6)
    if how == "create":
        guard(t.create_append_token, "ABC", 7, 10)
    else:
        guard(t.insert_token if how == "insert" else t.append_token, *((guard(impl.Token, "ABC", 7, 10),) + ((1,) if how == "insert" else ())))
    v = ["ABC", 7, 10, 0, 0]
    o = guard(t.get_token_at, 1)
    prev = how
    for n, (op, i) in enumerate(ops):
        st.transition(prev, (op, i), (op, i))
        prev = (op, i)
        if op == "get":
            got = guard(getattr(o, "get_token_" + A_GETS[i]))
            if got != v[i]:
                raise Violation("%s of the token reads %r, expected %r" % (A_GETS[i], got, v[i]))
        elif op == "print":
            with contextlib.redirect_stdout(io.StringIO()):
                guard(o.print_token)
        else:
            x = ("S%d" % n, 100 + n, 200 + n, impl.TokenBaseType(n + 3), impl.TokenSubType(n + 20))[i]
            v[i] = x
            guard(getattr(o, "set_token_" + A_GETS[i]), x)
    got = [tview(x) for x in guard(t.get_tokens)]
    if got != [("OTHER", 1, 6, 0, 0), tuple(v[:3]) + (int(v[3]), int(v[4]))]:
        raise Violation("the list is %r, expected the token %r after OTHER" % (got, v))


W_OPS = ["twin", "equal", "new", "hold", "put", "insert", "fill last", "fill held", "fill all", "cut", "list"]


def twin_history(ops):
    """Lists of tokens with the same text and places, some of them in several places or lists, filled in by
    their owner; everything read after every operation."""
    lists, states, held = [(guard(impl.Tokens), ListModel(), [])], [], None
    for n, op in enumerate(ops):
        t, m, cells = lists[-1]
        k = len(cells)
        if op == "twin":
            guard(t.create_append_token, "ABC", 0, 3)
            cells.append(["ABC", 0, 3, 0, 0])
        elif op == "equal":
            guard(t.append_token, guard(impl.Token, "ABC", 0, 3))
            cells.append(["ABC", 0, 3, 0, 0])
        elif op == "new":
            guard(t.append_token, guard(impl.Token))
            cells.append(["", 0, 0, 0, 0])
        elif op == "hold":
            if k:
                held = (guard(t.get_token_at, k - 1), cells[-1])
        elif op == "put":
            if held:
                guard(t.append_token, held[0])
                cells.append(held[1])
        elif op == "insert":
            if held:
                guard(t.insert_token, held[0], 0)
                cells.insert(0, held[1])
        elif op == "cut":
            guard(t.remove_tokens_from_end_of_list, 0)
            del cells[1:]
        elif op == "list":
            lists.append((guard(impl.Tokens), ListModel(), []))
        else:
            some = ([held] if held else []) if op == "fill held" else [
                (guard(t.get_token_at, i), cells[i]) for i in ([k - 1] if op == "fill last" else range(k)) if k]
            for j, (o, c) in enumerate(some):
                c[:] = ["S%d" % (10 * n + j), 500 + 10 * n + j, 600 + 10 * n + j, n % 18 + 1, n % 50 + 1]
                for f, x in zip((o.set_token_string, o.set_token_start_index, o.set_token_end_index, o.set_token_base_type, o.set_token_sub_type), c):
                    guard(f, x)
        for t, m, cells in lists:
            m.items = [tuple(c) for c in cells]
            observe(t, m, deep=False)
        if held and tview(held[0]) != tuple(held[1]):
            raise Violation("a token kept by its owner reads %r, expected %r, after %r" % (tview(held[0]), tuple(held[1]), ops[:n + 1]))
        states.append((op,) + tuple(len(m.items) for _, m, _ in lists))
    return states


def j03_twins(ops, st):
    prev = None
    for s in twin_history(ops):
        st.transition(prev, s[0], s)
        prev = s


def j03_twins_first(ops, st):
    prev = None
    for s in in_child(twin_history, ops):
        st.transition(prev, s[0], s)
        prev = s


def c03(tier):
    th = tier == "thorough"
    d = 6 if th else 5
    build = [(), (("append", 0),) * 2, (("append", 0),) * 3 + (("next", 0),) * 2, (("create", 0),) * 5 + (("last", 0),),
             (("create", 0),) * 3 + (("next", 0),) * 5, (("create", 0),) * 3 + (("prev", 0),) * 3]

    def gen():
        for n in range(d + 1):
            for h in itertools.product(L_OPS, repeat=n):
                yield h

    def from_built():
        for b in build[1:]:
            for n in range(4 if not th else 5):
                for h in itertools.product(L_OPS, repeat=n):
                    yield b + h

    def walks():
        for n in range(1, 8):
            for h in itertools.product((("next", 0), ("prev", 0), ("first", 0), ("last", 0)), repeat=min(7, 9 - n // 2)):
                yield (("create", 0),) * n + h

    def sizes():
        for n in (0, 1, 2, 5, 10, 50, 100, 300, 1030, 2100):
            for cut in (0, 1, n // 2, n - 1, n, n + 5, -1, -2, -n, -n - 1, -n - 2):
                yield (("create", 0),) * n + (("cut", cut),) + (("next", 0),) * 3
            yield (("create", 0),) * n + (("next", 0),) * (n + 3) + (("prev", 0),) * (n + 6)
            yield (("append", 0),) * n + (("last", 0),) + (("prev", 0),) * (n + 3) + (("next", 0),) * (n + 6)

    def looked():
        for n in range(1, (4 if not th else 5) + 1):
            for h in itertools.product(L_OPS2, repeat=n):
                if any(o[0] in ("look", "set") for o in h):
                    yield h
        for b in build[1:]:
            for h in itertools.product(L_OPS2, repeat=3 if th else 2):
                yield b + h
                for o in L_LOOKS:
                    yield b + (o,) + h

    fams = [Family("all histories of <= %d operations" % d, gen, j03, 64),
            Family("histories of operations and of reads and settings in between", looked, j03_last, 64),
            Family("all histories of single getters and setters of a token", lambda: (
                (how, h) for n in range(1, 6 if th else 5) for h in itertools.product(A_OPS, repeat=n) for how in ("create", "append", "insert")),
                j03_token, 64),
            Family("tokens with the same text and places, filled in by their owner", lambda: (
                h for n in range(7 if th else 6) for h in itertools.product(W_OPS, repeat=n)), j03_twins, 128),
            Family("the same, in processes that have made no token", lambda: (
                h for n in range(5 if th else 4) for h in itertools.product(W_OPS, repeat=n)), j03_twins_first, 32, fresh=True),
            Family("continuations of built lists", from_built, j03, 32),
            Family("all walks of the cursor", walks, j03, 32), Family("long lists", sizes, j03), Family("long lists, looked at all along", sizes, j03_long)]
    return fams, "all histories of up to %d of %d operations on a token list, every observation (count, list, current, indexed reads -n-2..n+2, " \
        "peeks -2..7) after the last ones; all continuations of up to %d operations of 5 built lists; all cursor walks over lists of 1 to 7" % (
            d, len(L_OPS), 4 if th else 3)


# -- C21 ------------------------------------------------------------------------------------------

def strip_pos(s):
    def cut(t):
        return t[:1] + t[3:]
    v, rules, recs, errs = s
    return v, rules, tuple(cut(r) for r in recs), tuple(cut(r) for r in errs)


_CANON = {}


def j21(field, st):
    texts = tuple(t for t, _, _ in spec.segment(field, spec.DELIMS))
    ref = _CANON.get(texts)
    if ref is None:
        canon = " ".join(texts)
        ref = strip_pos(impl.snapshot(*guard(impl.parse, canon)))
        m = spec.parse(canon, True)
        st.model(m)
        _CANON.clear() if len(_CANON) > 5000 else None
        _CANON[texts] = ref
    st.count("layouts")
    got = strip_pos(impl.snapshot(*guard(impl.parse, field)))
    if got != ref:
        raise Violation("layout changes the outcome", expected=ref, got=got)


L21 = LAYOUT_SEQS + [
    ("SPV",), ("SPV", "IFR", "PRP", "SL", "SPV"), ("SPALT", "PRP", "STOP", "START", "LLM"), ("SPALT", "C", "SL", "LLD", "SL", "PLUS"),
    ("SPALT", "PRP", "TL", "PRP"), ("SPALT", "SPALT", "SL", "SPALT"), ("SPALT", "SL", "PRP", "SL"), ("SPALT", "STAY", "SL", "UNK"),
    ("SPALT", "PRP", "VFR", "IFR", "PRP", "SL", "SPV"), ("SPALT", "PRP", "SS"), ("SL", "SPALT", "PRP"), ("SPALT", "LLD", "LLM"),
    ("UNK", "SL", "PRP"), ("SPALT", "PRP", "VFR", "SL", "SL", "UNK"), ("SPALT", "PRP", "OAT", "UNK", "SL", "RT"), ("SPALT", "SPALT!"),
]


def c21(tier):
    from .checks_parse import roomy
    th = tier == "thorough"
    seps = SEPS if th else SEPS[:5]

    def uniform():
        for c in itertools.product(F.COARSE, repeat=3):
            t = F.realise(("SPALT", "PRP") + c)
            for sep in ("\n", "\t", "\r", "  ", "\r\n", " \t\n"):
                yield sep.join(t)
            yield "\t" + F.join(t) + "\n\n"

    def tokens_only():
        for c in itertools.product(F.CLASSES, repeat=2):
            t = F.realise(("SPALT",) + c)
            for ws in (" ", "\n", "\t", "\r"):
                for ld in ("", ws, ws * 2):
                    for tr in ("", ws, ws * 3):
                        yield ld + ws.join(t) + tr
                        yield ld + F.join(t) + tr

    def blanks():
        for n in range(7):
            for w in itertools.product(" \n\t\r", repeat=n):
                yield "".join(w)

    def from_all_states():
        from .checks_parse import prefixes
        for p in prefixes("mid"):
            t = F.realise(p)
            for c in F.COARSE[::2]:
                u = t + [F.VARIANTS[c][0]]
                yield "\n".join(u)
                yield "  " + "\t ".join(u) + "\r\n"
                yield F.join(u)

    LAYS = [lambda u: "\n".join(u), lambda u: "\t" + F.join(u) + "\r", lambda u: " \r\n".join(u) + "\n"]

    def all_states():
        from .checks_parse import prefixes
        for i, p in enumerate(prefixes("full")):
            t = F.realise(p)
            for j, c in enumerate(F.CLASSES):
                yield LAYS[(i + j) % 3](t + [F.VARIANTS[c][0]])

    def histories():
        """All histories of 2 of the grammar segments."""
        for i, a in enumerate(F.SEGS_MORE):
            for j, b in enumerate(F.SEGS_MORE):
                t = F.realise(("SPALT",) + a + b)
                for k in range(3) if th else ((i + j) % 3,):
                    yield LAYS[k](t)

    def one_gap():
        """Long histories where a single gap, anywhere, is laid out differently."""
        segs = F.SEGS_FEW
        for i, a in enumerate(segs):
            t = F.realise(("SPALT",) + a + segs[(i + 3) % len(segs)] + segs[(i + 7) % len(segs)] + a)
            for g in range(len(t) + 1):
                for w in ("\n", "\r", "\t", "  ", "\n\n", " " * 70):
                    if g in (0, len(t)):
                        yield (w if g == 0 else "") + F.join(t) + (w if g else "")
                    else:
                        yield F.join(t[:g]) + w + F.join(t[g:])

    def wide():
        for n in list(range(3, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 10000]:
            for q in L21[::2] if n < 100 else L21[:8]:
                t = F.realise(q)
                for w in (" ", "\n", "\t", "\r", " \n"):
                    yield w * n + F.join(t) + w * n
                    yield (w * n).join(t)

    def long_laid_out():
        for i, f in enumerate(F.long_fields()):
            yield (f.replace(" ", "\n").replace("/", " / "), f.replace(" ", "\t \t"), "\r\n" + f.replace("/", "/\r") + "\n")[i % 3]

    def huge_laid_out():
        for i, f in enumerate(F.huge_fields((270, 1030, 2600))):
            yield (f.replace(" ", "\n").replace("/", " / "), "  " + f.replace(" ", "\r\n").replace("/", "\t/") + " ")[i % 2]

    def shaped():
        for f in itertools.chain(F.shape_fields(), F.wide_fields((24, 25, 26, 65, 129, 257, 1025))):
            yield f.replace(" ", "\n").replace("/", " / ")
            yield "\r\n" + f.replace(" ", " \t") + " "

    def odd():
        for f in F.odd_fields(F.EXPRESSIONS):
            if not set(f) & set("\r\n\t"):
                yield f.replace(" ", "\r").replace("/", "\n/ ")

    def slashes():
        pre = ["N0450F350 ABC", "N0450F350 ABC VFR IFR DEF", "N0450F350 ABC STAY1", "N0450F350 ABC C", "N0450F350 ABC C/DEF", "N0450F350",
               "N0450F350 ABC/", "6B6B", "N0450F350 ABC OAT X", "N0450F350 ABC B9"]
        post = ["N0320F100", "N0320VFR", "0130", "DEF", "", "N0320F100F200", "6B6B", "/", "C", "IFR"]
        ws = ["", " ", "\n", "\t", "\r", "  ", "\n ", " \r\n"]
        for a in pre:
            for b in post:
                for x in ws:
                    for y in ws:
                        for z in ("", " GHI", "\nGHI/N0450F350"):
                            yield a + x + "/" + y + b + z

    fams = [Family("all layouts of %d sequences" % len(L21), lambda: layouts([F.realise(s) for s in L21], seps), j21, 64),
            Family("uniform layouts of all sequences", uniform, j21), Family("layouts of all pairs of classes", tokens_only, j21),
            Family("blank fields", blanks, j21), Family("every state in three layouts", from_all_states, j21),
            Family("every abstract state x every class, laid out", all_states, j21, 64),
            Family("histories of 2 of %d grammar segments, laid out" % len(F.SEGS_MORE), histories, j21),
            Family("one odd gap anywhere in a long history", one_gap, j21),
            Family("white space around '/'", slashes, j21),
            Family("wide white space", wide, j21),
            Family("long fields in three layouts", long_laid_out, j21),
            Family("fields of 270 to 2,600 elements in two layouts, with room to recurse", huge_laid_out, roomy(j21)),
            Family("shapes and limits of every class in two layouts", shaped, j21),
            Family("odd texts in two layouts", odd, j21)]
    if th:
        fams.append(Family("uniform layouts of all 4 element sequences", lambda: (
            s.join(F.realise(("SPALT",) + c)) for c in itertools.product(F.COARSE, repeat=4) for s in ("\n", "\t", " \r\n")), j21, 64))
    return fams, "every combination of %d separators between the elements of %d sequences and 3 around '/'; uniform layouts of all %d sequences " \
        "of 3 classes; 64 layouts around '/' in 100 contexts" % (len(seps), len(L21), len(F.COARSE) ** 3)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C21": c21}
