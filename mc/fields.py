"""Alphabets of field elements and generators of element sequences."""
import itertools
import re
import unicodedata

from . import spec

# Several texts per element class; the text used depends on the place in the sequence, so that elements
# that swap places, are lost, repeated or mixed up become visible.
VARIANTS = {
    "UNK": ["6B6B", "AB#", "abc", "1234567", "N045F350", "2460", "A-B", "0x"],
    "SL": ["/"],
    "VFR": ["VFR"], "OAT": ["OAT"], "STOP": ["IFPSTOP"],
    "SPV": ["N0320VFR", "K0611VFR", "M047VFR", "N0099VFR", "M121VFR", "K1203VFR"],
    "IFR": ["IFR"], "GAT": ["GAT"], "START": ["IFPSTART"],
    "DCT": ["DCT"],
    "STAY": ["STAY%d" % d for d in (1, 2, 9, 0, 5)],
    "T": ["T"], "C": ["C"],
    "PRP": ["ABC", "D", "EFGHI", "KL", "MNO", "P", "QRSTU", "VW", "XYZ", "B", "CDEFG", "IJ"],
    "AERO": ["LFPG", "EGLL", "EDDF", "KJFK", "LSZH", "EHAM"],
    "BD": ["ABC120030", "D359001", "EFGHI000999", "KL360100", "MNO045007"],
    "LLD": ["10N020E", "11S021W", "12N022W", "13S023E", "14N024E", "15N025E", "16S026W", "17N027E",
            "18N028W", "19S029E"],
    "LLM": ["3015N04030E", "3130S04145W", "3245N04200W", "3301S04359E", "3459N04401E", "3500N04500E"],
    "LLBD": ["50N060E090060", "51S061W180120", "52N062W270030", "53S063E001250", "54N064E359010"],
    "LLBM": ["5015N06030E090060", "5130S06145W200010", "5245N06200W300020", "5301S06359E040040"],
    "RT": ["B9", "UL607", "A1", "UM982", "J225W", "L9", "UB99", "G1R"],
    "SS": ["ABC1D", "FIVER2", "DVR3X", "HELEN1B", "OCK22A", "LUSAR4"],
    "SPALT": ["N0451F350", "K0802S1130", "M083A055", "N0454M0840", "K0855F295", "M086S1010", "N0457A090",
              "K0808M0610", "M089F410", "N0430S0960", "K0761A120", "M082M0720"],
    "SAA": ["N0411F200F300", "K0812S0500S0700", "M073A050F120", "N0414M0300A095", "K0815F210M0900",
            "M076S0910A200", "N0417A040S0810", "K0818M0710F310"],
    "PLUS": ["N0421F330PLUS", "K0822S1010PLUS", "M074A110PLUS", "N0424M0730PLUS", "K0825F275PLUS",
             "M076M0640PLUS"],
    "TL": ["ABCDEFGHIJKLMNOPQRSTUVWXYZ", "N0450F350N0450F350N0450F350", "9" * 26, "X" * 40],
    "ST": ["0130", "0001", "2359", "1000", "0059"],
    "SID": ["SID"], "STAR": ["STAR"],
    # semantically wrong values
    "LLD!": ["91N020E", "10S181W", "99N999E"],
    "LLM!": ["9001N04030E", "3060S04145W", "3245N18001W", "3301S04360E"],
    "BD!": ["ABC361030", "D999001"],
    "LLBD!": ["50N060E361060", "92S061W180120", "52N199W270030"],
    "LLBM!": ["5075N06030E090060", "5130S06145W400010", "5245N18100W300020"],
    "SPALT!": ["N0450F351", "K0800F009", "M082F202"],
    "SAA!": ["N0411F201F302", "K0812S0500F703", "M073F101A012"],
    # markup and odd characters
    "ODD": ["A<B", "&AMP;", "\"Q\"", "A!B", "'X'", "é", "١٢", "]]>", "A>B", "<!--", "&", "!"],
}
CLASSES = ["UNK", "SL", "VFR", "OAT", "STOP", "SPV", "IFR", "GAT", "START", "DCT", "STAY", "T", "C", "PRP",
           "AERO", "BD", "LLD", "LLM", "LLBD", "LLBM", "RT", "SS", "SPALT", "SAA", "PLUS", "TL", "ST",
           "SID", "STAR"]
# one class per behaviour of the grammar (classes with the same row in every table merged)
COARSE = ["UNK", "SL", "VFR", "OAT", "SPV", "IFR", "GAT", "DCT", "STAY", "T", "C", "PRP", "LLD", "RT",
          "SS", "SPALT", "SAA", "TL", "ST", "SID", "STAR"]
WRONG = ["LLD!", "LLM!", "BD!", "LLBD!", "LLBM!", "SPALT!", "SAA!"]


def realise(classes, turn=0):
    """Texts of a sequence of classes; with another turn other texts of the same classes."""
    out = []
    for c in classes:
        v = VARIANTS[c]
        out.append(v[(len(out) + turn) % len(v)])
    return out


def join(texts):
    """A field: blanks between elements, none around '/'."""
    s = []
    prev = "/"
    for t in texts:
        if t != "/" and prev != "/":
            s.append(" ")
        s.append(t)
        prev = t
    return "".join(s)


def field(classes, turn=0):
    return join(realise(classes, turn))


def words(alphabet, k, first=()):
    """All fields  first . alphabet^k"""
    for w in itertools.product(alphabet, repeat=k):
        yield field(tuple(first) + w)


def words_upto(alphabet, k, first=(), lo=0):
    for j in range(lo, k + 1):
        yield from words(alphabet, j, first)


def segments(segs, k, first=()):
    """All fields made of k multi element segments (each a tuple of classes)."""
    for w in itertools.product(segs, repeat=k):
        yield field(tuple(first) + tuple(itertools.chain.from_iterable(w)))


def segments_upto(segs, k, first=(), lo=0):
    for j in range(lo, k + 1):
        yield from segments(segs, j, first)


def access_prefixes(alphabet, depth, key=lambda a: a, firsts=(("SPALT",), ("SPV",), ("UNK",))):
    """Shortest class sequence into every abstract state of the machine (breadth first)."""
    seen = {}
    frontier = [tuple(f) for f in firsts]
    for f in frontier:
        a = key(_last_state(f))
        seen.setdefault(a, f)
    for _ in range(depth):
        nxt = []
        for w in frontier:
            for c in alphabet:
                v = w + (c,)
                a = key(_last_state(v))
                if a is not None and a not in seen:
                    seen[a] = v
                    nxt.append(v)
        frontier = nxt
        if not nxt:
            break
    return list(seen.values())


def _last_state(classes):
    toks = []
    pos = 0
    for t in realise(classes):
        toks.append((t, pos, pos + len(t)))
        pos += len(t) + 1
    m = spec.Machine(toks, True).run()
    if not m.trace or m.trace[-1][0] != m.n:
        return None
    return m.trace[-1][1]


def from_states(prefixes, alphabet, k):
    """Every access prefix followed by every word of length k."""
    for p in prefixes:
        yield from words(alphabet, k, p)


def turned_states(prefixes, alphabet, turns):
    """Every access prefix followed by every class, in other texts of the same classes."""
    for t in turns:
        for p in prefixes:
            for c in alphabet:
                yield field(p + (c,), t)


_POOL = {}


def twin(text):
    """The field with every element replaced by another text of the same class (where there is one)."""
    if not _POOL:
        for c, v in VARIANTS.items():
            if c != "ODD":
                for t in v:
                    _POOL.setdefault((c[-1] == "!", spec.classify(t)), []).append(t)
    out = []
    for i, (t, _, _) in enumerate(spec.segment(text, " \n\t\r/")):
        k = spec.classify(t)
        same = [v for v in _POOL.get((False, k), []) + _POOL.get((True, k), []) if v != t and len(t) <= 25]
        out.append(same[i % len(same)] if same else t)
    return join(out)


# grammar segments for long histories
SEGS = [
    ("PRP",), ("RT", "PRP"), ("DCT", "PRP"), ("LLD",), ("DCT", "LLM"), ("BD",), ("AERO",),
    ("PRP", "SL", "SPALT"), ("PRP", "SL", "SPV", "UNK", "IFR", "PRP", "SL", "SPALT"),
    ("PRP", "VFR", "PRP", "RT", "IFR", "LLD", "SL", "SPALT"),
    ("PRP", "VFR", "IFR", "PRP", "SL", "SPV"),
    ("PRP", "OAT", "SL", "GAT", "PRP"), ("PRP", "STOP", "DCT", "START", "LLD"),
    ("C", "SL", "PRP", "SL", "SAA"), ("C", "SL", "LLD", "SL", "PLUS"), ("C",),
    ("PRP", "STAY", "SL", "ST"), ("LLBD",), ("RT", "LLM"),
    ("UNK",), ("SL",), ("IFR",), ("T",), ("SS",), ("TL",), ("SPALT",), ("PRP", "VFR", "TL", "IFR"),
    ("STAR",),
]


# more of them, and those from which long histories are built
SEGS_MORE = SEGS + [
    ("SID",), ("SS", "SS"), ("LLBM",), ("PRP", "STAY", "SL"), ("PRP", "STAY"), ("STAY", "SL", "ST"), ("ST",), ("DCT",),
    ("DCT", "DCT"), ("RT",), ("PRP", "SL"), ("PRP", "SL", "SAA"), ("PRP", "T"), ("PRP", "OAT"), ("PRP", "VFR"), ("VFR",),
    ("SPV",), ("GAT",), ("LLD", "SL", "SPALT"), ("AERO", "SL", "SPV"), ("LLD!",), ("SPALT!",), ("C", "SL", "PRP"),
    ("C", "SL", "PRP", "SL"), ("C", "SL", "PRP", "SL", "SPALT"), ("UNK", "UNK"), ("LLD", "STAY", "SL", "ST"),
]
SEGS_FEW = [
    ("PRP",), ("RT", "PRP"), ("DCT", "LLD"), ("LLBM",), ("PRP", "SL", "SPALT"), ("PRP", "SL", "SPV", "IFR", "PRP", "SL", "SPALT"),
    ("PRP", "VFR", "UNK", "IFR", "LLD", "SL", "SPALT"), ("PRP", "OAT", "RT", "GAT", "PRP"), ("PRP", "STOP", "START", "LLD"),
    ("C", "SL", "PRP", "SL", "SAA"), ("PRP", "STAY", "SL", "ST"), ("UNK",), ("SS",), ("STAR",), ("T",), ("SPALT",),
]


# Histories in which everything has happened: every handler, every kind of element and (in the second half) every kind of error.
_ALL_CLEAN = [
    ("SID", "PRP"), ("RT", "PRP"), ("DCT", "LLM"), ("LLBD",), ("C", "SL", "LLD", "SL", "PLUS"), ("PRP", "STAY", "SL", "ST"), ("LLD",), ("BD",),
    ("AERO", "SL", "SPALT"), ("PRP", "VFR", "PRP", "RT", "IFR", "LLD", "SL", "SPALT"), ("LLBM",), ("PRP", "OAT", "SL", "GAT", "PRP"),
    ("C", "SL", "PRP", "SL", "SAA"), ("PRP", "SL", "SPV", "UNK", "IFR", "PRP", "SL", "SPALT"), ("C", "PRP"), ("PRP", "STOP", "DCT", "START", "LLD"),
    ("DCT", "LLD"), ("LLD", "STAY", "SL", "ST"), ("PRP", "VFR", "IFR", "PRP", "SL", "SPV", "IFR", "LLM", "SL", "SPALT"), ("RT", "C", "PRP"),
]
_ALL_ERRORS = [
    ("UNK",), ("SL",), ("IFR",), ("T", "PRP"), ("SS", "PRP"), ("TL", "PRP"), ("STAR", "PRP"), ("ST",), ("PRP", "STAY", "PRP"), ("STAY", "SL", "ST"),
    ("RT", "LLM"), ("DCT", "DCT", "LLD!"), ("SPALT!",), ("RT", "RT", "BD!"), ("GAT", "PRP", "SL"), ("SAA", "PLUS"), ("C", "SL", "PRP", "SL", "SPALT"),
    ("SPV", "IFR", "PRP", "SL", "SPALT"), ("SID", "LLBD!"), ("RT", "SL", "PRP"),
]


def everything():
    def flat(segs):
        return ("SPALT",) + tuple(c for s in segs for c in s) + ("PRP",)
    a, b = _ALL_CLEAN, _ALL_ERRORS
    mix = [x for p in zip(a, b) for x in p]
    out = [flat(a), flat(a[1:][::-1]), flat(b), flat(mix[:24]), flat(mix[16:]), flat(b[::-1] + a[4:10])]
    assert all(len(w) < 120 for w in out)
    return out


def after_everything(prefixes, alphabet, k, which=None):
    """Every access prefix and every word of length k after a long history of everything."""
    ev = everything()
    for w in which or range(len(ev)):
        h = ev[w]
        for p in prefixes:
            yield from words(alphabet, k, h + p[1:])


# -- characters without a meaning -----------------------------------------------------------------

ODD_PLACES = ["%s", "N0450F350 %s", "N0450F350 ABC %s DEF", "N0450F350 ABC VFR %s IFR %s ABC/N0450F350", "N0450F350 ABC/%s", "N0450F350 ABC1D %s",
              "N0450F350 ABC B9 %s", "N0450F350 ABC DCT %s", "N0450F350 ABC STAY1 %s", "N0450F350 ABC STAY1/%s", "N0450F350 ABC STAY1/0130 %s",
              "N0450F350 ABC C/%s/", "N0450F350 ABC C/DEF/%s", "N0450F350 ABC C/DEF %s", "N0450F350 ABC T %s", "N0120VFR IFR %s/N0450F350",
              "N0450F350 6B6B %s %s", "N0450F350 ABC STAR %s"]
EXPRESSIONS = ["\\1", "\\g<0>", "\\g<x>", "\\q", "\\", "\\\\", "(", ")", "[", "[a", "{0}", "{}", "{", "}", "{name}", "{!r}", "%s", "%d", "%", "%%",
               "%(a)s", "$1", "$", "${a}", "^", "*", "+", "?", "|", ".", "a|b", "(?:", "(?P<x>", "\\N", "\\u0041", "\\x41", "!", "!!", "!A!", "A!",
               "&lt;", "<a>", "'", '"', "\\n", "#", ";", ":", ",", "~", "`", "@", "=", "-", "_", "-1", "+1", "1_0", "1e5", "0x1F", "NaN", "None", "True",
               "\u0663", "\uff11\uff12\uff13\uff14", "\u00b2", "A\u0301", "\u0130", "\u00df", "\ufb01", "\u200b", "\u00a0", "\u2003", "\u2028", "\x85",
               "\x0b", "\x0c", "\x1c", "\x1f", "\x00", "\x7f", "\ufeff", "\ud800", "\U0001f600", "\U0010ffff"]


def odd_texts():
    for c in range(0x20, 0x17f):
        yield chr(c)
        yield "A%sB" % chr(c)
        yield "12%s" % chr(c)
        yield chr(c) + "C"
    yield from EXPRESSIONS
    for e in EXPRESSIONS:
        yield "AB" + e + "1"
        yield e * 26
        yield "N0450" + e + "F350"
        yield "A" * 26 + e


def odd_fields(texts=None, places=ODD_PLACES):
    for t in texts or odd_texts():
        for p in places:
            yield p.replace("%s", t)


_CONFUSABLE = []


def confusables():
    """Every character beyond Latin-1 that some conversion or character class takes for a letter, digit or blank of field 15."""
    if not _CONFUSABLE:
        for i in range(0x180, 0x110000):
            if 0xd800 <= i < 0xe000:
                continue
            c = chr(i)
            conv = {c.upper(), c.lower(), c.casefold(), c.title(), unicodedata.normalize("NFKC", c), unicodedata.normalize("NFKD", c)}
            if c.isspace() or c.isnumeric() or unicodedata.category(c) in ("Cf", "Zs", "Zl", "Zp") or \
                    any(x.isascii() and x.isalnum() or x in "/ " for t in conv - {c} for x in t):
                _CONFUSABLE.append(c)
    return _CONFUSABLE


def every_char():
    """Every character of the basic plane and the odd ones beyond it (delimiters left out)."""
    for i in range(0x21, 0x10000):
        if i != 0x2f:
            yield chr(i)
    for c in confusables():
        if ord(c) > 0xffff:
            yield c
    for i in range(0x10000, 0x110000, 0x333):
        yield chr(i)


def confusable_fields():
    for c in confusables():
        yield "N0450F350 A%sC DCT DEF%s %s" % (c, c, c)
        yield "N0450F350 ABC/N0%s50F350 1%sN020E %s0N020E ABC12003%s STAY%s/0130" % (c, c, c, c, c)
        yield "N0450VFR ABC%sDEF IF%s IFR GHI/N0450F35%s J%s/K0800S1130" % (c, c, c, c)
        yield "%s N0450F350 C/ABC/M08%sF350F390 V%sR JKL" % (c, c, c)


def char_fields():
    for c in every_char():
        yield "N0450F350 A%sB VFR %s1 IFR C%s/N0450F350 %s STAY1/01%s0 DEF" % (c, c, c, c, c)


def odd_pairs():
    sp = [chr(c) for c in range(0x21, 0x7f) if not chr(c).isalnum()]
    for a in sp:
        for b in sp:
            yield "N0450F350 A%s%sB %s%s" % (a, b, a, b)
            yield "N0450F350 ABC VFR %s%s" % (a, b)


def long_fields():
    """Every segment and class repeated to fields of 7 to 100 elements, then every class."""
    for seg in SEGS + [(c,) for c in CLASSES]:
        for n in (7, 11, 17, 26, 33, 51, 64, 100):
            pre = ("SPALT",) + seg * max(1, (n - 1) // len(seg))
            texts = realise(pre)
            yield join(texts)
            for c in CLASSES if n in (11, 33, 100) else CLASSES[::5]:
                v = VARIANTS[c]
                yield join(texts + [v[n % len(v)], "ZZ"])
    for a in SEGS:
        for b in SEGS:
            for n in (6, 20):
                yield field(("SPALT",) + a * (n // len(a) + 1) + b * (n // len(b) + 1) + a)


def huge_fields(sizes=(270, 530, 1030, 2600)):
    """Every segment and class, and histories of everything, repeated to fields of 270 to 2,600 elements, and what follows."""
    ev = [w[1:] for w in everything()]
    for i, seg in enumerate(SEGS + [(c,) for c in CLASSES] + ev):
        for n in sizes:
            texts = realise(("SPALT",) + tuple(seg) * ((n - 1) // len(seg)))
            yield join(texts)
            c = CLASSES[(i * 5 + n) % len(CLASSES)]
            yield join(texts + [VARIANTS[c][n % len(VARIANTS[c])]] + realise(("SPALT", "UNK", "LLD", "DCT", "LLM", "SL", "SPALT", "PRP", "VFR", "PRP"))[1:])


# -- shapes and limits of every class in every kind of place ---------------------------------------

SPEEDS = ["N0000", "N0001", "N0999", "N1000", "N9999", "K0000", "K0100", "K9999", "M000", "M001", "M100", "M999"]
LEVELS = ["F000", "F005", "F050", "F100", "F360", "F995", "F999", "A000", "A001", "A100", "A999", "S0000", "S0001", "S1100", "S9999",
          "M0000", "M0010", "M1101", "M9999"]
NAMES = ["A", "Z", "AA", "AAA", "AAAA", "AAAAA", "ZZZZZ", "TT", "CC", "CT", "TC", "VF", "VFRA", "AVFR", "IFRA", "DCTA", "DC", "OATS", "GATE",
         "SIDA", "SIDS", "STARS", "STA", "STAY", "STAYA", "ADEP", "ADES", "NULL", "NONE", "PLUS", "TRUE", "NAN", "INF", "IFPS", "IFR", "M", "N",
         "K", "F", "S", "E", "W", "NAT", "NE", "XN", "A1", "Z9", "AB1", "A12", "A123", "AB12", "AB123", "ABC1", "ABC12", "A1B", "AB1C", "A12B",
         "UA123", "UA123B", "NATA", "NATZ", "ABCD1", "ABCDE1", "ABCDEF1", "ABCDE12", "ABCD12E", "ABC1A", "ABCDE1A", "ABCDE1AB", "AB1A", "ABC99Z",
         "1", "12", "123", "1234", "0000", "0001", "0100", "0059", "0060", "0160", "2359", "2400", "9999", "12345", "STAY0", "STAY3", "STAY10",
         "STAY99", "STAY1A", "IFPSTOP", "IFPSTART", "IFPSTOPS", "IFPSTARTS", "A" * 25, "A" * 26, "1" * 25, "1" * 26]
COORDS = ["00N000E", "00S000W", "90N180E", "90S180W", "89N179W", "01S001E", "91N000E", "00N181W", "45N099E", "9N180E",
          "0000N00000E", "0000S00000W", "9000N18000E", "9000S18000W", "8959N17959W", "0001S00001E", "9001N00000E", "0000N18001W", "0060N00000E",
          "0000N00060W", "4530N0990E", "0099S00099E"]
OFFSETS = ["000000", "000001", "001000", "090001", "180180", "270999", "359999", "360000", "360999", "361000", "999999"]


def shapes():
    for a in SPEEDS:
        yield a
        yield a + "VFR"
        yield a + "IFR"
        for b in LEVELS:
            yield a + b
        for b in LEVELS[::4]:
            yield a + b + "PLUS"
            for c in LEVELS[::3]:
                yield a + b + c
    yield from LEVELS
    yield from NAMES
    for p in ("", "A", "ABC", "ABCDE", "ABCDEF", "00N000E", "90S180W", "9000N18000E", "0030S00030W", "91N000E", "VFR", "T", "DCT", "A1"):
        for o in OFFSETS:
            yield p + o
    yield from COORDS


SHAPE_PLACES = ["%s", "%s ABC", "N0450F350 %s", "N0450F350 %s DEF", "N0450F350 ABC %s", "N0450F350 ABC %s DEF/N0333F090 GHI", "N0450F350 10N020E %s 11N021E",
                "N0450F350 ABC/%s DEF B9 GHI", "N0450F350 ABC B9 %s DCT DEF", "N0450F350 ABC DCT %s/N0333F090 DEF", "N0450F350 %s/N0333VFR DEF IFR %s/K0444S0550",
                "N0450F350 ABC VFR %s %s IFR DEF/N0333F090 %s", "N0450F350 ABC OAT %s GAT %s DEF", "N0450F350 ABC IFPSTOP %s IFPSTART %s DEF",
                "N0120VFR %s IFR ABC/%s DEF", "N0450F350 ABC C/%s/N0450F350F390 DEF", "N0450F350 ABC C/DEF/%s GHI", "N0450F350 ABC STAY1/%s DEF",
                "N0450F350 ABC %s/0130 DEF", "N0450F350 6B6B %s ABC %s", "N0450F350 %s %s %s", "%s %s", "N0450F350 ABC T %s", "N0450F350 ABC DEF STAR %s"]


def shape_fields():
    for t in shapes():
        for p in SHAPE_PLACES:
            yield p.replace("%s", t)


LENGTHS = (22, 23, 24, 25, 26, 27, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1001, 1023, 1025, 4099, 5003)


def wide_fields(lengths=LENGTHS):
    """Elements of 22 to 5,003 characters of several textures in every kind of place, and wide white space before them."""
    for n in lengths:
        for x in ("A", "9", "A1", "N0450F350", "10N020E", "VFR", "ABC", "\u00c9", "#", "C", "-"):
            t = (x * n)[:n]
            for p in SHAPE_PLACES:
                yield p.replace("%s", t)
        for p in SHAPE_PLACES:
            yield p.replace("%s", "ABC").replace(" ", " " * n)
            yield " " * n + p.replace("%s", "QQQ1")


SAME = ["ABC", "B9", "DCT", "VFR", "IFR", "/", "N0450F350", "N0450VFR", "6B6B", "C", "10N020E"]


def same_text_words(k):
    """Sequences in which the same text occurs again and again: only positions tell them apart."""
    for j in range(1, k + 1):
        for w in itertools.product(SAME, repeat=j):
            yield join(("N0450F350",) + w)


# -- two elements that are alike in one field -------------------------------------------------------

ALIKE_BASE = {
    "PRP": ["ABC", "CDEFG"], "AERO": ["LFPG"], "BD": ["ABC120030", "D351003"], "LLD": ["12N034E", "10S120W", "01N010W"],
    "LLM": ["3015N04030E", "1203S12045W"], "LLBD": ["50N061E091060"], "LLBM": ["5013N06031E090160", "5030N06130E091060"], "RT": ["B91", "UL607", "J225W"],
    "SS": ["ABC1D", "HELEN12B"], "SPALT": ["N0451F350", "K0802S1130", "M083A055", "M082F295", "N0120M0840"], "SPV": ["N0321VFR", "M047VFR"],
    "SAA": ["N0411F205F310", "M076S0910A250", "M082F310M0120"], "PLUS": ["N0421F335PLUS", "M076M0640PLUS"], "ST": ["0130", "1012"], "UNK": ["6B61", "AB#C"],
    "TL": ["ABCDEFGHIJKLM1234567890ABCDEF"],
}
ALIKE_PLACES = {
    "PRP": ["N0450F350 %s QQ %s 16N026E", "N0450F350 %s %s", "N0450F350 10N020E/N0111F100 %s DCT %s 10N020E %s", "N0450F350 10N020E %s 10N020E %s",
            "N0450F350 %s 10N020E %s 10N020E", "N0450F350 ABC VFR %s IFR %s/N0333F090 %s %s"],
    "SPALT": ["%s ABC/%s DEF", "N0450F350 ABC/%s DEF/%s GHI", "N0450F350 ABC VFR IFR DEF/%s GHI/%s JKL"],
    "SAA": ["N0450F350 ABC C/DEF/%s C/GHI/%s JKL"],
    "ST": ["N0450F350 ABC STAY1/%s DEF STAY1/%s GHI", "N0450F350 ABC STAY2/%s STAY1/%s"],
    "RT": ["N0450F350 ABC %s DEF %s GHI", "N0450F350 ABC %s 10N020E %s 11N021E", "N0450F350 ABC VFR %s %s", "N0450F350 %s ABC %s"],
}
for _c in ("AERO", "BD", "LLD", "LLM", "LLBD", "LLBM"):
    ALIKE_PLACES[_c] = ALIKE_PLACES["PRP"]
for _c in ("SS", "UNK", "TL"):
    ALIKE_PLACES[_c] = ALIKE_PLACES["RT"]
ALIKE_PLACES["SPV"] = ALIKE_PLACES["SPALT"]
ALIKE_PLACES["PLUS"] = ALIKE_PLACES["SAA"]


def alike(text):
    """Texts that differ from the text in one character, in the order of characters or in the letters of a unit."""
    out = []
    for i, c in enumerate(text):
        if c in "0123456789":
            other = [str((int(c) + d) % 10) for d in (1, 5)]
        else:
            other = {"N": "SKM", "S": "NFM", "E": "W", "W": "E", "F": "ASM", "A": "FSB", "M": "NKFS", "K": "NM"}.get(c, chr(65 + (ord(c) - 64) % 26))
        out += [text[:i] + x + text[i + 1:] for x in other]
    for i in range(len(text) - 1):
        out.append(text[:i] + text[i + 1] + text[i] + text[i + 2:])
    groups = re.split("([0-9]+)", text)
    for i in range(1, len(groups), 2):
        out.append("".join(groups[:i] + [groups[i][::-1]] + groups[i + 1:]))
        out.append("".join(groups[:i] + [groups[i][1:] + groups[i][:1]] + groups[i + 1:]))
        if len(groups[i]) > 3:
            out.append("".join(groups[:i] + [groups[i][:-2] + "00"] + groups[i + 1:]))
        for j in range(i + 2, len(groups), 2):
            if len(groups[i]) == len(groups[j]):
                out.append("".join(groups[:i] + [groups[j]] + groups[i + 1:j] + [groups[i]] + groups[j + 1:]))
    out += [text[1:], text[:-1], text + text[-1], text[::-1], text[:3] + text[3:].lower(), text.lower()]
    return [x for x in dict.fromkeys(out) if x and x != text]


def alike_fields():
    for c, bases in ALIKE_BASE.items():
        for b in bases:
            for x in alike(b):
                for p in ALIKE_PLACES[c]:
                    n = p.count("%s")
                    yield p % ((b, x, b, x)[:n])
                    yield p % ((x, b, x, b)[:n])
