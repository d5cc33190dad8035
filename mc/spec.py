"""Reference model of the ICAO field 15 language and of the extracted route it denotes.

Nothing in this file imports the code under test.  It is an explicit state machine: one location and
one small record store, stepped once per element.  The checks enumerate executions of this machine and
replay every one of them against the implementation.
"""
import math
from functools import lru_cache
from geographiclib.geodesic import Geodesic

MAX_LEN = 25
UPPER = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")

# ----------------------------------------------------------------------------------------------
# 1. Tokens: segmentation
# ----------------------------------------------------------------------------------------------


def segment(text, delimiters):
    """Maximal runs of non delimiters, plus every '/' that is a delimiter; with [start, end)."""
    out = []
    i, n = 0, len(text)
    while i < n:
        if text[i] in delimiters:
            if text[i] == "/":
                out.append(("/", i, i + 1))
            i += 1
            continue
        j = i
        while j < n and text[j] not in delimiters:
            j += 1
        out.append((text[i:j], i, j))
        i = j
    return out


# ----------------------------------------------------------------------------------------------
# 2. Tokens: syntax.  Written from the shapes documented in ICAO DOC 4444, not from the regexps.
# ----------------------------------------------------------------------------------------------

LITERALS = {
    "/": ("SLASH", "SLASH"), "VFR": ("BREAK_START", "VFR"), "OAT": ("BREAK_START", "OAT"),
    "IFPSTOP": ("BREAK_START", "IFPSTOP"), "IFR": ("BREAK_END", "IFR"), "GAT": ("BREAK_END", "GAT"),
    "IFPSTART": ("BREAK_END", "IFPSTART"), "DCT": ("DCT", "DCT"), "T": ("TRUNCATE", "TRUNCATE"),
    "C": ("C", "C"), "SID": ("SID", "SID_LITERAL"), "STAR": ("STAR", "STAR_LITERAL"),
}

# runs of letters (x) and digits (9) -> class
SHAPES = {}


def _shape(kind, *shapes):
    for s in shapes:
        SHAPES.setdefault(s, kind)


_shape(("POINT", "PRP"), "x", "xx", "xxx", "xxxxx")
_shape(("POINT", "PRP_AERO"), "xxxx")
_shape(("POINT", "PRP_BD"), *["x" * k + "999999" for k in range(1, 6)])
_shape(("ROUTE", "ATS"), "x9", "xx9", "x9x", "x99x", "x999x", "x99", "x999", "xx9x", "xx99", "xx999",
       "xx99x", "xx999x")
_shape(("ROUTE", "ATS_TURK"), "xxx999")
_shape(("ROUTE", "ATS_OLD"), "xxx9", "xxx99")
_shape(("ROUTE", "ATS_RUS"), "xxxx9", "xxxx99")
_shape(("SID_STAR", "STAR"), "xxx9x", "xxx99x", "xxxxx9", "xxxxx99", "xxxx9x", "xxxxx9x", "xxxxxx9x",
       "xxxxx99x")


def _level(s, i):
    """Length of a level at s[i:], 0 if none: F/A + 3 digits, S/M + 4 digits."""
    if i >= len(s):
        return 0
    n = {"F": 3, "A": 3, "S": 4, "M": 4}.get(s[i], 0)
    if n and len(s) >= i + 1 + n and all(c in DIGIT for c in s[i + 1:i + 1 + n]):
        return n + 1
    return 0


def _speed(s):
    n = {"N": 4, "K": 4, "M": 3}.get(s[:1], 0)
    if n and len(s) > n and all(c in DIGIT for c in s[1:1 + n]):
        return n + 1
    return 0


def split_speed_level(s):
    """-> (speed, level1, rest) of a speed/level style element or None."""
    i = _speed(s)
    if not i:
        return None
    j = _level(s, i)
    if j:
        return s[:i], s[i:i + j], s[i + j:]
    return s[:i], "", s[i:]


@lru_cache(maxsize=1 << 16)
def syntax(s):
    """Class of a text by its syntax alone (no length limit) -> (base, sub)."""
    k = LITERALS.get(s)
    if k:
        return k
    if not s or any(c not in UPPER and c not in DIGIT for c in s):
        return ("UNKNOWN", "UNKNOWN")
    if len(s) == 5 and s[:4] == "STAY" and s[4] in DIGIT:
        return ("STAY", "STAY")
    if len(s) == 4 and all(c in DIGIT for c in s):
        if int(s[:2]) <= 23 and int(s[2:]) <= 59:
            return ("STAY_TIME", "STAY_TIME")
        return ("UNKNOWN", "UNKNOWN")
    if s[:3] == "NAT" and ((len(s) == 4 and s[3] in UPPER) or
                           (len(s) == 5 and s[3] in UPPER and s[4] in DIGIT)):
        return ("ROUTE", "NAT")
    if s[:3] == "PTS" and len(s) == 4:
        return ("ROUTE", "PTS")
    # latitude / longitude, optionally with bearing and distance
    for n, kind in ((2, "DEG"), (4, "MIN")):
        m = 2 * n + 3          # ddNdddE / ddmmNdddmmE
        if len(s) in (m, m + 6) and all(c in DIGIT for c in s[:n]) and s[n] in "NS" and \
                all(c in DIGIT for c in s[n + 1:m - 1]) and s[m - 1] in "EW" and \
                all(c in DIGIT for c in s[m:]):
            return ("POINT", ("LL_" if len(s) == m else "LLBD_") + kind)
    k = SHAPES.get("".join("x" if c in UPPER else "9" for c in s))
    if k:
        return k
    sl = split_speed_level(s)
    if sl:
        sp, l1, rest = sl
        if not l1:
            if rest == "VFR":
                return ("SPEED_VFR", "SPEED_ALTITUDE_" + sp[0] + "V")
        elif not rest:
            return ("SPEED_ALTITUDE", "SPEED_ALTITUDE_" + sp[0] + l1[0])
        elif rest == "PLUS":
            return ("SPEED_ALTITUDE_PLUS", "SPEED_ALTITUDE_" + sp[0] + l1[0] + "_P")
        elif _level(rest, 0) == len(rest):
            return ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_" + sp[0] + l1[0] + rest[0])
    return ("UNKNOWN", "UNKNOWN")


@lru_cache(maxsize=1 << 16)
def classify(s):
    """Class of an element of a field: as syntax() but elements of more than 25 characters are too long."""
    if len(s) > MAX_LEN:
        return ("TOO_LONG", "UNKNOWN")
    return syntax(s)


# ----------------------------------------------------------------------------------------------
# 3. Values
# ----------------------------------------------------------------------------------------------

def level_metres(level):
    """Exact metres (float) of a level text."""
    v = int(level[1:])
    if level[0] in "AF":
        return v * 100 * 0.3048
    return v * 10.0


def speed_of_sound(alt):
    t = 15.0 - 0.00645 * min(alt, 11000)
    return 331.15 * math.sqrt((t + 273.15) / 273.15)


def speed_ms(speed, alt):
    v = int(speed[1:])
    if speed[0] == "N":
        return v * 0.514444
    if speed[0] == "K":
        return v * 0.2777778
    if alt == 0:
        return v / 100 * 343.0
    return v / 100 * speed_of_sound(alt)


def rnd(x):
    return int(x + 0.5)


@lru_cache(maxsize=1 << 16)
def level_si(level):
    return rnd(level_metres(level))


@lru_cache(maxsize=1 << 16)
def speed_si(speed, alt):
    return rnd(speed_ms(speed, alt))


@lru_cache(maxsize=1 << 16)
def latlong(s, sub):
    """-> (lat, lon, lat_ok, lon_ok) of the lat/long part of a point."""
    if sub.endswith("DEG"):
        la, lo = int(s[:2]), int(s[3:6])
        lat, lon = float(la), float(lo)
        okla, oklo = la <= 90, lo <= 180
        ns, ew = s[2], s[6]
    else:
        lad, lam, lod, lom = int(s[:2]), int(s[2:4]), int(s[5:8]), int(s[8:10])
        lat, lon = lad + lam / 60.0, lod + lom / 60.0
        okla = lam <= 59 and lad * 60 + lam <= 90 * 60
        oklo = lom <= 59 and lod * 60 + lom <= 180 * 60
        ns, ew = s[4], s[10]
    return (-lat if ns == "S" else lat), (-lon if ew == "W" else lon), okla, oklo


@lru_cache(maxsize=1 << 16)
def project(lat, lon, brg, nm):
    r = Geodesic.WGS84.Direct(lat, lon, brg, nm * 1852.0)
    return r["lat2"], r["lon2"]


@lru_cache(maxsize=1 << 17)
def inverse(lat1, lon1, lat2, lon2):
    r = Geodesic.WGS84.Inverse(lat1, lon1, lat2, lon2)
    return r["azi1"], r["s12"]


def same_leg(b, d, brg, dist, leg):
    """Is (b, d) the initial azimuth and length of a shortest geodesic from leg[0:2] to leg[2:4], known to be (brg, dist)?
    Between (nearly) antipodal points and from a pole small changes of the input change the azimuth: it is enough that it leads
    to the other point; which one is reported may hang on the sign of a zero."""
    if not isinstance(b, (int, float)) or not isinstance(d, (int, float)) or not abs(d - dist) <= 1e-5:
        return False
    if dist <= 1e-5 or abs(b - brg) <= 1e-8 or abs(abs(b - brg) - 360) <= 1e-8:
        return True
    if dist < 1.9e7 and abs(leg[0]) < 89.9999 or not -360 <= b <= 360:
        return False
    r = Geodesic.WGS84.Direct(leg[0], leg[1], b, d)
    return Geodesic.WGS84.Inverse(r["lat2"], r["lon2"], leg[2], leg[3])["s12"] < 1e-4


# ----------------------------------------------------------------------------------------------
# 4. The machine
# ----------------------------------------------------------------------------------------------

MESSAGES = {
    1: "The first Field 15 element must be a SPEED/LEVEL and not '!'",
    3: "The element '!' is an unrecognised Field 15 element",
    4: "Element '!' is too long for a Field 15 Element",
    5: "Expecting '/' before '!'",
    6: "No VFR section preceding this '!' rule change indicator",
    7: "No OAT section preceding this '!' rule change indicator",
    8: "No IFPSTART preceding this '!' indicator",
    9: "Expecting 'C/POINT/' before '!'",
    10: "Expecting the keyword 'STAY' before '!'",
    11: "'/' not expected preceding '!'",
    12: "Expecting a PRP after an ATS route instead of '!'",
    13: "Rule change '!' cannot occur following an ATS route element",
    14: "Cannot go direct ('!') from an ATS route element, must be preceded by a point",
    15: "'!' must be preceded by a point",
    16: "'!' cannot follow a '/'",
    17: "Expecting SPEED/LEVEL, SPEED/VFR or cruise climb point name after '/' instead of '!'",
    19: "Expecting end of field 15 after truncation indicator 'T' instead od '!'",
    20: "Field 15 is incomplete, expecting additional data after the final '!'",
    21: "A 'DCT' must be followed by a point instead of '!'",
    22: "Expecting '/SPEED/LEVEL' following '!' to complete rule change to IFR",
    23: "The first SPEED/LEVEL cannot be followed by the element '!'",
    24: "Expecting SID or DPF after first SPEED/LEVEL element instead of '!'",
    25: "Field 15 cannot end with the '!' element",
    26: "Expecting '/' after cruise / climb 'C/POINT' instead of '!'",
    27: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C/!'",
    28: "Expecting speed / altitude / altitude after start of Cruise/Climb indicator 'C/!/'",
    29: "Expecting Cruise/Climb 'SPEED/ALTITUDE/ALTITUDE' or 'SPEED/ALTITUDE/PLUS' instead of '!'",
    30: "SID '!' must follow the first SPEED/ALTITUDE and cannot appear anywhere else in field 15",
    31: "The SID must be followed by a point or STAR, cannot be followed with '!'",
    32: "The SID cannot be followed by another SID '!'",
    34: "A STAR must be the last element in field 15 and cannot be followed with '!'",
    35: "Expecting STAY time as '/HHMM' after '!'",
    36: "Expecting forward slash '/' after STAY instead of '!'",
    37: "Time value as HHMM token missing after '!'",
    38: "Expecting HHMM token following STAYx/ element",
    39: "'!' Cannot follow a STAY/HHMM' element",
    40: "The flight level '!' must end in a zero or 5",
    41: "Field 15 is empty",
    42: "Latitude degree value must be 0 to 90 instead of '!'",
    43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
    44: "Longitude degree value must be 0 to 180 instead of '!'",
    45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
    46: "Bearing degree value must be 0 to 360 instead of '!'",
    47: "ATS route '!' cannot follow a Lat/Long point",
    48: "Lat/Long '!' cannot follow an ATS route",
    49: "Field 15 contains no route description",
    50: "Expecting SPEED/LEVEL or SPEED/VFR after '/' instead of '!'",
    52: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C!'",
    53: "Add crossing point between previous ATS route and '!'",
    54: "Add APF between previous ATS route and STAR '!'",
    55: "The SPEED/LEVEL '!' cannot follow an ATS route",
}

GEO_SUBS = frozenset(["PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN"])
BREAK_END_OF = {"VFR": "IFR", "OAT": "GAT", "IFPS": "IFPSTART"}
BREAK_RULES = {"VFR": "VFR", "OAT": "OAT", "IFPSTOP": "IFPS"}
END_ERR = {"IFR": 6, "GAT": 7, "IFPSTART": 8}


class Rec:
    __slots__ = ("name", "start", "end", "base", "sub", "speed", "speed_si", "alt", "alt_si", "rules",
                 "text", "stay", "cruise", "cruise_si", "lat", "lon", "ll", "brg", "dist", "tok", "ok_ll", "leg")

    def __init__(self, name, start, end, base, sub, tok=None):
        self.name = name
        self.start = start
        self.end = end
        self.base = base
        self.sub = sub
        self.speed = self.alt = self.rules = self.text = self.cruise = ""
        self.speed_si = self.alt_si = self.cruise_si = 0
        self.stay = 0
        self.lat = self.lon = self.brg = self.dist = 0.0
        self.leg = None
        self.ll = False
        self.ok_ll = True       # coordinates within their legal range
        self.tok = tok

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Machine:
    """Runs over a list of (text, start, end).  After run(): recs, errs [(number, text, start, end,
    base, sub)], derived; trace: the abstract state at every element boundary."""

    def __init__(self, toks, want_trace=False):
        self.toks = toks
        self.kinds = [classify(t[0]) for t in toks]
        self.n = len(toks)
        self.recs = [Rec("ADEP", 0, 0, "POINT", "PRP_AERO")]
        self.errs = []
        self.derived = ""
        self.trace = [] if want_trace else None
        self.vfr_start = False

    # -- primitive actions --------------------------------------------------------------------
    def err(self, num, i):
        t = self.toks[i]
        k = self.kinds[i]
        self.errs.append((num, t[0], t[1], t[2], k[0], k[1]))

    def add(self, i, name=None):
        t = self.toks[i]
        k = self.kinds[i]
        r = Rec(t[0] if name is None else name, t[1], t[2], k[0], k[1], i)
        p = self.recs[-1]
        r.speed, r.speed_si, r.alt, r.alt_si, r.rules = p.speed, p.speed_si, p.alt, p.alt_si, p.rules
        self.recs.append(r)
        return r

    def locate(self, i, r):
        """Coordinates of the record just appended for element i; leg from the point before it."""
        s, sub = self.toks[i][0], self.kinds[i][1]
        if sub == "PRP_BD":
            if int(s[-6:-3]) > 360:
                self.err(46, i)
            return
        if sub not in GEO_SUBS:
            return
        r.lat, r.lon, okla, oklo = latlong(s, sub)
        r.ok_ll = okla and oklo
        mins = sub.endswith("MIN")
        if not okla:
            self.err(43 if mins else 42, i)
        if not oklo:
            self.err(45 if mins else 44, i)
        if sub.startswith("LLBD"):
            b = int(s[-6:-3])
            if b > 360:
                self.err(46, i)
                r.ok_ll = False
            if r.ok_ll:
                r.lat, r.lon = project(r.lat, r.lon, float(b), float(s[-3:]))
        r.ll = True
        # leg from the previous point with coordinates: adjacent, or with one connector between
        p = self.recs[-2]
        if not p.ll:
            if p.base in ("POINT", "C") or len(self.recs) < 3 or not self.recs[-3].ll:
                return
            p = self.recs[-3]
        if p.ok_ll and r.ok_ll:
            p.leg = (p.lat, p.lon, r.lat, r.lon)
            p.brg, p.dist = inverse(*p.leg)
        else:
            p.brg = p.dist = None       # no claim: a coordinate is out of range

    def point(self, i):
        r = self.add(i)
        r.rules = "IFR"
        self.locate(i, r)
        return "POINT"

    def route(self, i):
        self.add(i).rules = "IFR"
        return "ROUTE"

    def dct(self, i):
        self.add(i)
        return "DCT"

    def c(self, i):
        self.c_at = i
        return "C"

    def stay(self, i):
        self.at = i
        return "STAY"

    def truncate(self, i):
        return "TRUNC"

    def sid(self, i):
        r = self.add(i)
        if len(self.recs) == 2:
            r.base, r.sub = "SID", "SID_LITERAL" if r.name == "SID" else "SID"
            return "SIDPOST"
        return self.bad(30, i)

    def sid_star(self, i):
        if len(self.recs) == 1:
            return self.sid(i)
        return self.star(i)

    def star(self, i):
        r = self.add(i)
        if i + 1 == self.n:
            r.base, r.sub = "STAR", "STAR_LITERAL" if r.name == "STAR" else "STAR"
            return "END"
        return self.bad(34, i + 1)

    def break_start(self, i):
        self.add(i).rules = BREAK_RULES[self.kinds[i][1]]
        return "BREAK"

    def set_level(self, i, r, level):
        r.alt, r.alt_si = level, level_si(level)
        if level[0] == "F" and int(level[1:]) % 5:
            self.err(40, i)

    def spvfr(self, i):
        p = self.recs[-1]
        r = self.add(i, "VFR")
        r.rules = "VFR"
        r.alt, r.alt_si = "F050", level_si("F050")
        r.speed = self.toks[i][0][:-3]
        r.speed_si = speed_si(r.speed, r.alt_si)
        p.speed, p.speed_si, p.alt, p.alt_si = r.speed, r.speed_si, r.alt, r.alt_si
        return "BREAK"

    def apply_level(self, i):
        r = self.recs[-1]
        sp, l1, rest = split_speed_level(self.toks[i][0])
        self.set_level(i, r, l1)
        if rest == "PLUS":
            r.cruise = rest
        elif rest:
            r.cruise, r.cruise_si = rest, level_si(rest)
            if rest[0] == "F" and int(rest[1:]) % 5:
                self.err(40, i)
        r.speed, r.speed_si = sp, speed_si(sp, r.alt_si)
        r.rules = "IFR"

    def spalt(self, i):
        self.apply_level(i)
        return "ADEP" if len(self.recs) == 1 else "POINT"

    def cruise(self, i):
        self.apply_level(i)
        return "POINT"

    def bad(self, num, i):
        self.err(num, i)
        return "RESYNC"

    def end_without_start(self, i):
        return self.bad(END_ERR[self.kinds[i][1]], i)

    def break_end(self, i, here):
        """Element i may end a break.  Returns the next location; consumes through self.i."""
        n = self.n
        if i + 1 >= n or self.kinds[i + 1][0] != "POINT":
            return here
        if self.kinds[i][1] != "IFR":
            self.i = i + 2
            return self.point(i + 1)
        if i + 2 >= n:
            return self.bad(22, i + 1)
        if self.kinds[i + 2][0] != "SLASH":
            return here
        if i + 3 >= n or self.kinds[i + 3][0] not in ("SPEED_ALTITUDE", "SPEED_VFR"):
            return self.bad(22, i + 1)
        self.i = i + 4
        self.point(i + 1)
        if self.kinds[i + 3][0] == "SPEED_ALTITUDE":
            return self.spalt(i + 3)
        return self.spvfr(i + 3)

    # -- abstract state, used for coverage ----------------------------------------------------
    def abstract(self, loc):
        r = self.recs[-1]
        p = self.recs[-2] if len(self.recs) > 1 else None
        return (loc, min(len(self.recs), 3), r.base, r.sub if r.base == "POINT" else "", r.rules, r.ll,
                p.ll if p else None, self.vfr_start, bool(self.errs), r.stay > 0, r.text != "",
                r.cruise != "")

    # -- the run ------------------------------------------------------------------------------
    def run(self):
        recs, n, kinds = self.recs, self.n, self.kinds
        if n == 0:
            self.errs.append((41, "NULL", 0, 0, "UNKNOWN", "UNKNOWN"))
            recs.append(Rec("ADES", 0, 0, "POINT", "PRP_AERO"))
            return self
        k0 = kinds[0][0]
        if k0 == "SPEED_VFR":
            loc = self.spvfr(0)
            self.vfr_start = True
        elif k0 == "SPEED_ALTITUDE":
            loc = self.spalt(0)
            if n == 1:
                self.err(49, 0)
                loc = "END"
        else:
            loc = self.bad(1, 0)
        self.i = 1
        trace = self.trace
        while self.i < n and loc != "END":
            if trace is not None:
                trace.append((self.i, self.abstract(loc)))
            i = self.i
            self.i = i + 1
            loc = TABLE[loc](self, i, kinds[i][0])
        if trace is not None:
            trace.append((self.i, self.abstract(loc)))
        f = AT_END.get(loc)
        if f:
            f(self, n - 1)
        if self.vfr_start:
            recs[0].rules = "VFR"
        a = Rec("ADES", 0, 0, "POINT", "PRP_AERO")
        a.rules = recs[-1].rules
        recs.append(a)
        if recs[0].rules == "VFR":
            self.derived = "Z" if any(r.rules == "IFR" for r in recs) else "V"
        else:
            self.derived = "Y" if any(r.rules == "VFR" for r in recs) else "I"
        return self


M = Machine

# what the generic elements do, when a location allows them
DO = {"BREAK_START": M.break_start, "DCT": M.dct, "STAY": M.stay, "TRUNCATE": M.truncate, "C": M.c,
      "POINT": M.point, "ROUTE": M.route, "SID_STAR": M.sid_star, "SID": M.sid, "STAR": M.star,
      "SPEED_VFR": M.spvfr, "SPEED_ALTITUDE": M.spalt, "SPEED_ALTITUDE_ALTITUDE": M.cruise,
      "SPEED_ALTITUDE_PLUS": M.cruise}
COMMON_ERR = {"UNKNOWN": 3, "TOO_LONG": 4, "STAY_TIME": 10, "SPEED_ALTITUDE_ALTITUDE": 9,
              "SPEED_ALTITUDE_PLUS": 9}


def _loc_adep(m, i, k):
    if k in ("DCT", "TRUNCATE", "POINT", "SID_STAR", "SID", "STAR"):
        return DO[k](m, i)
    if k in COMMON_ERR:
        return m.bad(COMMON_ERR[k], i)
    return m.bad(24 if k == "ROUTE" else 23, i)


def _loc_point(m, i, k):
    if k == "SLASH":
        m.at = i
        return "FSLASH"
    if k in COMMON_ERR:
        return m.bad(COMMON_ERR[k], i)
    if k in ("SPEED_VFR", "SPEED_ALTITUDE"):
        return m.bad(5, i)
    if k == "BREAK_END":
        return m.end_without_start(i)
    if k == "ROUTE" and m.recs[-1].sub in GEO_SUBS:
        return m.bad(47, i)
    return DO[k](m, i)


ROUTE_ERR = dict(COMMON_ERR, SLASH=12, BREAK_START=13, SPEED_VFR=13, SPEED_ALTITUDE=55, DCT=14, STAY=15,
                 ROUTE=53, SID_STAR=54, STAR=54, SID=30)


def _loc_route(m, i, k):
    if k in ROUTE_ERR:
        return m.bad(ROUTE_ERR[k], i)
    if k == "BREAK_END":
        return m.end_without_start(i)
    if k == "POINT" and m.kinds[i][1] in GEO_SUBS:
        m.err(48, i)
    return DO[k](m, i)


def _loc_dct(m, i, k):
    return DO[k](m, i) if k in ("TRUNCATE", "POINT", "C") else m.bad(21, i)


def _loc_sidpost(m, i, k):
    if k in ("TRUNCATE", "POINT", "ROUTE", "SID_STAR", "STAR"):
        return DO[k](m, i)
    return m.bad({"TOO_LONG": 4, "SID": 32}.get(k, 31), i)


def _loc_c(m, i, k):
    if k == "SLASH":
        m.at = i
        return "CS"
    if k in COMMON_ERR:
        return m.bad(COMMON_ERR[k], i)
    if k in ("SPEED_VFR", "SPEED_ALTITUDE"):
        return m.bad(5, i)
    if k == "BREAK_END":
        return m.end_without_start(i)
    m.add(m.c_at)
    return DO[k](m, i)


def _end_c(m, last):
    m.add(m.c_at)


def _loc_cs(m, i, k):
    if k not in ("POINT", "C"):
        return m.bad(17, i)
    m.locate(i, m.add(i))
    m.at = i
    return "CCP"


def _end_cs(m, last):
    m.add(m.c_at)
    m.err(52, m.at)


def _loc_ccp(m, i, k):
    return "CCPS" if k == "SLASH" else m.bad(26, i)


def _loc_ccps(m, i, k):
    if k in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"):
        return m.cruise(i)
    return m.bad(29, i)


def _loc_fslash(m, i, k):
    if k in ("SPEED_VFR", "SPEED_ALTITUDE"):
        return DO[k](m, i)
    return m.bad({"UNKNOWN": 3, "SLASH": 16, "TOO_LONG": 4}.get(k, 50), i)


def _loc_resync(m, i, k):
    if k == "SLASH":
        m.at = i
        return "RSLASH"
    if k == "BREAK_END":
        return m.break_end(i, "RESYNC")
    if k in ("UNKNOWN", "TOO_LONG", "STAY_TIME"):
        return m.bad(COMMON_ERR[k], i)
    return DO[k](m, i)


def _loc_rslash(m, i, k):
    if k in ("SPEED_VFR", "POINT", "SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"):
        return DO[k](m, i)
    return m.bad(11, i)


def _loc_break(m, i, k):
    r = m.recs[-1]
    if k == "TOO_LONG":
        m.err(4, i)
    s = m.toks[i][0]
    r.text = s if r.text == "" else r.text + " " + s
    if k == "BREAK_END" and BREAK_END_OF.get(r.rules) == m.kinds[i][1]:
        return m.break_end(i, "BREAK")
    return "BREAK"


def _loc_stay(m, i, k):
    if k != "SLASH":
        return m.bad(36, i)
    m.at = i
    return "STAYS"


def _loc_stays(m, i, k):
    if k != "STAY_TIME":
        return m.bad(38, i)
    if len(m.recs) < 2 or m.recs[-1].base not in ("POINT", "C"):
        return m.bad(15, i - 2)
    s = m.toks[i][0]
    m.recs[-1].stay = int(s[:2]) * 60 + int(s[2:])
    return "STAYT"


def _loc_stayt(m, i, k):
    if k in ("UNKNOWN", "TOO_LONG"):
        return m.bad(COMMON_ERR[k], i)
    if k == "BREAK_END":
        return m.end_without_start(i)
    if k in ("BREAK_START", "DCT", "TRUNCATE", "C", "POINT", "ROUTE", "SID_STAR", "SID", "STAR"):
        return DO[k](m, i)
    return m.bad(39, i)


TABLE = {"ADEP": _loc_adep, "POINT": _loc_point, "ROUTE": _loc_route, "DCT": _loc_dct,
         "SIDPOST": _loc_sidpost, "C": _loc_c, "CS": _loc_cs, "CCP": _loc_ccp, "CCPS": _loc_ccps,
         "FSLASH": _loc_fslash, "RESYNC": _loc_resync, "RSLASH": _loc_rslash, "BREAK": _loc_break,
         "STAY": _loc_stay, "STAYS": _loc_stays, "STAYT": _loc_stayt,
         "TRUNC": lambda m, i, k: m.bad(19, i)}
AT_END = {"C": _end_c, "CS": _end_cs, "CCP": lambda m, l: m.err(27, m.at),
          "CCPS": lambda m, l: m.err(28, m.at), "FSLASH": lambda m, l: m.err(20, m.at),
          "RSLASH": lambda m, l: m.err(25, m.at), "STAY": lambda m, l: m.err(35, m.at),
          "STAYS": lambda m, l: m.err(37, m.at)}

DELIMS = " \n\t\r/"


def message(num, text):
    return MESSAGES[num].replace("!", text)


def parse(field, want_trace=False):
    return Machine(segment(field, DELIMS), want_trace).run()
