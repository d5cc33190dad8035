"""C17 XML, C18 route container and record, C22 printed reports and the example program."""
import contextlib
import io
import itertools
import math
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as ET

from . import fields as F
from . import impl, spec
from .checks_parse import RULE_SEGS, MOD_SEGS, core, prefixes, roomy
from .checks_tok import guard, tok_list
from .engine import Family, Violation, in_child

ASSUMPTIONS = [
    "xml.etree.ElementTree (expat) decides well-formedness",
    "the reference machine in mc/spec.py supplies the expected names and order of records and errors",
    "printed lines are compared with white space removed: column widths are not part of the property",
]

# -- C17 ------------------------------------------------------------------------------------------

XML_CHARS = re.compile("[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*\\Z")
NUM2 = re.compile(r"-?\d+\.\d\d\Z|-?nan\Z|-?inf\Z")
ATTRS = [("start_index", "get_start_index", int), ("end_index", "get_end_index", int), ("base_type", "get_base_type", int),
         ("sub_type", "get_sub_type", int), ("speed", "get_speed", str), ("speed_si", "get_speed_si", float),
         ("altitude", "get_altitude", str), ("altitude_si", "get_altitude_si", float), ("bearing", "get_bearing", float),
         ("distance", "get_distance", float), ("flight_rules", "get_flight_rules", str), ("stay_time", "get_stay_time", int),
         ("altitude_cruise_to", "get_altitude_cruise_to", str), ("altitude_cruise_to_si", "get_altitude_cruise_to_si", float),
         ("latitude", "get_latitude", float), ("longitude", "get_longitude", float)]


def same_number(text, v):
    if not NUM2.match(text):
        return False
    f = float(text)
    if v != v or math.isinf(v):
        return f != f if v != v else f == v
    return abs(f - v) <= 0.005 + 1e-9 * max(1.0, abs(v))


def check_xml_record(el, r, tag, extra):
    if el.tag != tag:
        raise Violation("element <%s>, expected <%s>" % (el.tag, tag))
    if (el.text or "") != r.get_name() or len(el):
        raise Violation("element text %r, expected %r" % (el.text, r.get_name()))
    names = {a for a, _, _ in ATTRS} | {extra[0]}
    if set(el.attrib) != names:
        raise Violation("attributes %r" % (sorted(set(el.attrib) ^ names),))
    for a, g, kind in ATTRS:
        v, got = getattr(r, g)(), el.attrib[a]
        ok = got == v if kind is str else (same_number(got, v) if kind is float else got == str(int(v)))
        if not ok:
            raise Violation("%s of %r is %r in the XML, %r in the record" % (a, r.get_name(), got, v))
    if el.attrib[extra[0]] != extra[1]:
        raise Violation("%s of %r is %r in the XML, %r in the record" % (extra[0], r.get_name(), el.attrib[extra[0]], extra[1]))


def check_xml(ers, before=None):
    xml = guard(ers.as_xml)
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        raise Violation("XML is not well formed: %s" % e, xml=xml) from e
    recs, errs = ers.get_all_elements(), ers.get_all_errors()
    if root.tag != "ers":
        raise Violation("root element <%s>" % root.tag)
    stray = [x for x in [root.text] + [k.tail for k in root.iter()] + [k.text for k in root.iter("ers_errors")] if x and x.strip()]
    if stray:
        raise Violation("text %r between the elements of the XML" % stray[0])
    kids = list(root)
    rules = [k for k in kids if k.tag == "derived_flight_rules"]
    if len(rules) != 1 or (rules[0].text or "") != ers.get_derived_flight_rules():
        raise Violation("derived rules %r in the XML, %r in the route" % (
            [k.text for k in rules], ers.get_derived_flight_rules()))
    out = [k for k in kids if k.tag == "ers_record"]
    if len(out) != len(recs):
        raise Violation("%d records in the XML, %d in the route" % (len(out), len(recs)))
    for k, r in zip(out, recs):
        check_xml_record(k, r, "ers_record", ("break_text", r.get_break_text()))
    sect = [k for k in kids if k.tag == "ers_errors"]
    out = [x for k in sect for x in k]
    if len(out) != len(errs) or len(sect) > 1:
        raise Violation("%d errors in the XML, %d in the route" % (len(out), len(errs)))
    for k, r in zip(out, errs):
        check_xml_record(k, r, "error_record", ("error_text", r.get_error_text()))
    if set(k.tag for k in kids) - {"derived_flight_rules", "ers_record", "ers_errors"}:
        raise Violation("unknown elements in the XML: %r" % [k.tag for k in kids])
    return xml


def j17(field, st):
    m = spec.parse(field, True)
    st.model(m)
    v, ers = guard(impl.parse, field)
    before = impl.snapshot(v, ers)
    xml = check_xml(ers)
    if impl.snapshot(v, ers) != before:
        raise Violation("generating XML changed the route")
    if guard(ers.as_xml) != xml:
        raise Violation("generating XML twice gives different text")


def j17_delims(item, st):
    """A field tokenized with other delimiters, so that its elements hold white space."""
    field, delims = item
    ers = impl.ExtractedRouteSequence()
    v = guard(impl.ParseF15().parse_f15, ers, impl.tokenise(field, delims))
    before = impl.snapshot(v, ers)
    xml = check_xml(ers)
    if impl.snapshot(v, ers) != before or guard(ers.as_xml) != xml:
        raise Violation("generating XML changed the route")
    st.state(("delimiters", delims))


SETTERS = [  # name, values
    ("name", "X1", "Y2"), ("start_index", 5, 17), ("end_index", 9, 23), ("base_type", 9, 10), ("sub_type", 14, 20),
    ("speed", "N0450", "K0800"), ("speed_si", 231, 222.5), ("altitude", "F350", "S1130"), ("altitude_si", 10668, 11300.0),
    ("bearing", 12.5, 271.25), ("distance", 1000.5, 2.0), ("flight_rules", "IFR", "OAT"), ("altitude_cruise_to", "F390", "PLUS"),
    ("altitude_cruise_to_si", 11887, 0.5), ("latitude", 10.5, -45.0), ("longitude", -20.25, 179.0), ("lat_long_valid", True, False),
    ("break_text", "SOME TEXT", "T2"), ("error_text", "SOME ERROR", "E2"), ("stay_time", "0130", "2359"), ("stay_time", "0000", "0001"),
    ("append_break_text", "A B", "C"), ("append_error_text", "E1", "E3"),
]
EDITS = [("set", i) for i in range(len(SETTERS))] + [("append", 0), ("create", 0), ("error", 0), ("ades", 0), ("rules", 0), ("early", 0)]
EDITED = ["N0450F350 ABC", "N0450F350 ABC 10N020E 20N020E VFR X IFR DEF/N0460F360 X", "N0450F350 ABC STAY1/0130 C/DEF/N0460F350F370 L9 XYZ/M082F300 Q", "",
          "N0450VFR ABC DCT 1030N02030E", "ABC DEF"]


def edit(ers, op, n):
    """One change by the owner of a route."""
    k, i = op
    if k == "set":
        name, v, w = SETTERS[i]
        for j, r in enumerate(ers.get_all_elements() + ers.get_all_errors()):
            if (j + n) % 3 == 0 or j == 0:
                do_set(r, name, v if (n + j) % 2 else w)
    elif k == "append":
        guard(ers.append_element, guard(impl.ExtractedRouteRecord, "<N%d&>" % n, n, n + 5, 10, 20))
    elif k == "create":
        guard(ers.create_append_element, "N%d" % n, n, n + 2, 9, 13)
    elif k == "error":
        guard(ers.add_error, "E%d" % n, n, n + 2, 9, 13, "Bad '!' & <more>")
    elif k == "ades":
        guard(ers.add_dummy_ades)
    elif k == "rules":
        guard(ers.set_derived_flight_rules, "IVYZ"[n % 4])


def edited_route(item, show):
    """A route shown, parsed into, shown, changed by its owner and shown again after every change."""
    field, ops, other = item
    ers = guard(impl.ExtractedRouteSequence)
    if ("early", 0) in ops:
        show(ers)
    v = guard(impl.ParseF15().parse_f15, ers, impl.tokenise(field))
    show(ers)
    for n, op in enumerate(ops):
        edit(ers, op, n)
        if other:
            # another route shown in between
            e = impl.ExtractedRouteSequence()
            guard(impl.ParseF15().parse_f15, e, impl.tokenise(EDITED[n % len(EDITED)]))
            show(e)
        show(ers)
    return bool(v)


def edited_items(n):
    for f in EDITED:
        for k in range(1, n + 1):
            for ops in itertools.product(EDITS, repeat=k):
                yield f, ops, len(ops) > 1
    for f in EDITED:
        for k in range(0, len(EDITS)):
            yield f, tuple(EDITS[k:] + EDITS[:k]), True


def j17_edited(item, st):
    guard(edited_route, item, check_xml)
    st.state(item[:2])


XCHARS = ["<", ">", "&", "\"", "'", "A", "]", "!", "-", ";", "é", "\u0663", "\u4e2d", "\U0001f600", "\u00a0", "\u2028", "\x85", "=",
          "#", "?", "%", "{", "}", "\\", "0"]
XPLACES = ["%s", "N0450F350 %s", "N0450F350 ABC VFR %s %s", "N0450VFR %s IFR %s ABC/N0450F350 %s", "N0450F350 ABC/%s", "N0450F350 ABC %s/N0450F350",
           "N0450F350 ABC OAT %s GAT DEF", "N0450F350 ABC STAY1/%s", "N0450F350 ABC C/%s/", "N0450F350 ABC B9 %s T %s"]


def c17(tier):
    th = tier == "thorough"

    def odd():
        for n in range(1, 4 if th else 3):
            for w in itertools.product(XCHARS, repeat=n):
                t = "".join(w)
                for p in XPLACES if n < 3 else XPLACES[1:3]:
                    yield p.replace("%s", t)

    def entities():
        for t in ("&amp;", "&lt;", "&#65;", "&quot;", "&apos;", "<a>", "</ers>", "]]>", "<![CDATA[", "<!--", "-->", "\"><x", "'/>", "<?x?>",
                  "&", "&&", "&;", "A&B;", "&#x;", "%s", "{0}", "{name}", "%d", "\\n", "\\"):
            for p in XPLACES:
                yield p.replace("%s", t)
                yield p.replace("%s", "A" * 26 + t)

    def spaced():
        for n in range(1, 4):
            for w in itertools.product("\n\t\r A<", repeat=n):
                t = "".join(w)
                for p in XPLACES:
                    for d in (" /", "/", "\n/", "\t/", ";"):
                        yield p.replace("%s", "B" + t + "C").replace(" ", d[0]) + t, d

    def chars():
        for c in itertools.chain(range(0x21, 0x250), (0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 0x3000, 0xfeff)):
            if chr(c) == "/":
                continue
            yield "N0450F350 A%sB VFR C%sD" % (chr(c), chr(c))
            yield chr(c)

    def lists():
        for n in (1, 2, 5, 20, 60, 100):
            for s in F.SEGS:
                yield F.join(F.realise(("SPALT",) + s * (n if n * len(s) <= 120 else 120 // len(s))))

    def all_variants():
        for p in prefixes("loc"):
            pre = F.realise(p)
            for c in F.VARIANTS:
                for t in F.VARIANTS[c]:
                    yield F.join(pre + [t])

    def values():
        for i in range(0, 10000, 1 if th else 3):
            yield "N%04dS%04d ABC STAY1/%02d%02d 10N020E C/DEF/K%04dM%04dA%03d" % (i, i, i % 24, i % 60, i, i, i % 1000)
        for a in range(0, 91, 3):
            for o in range(0, 181, 6):
                yield "N0450F350 %02dN%03dE %02dS%03dW%03d%03d %02d59S%03d01E" % (a, o, a, o, o, a, min(a, 89), min(o, 179))

    geo = ["LLD", "LLM", "LLBM", "BD", "PRP", "RT", "DCT", "C", "SL", "SAA", "PLUS", "SPV", "UNK", "STAY", "ST", "IFR", "VFR", "ODD", "TL", "LLD!"]
    fams = [Family("all texts of markup and odd characters", odd, j17), Family("markup", entities, j17), Family("elements that hold white space", spaced, j17_delims),
            Family("routes changed by their owner and shown again", lambda: edited_items(3 if th else 2), j17_edited), Family("all characters", chars, j17),
            Family("long routes", lists, j17), Family("every text in every location", all_variants, j17), Family("values", values, j17),
            Family("all classes^2", lambda: F.words_upto(F.CLASSES + F.WRONG + ["ODD"], 2, ("SPALT",)), j17),
            Family("classes^3", lambda: F.words_upto(geo, 4 if th else 3, ("SPALT", "PRP")), j17, 64),
            Family("every state", lambda: F.from_states(prefixes("full"), F.CLASSES, 1), j17),
            Family("every state, in other texts", lambda: F.turned_states(prefixes("full"), F.COARSE[::2], (1, 2)), j17),
            Family("histories of grammar segments", lambda: itertools.chain(F.segments_upto(F.SEGS_MORE, 2, ("SPALT",)),
                                                                            F.segments(F.SEGS_FEW, 3, ("SPALT",))), j17),
            Family("odd texts in every place", lambda: (f for f in F.odd_fields() if XML_CHARS.match(f)), j17),
            Family("every character of the basic plane", lambda: (f for f in F.char_fields() if XML_CHARS.match(f)), j17),
            Family("characters taken for others", F.confusable_fields, j17),
            Family("long fields and what follows them", F.long_fields, j17),
            Family("fields of 270 to 2,600 elements, with room to recurse", lambda: F.huge_fields((270, 1030)), roomy(j17)),
            Family("histories of rule changes", lambda: F.segments_upto(RULE_SEGS, 3 if th else 2, ("SPALT",)), j17),
            Family("histories of modifiers", lambda: F.segments_upto(MOD_SEGS, 3 if th else 2, ("SPALT",)), j17),
            Family("shapes and limits of every class in %d places" % len(F.SHAPE_PLACES), F.shape_fields, j17),
            Family("elements of 22 to 5,003 characters, and wide white space, in %d places" % len(F.SHAPE_PLACES), F.wide_fields, j17),
            Family("two elements that are alike, in the same place", F.alike_fields, j17),
            Family("sequences of identical texts", lambda: F.same_text_words(4 if th else 3), j17)]
    return fams, "every state of the machine (2,059) continued by %d classes, in several choices of texts; histories of 2 of 55 and 3 of 16 segments; all sequences of 3 of 20 classes; all texts of up to %d of 25 odd " \
        "characters in 10 places; every character U+0021-U+024F; routes of up to 120 elements; 800 shapes and limit values in 24 places; all sequences of up to 3 of 11 identical texts" % (len(F.CLASSES), 3 if th else 2)


# -- C18 ------------------------------------------------------------------------------------------

REC_DEFAULT = {"name": "", "start_index": 0, "end_index": 0, "base_type": 0, "sub_type": 0, "speed": "", "speed_si": 0.0, "altitude": "",
               "altitude_si": 0.0, "bearing": 0.0, "distance": 0.0, "flight_rules": "", "altitude_cruise_to": "", "altitude_cruise_to_si": 0.0,
               "latitude": 0.0, "longitude": 0.0, "lat_long_valid": False, "break_text": "", "error_text": "", "stay_time": 0}


def getters(r):
    d = {}
    for k in REC_DEFAULT:
        d[k] = guard(r.is_lat_long_valid if k == "lat_long_valid" else getattr(r, "get_" + k))
    return d


def set_model(mm, k, v):
    if k.startswith("append_"):
        k = k[7:]
        mm[k] = v if mm[k] == "" else mm[k] + " " + v
    elif k == "stay_time":
        mm[k] = int(v[:2]) * 60 + int(v[2:])
    else:
        mm[k] = v


def do_set(r, k, v):
    guard(getattr(r, k if k.startswith("append_") else "set_" + k), v)


REC_OPS = [(k, v) for k, a, b in SETTERS for v in (a, b)]


def j18_record(ops, st):
    a, b = guard(impl.ExtractedRouteRecord), guard(impl.ExtractedRouteRecord, "NB", 3, 5, 9, 13)
    ma = dict(REC_DEFAULT)
    mb = dict(REC_DEFAULT, name="NB", start_index=3, end_index=5, base_type=9, sub_type=13)
    s = 0
    for k, v in ops:
        do_set(a, k, v)
        set_model(ma, k, v)
        n = hash(tuple(ma.values()))
        st.transition(s, k, n)
        s = n
    for r, m, w in ((a, ma, "record"), (b, mb, "another record"), (guard(impl.ExtractedRouteRecord), REC_DEFAULT, "a new record")):
        got = getters(r)
        if got != m:
            raise Violation("%s reads %r, expected %r" % (w, {k: got[k] for k in m if got[k] != m[k]},
                                                         {k: m[k] for k in m if got[k] != m[k]}))
    s1 = (guard(a.to_string, False), guard(a.to_string, True), guard(a.as_xml, False), guard(a.as_xml, True))
    if getters(a) != ma:
        raise Violation("printing or converting changed the record")
    del s1


def j18_record_read(ops, st):
    """Setters with every getter, the line, the XML and the printout read after each."""
    a, m = guard(impl.ExtractedRouteRecord), dict(REC_DEFAULT)
    for i, (k, v) in enumerate(((None, None),) + ops):
        if k:
            do_set(a, k, v)
            set_model(m, k, v)
        got = getters(a)
        if got != m:
            raise Violation("record reads %r, expected %r" % ({k: got[k] for k in m if got[k] != m[k]}, {k: m[k] for k in m if got[k] != m[k]}))
        for err in (False, True):
            guard(a.to_string, err)
            guard(a.as_xml, err)
            with contextlib.redirect_stdout(io.StringIO()):
                guard(a.print_record, err)
        st.state((i, k))
    got = getters(a)
    if got != m:
        raise Violation("record reads %r after all, expected %r" % (got, m))


OUT_OPS = ["to_string", "to_string!", "as_xml", "as_xml!", "print_record", "print_record!"]
GET_OPS = [("get", k) for k in REC_DEFAULT] + [("out", x) for x in OUT_OPS] + [("set", i) for i in range(len(SETTERS))]


def j18_record_one(item, st):
    """Histories of single getters, single setters and outputs, each getter judged where it stands."""
    full, ops = item
    a, m = guard(impl.ExtractedRouteRecord), dict(REC_DEFAULT)
    b, mb = guard(impl.ExtractedRouteRecord, "NB", 3, 5, 9, 13), dict(REC_DEFAULT, name="NB", start_index=3, end_index=5, base_type=9, sub_type=13)
    if full:
        for k, v, _ in SETTERS:
            do_set(a, k, v)
            set_model(m, k, v)
    prev = full
    for i, (o, x) in enumerate(ops):
        st.transition(prev, (o, x), (o, x))
        prev = (o, x)
        if o == "get":
            got = guard(a.is_lat_long_valid if x == "lat_long_valid" else getattr(a, "get_" + x))
            if got != m[x] or isinstance(got, bool) != isinstance(m[x], bool):
                raise Violation("%s reads %r, expected %r" % (x, got, m[x]))
        elif o == "out":
            with contextlib.redirect_stdout(io.StringIO()):
                guard(getattr(a, x.rstrip("!")), x.endswith("!"))
        else:
            k, v, w = SETTERS[x]
            v = v if i % 2 else w
            do_set(a, k, v)
            set_model(m, k, v)
    for r, mm in ((b, mb), (a, m)):
        got = getters(r)
        if got != mm:
            raise Violation("record reads %r, expected %r" % ({k: got[k] for k in mm if got[k] != mm[k]}, {k: mm[k] for k in mm if got[k] != mm[k]}))


S_READS = ["r:count", "r:all", "r:errors", "r:first", "r:last", "r:prev", "r:at", "r:out", "r:rules", "r:print", "r:xml"]


def read_seq(e, m, op):
    """Reads in between, which must not matter to what comes after them."""
    recs, errs, rules = m
    n = len(recs)
    if op == "r:print":
        with contextlib.redirect_stdout(io.StringIO()):
            guard(e.print_ers)
        return
    if op == "r:xml":
        guard(e.as_xml)
        return
    got, exp = {
        "r:count": lambda: ((guard(e.get_number_of_elements), guard(e.get_number_of_errors)), (n, len(errs))),
        "r:all": lambda: ([rkey(r) for r in guard(e.get_all_elements)], recs), "r:errors": lambda: ([rkey(r) for r in guard(e.get_all_errors)], errs),
        "r:first": lambda: (rkey(guard(e.get_first_element)), recs[0]), "r:last": lambda: (rkey(guard(e.get_last_element)), recs[-1]),
        "r:prev": lambda: (rkey(guard(e.get_previous_to_last_element)), recs[-2] if n > 1 else None),
        "r:at": lambda: (rkey(guard(e.get_element_at, n - 1)), recs[-1]), "r:out": lambda: (rkey(guard(e.get_element_at, n)), None),
        "r:rules": lambda: (guard(e.get_derived_flight_rules), rules)}[op]()
    if got != exp:
        raise Violation("%s gives %r, expected %r" % (op, got, exp))


S_OPS = ["create", "append", "error", "errbang", "ades", "adep", "rules", "touch", "foreign"]


def rkey(r):
    return None if r is None else (r.get_name(), r.get_start_index(), r.get_end_index(), int(r.get_base_type()), int(r.get_sub_type()),
                                   r.get_speed(), r.get_error_text())


def observe_seq(e, m):
    recs, errs, rules = m
    n = len(recs)
    if guard(e.get_number_of_elements) != n or guard(e.get_number_of_errors) != len(errs):
        raise Violation("counts %r %r, expected %d %d" % (e.get_number_of_elements(), e.get_number_of_errors(), n, len(errs)))
    if [rkey(r) for r in guard(e.get_all_elements)] != recs:
        raise Violation("records %r, expected %r" % ([rkey(r) for r in e.get_all_elements()], recs))
    if [rkey(r) for r in guard(e.get_all_errors)] != errs:
        raise Violation("errors %r, expected %r" % ([rkey(r) for r in e.get_all_errors()], errs))
    for i in range(-n - 3, n + 4):
        got = rkey(guard(e.get_element_at, i))
        exp = recs[i] if 0 <= i < n else None
        if got != exp:
            raise Violation("element at %d is %r, expected %r" % (i, got, exp))
    for f, exp in ((e.get_first_element, recs[0] if n else None), (e.get_last_element, recs[-1] if n else None),
                   (e.get_previous_to_last_element, recs[-2] if n > 1 else None)):
        if rkey(guard(f)) != exp:
            raise Violation("%s is %r, expected %r" % (f.__name__, rkey(f()), exp))
    if guard(e.get_derived_flight_rules) != rules:
        raise Violation("derived rules %r, expected %r" % (e.get_derived_flight_rules(), rules))


MORE_VALUES = {
    "name": ["", " ", "A", "'Q'", "é", "A" * 300, "ADEP"], "start_index": [0, 1, -1, 10 ** 9], "end_index": [0, 1, -1, 10 ** 9],
    "base_type": [0, 1, 18], "sub_type": [0, 1, 106], "speed": ["", " N0450", "M082", "x"], "speed_si": [0, 0.0, 1, -1, 0.004, 1e9],
    "altitude": ["", "A045", "M0840", " "], "altitude_si": [0, 0.0, -1, 99990, 0.5], "bearing": [0, 0.0, 360.0, -180.0, 359.999, 1e-9],
    "distance": [0, 0.0, 1e-9, 20003931.4586], "flight_rules": ["", "VFR", "IFPS", "I", "V"], "altitude_cruise_to": ["", "F010", "M0001"],
    "altitude_cruise_to_si": [0, 0.0, 3, 30], "latitude": [0, 0.0, 90.0, -90.0, -0.25, 91.5], "longitude": [0, 0.0, 180.0, -180.0, 0.25, 400.0],
    "lat_long_valid": [True, False], "break_text": ["", " ", " A  B ", "VFR", "A" * 300, "\n"], "error_text": ["", " ", " A  B ", "!", "A" * 300],
    "stay_time": ["0000", "0001", "0059", "0100", "2359", "1000"], "append_break_text": ["A", "A  B", "!"], "append_error_text": ["A", "A  B", "!"],
}
VAL_OPS = [(k, v) for k, vs in MORE_VALUES.items() for v in vs]


def j18_seq(ops, st):
    e = guard(impl.ExtractedRouteSequence)
    other = guard(impl.ExtractedRouteSequence)
    adep = ("ADEP", 0, 0, 9, 14, "", "")
    recs, errs, rules = [adep], [], ""
    om = ([adep], [], "")
    B, S = impl.TokenBaseType, impl.TokenSubType
    st_a = (1, 0)
    for i, op in enumerate(ops):
        n = "E%d" % i
        ret, exp = None, None
        if op[:2] == "r:":
            read_seq(e, (recs, errs, rules), op)
        elif op == "create":
            ret = guard(e.create_append_element, n, i, i + 2, B(i % 18 + 1), S(i % 40 + 1))
            exp = (n, i, i + 2, i % 18 + 1, i % 40 + 1, "", "")
            recs.append(exp)
        elif op == "append":
            r = guard(impl.ExtractedRouteRecord, n, i, i + 3, B(10), S(20))
            do_set(r, "speed", "N%04d" % i)
            ret = guard(e.append_element, r)
            exp = (n, i, i + 3, 10, 20, "N%04d" % i, "")
            recs.append(exp)
        elif op in ("error", "errbang"):
            guard(e.add_error, n, i, i + 2, B(0), S(0), "Bad" if op == "error" else "Bad '!' and !")
            errs.append((n, i, i + 2, 0, 0, "", "Bad" if op == "error" else "Bad '%s' and %s" % (n, n)))
        elif op == "ades":
            ret = guard(e.add_dummy_ades)
            exp = ("ADES", 0, 0, 9, 14, "", "")
            recs.append(exp)
        elif op == "adep":
            ret = guard(e.add_dummy_adep_ades, "EGLL")
            exp = ("EGLL", 0, 0, 9, 14, "", "")
            recs.append(exp)
        elif op == "rules":
            rules = "IVYZ"[i % 4]
            guard(e.set_derived_flight_rules, rules)
        elif op == "touch":
            k = i % len(recs)
            guard(e.get_element_at(k).set_speed, "K%04d" % i)
            recs[k] = recs[k][:5] + ("K%04d" % i,) + recs[k][6:]
        else:
            guard(other.create_append_element, "Q" + n, 1, 2, B(9), S(13))
            om[0].append(("Q" + n, 1, 2, 9, 13, "", ""))
            guard(other.add_error, n, 1, 2, B(0), S(0), "X")
            om[1].append((n, 1, 2, 0, 0, "", "X"))
        if exp is not None and rkey(ret) != exp:
            raise Violation("%s returns %r, expected %r" % (op, rkey(ret), exp))
        st_b = (len(recs), len(errs), rules, op)
        st.transition(st_a, op, st_b)
        st_a = st_b
    observe_seq(e, (recs, errs, rules))
    observe_seq(other, om)
    observe_seq(guard(impl.ExtractedRouteSequence), ([adep], [], ""))


def j18_named(ops, st):
    """Histories of (operation, name, text) with odd and empty names and texts."""
    e = guard(impl.ExtractedRouteSequence)
    recs, errs = [("ADEP", 0, 0, 9, 14, "", "")], []
    for i, (op, n, t) in enumerate(ops):
        if op == "error":
            guard(e.add_error, n, i, i + len(n), impl.TokenBaseType(16), impl.TokenSubType(101), t)
            errs.append((n, i, i + len(n), 16, 101, "", n.join(t.split("!"))))
        else:
            guard(e.create_append_element, n, i, i + len(n), impl.TokenBaseType(9), impl.TokenSubType(13))
            recs.append((n, i, i + len(n), 9, 13, "", ""))
        st.transition(ops[:i], ops[i], ops[:i + 1])
    observe_seq(e, (recs, errs, ""))


def j18_stay(t, st):
    r = guard(impl.ExtractedRouteRecord, "ABC", 1, 4, 9, 13)
    guard(r.set_stay_time, t)
    st.state(t[:2])
    exp = int(t[:2]) * 60 + int(t[2:])
    if r.get_stay_time() != exp:
        raise Violation("stay time %s is %r, expected %d" % (t, r.get_stay_time(), exp))


def j18_index(n, st):
    e = guard(impl.ExtractedRouteSequence)
    for i in range(n):
        guard(e.create_append_element, "E%d" % i, i, i, impl.TokenBaseType(9), impl.TokenSubType(13))
        if i % 3 == 0:
            guard(e.add_error, "R%d" % i, i, i, impl.TokenBaseType(9), impl.TokenSubType(13), "!")
    st.state(n)
    observe_seq(e, ([("ADEP", 0, 0, 9, 14, "", "")] + [("E%d" % i, i, i, 9, 13, "", "") for i in range(n)],
                    [("R%d" % i, i, i, 9, 13, "", "R%d" % i) for i in range(0, n, 3)], ""))
    for i in (10 ** 6, -10 ** 6, 2 ** 40, n + 1, n + 2, -1):
        if e.get_element_at(i) is not None:
            raise Violation("element at %d of %d records" % (i, n + 1))


def j18_parsed(field, st):
    """Indexed reads of parsed routes."""
    m = spec.parse(field, True)
    st.model(m)
    v, e = guard(impl.parse, field)
    observe_seq(e, ([rkey(r) for r in e.get_all_elements()], [rkey(r) for r in e.get_all_errors()], e.get_derived_flight_rules()))
    if len(e.get_all_elements()) < 2 or rkey(e.get_first_element())[0] != "ADEP" or rkey(e.get_last_element())[0] != "ADES":
        raise Violation("ends of the route: %r" % [r.get_name() for r in e.get_all_elements()])


O_OPS = ["route", "create", "append", "same", "error", "ades", "record", "share", "put", "fill", "fill all", "fill first", "fill error"]


def owned_history(ops, st=None):
    """Routes and records that their owner fills in, in a process that has made none before; after every
    operation every attribute of every record of every route is read."""
    routes, loose, states = [], [], []

    def full(**k):
        return dict(REC_DEFAULT, **k)

    def fill(r, m, i):
        for j, (k, v, w) in enumerate(SETTERS):
            do_set(r, k, v if (i + j) % 2 else w)
            set_model(m, k, v if (i + j) % 2 else w)

    def new_route():
        routes.append((guard(impl.ExtractedRouteSequence), [full(name="ADEP", base_type=9, sub_type=14)], []))

    if ops and ops[0] != "record":
        new_route()
    for i, op in enumerate(ops):
        op, only = op if isinstance(op, tuple) else (op, None)
        if op == "record":
            loose.append((guard(impl.ExtractedRouteRecord), full()))
            loose.append((guard(impl.ExtractedRouteRecord, "L%d" % i, i, i + 1, 10, 20), full(name="L%d" % i, start_index=i, end_index=i + 1, base_type=10, sub_type=20)))
        elif op == "route" or not routes:
            new_route()
        else:
            e, recs, errs = routes[-1]
            n = "E%d" % i
            if op == "create":
                guard(e.create_append_element, n, i, i + 2, 9, 13)
                recs.append(full(name=n, start_index=i, end_index=i + 2, base_type=9, sub_type=13))
            elif op == "append":
                guard(e.append_element, guard(impl.ExtractedRouteRecord, n, i, i + 3, 10, 20))
                recs.append(full(name=n, start_index=i, end_index=i + 3, base_type=10, sub_type=20))
            elif op == "same":
                guard(e.create_append_element, "ABC", 1, 4, 9, 13)
                recs.append(full(name="ABC", start_index=1, end_index=4, base_type=9, sub_type=13))
            elif op == "error":
                guard(e.add_error, "ABC", 1, 4, 9, 13, "Bad '!'")
                errs.append(full(name="ABC", start_index=1, end_index=4, base_type=9, sub_type=13, error_text="Bad 'ABC'"))
            elif op == "share":
                # the last record of the first route is put into this one as well
                guard(e.append_element, guard(routes[0][0].get_last_element))
                recs.append(routes[0][1][-1])
            elif op == "put":
                for r, m in loose or [(guard(e.get_first_element), recs[0])]:
                    guard(e.append_element, r)
                    recs.append(m)
            elif op == "ades":
                guard(e.add_dummy_ades)
                recs.append(full(name="ADES", base_type=9, sub_type=14))
            elif op == "fill" and only is not None:
                k, v, w = SETTERS[only]
                do_set(guard(e.get_last_element), k, v)
                set_model(recs[-1], k, v)
            elif op == "fill":
                fill(guard(e.get_last_element), recs[-1], i)
            elif op == "fill first":
                fill(guard(e.get_first_element), recs[0], i)
            elif op == "fill error":
                for r, m in zip(guard(e.get_all_errors), errs):
                    fill(r, m, i)
            else:
                for r, m in list(zip(guard(e.get_all_elements), recs)) + list(zip(guard(e.get_all_errors), errs)) + loose:
                    fill(r, m, i)
        for x, (e, recs, errs) in enumerate(routes):
            for what, got, exp in (("record", guard(e.get_all_elements), recs), ("error", guard(e.get_all_errors), errs)):
                if len(got) != len(exp):
                    raise Violation("%d %ss in route %d, expected %d" % (len(got), what, x, len(exp)))
                for y, (r, m) in enumerate(zip(got, exp)):
                    g = getters(r)
                    if g != m:
                        raise Violation("%s %d of route %d reads %r, expected %r, after %r" % (
                            what, y, x, {k: g[k] for k in m if g[k] != m[k]}, {k: m[k] for k in m if g[k] != m[k]}, ops[:i + 1]))
        for r, m in loose:
            g = getters(r)
            if g != m:
                raise Violation("a record reads %r, expected %r, after %r" % ({k: g[k] for k in m if g[k] != m[k]}, {k: m[k] for k in m if g[k] != m[k]}, ops[:i + 1]))
        states.append((len(routes), len(loose), tuple((len(r), len(x)) for _, r, x in routes), op))
    return states


def j18_owned(ops, st):
    prev = None
    for s in in_child(owned_history, ops):
        st.transition(prev, s[-1], s)
        prev = s


def j18_owned_warm(ops, st):
    prev = None
    for s in owned_history(ops):
        st.transition(prev, s[-1], s)
        prev = s


def c18(tier):
    th = tier == "thorough"

    def owned(n):
        for k in range(1, n + 1):
            yield from itertools.product(O_OPS, repeat=k)

    def owned_one():
        for i in range(len(SETTERS)):
            for a in ((), ("create",), ("append",), ("error", "ades"), ("route", "same"), ("same",)):
                for b in (("route",), ("ades",), ("same",), ("record",), ("error",), ("append",)):
                    yield a + (("fill", i),) + b

    def rec_hist():
        for n in range(3):
            yield from itertools.product(REC_OPS, repeat=n)
        yield from itertools.product(REC_OPS, repeat=3)
        yield tuple((k, a) for k, a, b in SETTERS)
        yield tuple((k, b) for k, a, b in SETTERS)
        yield tuple((k, v) for k, a, b in SETTERS for v in (a, b, a))
        for i in range(len(SETTERS)):
            yield tuple((k, a) for k, a, b in SETTERS[i:] + SETTERS[:i])
            yield tuple((k, b) for k, a, b in reversed(SETTERS[i:] + SETTERS[:i]))
        for o in VAL_OPS:
            yield (o,)
            for p in VAL_OPS:
                yield o, p
        for k, a, b in SETTERS:
            for v in MORE_VALUES[k]:
                for w in MORE_VALUES[k] + [a]:
                    yield (k, a), (k, v), (k, w)
                    yield (k, b), (k, v), (k, w), (k, v)
        txt = [o for o in REC_OPS if "text" in o[0]] + [("break_text", ""), ("error_text", ""), ("append_break_text", "")]
        for n in (3, 4):
            yield from itertools.product(txt, repeat=n)

    names = ["ABC", "", " ", "!", "\\1", "ADEP", "ADES", "VFR"]
    nops = [("error", n, t) for n in names for t in ("", "!", "x", "'!' and '!'", "\\g<0>", " ")] + [("add", n, "") for n in names]

    def named():
        for n in range(3):
            yield from itertools.product(nops, repeat=n)
        yield from itertools.product([o for o in nops if o[1] in ("", "ABC", "!", "ADES") and o[2] in ("", "!", " ")], repeat=3)

    def read_hist():
        ops = S_OPS + S_READS
        for n in range(1, 5 if not th else 6):
            for h in itertools.product(ops, repeat=n):
                if any(o[:2] == "r:" for o in h[:-1]):
                    yield h
        for b in (("create",) * 3, ("error",) * 2 + ("append",) * 2, ("create", "error", "ades", "rules")):
            for r in S_READS:
                for q in S_READS + ["touch"]:
                    for h in itertools.product(S_OPS, repeat=2):
                        yield b + (r, q) + h
                        yield b + (r,) + h[:1] + (q,) + h[1:]

    def looked():
        for n in (1, 2):
            yield from itertools.product(REC_OPS, repeat=n)
        for k, a, b in SETTERS:
            for v in MORE_VALUES[k]:
                for w in MORE_VALUES[k] + [a]:
                    yield (k, a), (k, v), (k, w)

    d = 7 if th else 6
    fams = [Family("record: all histories of setters", rec_hist, j18_record, 32),
            Family("route: all histories of <= %d operations" % d,
                   lambda: (h for n in range(d + 1) for h in itertools.product(S_OPS, repeat=n)), j18_seq, 32),
            Family("route: histories of operations and of reads in between", read_hist, j18_seq, 32),
            Family("record: histories of setters, everything read in between", looked, j18_record_read, 32),
            Family("record: all histories of 3 single getters, setters and outputs",
                   lambda: ((f, h) for n in (1, 2, 3) for h in itertools.product(GET_OPS, repeat=n) for f in (0, 1)), j18_record_one, 64),
            Family("records their owner fills in, in processes that have made none", lambda: owned(4 if th else 3), j18_owned, 32, fresh=True),
            Family("records their owner fills in, one attribute, in processes that have made none", owned_one, j18_owned, 32, fresh=True),
            Family("records their owner fills in", lambda: owned(5 if th else 4), j18_owned_warm, 32),
            Family("records their owner fills in, one attribute", owned_one, j18_owned_warm, 32),
            Family("route: odd names and texts", named, j18_named, 32),
            Family("route: long lists", lambda: iter(list(range(0, 40)) + [99, 100, 101, 255, 256, 500, 1030, 2100]), j18_index),
            Family("every stay time", lambda: ("%02d%02d" % (h, mi) for h in range(100) for mi in range(100)), j18_stay),
            Family("parsed routes", lambda: F.words_upto(F.COARSE, 2, ("SPALT",)), j18_parsed)]
    return fams, "all histories of %d of %d setter calls (and all text histories of 4); all histories of up to %d of %d route operations with " \
        "every indexed read -n-3..n+3; lists of up to 2,100 records; all 10,000 stay times" % (3, len(REC_OPS), d, len(S_OPS))


# -- C22 ------------------------------------------------------------------------------------------

def squeeze(s):
    return "".join(s.split())


def rec_line(r, error):
    f2 = "{0:.2f}".format
    return squeeze("".join([r.get_name() + " ", str(r.get_start_index()), str(r.get_end_index()), str(int(r.get_base_type())),
                            str(int(r.get_sub_type())), r.get_speed(), str(r.get_speed_si()), r.get_altitude(), str(r.get_altitude_si()),
                            f2(r.get_bearing()), f2(r.get_distance()), r.get_flight_rules(), str(r.get_stay_time()),
                            r.get_altitude_cruise_to(), str(r.get_altitude_cruise_to_si()), f2(r.get_latitude()), f2(r.get_longitude()),
                            r.get_error_text() if error else r.get_break_text()]))


def captured(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        guard(f)
    return out.getvalue()


def last_int(s):
    m = re.findall(r"\d+", s)
    return int(m[-1]) if m else None


HEADINGS = ("Name", "Start", "End", "Base", "Type", "Speed", "Alt", "Bearing", "Distance", "Rules", "Stay", "Cruise", "Lat", "Long")


def check_headings(lines, words, text):
    """Column titles stand somewhere in the lines (compared without white space and case)."""
    have = "\n".join(lines).lower()
    for w in words:
        if w.lower() not in have:
            raise Violation("no column title %r" % w, report=text)


def check_report(text, ers):
    lines = [squeeze(x) for x in text.split("\n")]
    want = [rec_line(r, False) for r in ers.get_all_elements()]
    werr = [rec_line(r, True) for r in ers.get_all_errors()]
    rest = []
    seq = want + werr
    k = 0
    for i, ln in enumerate(lines):
        if k < len(seq) and ln == seq[k]:
            k += 1
        elif ln:
            rest.append((k, ln))
    if k < len(seq):
        raise Violation("the report does not list %r in its place" % seq[k], report=text)
    check_headings([ln for k, ln in rest if k == 0], HEADINGS + ("BreakText",), text)
    if werr:
        check_headings([ln for k, ln in rest if k == len(want)], HEADINGS + ("ErrorText",), text)
    counts = [(k, last_int(ln)) for k, ln in rest if last_int(ln) is not None]
    if counts != [(0, len(want)), (len(want), len(werr))]:
        raise Violation("the report should say %d records before and %d errors after the records; other lines with numbers: %r" % (
            len(want), len(werr), [ln for _, ln in rest if last_int(ln) is not None]), report=text)


def j22(field, st):
    m = spec.parse(field, True)
    st.model(m)
    tokens = guard(impl.tokenise, field)
    plain = [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()]
    check_tokens_report(captured(tokens.print_tokens), tokens, plain)
    ers = impl.ExtractedRouteSequence()
    v = guard(impl.ParseF15().parse_f15, ers, tokens)
    before = impl.snapshot(v, ers)
    text = captured(ers.print_ers)
    check_report(text, ers)
    check_tokens_report(captured(tokens.print_tokens), tokens, plain)
    if captured(ers.print_ers) != text:
        raise Violation("printing twice gives different reports")
    if impl.snapshot(v, ers) != before:
        raise Violation("printing changed the route")
    for r in ers.get_all_elements():
        if squeeze(captured(lambda: r.print_record(False))) != rec_line(r, False):
            raise Violation("printed record %r" % r.get_name())
    for r in ers.get_all_errors():
        if squeeze(captured(lambda: r.print_record(True))) != rec_line(r, True):
            raise Violation("printed error %r" % r.get_name())


def show_report(ers):
    check_report(captured(ers.print_ers), ers)
    for r in ers.get_all_elements():
        if squeeze(captured(lambda: r.print_record(False))) != rec_line(r, False):
            raise Violation("printed record %r" % r.get_name())


def j22_edited(item, st):
    guard(edited_route, item, show_report)
    st.state(item[:2])


def j22_tokens(item, st):
    """A token list printed, parsed from or changed by its owner, and printed again."""
    field, ops = item
    toks = guard(impl.tokenise, field)

    def show():
        check_tokens_report(captured(toks.print_tokens), toks, tok_list(toks))
        for t in toks.get_tokens():
            if squeeze(captured(t.print_token)) != squeeze("%s %d %d %d %d" % (t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(),
                                                                                  t.get_token_base_type(), t.get_token_sub_type())):
                raise Violation("printed token %r" % t.get_token_string())
    show()
    for n, op in enumerate(ops):
        k = toks.get_number_of_tokens()
        if op == "parse":
            guard(impl.ParseF15().parse_f15, impl.ExtractedRouteSequence(), toks)
        elif op == "append":
            guard(toks.create_append_token, "N%d" % n, 700 + n, 702 + n)
        elif op == "insert":
            guard(toks.insert_token, impl.Token("I%d" % n, n, n + 2), k // 2)
        elif op == "cut":
            guard(toks.remove_tokens_from_end_of_list, k // 2)
        elif k:
            t = guard(toks.get_token_at, n % k)
            guard(getattr(t, "set_token_" + op), {"string": "S%d" % n, "base_type": impl.TokenBaseType(9), "sub_type": impl.TokenSubType(20)}.get(op, 800 + n))
        show()
        st.state((field, ops[:n + 1]))


TOKEN_EDITS = ["parse", "append", "insert", "cut", "string", "start_index", "end_index", "base_type", "sub_type"]


def check_tokens_report(text, tokens, plain):
    lines = [squeeze(x) for x in text.split("\n")]
    seq = []
    for t in tokens.get_tokens():
        seq.append(squeeze("%s %d %d %d %d" % (t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(),
                                              t.get_token_base_type(), t.get_token_sub_type())))
    if [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()] != plain:
        raise Violation("the tokens changed")
    k = 0
    rest = []
    for ln in lines:
        if k < len(seq) and ln == seq[k]:
            k += 1
        elif ln:
            rest.append((k, ln))
    if k < len(seq):
        raise Violation("the token report does not list %r in its place" % seq[k], report=text)
    check_headings([ln for k, ln in rest if k == 0], ("Name", "Start", "End", "Base", "Type"), text)
    counts = [(k, last_int(ln)) for k, ln in rest if last_int(ln) is not None]
    if counts != [(0, len(seq))]:
        raise Violation("the token report should say %d tokens: %r" % (len(seq), rest), report=text)


SAMPLE = "N0450M0825 00N000E B9 00N001E VFR IFR 00N001W/N0350F100 01N001W 01S001W 02S001W180060"


def j22_main(cwd, st):
    st.state(("main", cwd))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([sys.executable, "-B", os.path.join(impl.REPO, "main.py")], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=140)
    except subprocess.TimeoutExpired as e:
        raise Violation("the example program does not end") from e
    if p.returncode:
        raise Violation("the example program fails: %s" % p.stderr.decode("utf-8", "replace")[-600:])
    v, ers = guard(impl.parse, SAMPLE)
    check_report(p.stdout.decode("utf-8"), ers)


def c22(tier):
    th = tier == "thorough"
    geo = ["LLD", "LLM", "BD", "PRP", "RT", "C", "SL", "SAA", "SPV", "SPALT", "UNK", "STAY", "ST", "IFR", "VFR", "ODD", "TL", "LLD!"]

    def all_variants():
        for p in prefixes("loc"):
            pre = F.realise(p)
            for c in F.VARIANTS:
                for t in F.VARIANTS[c]:
                    yield F.join(pre + [t])

    def odd():
        for n in (1, 2):
            for w in itertools.product(XCHARS + ["\ud800", "\x00", "\x1b", "\x0b", "{0}", "%s", "{", "}}"], repeat=n):
                yield "N0450F350 A%s VFR %s" % ("".join(w), "".join(w))

    def lists():
        for n in (1, 2, 5, 20, 60, 100):
            for s in F.SEGS:
                yield F.join(F.realise(("SPALT",) + s * (n if n * len(s) <= 120 else 120 // len(s))))

    def values():
        for i in range(0, 10000, 21):
            yield "N%04dS%04d ABC STAY1/%02d%02d 10N020E C/DEF/K%04dM%04dA%03d" % (i, i, i % 24, i % 60, i, i, i % 1000)
        for a in range(0, 91, 6):
            for o in range(0, 181, 12):
                yield "N0450F350 %02dN%03dE %02dS%03dW%03d%03d %02d59S%03d01E" % (a, o, a, o, o, a, min(a, 89), min(o, 179))

    fams = [Family("example program", lambda: iter([impl.REPO, "/", "/tmp"]), j22_main),
            Family("every text in every location", all_variants, j22),
            Family("all classes^2", lambda: F.words_upto(F.CLASSES + F.WRONG + ["ODD"], 2, ("SPALT",)), j22),
            Family("classes^3", lambda: F.words_upto(geo, 4 if th else 3, ("SPALT", "PRP")), j22, 64),
            Family("every state", lambda: F.from_states(prefixes("full"), F.CLASSES if th else F.COARSE, 1), j22),
            Family("every state, in other texts", lambda: F.turned_states(prefixes("full"), F.COARSE[::2], (1, 2) if th else (1,)), j22),
            Family("histories of grammar segments", lambda: itertools.chain(F.segments_upto(F.SEGS_MORE, 2, ("SPALT",)),
                                                                            F.segments(F.SEGS_FEW, 3, ("SPALT",))), j22),
            Family("odd texts in every place", F.odd_fields, j22),
            Family("long fields and what follows them", F.long_fields, j22),
            Family("fields of 270 to 2,600 elements, with room to recurse", lambda: F.huge_fields((270, 1030, 2600)), roomy(j22)),
            Family("odd characters", odd, j22), Family("every character of the basic plane", F.char_fields, j22),
            Family("characters taken for others", F.confusable_fields, j22), Family("long routes", lists, j22), Family("values", values, j22),
            Family("blank and unstarted fields", lambda: itertools.chain(
                ("", " ", "/", "A", "VFR", "N0450F350", "N0450VFR", "\n"), F.words_upto(F.CLASSES, 2)), j22),
            Family("shapes and limits of every class in %d places" % len(F.SHAPE_PLACES), F.shape_fields, j22),
            Family("elements of 22 to 5,003 characters, and wide white space, in %d places" % len(F.SHAPE_PLACES), F.wide_fields, j22),
            Family("two elements that are alike, in the same place", F.alike_fields, j22),
            Family("sequences of identical texts", lambda: F.same_text_words(4 if th else 3), j22),
            Family("routes changed by their owner and shown again", lambda: edited_items(3 if th else 2), j22_edited),
            Family("token lists changed by their owner and shown again", lambda: (
                (f, h) for f in EDITED for n in range(5 if th else 4) for h in itertools.product(TOKEN_EDITS, repeat=n)), j22_tokens),
            Family("SAMPLE", lambda: iter([SAMPLE]), j22)]
    return fams, "every state of the machine continued by 21 classes, every text in every location, histories of 2 of 55 and 3 of 16 segments, all pairs of 37 and triples of 18 classes printed; 800 shapes and limit values in 24 places; " \
        "all sequences of up to 3 of 11 identical texts; the example program run from three directories"


CHECKS = {"C17": c17, "C18": c18, "C22": c22}
