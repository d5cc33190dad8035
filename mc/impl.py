"""Access to the implementation in /repo, through its public pipeline only."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from F15_Parser.F15Parse import ParseF15                                   # noqa: E402
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence       # noqa: E402
from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord           # noqa: E402
from F15_Parser import F15TokenSyntaxDescriptions as SYN                   # noqa: E402
from Tokenizer.Tokenize import Tokenize                                    # noqa: E402
from Tokenizer.Tokens import Tokens                                        # noqa: E402
from Tokenizer.Token import Token                                          # noqa: E402
from Utilities.Utils import Utils                                          # noqa: E402

TokenBaseType, TokenSubType = SYN.TokenBaseType, SYN.TokenSubType
Syntax = SYN.F15TokenSyntaxDefinition
DELIMS = " \n\t\r/"

BASE = {getattr(TokenBaseType, k): k[4:] for k in dir(TokenBaseType) if k.startswith("F15_")}
SUB = {getattr(TokenSubType, k): k[7:] for k in dir(TokenSubType) if k.startswith("F15_SB_")}


def memoise_classifier():
    """Accelerator for the explorations of the grammar: the class of a text is looked up once per text
    and process.  Used only where classification itself is not the subject (C02, C19 and C20 run
    without it), and only if the classifier is still an ordinary method."""
    f = Syntax.__dict__.get("get_token_type")
    if not callable(f) or getattr(f, "__mc_memo__", False) or not hasattr(f, "__code__"):
        return
    cache = {}

    def get_token_type(self, token_string="", *a, **k):
        if a or k:
            return f(self, token_string, *a, **k)
        try:
            return cache[token_string]
        except KeyError:
            r = f(self, token_string)
            if len(cache) > 50000:
                cache.clear()
            cache[token_string] = r
            return r
    get_token_type.__mc_memo__ = True
    Syntax.get_token_type = get_token_type


def tokenise(field, delims=DELIMS):
    t = Tokenize()
    t.set_string_to_tokenize(field)
    t.set_whitespace(delims)
    t.tokenize()
    return t.get_tokens()


def parse(field, parser=None):
    """-> (verdict, ers)"""
    tokens = tokenise(field)
    ers = ExtractedRouteSequence()
    v = (parser or ParseF15()).parse_f15(ers, tokens)
    return v, ers


def rec_tuple(r):
    """Everything a record exposes."""
    return (r.get_name(), r.get_start_index(), r.get_end_index(), BASE.get(r.get_base_type()),
            SUB.get(r.get_sub_type()), r.get_speed(), r.get_speed_si(), r.get_altitude(),
            r.get_altitude_si(), r.get_flight_rules(), r.get_break_text(), r.get_stay_time(),
            r.get_altitude_cruise_to(), r.get_altitude_cruise_to_si(), r.get_latitude(),
            r.get_longitude(), r.is_lat_long_valid(), r.get_bearing(), r.get_distance(),
            r.get_error_text())


def snapshot(v, ers):
    """Complete observable outcome of a parse, comparable with ==  (NaN made comparable)."""
    def fix(t):
        return tuple("nan" if x != x else x for x in t)
    return (bool(v), ers.get_derived_flight_rules(),
            tuple(fix(rec_tuple(r)) for r in ers.get_all_elements()),
            tuple(fix(rec_tuple(r)) for r in ers.get_all_errors()))
