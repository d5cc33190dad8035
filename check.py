#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  |  check.py <property> --replay FILE"""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors="backslashreplace")
VENV = "/opt/venv/bin/python"
if sys.executable != VENV and os.path.exists(VENV) and not os.environ.get("VERIF_NO_REEXEC"):
    try:
        import geographiclib  # noqa: F401
    except ImportError:
        os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

GROUPS = {"checks_tok": ("C01", "C02", "C03", "C21"), "checks_out": ("C17", "C18", "C22"),
          "checks_hist": ("C19", "C20")}
NO_MEMO = ("C01", "C02", "C03", "C18", "C19", "C20")


def main():
    pid = sys.argv[1]
    if pid == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    t0 = time.time()
    mod = next((g for g, ids in GROUPS.items() if pid in ids), "checks_parse")
    from mc import engine, impl
    import importlib
    m = importlib.import_module("mc." + mod)
    if pid not in NO_MEMO:
        impl.memoise_classifier()
    try:
        fams, bounds = m.CHECKS[pid](tier)
    except Exception as e:                       # the code under test failed while the exploration was prepared
        if not isinstance(e, engine.Violation) and not engine.from_repo(e):
            raise
        out = engine.Outcome()
        fams, bounds = [engine.Family("preparation", lambda: iter(()), None)], "preparation failed"
        engine.use(fams)
        out.bad = (0, 0, "preparation", getattr(e, "what", None) or repr(e), getattr(e, "detail", {}))
        return engine.finish(pid, tier, out, t0, DEFAULT_ASSUMPTIONS, bounds)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        for f in fams:
            if f.name == rep["family"]:
                import itertools
                item = next(itertools.islice(f.gen(), rep["index"], None))
                try:
                    f.judge(item, engine.Stats())
                except engine.Violation as v:
                    print("reproduced: %r: %s" % (item, v.what))
                    return 1
                print("not reproduced: %r" % (item,))
                return 0
        return 2
    out = engine.explore(fams)
    return engine.finish(pid, tier, out, t0, getattr(m, "ASSUMPTIONS", DEFAULT_ASSUMPTIONS), bounds)


def selftest():
    """setup_cmd: the framework imports, and the reference machine and the parser can be run."""
    from mc import checks_hist, checks_out, checks_parse, checks_tok, engine, impl, sched, spec
    ids = set(checks_hist.CHECKS) | set(checks_out.CHECKS) | set(checks_parse.CHECKS) | set(checks_tok.CHECKS)
    manifest = json.load(open(os.path.join(engine.VERIF, "MANIFEST.json")))
    claimed = {c["property"] for c in manifest["checks"]}
    if not claimed <= ids:
        print("no check for", sorted(claimed - ids))
        return 1
    try:
        sched.selftest()
    except AssertionError as e:
        print("the scheduler does not follow its schedules:", e)
        return 1
    spec.parse("N0450F350 ABC", True)
    impl.parse("N0450F350 ABC")
    print("%d checks ready" % len(claimed))
    return 0


DEFAULT_ASSUMPTIONS = [
    "the reference machine in mc/spec.py states the field 15 language as documented and implemented at the pinned commit",
    "elements of one class behave alike apart from the values explored exhaustively",
    "the class of a text is looked up once per process while exploring the grammar (classification is decided by C02 without it)",
]

if __name__ == "__main__":
    sys.exit(main())
