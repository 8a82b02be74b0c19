"""run.py <property> [--replay FILE] [--out FILE]"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common


def main():
    prop = sys.argv[1]
    budget = float(os.environ.get("VERIF_BUDGET", "100"))
    out = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else None
    try:
        importlib.import_module(prop.lower())
    except Exception:
        rep = {"property": prop, "checks": [], "failures": [], "import_error": traceback.format_exc()[-3000:]}
    else:
        if "--replay" in sys.argv:
            sys.exit(common.replay(sys.argv[sys.argv.index("--replay") + 1]))
        rep = common.main(prop, budget)
    s = json.dumps(rep, indent=1, default=repr)
    if out:
        open(out, "w").write(s)
    else:
        print(s)


main()
