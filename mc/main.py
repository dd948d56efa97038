import importlib
import os
import sys
import traceback


def main():
    pid = sys.argv[1].upper()
    try:
        mod = importlib.import_module("mc.checks." + pid.lower())
        from mc import core
        return core.main_check(pid, mod, sys.argv[2:])
    except Exception as e:
        traceback.print_exc()
        # An exception out of the code under test outside any case (for example while it
        # is being imported) is a violation; anything else is an error of the check.
        try:
            from mc import core
            hit = core.unusable(e) is not None and not isinstance(e, core.CheckError)
        except Exception:
            hit = any("/repo/src/" in f.filename for f in traceback.extract_tb(e.__traceback__)) or (
                isinstance(e, SyntaxError) and "/repo/src/" in str(e.filename))
        if hit:
            import json
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            os.makedirs(here + "/evidence", exist_ok=True)
            path = here + "/evidence/violation-%s.json" % pid
            with open(path, "w") as f:
                json.dump(dict(property=pid, what="exception outside any case", observed=traceback.format_exc()), f)
            with open(here + "/evidence/%s.json" % pid, "w") as f:
                json.dump(dict(property=pid, tier=os.environ.get("VERIF_TIER", "quick"), seed=0, level="model_checking",
                               coverage=dict(states=0, transitions=0, traces_validated_against_impl=0,
                                             samples=[traceback.format_exc()[-500:]]), wall_s=0, violations=1), f)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
