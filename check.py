#!/usr/bin/python3
"""check.py ID [--tier quick|thorough]: decide one property.  Exit 0 held, 1 violated, 2 the check itself failed."""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    mod = importlib.import_module(a.id.lower())
    ctx = vf.Ctx(a.id, a.tier, seed, mod.LEVEL)
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except vf.CheckError as e:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("CHECK-ERROR %s: %s" % (a.id, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = ctx.finish() if ctx.violations else 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
