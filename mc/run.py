import argparse
import importlib
import json
import os
import sys
import types


def _stub_version():
    """diffstar/_version.py is generated by the build and git-ignored: do without it if absent."""
    from .core import REPO

    if not os.path.exists(os.path.join(REPO, "diffstar", "_version.py")):
        m = types.ModuleType("diffstar._version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["diffstar._version"] = m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", default=None)
    args = ap.parse_args()
    from . import core

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        only, args.tier = rec["part"], rec["tier"]
        print("replaying:", rec["message"])
    _stub_version()
    import warnings

    warnings.filterwarnings("ignore")
    mod = importlib.import_module(f"mc.{args.pid.lower()}")
    ctx = core.Ctx(args.pid, mod.LEVEL, args.tier, seed, only)
    ctx.rule = getattr(mod, "RULE", "")
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        with ctx.part("import"):
            import diffstar

            fn = os.path.realpath(diffstar.__file__)
            if not fn.startswith(os.path.realpath(core.REPO) + os.sep):
                print("harness error: diffstar imported from", fn)
                return 2
        if not ctx.violations:
            mod.run(ctx)
    except core.StopCheck:
        pass
    except Exception as e:  # set-up code of the check itself calling the library
        import traceback

        try:
            ctx.fail(f"unexpected {type(e).__name__}: {e}", dict(traceback=traceback.format_exc()[-3000:]))
        except core.StopCheck:
            pass
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
