import importlib
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main(argv):
    cmd, prop = argv[0], argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        core.ensure_build()
        import registry

        ctx = core.Ctx(prop, tier, seed)
        mod, fn = registry.CHECKS[prop]
        getattr(importlib.import_module(mod), fn)(ctx)
        return core.finish(ctx)
    except core.Machinery as e:
        print(f"ERROR property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
