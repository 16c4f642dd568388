"""check.py <PROPERTY> [tier]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import core, sut, tlc

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + prop.lower())
    ctx = None
    try:
        ctx = core.Ctx(prop, tier, seed, getattr(mod, "AREAS", ()))
        mod.run(ctx)
        return ctx.finish()
    except (sut.BuildError, tlc.TlcError) as e:
        print("CHECK-ERROR", e)
    except Exception:
        traceback.print_exc()
    if ctx:
        if ctx.violations:     # a violation found before the machinery gave up is still a violation
            return ctx.finish()
        ctx.impl.close()
    return 2

sys.exit(main())
