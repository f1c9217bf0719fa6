import importlib, pathlib, sys, time, traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(HERE), str(HERE.parent / "checks"), str(HERE.parent / "drivers")]
import extbuild, harness  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    if prop == "setup":
        print("extension:", extbuild.build())
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    ctx = harness.Ctx(prop, tier)
    mod = importlib.import_module(prop)
    try:
        mod.run(ctx)
        return ctx.finish()
    except harness.Machinery as ex:
        print(f"ERROR of the check {prop}: {ex}", file=sys.stderr)
        return 1 if ctx.failures and ctx.finish() == 1 else 2
    except Exception:
        traceback.print_exc()
        return 1 if ctx.failures and ctx.finish() == 1 else 2


sys.exit(main())
