"""Runs a driver's scenarios one after another in this process; one JSON line per scenario."""
import importlib, json, os, signal, sys, traceback

driver, inp, res = sys.argv[1:4]
EACH = float(os.environ.get("VERIF_EACH", "30"))


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang("".join(traceback.format_stack(frame, limit=4)))


def exc_event(ex: BaseException) -> dict:
    tb = traceback.extract_tb(ex.__traceback__)
    where = [f"{os.path.relpath(f.filename, '/') if f.filename.startswith('/') else f.filename}:{f.lineno} {f.name}" for f in tb][-4:]
    return {"ev": "raise", "what": f"{type(ex).__name__}: {ex}"[:600], "where": where}


def main() -> None:
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        import boot  # noqa: F401
        boot.init()
        mod = importlib.import_module(driver)
    except BaseException:
        traceback.print_exc()
        broken = traceback.format_exc()
        # The library cannot be imported or used at all: every scenario fails.
        if f"{os.sep}verif{os.sep}" in broken.splitlines()[-3]:
            print("VERIF-IMPORT-FAILED")
        with open(res, "a") as out:
            for i, sc in json.load(open(inp)):
                out.write(json.dumps({"i": i, "trace": {"scenario": sc, "cfg": sc, "events": [
                    {"ev": "raise", "what": "import: " + broken[-500:], "where": []}]}}) + "\n")
        return
    stuck = 0
    with open(res, "a", buffering=1) as out:
        for i, sc in json.load(open(inp)):
            out.write(json.dumps({"begin": i}) + "\n")
            rec = mod.Recorder(sc) if hasattr(mod, "Recorder") else {"scenario": sc, "cfg": sc, "events": []}
            signal.setitimer(signal.ITIMER_REAL, EACH)
            try:
                mod.run(sc, rec)
            except Hang as h:
                rec["events"].append({"ev": "hang", "what": str(h)[-600:]})
            except BaseException as ex:  # noqa
                rec["events"].append(exc_event(ex))
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.write(json.dumps({"i": i, "trace": rec}, default=str) + "\n")
            stuck = stuck + 1 if rec["events"] and rec["events"][-1]["ev"] == "hang" else stuck
            if stuck >= 2:
                break
    os._exit(0)


main()
