"""Histories of registrations, removals and reopenings. Scenario: {"ops": [...], "parsers": [...]}; operations:
["register", name, {"type", "loc": dir|file, "files": [[kind, rows-or-raw]], "parser": k | "none", "fault": …}], ["remove", name],
["exists", name], ["reopen"], ["dump"], ["crash", name, {...}] (killed in the middle)"""
import json, os, pathlib, random, shutil, subprocess, sys, tempfile

import corpus as C
from query import Values, flat, project


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def dtype(name):
    from mixtera.core.datacollection.datasets import Dataset, JSONLDataset, ParquetDataset, WebDataset
    from mixtera.core.datacollection.datasets.croissant_dataset import CroissantDataset
    return {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset, "croissant": CroissantDataset, "generic": Dataset, "str": str}[name]


def parse(x):
    return x["text"] if isinstance(x, dict) else json.loads(x)["text"]


def open_db(db, parsers):
    from mixtera.core.client import MixteraClient
    c = MixteraClient.from_directory(db)
    for k, p in enumerate(parsers):
        c.register_metadata_parser(f"V{k}", C.make_parser(name=f"VerifParser{k}", **p))
    return c


def do_register(cl, n, d, where):
    return cl.register_dataset(n, where, dtype(d["type"]), parse, f"V{d['parser']}" if isinstance(d["parser"], int) else "NOT_A_PARSER")


class Boom(Exception):
    pass


def run(sc, rec):
    from mixtera.core.client import MixteraClient
    from mixtera.core.query import Query
    from mixtera.core.query.mixture import ArbitraryMixture

    root = pathlib.Path(tempfile.mkdtemp(prefix="reg"))
    db = root / "db"
    db.mkdir()
    rng = random.Random(sc["seed"])
    ev = rec["events"]
    names = sorted({op[1] for op in sc["ops"] if len(op) > 1 and op[0] != "dump"})
    val = Values([x for op in sc["ops"] if op[0] in ("register", "crash") for _, rows in op[2]["files"] for r in rows if not isinstance(r, str)
                  for v in r["p"].values() for x in flat(v)])

    def client():
        return open_db(db, sc["parsers"])

    cl = client()
    paths = {}

    def prepare(n, d):
        loc = root / f"data{len(paths)}-{rng.randrange(10**6)}"
        loc.mkdir()
        samples = []
        props = (sc["parsers"][d["parser"]].get("props") if isinstance(d["parser"], int) else None) or list(C.KINDS)
        single = None
        for k, (kind, rows) in enumerate(d["files"]):
            p = loc / f"f{k}.{kind}"
            C.write_file(p, kind, [r if isinstance(r, str) else {"id": j, "text": f"t{j}", **r} for j, r in enumerate(rows)], rng)
            single = p
            no = paths.setdefault(str(p), len(paths))
            samples += [{"ds": names.index(n), "file": no, "row": j, "p": val.props({a: b for a, b in r["p"].items() if a in props})}
                        for j, r in enumerate(rows) if not isinstance(r, str)]
        (loc / "other.txt").write_text("not a data file\n")
        where = {"dir": loc, "file": single or loc, "missing": loc / "nowhere"}[d["loc"]]
        return where, samples

    def register(n, d, where):
        return do_register(cl, n, d, where if rng.random() < 0.5 else str(where))

    try:
        for op in sc["ops"]:
            if op[0] == "register":
                where, samples = prepare(op[1], op[2])
                mdc = cl._mdc
                if op[2].get("fault"):
                    what, nth = op[2]["fault"]
                    orig, count = getattr(mdc, what), [0]

                    def wrapped(*a, orig=orig, count=count, nth=nth, **kw):
                        count[0] += 1
                        if count[0] == nth:
                            raise Boom("injected fault")
                        return orig(*a, **kw)
                    setattr(mdc, what, wrapped)
                try:
                    res = "ok" if register(op[1], op[2], where) else "false"
                    what = ""
                except Exception as ex:
                    res, what = "raise", f"{type(ex).__name__}: {ex}"[:200]
                finally:
                    if op[2].get("fault"):
                        delattr(mdc, op[2]["fault"][0])
                ev.append({"ev": "register", "name": names.index(op[1]), "res": res, "fits": op[2]["fits"], "samples": samples, "what": what})
            elif op[0] == "crash":
                where, samples = prepare(op[1], op[2])
                cl._mdc._connection.close()
                job = root / "job.json"
                job.write_text(json.dumps({"db": str(db), "parsers": sc["parsers"], "name": op[1], "d": op[2], "where": str(where)}))
                subprocess.run([sys.executable, __file__, str(job)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                cl = client()
                ev.append({"ev": "crash", "name": names.index(op[1]), "samples": samples})
            elif op[0] == "remove":
                res = cl.remove_dataset(op[1])
                ev.append({"ev": "remove", "name": names.index(op[1]), "res": "ok" if res else "false"})
            elif op[0] == "exists":
                ev.append({"ev": "exists", "name": names.index(op[1]), "res": bool(cl.check_dataset_exists(op[1]))})
            elif op[0] == "reopen":
                cl._mdc._connection.close()
                cl = client()
                ev.append({"ev": "reopen"})
            elif op[0] == "dump":
                ev.append({"ev": "ask"})
                q = Query.for_job("dump").select(None)
                q.execute(cl._mdc, ArbitraryMixture(5))
                res = q.results
                fp = dict(res.file_path)
                ids = {did: n for did, n in cl._mdc._connection.execute("SELECT id, name FROM datasets").fetchall()}
                ev[-1] = {"ev": "dump", "names": [names.index(n) if n in names else -1 for n in cl.list_datasets()],
                          "idx": project(res._chunker_index, val, lambda d: names.index(ids[d]) if d in ids else -1,
                                         lambda f: paths.get(str(fp[f]), -1))}
    finally:
        try:
            cl._mdc._connection.close()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)


def crash(job):
    """In a process of its own: a registration which ends with the process, before the given step."""
    import boot
    boot.init()
    d = job["d"]
    cl = open_db(pathlib.Path(job["db"]), job["parsers"])
    mdc, left = cl._mdc, [d["crash"][1]]
    orig = getattr(mdc, d["crash"][0])

    def wrapped(*a, **kw):
        left[0] -= 1
        if left[0] == 0:
            os._exit(9)
        return orig(*a, **kw)
    setattr(mdc, d["crash"][0], wrapped)
    do_register(cl, job["name"], d, job["where"])
    os._exit(9)


if __name__ == "__main__":
    crash(json.load(open(sys.argv[1])))
