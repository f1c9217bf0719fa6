"""Histories of queries on a data collection with the query cache. Operations: ["serve", q, mixture], ["race", q, mixture, change],
["change", …], ["reopen"], ["half", q, how] (process ends or fails while caching), ["damage", q, file], ["crashremove", name]"""
import json, os, pathlib, random, shutil, subprocess, sys, tempfile

import corpus as C
from chunkgen import make_mixture
from registry import open_db

MAXCHUNKS = 60


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def parse(x):
    return json.loads(x)["text"]


class Boom(Exception):
    pass


def stream(qr):
    """The chunks of a query result: keys, places and reported composition."""
    out = []
    for _ in range(MAXCHUNKS):
        try:
            ch = next(qr)
        except StopIteration:
            break
        if ch is None:
            break
        keys = sorted([[C.key_props(k), sorted([str(qr.file_path[f]), [list(map(int, r)) for r in rs]] for _, fs in ds.items() for f, rs in fs.items())]
                       for k, ds in ch._result_index.items()], key=json.dumps)
        out.append([keys, sorted([[C.key_props(k), v] for k, v in (ch._mixture or {}).items()], key=json.dumps), int(ch._chunk_size or 0)
                    if hasattr(ch, "_chunk_size") else 0])
    return out


def digest(x):
    import hashlib
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def make_query(job, q):
    from mixtera.core.query import Query
    query = Query.for_job(job)
    for sel in q:
        query.select([tuple(c) for c in sel] or None)
    return query


def register(cl, sc, name, loc):
    from mixtera.core.datacollection.datasets import JSONLDataset
    return cl.register_dataset(name, loc, JSONLDataset, parse, "V0")


def run(sc, rec):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs
    from mixtera.core.query import Query

    root = pathlib.Path(tempfile.mkdtemp(prefix="cache"))
    # the order of directory listings is arbitrary
    listdir, back = os.listdir, sc.get("backwards", False)
    os.listdir = lambda *a: sorted(listdir(*a), reverse=back)
    db = root / "db"
    db.mkdir()
    ev = rec["events"]
    try:
        cl = open_db(db, [{}])
        locs = {}
        for n, files in sc["data"].items():
            locs[n] = root / f"data-{n}"
            locs[n].mkdir()
            for k, rows in enumerate(files):
                C.write_file(locs[n] / f"f{k}.jsonl", "jsonl", [{"p": r, "text": "x"} for r in rows])
        jobs = 0

        def job():
            nonlocal jobs
            jobs += 1
            return f"job{jobs}"

        def fresh(q, m):
            query = make_query("fresh", q)
            query.execute(cl._mdc, make_mixture(m))
            return stream(query.results)

        def serve(q, m, after=None):
            query = make_query(job(), q)
            calls, stored = [], []
            orig_exec, orig_store = Query.execute, cl._query_cache.cache_query

            def spy(self, *a, **kw):
                calls.append(1)
                r = orig_exec(self, *a, **kw)
                if after:
                    Query.execute = orig_exec
                    after()
                return r

            def spy_store(*a, **kw):
                r = orig_store(*a, **kw)
                stored.append(r is not None)
                return r
            Query.execute = spy
            cl._query_cache.cache_query = spy_store
            try:
                ok = cl.execute_query(query, QueryExecutionArgs(mixture=make_mixture(m)))
            finally:
                Query.execute = orig_exec
                cl._query_cache.cache_query = orig_store
            if not ok:
                raise RuntimeError("execute_query returned False")
            return stream(query.results), not calls, any(stored)

        def change(op):
            if op[1] == "add":
                if not register(cl, sc, op[2], locs[op[2]]):
                    raise RuntimeError("register_dataset returned False")
            elif op[1] == "remove":
                if not cl.remove_dataset(op[2]):
                    raise RuntimeError("remove_dataset returned False")

        for op in sc["ops"]:
            if op[0] == "change":
                change(op)
                ev.append({"ev": "change"})
            elif op[0] == "serve":
                got, hit, stored = serve(op[1], op[2])
                f = fresh(op[1], op[2])
                ev.append({"ev": "serve", "q": json.dumps(op[1]), "got": digest(got), "fresh": digest(f), "hit": hit, "stored": stored, "n": len(f)})
            elif op[0] == "race":
                before = fresh(op[1], op[2])
                got, hit, stored = serve(op[1], op[2], after=lambda: change(op[3]))
                if hit:
                    change(op[3])
                ev.append({"ev": "race", "q": json.dumps(op[1]), "got": digest(got), "fresh": digest(fresh(op[1], op[2])), "before": digest(before)})
            elif op[0] == "overlap":
                # the data changes and the query runs again while the first one is being executed
                before = fresh(op[1], op[2])
                inner = []

                def meanwhile():
                    change(op[3])
                    ev.append({"ev": "change"})
                    inner.extend(serve(op[1], op[2]))
                    ev.append({"ev": "serve", "q": json.dumps(op[1]), "got": digest(inner[0]), "fresh": digest(fresh(op[1], op[2])), "hit": inner[1], "stored": inner[2], "n": 0})
                got, hit, _ = serve(op[1], op[2], after=meanwhile)
                if hit:
                    meanwhile()
                ev.append({"ev": "late", "q": json.dumps(op[1]), "got": digest(got), "fresh": digest(fresh(op[1], op[2])), "before": digest(before)})
            elif op[0] == "reopen":
                cl._mdc._connection.close()
                cl = open_db(db, [{}])
                ev.append({"ev": "reopen"})
            elif op[0] == "half":
                import mixtera.core.query.query_result as qrm
                if op[2] == "raise":
                    orig = qrm.serialize_chunker_index
                    def failing(*a, **kw):
                        raise OSError("no space left on device (injected)")
                    qrm.serialize_chunker_index = failing
                    try:
                        serve(op[1], op[3])
                    except OSError:
                        pass
                    finally:
                        qrm.serialize_chunker_index = orig
                else:
                    cl._mdc._connection.close()
                    f = root / "job.json"
                    f.write_text(json.dumps({"do": "half", "db": str(db), "q": op[1], "m": op[3], "at": op[2]}))
                    subprocess.run([sys.executable, __file__, str(f)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                    cl = open_db(db, [{}])
                ev.append({"ev": "half"})
            elif op[0] == "crashremove":
                cl._mdc._connection.close()
                f = root / "job.json"
                f.write_text(json.dumps({"do": "remove", "db": str(db), "name": op[1]}))
                subprocess.run([sys.executable, __file__, str(f)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                cl = open_db(db, [{}])
                if op[1] in cl.list_datasets():
                    change(["change", "remove", op[1]])
                ev.append({"ev": "change"})
            elif op[0] == "damage":
                # an unreadable file in every entry of this query
                d = cl._query_cache.directory / cl._query_cache._get_query_hash(make_query("x", op[1]))
                for e in (sorted(d.iterdir()) if d.exists() else []):
                    for f in e.rglob(op[2]):
                        f.write_bytes(f.read_bytes()[: f.stat().st_size // 2])
                ev.append({"ev": "damage", "q": json.dumps(op[1])})
    finally:
        os.listdir = listdir
        try:
            cl._mdc._connection.close()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)


def main(job):
    import boot
    boot.init()
    cl = open_db(pathlib.Path(job["db"]), [{}])
    if job["do"] == "half":
        from mixtera.core.client.mixtera_client import QueryExecutionArgs
        import mixtera.core.query.query_result as qrm
        import dill
        if job["at"] == "index":
            qrm.serialize_chunker_index = lambda *a, **kw: os._exit(9)
        elif job["at"].startswith("npy"):
            import mixtera.utils.utils as mu
            save, left = mu.np.save, [int(job["at"][3:])]

            def counted(*a, **kw):
                if left[0] == 0:
                    os._exit(9)
                left[0] -= 1
                return save(*a, **kw)
            mu.np.save = counted
        else:
            orig, count = dill.dump, [0]
            qrm.dill.dump = lambda *a, **kw: os._exit(9)
        cl.execute_query(make_query("half", job["q"]), QueryExecutionArgs(mixture=make_mixture(job["m"])))
    else:
        mdc, left = cl._mdc, [2]
        orig = mdc._db_incr_version

        def last():   # the process ends before the version is increased for the last time
            caller = sys._getframe(1)
            gone = job["name"] not in cl.list_datasets()
            if gone:
                os._exit(9)
            return orig()
        mdc._db_incr_version = last
        cl.remove_dataset(job["name"])
    os._exit(0)


if __name__ == "__main__":
    main(json.load(open(sys.argv[1])))
