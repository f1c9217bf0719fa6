"""C04: the chunk stream of the same query, mixture and updates over the same database.
mode "prep": registers a corpus in a directory. mode "run": opens a copy of it (in a process with some hash seed), executes
the given jobs one after another (with whatever is in the query cache by then) and records their streams."""
import json, pathlib, shutil

import chunkgen as G
import corpus as C


def run(sc: dict, rec: dict) -> None:
    from mixtera.core.client import MixteraClient
    from mixtera.core.client.mixtera_client import QueryExecutionArgs
    from mixtera.core.query import Query

    if sc["mode"] == "prep":
        co = C.Corpus(sc["corpus"], root=pathlib.Path(sc["dir"]))
        rec["base"] = co.base
        co.client._mdc._connection.close()
        return
    d = pathlib.Path(sc["dir"] + f"-{sc['tag']}")
    shutil.copytree(sc["dir"] + "/db", d)
    C.make_parser()
    client = MixteraClient.from_directory(d)
    base = sc["base"]
    for job in sc["jobs"]:
        q = Query.for_job(job["id"]).select([tuple(c) for c in job["query"]] if job["query"] else None)
        mixture = G.make_mixture(job["steps"][0][1])
        if not job.get("cache", True):
            client._query_cache.enabled = False
        ok = client.execute_query(q, QueryExecutionArgs(mixture=mixture))
        client._query_cache.enabled = True
        qr = client._get_query_result(job["id"])
        qr.stop_on_none = False
        stream: list = []
        # Other random state must not matter
        import random
        random.seed(sc["salt"])

        def project(chunk) -> list:
            keys = []
            for key, dss in chunk._result_index.items():
                rg = [[base[str(qr.file_path[f])] + lo + 1, base[str(qr.file_path[f])] + hi] for _, fs in sorted(dss.items())
                      for f, rs in sorted(fs.items()) for lo, hi in rs]
                keys.append([C.key_props(key), rg, chunk._key_id_map[key], (chunk._mixture or {}).get(key, -1)])
            return [chunk.mixture_id, sorted(keys, key=lambda k: json.dumps(k[0]))]

        for st in job["steps"][1:]:
            if st[0] == "mix":
                qr.update_mixture(G.make_mixture(st[1]))
                continue
            for _ in range(st[1] if st[0] == "pull" else job["limit"]):
                try:
                    chunk = next(qr)
                except StopIteration:
                    stream.append(["end"])
                    break
                if chunk is None:
                    stream.append(["none"])
                    if st[0] == "drain":
                        break
                else:
                    stream.append(["chunk", *project(chunk)])
        rec["events"].append({"ev": "stream", "job": job["name"], "how": f"{sc['tag']}/{job['id']}", "ok": bool(ok),
                              "chunks": [json.dumps(s) for s in stream]})
    client._mdc._connection.close()
    shutil.rmtree(d, ignore_errors=True)
