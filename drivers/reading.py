"""Iterates over the samples of real chunks. Scenario: {"corpus", "mixture", "remote", "chunks": n, "confs": [[conf…] per chunk (cyclic)], "stream": conf|null};
conf = {"mode", "w", "best", "dop", "pre", "skip": fraction, "stop": fraction|null, "how": "fresh"|"again", "kill": fraction|null, "tunnel"}."""
import json, os, pathlib, shutil, signal, tempfile, time

import chunkgen as G
import corpus as C


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def run(sc, rec):
    import dill
    import multiprocessing as mp
    import mixtera.core.query.result_chunk as rc
    from mixtera.core.client import MixteraClient
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.query import Query
    rc.MULTIPROCESSING_TIMEOUT = 5
    ev = rec["events"]
    root = pathlib.Path(tempfile.mkdtemp(prefix="rd"))
    server = patches = None
    try:
        if sc["remote"]:
            import server as S
            patches = S.Patches()
            (root / "srv").mkdir()
            server = S.Server(root / "srv")
            for k, p in enumerate(sc["corpus"].get("parsers") or [{}]):
                server.srv._local_stub.register_metadata_parser(f"VERIF{k}", C.make_parser(name=f"VerifParser{k}", **p))
            co = C.Corpus(sc["corpus"], root=root / "c", client=MixteraClient.from_remote("127.0.0.1", server.port), remote=True)
        else:
            co = C.Corpus(sc["corpus"], root=root / "c")
        cl = co.client
        bang = set(sc["corpus"].get("bang", []))
        if sc["corpus"].get("parse") == "parse_odd":
            known = {repr(C.odd_value(n)): n for n in co.rows}
        else:
            known = {repr(f"s{n}"): n for n in co.rows}

        def execute(job):
            if not cl.execute_query(Query.for_job(job).select(None), QueryExecutionArgs(mixture=G.make_mixture(sc["mixture"]))):
                raise RuntimeError("query not executed")
            if sc["remote"] and not cl.wait_for_execution(job):
                raise RuntimeError("query not executed")
            return cl._get_result_metadata(job)[2]

        def args(job, c):
            return ResultStreamingArgs(job_id=job, tunnel_via_server=c["tunnel"], chunk_reading_degree_of_parallelism=c["dop"],
                                       chunk_reading_prefetch_first_sample=c["pre"], chunk_reading_mixture_type=c["mode"],
                                       chunk_reading_window_size=c["w"], chunk_reading_window_best_effort=c["best"])

        def name(c):
            return f"{c['mode']}/{c['w'] if c['mode'] == 'window' else ''}/{c['best'] if c['mode'] == 'window' else ''}/{c['dop'] > 1 and c['dop']}"

        def cleanup():
            for p in mp.active_children():
                p.kill()
                p.join()
        paths = execute("j")
        taken, n = 0, -1
        for n, ch in enumerate(cl._stream_result_chunks("j", 0, 0, 0)):
            if n >= sc["chunks"]:
                break
            taken += 1
            keys = []
            for key, ds in ch._result_index.items():
                ids = [i for _, fs in ds.items() for f, rs in fs.items() for i in co.ids_of(paths[f], rs)]
                keys.append({"kid": int(ch._key_id_map[key]), "ids": ids, "bad": bool(bang & set(ids))})
            total = sum(len(k["ids"]) for k in keys)
            ev.append({"ev": "chunk", "keys": keys})
            stored = dill.dumps(ch)
            cur, configured = None, None
            confs = list(sc["confs"][n % len(sc["confs"])])
            if n == sc["gone"]:     # afterwards, a file is not there any more
                at = len(confs)
                confs += [dict(c, skip=0, stop=None, kill=None) for c in confs[:2]]
            for pos, c in enumerate(confs):
                if n == sc["gone"] and pos == at:
                    f = sorted(f for ds in ch._result_index.values() for fs in ds.values() for f in fs)[0]
                    cur = configured = None
                    how = sc["seed"] % 2 and str(paths[f]).endswith(".jsonl")
                    if how:
                        open(paths[f], "w").close()
                    else:
                        os.remove(paths[f])
                    ev.append({"ev": "gone", "kids": [int(ch._key_id_map[k]) for k, ds in ch._result_index.items() if any(f in fs for fs in ds.values())]})
                skip = int(c["skip"] * total)
                if c["how"] == "fresh" or configured != (name(c), c["tunnel"], c["pre"]):
                    cur = dill.loads(stored)
                    cur._samples_to_skip = skip
                    cur.configure_result_streaming(cl, args("j", c))
                    configured = (name(c), c["tunnel"], c["pre"])
                cur._samples_to_skip = skip
                ev.append({"ev": "open", "conf": name(c), "mode": c["mode"], "w": c["w"], "best": c["best"], "skip": skip})
                it = iter(cur)
                stop = None if c["stop"] is None else int(c["stop"] * total)
                kill = None if c["kill"] is None or c["dop"] == 1 else int(c["kill"] * total)
                got, res = 0, None
                while res is None:
                    if kill is not None and got == kill:
                        procs = [p for p in mp.active_children() if p.is_alive()]
                        if procs:
                            p = procs[c["victim"] % len(procs)]
                            os.kill(p.pid, signal.SIGKILL)
                            p.join()
                            rc.MULTIPROCESSING_TIMEOUT = 0.5
                            ev.append({"ev": "kill"})
                    if stop is not None and got >= stop:
                        res = "drop"
                        break
                    try:
                        idx, kid, sample = next(it)
                        ev.append({"ev": "read", "idx": int(idx), "kid": int(kid), "x": known.get(repr(sample), -1)})
                        got += 1
                    except StopIteration:
                        res = "end"
                    except Exception as ex:
                        res = "fail"
                        ev.append({"ev": "fail", "what": f"{type(ex).__name__}: {str(ex)[-200:]}"})
                    if got > 3 * total + 5:
                        raise RuntimeError("no end of samples")
                if res != "fail":
                    ev.append({"ev": res})
                if res == "end":
                    for _ in range(2):
                        try:
                            idx, kid, sample = next(it)
                            ev.append({"ev": "read", "idx": int(idx), "kid": int(kid), "x": known.get(repr(sample), -1)})
                        except StopIteration:
                            ev.append({"ev": "end"})
                rc.MULTIPROCESSING_TIMEOUT = 5
                if res != "end":
                    cur = configured = None
                    cleanup()
            if n == sc["gone"]:
                break
        if sc["gone"] is None and sc["stream"] is not None and not bang and taken <= sc["chunks"] and n + 1 < sc["chunks"]:
            execute("j2")
            out = list(cl.stream_results(args("j2", sc["stream"])))
            ev.append({"ev": "stream", "conf": name(sc["stream"]), "idx": [int(x[0]) for x in out], "xs": [known.get(repr(x[2]), -1) for x in out]})
        cleanup()
    finally:
        if server is not None:
            server.stop()
        if patches is not None:
            patches.undo()
        try:
            co.close()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)
