"""Replays an operation sequence on a job: chunk requests of all workers, feedback, checkpoint reports, completion polls,
crashes with restore. Scenario: {"corpus", "query", "mixture", "G", "N", "W", "ops", "salt"}; ops (numbers from 1):
["req",g,n,w] ["fb",…] ["report",g,n] ["await"|"poll",k?] ["restore",k] ["kill"]; k: number of the checkpoint."""
import gc, json, multiprocessing as mp, pathlib, random, shutil, tempfile, time, types

import chunkgen as G
import corpus as C

_jobs = 0
_prep: dict = {}


def prepared(spec):
    """A registered corpus; jobs work on a copy of its database directory."""
    k = json.dumps(spec, sort_keys=True)
    if k not in _prep:
        co = C.Corpus(spec)
        co.client._mdc._connection.close()
        _prep[k] = co
    return _prep[k]


def make(m: dict):
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture import MixtureSchedule, ScheduleEntry
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    if m["kind"] == "schedule":
        return MixtureSchedule(m["size"], [ScheduleEntry(s, make(e)) for s, e in m["entries"]])
    if m["kind"] == "dynamic":
        return DynamicMixture(m["size"], make(m["init"]), SimpleAveragingAlgorithm(), **({} if m["strict"] and m["size"] % 2 else {"strict": m["strict"]}))
    return G.make_mixture(m)


def spec_mix(m: dict, comps: list) -> dict:
    """The mixture as the specification sees it (shares, no rows)."""
    if m["kind"] == "schedule":
        return {"kind": "schedule", "entries": [{"start": s, "mix": spec_mix(resize(e, m["size"]), comps)} for s, e in m["entries"]]}
    if m["kind"] == "dynamic":
        d = spec_mix(resize(m["init"], m["size"]), comps)
        return {"kind": "dynamic", "mix": {**d["mix"], "strict": m["strict"]}}

    class NoRows:
        def mixture_in_rows(self):
            return {}
    return {"kind": "fixed", "mix": G.mix_event(m, NoRows(), comps)["mix"]}


def resize(m: dict, size: int) -> dict:
    m = {**m, "size": size}
    if m["kind"] == "dynamic":
        m["init"] = resize(m["init"], size)
    return m


def norm_key(k) -> list:
    return [[n, sorted(v)] for n, v in sorted(k)]


def rows_of(mixture) -> list:
    return [{"props": C.key_props(k), "rows": int(v)} for k, v in sorted(mixture.mixture_in_rows().items(), key=lambda x: json.dumps(C.key_props(x[0])))]


def held_chunks(distributor, skip_types) -> list:
    """All chunks reachable from the distributor, whatever structure holds them."""
    import dill
    from mixtera.core.query.result_chunk import ResultChunk
    seen, out, todo = set(), [], [distributor]
    opaque = (type, types.ModuleType, types.FunctionType, types.MethodType, str, int, float, *skip_types)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (bytes, bytearray)):
            if len(o) > 60:
                try:
                    v = dill.loads(o)
                except Exception:
                    continue
                if isinstance(v, ResultChunk):
                    out.append(v)
            continue
        if isinstance(o, ResultChunk):
            out.append(o)
            continue
        if isinstance(o, opaque):
            continue
        todo += gc.get_referents(o)
    return out


class Job:
    def __init__(self, sc, rec):
        global _jobs
        _jobs += 1
        from mixtera.core.query.query_result import QueryResult
        self.sc, self.rec, self.ev = sc, rec, rec["events"]
        self.co = prepared(sc["corpus"])
        self.comps = self.co.comps(G.select_ids(self.co.rows, sc.get("query")))
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="job"))
        _copytree(self.co.root / "db", self.dir / "db")
        self.id = sc.get("job", "job")
        self.rng = random.Random(sc.get("salt", 0))
        self.contents: dict = {}
        self.order: dict = {}
        self.last: dict = {}          # (g, n, w) -> number of samples of the chunk in work
        self.ids: list = []           # checkpoint ids in the order they were given out
        self.kid: dict = {}           # props -> id, as delivered
        self.step = 0
        self.killed = False
        self.client = None
        self.opaque = (QueryResult, mp.Process().__class__, type(mp.get_context("fork").Process()))
        self.open()

    def open(self):
        from mixtera.core.client import MixteraClient
        C.make_parser()
        self.client = MixteraClient.from_directory(self.dir / "db")

    def close(self):
        for p in mp.active_children():
            p.kill()
        try:
            self.client._mdc._connection.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs
        q = G.build_query(self.id, [[tuple(c) for c in self.sc["query"]]] if self.sc.get("query") else None)
        if self.sc.get("nocache"):
            self.client._query_cache.enabled = False
        if self.sc.get("warm"):     # the result comes from the cache
            q0 = G.build_query("warm", [[tuple(c) for c in self.sc["query"]]] if self.sc.get("query") else None)
            self.client.execute_query(q0, QueryExecutionArgs(mixture=make(self.sc["warm"])))
        self.mixture = make(self.sc["mixture"])
        self.client.execute_query(q, QueryExecutionArgs(mixture=self.mixture, dp_groups=self.sc["G"], nodes_per_group=self.sc["N"],
                                                        num_workers=self.sc["W"]))
        self.rec["cfg"] = {"comps": self.comps, "G": self.sc["G"], "N": self.sc["N"], "W": self.sc["W"], "want": self.sc["want"],
                           "mixture": spec_mix(self.sc["mixture"], self.comps), "rows": self.rows()}

    def dist(self):
        return self.client._get_query_chunk_distributor(self.id)

    def rows(self):
        m = self.dist()._query_result._mixture
        return rows_of(m)

    def number(self, key: str) -> int:
        return self.contents.setdefault(key, len(self.contents) + 1)

    def content(self, chunk) -> tuple:
        e = self.co.chunk_event(self.dist()._query_result, chunk)
        return self.number(json.dumps([e["keys"], e["mid"]])), e

    def request(self, g, n, w):
        import dill
        from mixtera.core.client.mixtera_client import ResultStreamingArgs
        if self.failing() >= 8:  # generation is given up for good after some more
            return
        e = {"ev": "req", "g": g, "n": n, "w": w, "res": "end", "c": 0, "mid": -1, "skip": 0, "keys": [], "kids": [], "hasmix": True, "repother": 0}
        try:
            chunk = self.dist().next_chunk_for(g - 1, n - 1, w - 1, False)
        except StopIteration:
            chunk = None
        if chunk is not None:
            chunk = dill.loads(chunk) if isinstance(chunk, (bytes, bytearray)) else chunk
            c, ce = self.content(chunk)
            chunk.configure_result_streaming(self.client, ResultStreamingArgs(job_id=self.id))
            read = [(k, int(s[1:])) for _, k, s in chunk]
            size = sum(len(k["ids"]) for k in ce["keys"])
            full = self.order.setdefault(c, read)
            skip = size - len(read)
            if skip < 0 or read != full[len(full) - len(read):] or len(full) != size:
                skip = -1
            kids = []
            for k in ce["keys"]:
                ids = {kid for kid, i in full if i in set(k["ids"])}
                kids.append({"props": k["props"], "id": int(ids.pop()) if len(ids) == 1 else -1})
                self.kid[json.dumps(k["props"])] = kids[-1]["id"]
            e.update(res="chunk", c=c, mid=chunk.mixture_id, skip=skip, keys=ce["keys"], kids=kids, hasmix=ce["hasmix"], repother=ce["repother"])
            self.last[(g, n, w)] = (size, skip)
        e["held"] = sorted({self.content(x)[0] for x in held_chunks(self.dist(), self.opaque)}) if "C06" in self.sc["want"] else []
        self.ev.append(e)

    def failing(self) -> int:
        """How many attempts to generate a chunk have failed in a row."""
        k = 0
        for h in reversed([h for h in generator_history(self.ev, self.sc) if h["ev"] == "req"]):
            if h["res"] == "chunk":
                break
            k += 1
        return k

    def feedback(self, op):
        import numpy as np
        from mixtera.network.client.client_feedback import ClientFeedback
        dyn = "dynamic" in json.dumps(self.sc["mixture"])
        given = op[1] if len(op) > 1 else self.step + self.rng.choice([1, 1, 2, 3, 7]) if self.rng.random() < 0.75 \
            else max(0, self.step - self.rng.choice([0, 1, 1, 2, 5]))        # feedback of a slow node
        self.step = max(self.step, given)
        fb = ClientFeedback(training_steps=given, mixture_id=max(0, self.rng.choice([0, 1, 2])))
        loss = []
        if dyn and self.kid and all(v >= 0 for v in self.kid.values()):
            known = sorted(self.kid.items())
            size = max(v for _, v in known) + 1 + self.rng.choice([0, 0, 1])
            fb.losses, fb.counts = np.zeros(size, dtype=np.float32), np.zeros(size, dtype=np.int64)
            for p, i in known:
                if self.rng.random() < 0.75:
                    cnt = self.rng.randint(1, 4)
                    # integral averages keep the specification's arithmetic exact
                    avg = self.rng.choice([0, 1, 1, 2, 3, 5])
                    fb.losses[i], fb.counts[i] = avg * cnt, cnt
                    loss.append({"props": json.loads(p), "l": avg * cnt, "n": cnt, "id": i})
        self.client.process_feedback(self.id, fb)
        self.ev.append({"ev": "fb", "step": given, "loss": loss, "has": fb.losses is not None, "rows": self.rows(),
                        "cur": int(getattr(self.dist()._query_result._mixture, "current_step", self.step)),
                        "fmid": fb.mixture_id, "h": json.dumps([given, loss, fb.mixture_id])})

    def report(self, g, n):
        st = []
        base = random.Random(f"{self.sc.get('salt')}-{g}-{len(self.ids)}")
        for w in range(1, self.sc["W"] + 1):
            size, skip = self.last.get((g, n, w), (0, 0))
            st.append(min(size - 1, max(0, skip) + base.randint(0, max(0, size - 1 - max(0, skip))) + self.rng.choice([0, 0, 0, 1])) if size > 0 else 0)
        e = {"ev": "report", "g": g, "n": n, "st": st, "res": "id", "id": ""}
        try:
            e["id"] = str(self.client.checkpoint(self.id, g - 1, n - 1, list(st), server=True))
            if e["id"] not in self.ids:
                self.ids.append(e["id"])
        except RuntimeError:
            e["res"] = "reject"
        self.ev.append(e)

    def poll(self, cid, wait, disk=True):
        e = {"ev": "poll", "id": cid, "disk": disk, "wait": wait, "killed": self.killed, "res": "false"}
        t = time.time()
        while True:
            try:
                r = self.client.checkpoint_completed(self.id, cid, disk)
                e["res"] = "true" if r else "false"
            except RuntimeError:
                e["res"] = "error"
            if not wait or e["res"] != "false" or time.time() - t > 8:
                break
            time.sleep(0.01)
        self.ev.append(e)
        return e["res"]

    def restore(self, cid):
        for p in mp.active_children():
            p.kill()
            p.join()
        self.client._mdc._connection.close()
        self.open()
        e = {"ev": "restore", "id": cid, "res": "ok", "rows": []}
        try:
            self.client.restore_checkpoint(self.id, cid)
            e["rows"] = self.rows()
        except Exception as ex:
            e["res"], e["what"] = "error", repr(ex)[:300]
        self.last, self.kid, self.killed = {}, {}, False     # as is the training process
        self.ev.append(e)
        return e["res"] == "ok"

    def run(self):
        self.start()
        done = []
        saved_steps = {}
        alive = True
        for op in self.sc["ops"]:
            if not alive:
                return
            if op[0] == "req":
                self.request(*op[1:])
            elif op[0] == "fb":
                self.feedback(op)
            elif op[0] == "report":
                self.report(op[1], op[2])
                if self.ev[-1]["res"] == "id":
                    saved_steps[self.ev[-1]["id"]] = self.step
            elif op[0] == "kill":      # what writes the checkpoints
                time.sleep(self.rng.choice([0, 0, 0.001, 0.003, 0.01, 0.03, 0.1]))
                for p in mp.active_children():
                    p.kill()
                    self.killed = True
            elif op[0] in ("await", "poll"):
                if self.ids:
                    cid = self.ids[min(op[1], len(self.ids)) - 1] if len(op) > 1 else self.ids[-1]
                    taken = {e["id"] for e in self.ev if e["ev"] == "report" and e["res"] == "id"}
                    if op[0] == "await":
                        full = self.complete(cid)
                        self.poll(cid, full, disk=False)
                        if self.poll(cid, full) == "true":
                            done.append(cid)
                    else:
                        if self.poll(cid, False) == "true":
                            done.append(cid)
            elif op[0] == "restore":
                if done:
                    cid = done[-1] if self.rng.random() < 0.6 else self.rng.choice(done)
                    alive = self.restore(cid)
                    self.step = saved_steps.get(cid, self.step)

    def complete(self, cid) -> bool:
        """Whether the last report of this checkpoint was accepted (then it has to complete)."""
        count = 0
        for e in self.ev:
            if e["ev"] == "report" and e["res"] == "id" and e["id"] == cid:
                count += 1
            elif e["ev"] == "restore":
                count = 0
        return count == self.sc["G"] * self.sc["N"]


_copytree = shutil.copytree


def slow_copies(seconds: float) -> None:
    """A slow disk: storing the query result takes its time, file by file."""
    def copy2(a, b, **kw):
        time.sleep(seconds)
        return shutil.copy2(a, b, **kw)

    def tree(src, dst, *a, **kw):
        if "chkpnt" in str(dst) or "queryresult" in str(dst) or "checkpoint" in str(dst):
            return _copytree(src, dst, copy_function=copy2)
        return _copytree(src, dst, *a, **kw)
    shutil.copytree = tree if seconds else _copytree


def run(sc: dict, rec: dict) -> None:
    slow_copies(sc.get("slowcopy", 0))
    rec["cfg"] = {"comps": [], "G": sc["G"], "N": sc["N"], "W": sc["W"], "want": sc["want"], "rows": [],
                  "mixture": {"kind": "fixed", "mix": {"kind": "arbitrary", "keys": []}}}
    job = Job(sc, rec)
    try:
        job.run()
        if sc.get("reference", True):
            reference(job, sc, rec)
    finally:
        job.close()


def reference(job: Job, sc, rec) -> None:
    """The same history without interruption (one worker), for comparison with the restored one: what the generator was asked
    up to the end of the run, as a fresh job. Recorded as events of a job of its own."""
    hist = generator_history(rec["events"], sc)
    if not any(e["ev"] == "restore" for e in rec["events"]):
        return
    j = Job({**sc, "G": 1, "N": 1, "W": 1, "job": "reference", "want": []}, {"events": [], "cfg": {}})
    try:
        j.contents, j.order = job.contents, job.order
        j.start()
        from mixtera.network.client.client_feedback import ClientFeedback
        import numpy as np
        rec["events"].append({"ev": "fresh"})
        for h in hist:
            if h["ev"] == "fb":
                fb = ClientFeedback(training_steps=h["step"], mixture_id=h.get("fmid", 0))
                if h["has"]:
                    size = max([x["id"] for x in h["loss"]], default=0) + 1
                    fb.losses, fb.counts = np.zeros(size, dtype=np.float32), np.zeros(size, dtype=np.int64)
                    for x in h["loss"]:
                        fb.losses[x["id"]], fb.counts[x["id"]] = x["l"], x["n"]
                j.client.process_feedback(j.id, fb)
                rec["events"].append({"ev": "rfb", "h": h["h"]})
            else:
                n = len(j.ev)
                j.request(1, 1, 1)
                if len(j.ev) == n:
                    break
                e = j.ev[n]
                rec["events"].append({"ev": "ref", "res": e["res"], "c": e["c"], "mid": e["mid"]})
    finally:
        j.close()


def generator_history(events, sc) -> list:
    """What the generator was asked to do in the job's final incarnation."""
    hist, snaps, count = [], {}, {}
    pos: dict = {}
    length: dict = {}
    need = sc["G"] * sc["N"]
    state = lambda: (list(hist), dict(pos), dict(length))
    base: dict = {}
    for e in events:
        if e["ev"] == "fb":
            hist.append(e)
        elif e["ev"] == "req":
            k, a = (e["g"], e["n"], e["w"]), (e["g"], e["w"])
            if pos.get(k, 0) >= length.get(a, 0):
                hist.append(e)
                if e["res"] == "chunk":
                    length[a] = length.get(a, 0) + 1
            if e["res"] == "chunk":
                pos[k] = pos.get(k, 0) + 1
        elif e["ev"] == "report" and e["res"] == "id":
            count[e["id"]] = count.get(e["id"], 0) + 1
            if count[e["id"]] == need:
                p = {k: (v - 1 if v > base.get((k[0], k[2]), 0) else v) for k, v in pos.items()}
                b = dict(base)
                for k, v in pos.items():
                    if v > base.get((k[0], k[2]), 0):
                        b[(k[0], k[2])] = v - 1
                snaps[e["id"]] = (list(hist), p, dict(length), b)
        elif e["ev"] == "report":
            count = {}
        elif e["ev"] == "restore" and e["res"] == "ok" and e["id"] in snaps:
            h, p, le, b = snaps[e["id"]]
            hist, pos, length, base = list(h), dict(p), dict(le), dict(b)
            count = {}
    return hist
