"""Training jobs reading through the data loaders. Scenario: {"corpus", "mixture", "G", "N", "W", "lib": torch|hf, "server": bool, "batch",
"pf", "args": {...}, "seed", "stops": [batches before a checkpoint, …], "restart": bool}"""
import json, os, pathlib, random, shutil, signal, socket, tempfile, threading, time

import chunkgen as G
import corpus as C
import tokens as T

_now = None       # the dataset being read in this process


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def serve(directory, port):
    """A server in a process of its own."""
    pid = os.fork()
    if pid:
        end = time.time() + 20
        while time.time() < end:
            try:
                socket.create_connection(("127.0.0.1", port)).close()
                return pid
            except OSError:
                time.sleep(0.02)
        raise RuntimeError("server does not start")
    try:
        signal.setitimer(signal.ITIMER_REAL, 0)
        import asyncio
        from mixtera.network.server import MixteraServer
        asyncio.run(MixteraServer(directory, "127.0.0.1", port)._run_async())
    finally:
        os._exit(1)


def stop(pid):
    try:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    except OSError:
        pass


def content(x, lib):
    """Samples are told apart by their content."""
    if isinstance(x, dict):
        x = x["input_ids"] if "input_ids" in x else x["text"]
    return json.dumps(x if isinstance(x, str) else [int(v) for v in x])


def status_of(ds):
    it = getattr(ds, "_ex_iterable", ds)      # of Hugging Face datasets
    while not hasattr(type(it), "worker_status") and hasattr(it, "ex_iterable"):
        it = it.ex_iterable
    return it.worker_status


def collate(batch):
    from torch.utils.data import get_worker_info
    info = get_worker_info()
    w, ds = (info.id, info.dataset) if info else (0, _now)
    st = status_of(ds)
    items = []
    for b in batch:
        if isinstance(b, dict):
            k = b["key_id"]
            if isinstance(k, (list, tuple)):
                assert len(k) == len(b["input_ids"]) and len(set(k)) == 1, "key ids of a token sequence"
                k = k[0]
            items.append([content(b, "hf"), int(k)])
        else:
            items.append([content(b[1], "torch"), int(b[0])])
    return w, (-1 if st is None else int(st[w])), items


_count = 0


class Job:
    def __init__(self, sc, rec, root):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
        self.sc, self.rec, self.ev, self.root = sc, rec, rec["events"], root
        self.rng = random.Random(sc["seed"])
        global _count
        _count += 1
        self.id = f"j{os.getpid()}x{_count}"
        self.pid = None
        n = sum(len(f) for ds in sc["corpus"]["datasets"] for f in ds)
        spec = dict(sc["corpus"])
        args = dict(sc["args"])
        if args.get("chunk_reading_mixture_type") == "token":
            texts, w = {}, 0
            for i in range(1, n + 1):
                k = self.rng.choice([1, 2, 5, 9])
                texts[i] = T.text(range(w, w + k))
                w += k
            spec["texts"] = texts
            args["chunk_reading_tokenizer"] = T.tokenizer_dir(1500)
        self.co = C.Corpus(spec, root=root / "c")
        self.sargs = lambda job, **kw: ResultStreamingArgs(job_id=job, **{**args, **kw})
        self.eargs = lambda g, n_, w: QueryExecutionArgs(mixture=G.make_mixture(sc["mixture"]), dp_groups=g, nodes_per_group=n_, num_workers=w)

    def reference(self):
        from mixtera.core.query import Query
        cl = self.co.client
        if not cl.execute_query(Query.for_job("ref").select(None), self.eargs(1, 1, 0)):
            raise RuntimeError("query not executed")
        chunks, self.number, keys = [], {}, []
        for ch in cl._stream_result_chunks("ref", 0, 0, 0):
            ch.configure_result_streaming(cl, self.sargs("ref", tunnel_via_server=False))
            cur = []
            for _, kid, s in ch:
                c = content(s, "")
                if c in self.number:
                    raise RuntimeError(f"sample twice: {c}")
                self.number[c] = len(self.number) + 1
                keys.append(int(kid))
                cur.append(self.number[c])
            if cur:
                chunks.append(cur)
        sc = self.sc
        self.rec["cfg"] = {"G": sc["G"], "N": sc["N"], "W": max(sc["W"], 1), "chunks": chunks, "refkeys": keys,
                           "ahead": (sc["pf"] + 1) * sc["batch"] if sc["W"] else 0}

    def connect(self):
        from mixtera.core.client import MixteraClient
        if not self.sc["server"]:
            if "checkpoint" not in vars(self.co.client):
                self.one_at_a_time(self.co.client)
            return self.co.client
        if self.pid is None:
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            try:
                self.co.client._mdc._connection.close()
            except Exception:
                pass
            self.pid = serve(self.root / "c" / "db", self.port)
        return MixteraClient.from_remote("127.0.0.1", self.port)

    @staticmethod
    def one_at_a_time(client):
        """A client without a server is not made for threads, so here its calls do not overlap."""
        lock = threading.Lock()
        for name in ("checkpoint", "checkpoint_completed"):
            def call(*a, _f=getattr(client, name), **kw):
                with lock:
                    return _f(*a, **kw)
            setattr(client, name, call)

    def loaders(self, checkpoint):
        import torch
        from mixtera.core.query import Query
        sc = self.sc
        self.clients, self.ds, self.dl, self.its = {}, {}, {}, {}
        order = [(g, n) for g in range(sc["G"]) for n in range(sc["N"])]
        shared = self.connect()
        for g, n in order:
            cl = shared if not sc["server"] or self.rng.random() < 0.5 else self.connect()
            args = dict(client=cl, query=Query.for_job(self.id).select(None), query_execution_args=self.eargs(sc["G"], sc["N"], sc["W"]),
                        result_streaming_args=self.sargs(self.id, dp_group_id=g, node_id=n), checkpoint_path=checkpoint)
            if sc["lib"] == "torch":
                from mixtera.torch import MixteraTorchDataset
                ds = MixteraTorchDataset(return_key_id=True, **args)
            else:
                from datasets.distributed import split_dataset_by_node
                from mixtera.hf import MixteraHFDataset
                ds = MixteraHFDataset(**args)
                if sc["split"]:
                    ds = split_dataset_by_node(ds, rank=g, world_size=sc["G"])
            self.ds[g, n] = ds
        for p in order:
            kw = {"num_workers": sc["W"], "prefetch_factor": sc["pf"], "multiprocessing_context": "fork", "timeout": 25} if sc["W"] else {}
            self.dl[p] = torch.utils.data.DataLoader(self.ds[p], batch_size=sc["batch"], collate_fn=collate, **kw)

    def step(self, p):
        """One batch of node p; false at its end"""
        global _now
        if p not in self.its:
            self.its[p] = iter(self.dl[p])
        _now = self.ds[p]
        try:
            w, status, items = next(self.its[p])
        except StopIteration:
            self.ev.append({"ev": "end", "g": p[0] + 1, "n": p[1] + 1})
            return False
        self.ev.append({"ev": "batch", "g": p[0] + 1, "n": p[1] + 1, "w": w + 1, "status": status,
                        "items": [[self.number.get(c, 0), k] for c, k in items]})
        if not self.sc["W"]:
            st = status_of(self.ds[p])
            if st is not None:
                self.ev.append({"ev": "status", "g": p[0] + 1, "n": p[1] + 1, "status": [int(x) for x in st], "exact": True})
        return True

    def read(self, upto):
        """Reads in any order until every node got upto batches, or to the end; true if nobody is at the end"""
        count = {p: 0 for p in self.dl}
        active = set(self.dl)
        style = self.rng.choice(["any", "turns", "one"])
        while True:
            todo = sorted(p for p in active if upto is None or count[p] < upto)
            if not todo:
                return active == set(self.dl)
            if style == "turns":
                p = min(todo, key=lambda q: (count[q], q))
            else:
                p = todo[0] if style == "one" and self.rng.random() < 0.8 else self.rng.choice(todo)
            count[p] += 1
            if not self.step(p):
                active.discard(p)

    def settled(self):
        """Workers fill their queues before they stop."""
        if not self.sc["W"]:
            return all(status_of(d) is not None for d in self.ds.values())      # none has ended
        last, since = None, time.time()
        end = time.time() + 10
        while time.time() < end:
            cur = [status_of(d) for _, d in sorted(self.ds.items())]
            if cur != last:
                last, since = cur, time.time()
            if time.time() - since > 1:
                return all(x is not None for x in cur) and all(last[i] == last[i - i % self.sc["N"]] for i in range(len(last)))
            time.sleep(0.05)
        return False

    def checkpoint(self):
        from mixtera.utils.checkpoint import handle_mixtera_checkpoint
        path = pathlib.Path(tempfile.mkdtemp(dir=self.root))
        err = []

        def one(p):
            try:
                handle_mixtera_checkpoint(self.dl[p] if self.rng.random() < 0.5 else self.ds[p], path, p[0], p[1], True)
            except BaseException as ex:
                err.append(ex)
        ts = [threading.Thread(target=one, args=(p,), daemon=True) for p in self.dl]
        self.rng.shuffle(ts)
        for t in ts:
            t.start()
        for t in ts:
            while t.is_alive() and not err:
                t.join(0.1)
        if err:
            raise err[0]
        return path

    def quit(self):
        import gc
        self.its = {}
        self.dl, self.ds = {}, {}
        gc.collect()
        for f in pathlib.Path("/dev/shm").glob(f"mt?_*_{self.id}"):     # what an interrupted job leaves behind
            f.unlink(missing_ok=True)


def run(sc, rec):
    root = pathlib.Path(tempfile.mkdtemp(prefix="ldr"))
    job = None
    try:
        job = Job(sc, rec, root)
        job.reference()
        if not rec["cfg"]["chunks"]:
            return
        path = None
        for k in sc["stops"]:
            job.loaders(path)
            if not job.read(k) or not job.settled():
                break
            path = job.checkpoint()
            job.quit()
            rec["events"].append({"ev": "resume"})
            if sc["restart"] and sc["server"]:
                stop(job.pid)
                job.pid = None
        else:
            job.loaders(path)
        job.read(None)
        rec["events"].append({"ev": "all"})
    finally:
        if job is not None:
            job.quit()
            if job.pid:
                stop(job.pid)
        try:
            job.co.close()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)
