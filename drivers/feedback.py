"""Feedback of training loops. Scenario: {"corpus", "mixture", "server", "workers" (real data loaders), "G", "N", "W", "jobs", "lib": torch|hf,
"args", "batch", "pf", "seed", "ncomps"}"""
import gc, json, os, pathlib, random, shutil, socket, tempfile

import corpus as C
import job as J
import loaders as L

_arrivals = None      # file of what arrived
_m = -1               # mixture this worker received last


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def append(path, x):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(x) + "\n").encode())
    os.close(fd)


def lines(path):
    return [json.loads(x) for x in path.read_text().splitlines()] if path.exists() else []


def patch():
    """Notes the feedback when it has reached the system itself."""
    import numpy as np
    from mixtera.core.client.local import LocalStub
    if hasattr(LocalStub, "_verif_orig"):
        return
    LocalStub._verif_orig = orig = LocalStub.process_feedback

    def values(x):
        return [] if x is None else [int(v) if float(v) == int(v) else -1 for v in x]

    def process_feedback(self, job_id, feedback):
        r = orig(self, job_id, feedback)
        if r:
            append(_arrivals, {"job": job_id, "step": int(feedback.training_steps), "m": int(feedback.mixture_id), "l": values(feedback.losses),
                               "n": values(feedback.counts),
                               "arrays": all(x is None or isinstance(x, np.ndarray) for x in (feedback.losses, feedback.counts))})
        return r
    LocalStub.process_feedback = process_feedback


def typed(rng, xs, floats):
    import numpy as np
    import torch
    if xs is None:
        return None
    k = rng.choice(["list", "tuple", "np", "np32", "torch", "grad" if floats else "torch32"])
    if k in ("list", "tuple"):
        return (list if k == "list" else tuple)(float(x) if floats else x for x in xs)
    if k.startswith("np"):
        return np.array(xs, dtype={"np": "float64" if floats else "int64", "np32": "float32" if floats else "int32"}[k])
    return torch.tensor(xs, dtype=torch.float32 if floats else torch.int32 if k == "torch32" else torch.int64, requires_grad=k == "grad")


class Holder:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def collate(batch):
    return _m


class Run:
    def __init__(self, sc, rec, root):
        self.sc, self.rec, self.ev, self.root = sc, rec, rec["events"], root
        self.rng = random.Random(sc["seed"])
        self.co = C.Corpus(sc["corpus"], root=root / "c")
        self.port = self.pid = None
        self.step = 0
        self.got = root / "got"
        self.known = {}

    def client(self):
        from mixtera.core.client import MixteraClient
        if not self.sc["server"]:
            return self.co.client
        if self.pid is None:
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            try:
                self.co.client._mdc._connection.close()
            except Exception:
                pass
            self.pid = L.serve(self.root / "c" / "db", self.port)
        return MixteraClient.from_remote("127.0.0.1", self.port)

    def watch(self, client, c):
        orig = client._stream_result_chunks

        def chunks(job_id, *a, **kw):
            global _m
            for ch in orig(job_id, *a, **kw):
                _m = int(ch.mixture_id)
                if self.sc["workers"]:
                    append(self.got, [job_id, _m])
                else:
                    self.ev.append({"ev": "chunk", "c": c, "job": job_id, "m": _m})
                    self.known[c] = job_id
                yield ch
        client._stream_result_chunks = chunks

    def dataset(self, client, job, g):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
        from mixtera.core.query import Query
        sc = self.sc
        args = dict(client=client, query=Query.for_job(job).select(None),
                    query_execution_args=QueryExecutionArgs(mixture=J.make(sc["mixture"]), dp_groups=sc["G"], nodes_per_group=sc["N"],
                                                            num_workers=sc["W"]),
                    result_streaming_args=ResultStreamingArgs(job_id=job, dp_group_id=g, node_id=0, **sc["args"]))
        if sc["lib"] == "torch":
            from mixtera.torch import MixteraTorchDataset
            return MixteraTorchDataset(**args)
        from datasets.distributed import split_dataset_by_node
        from mixtera.hf import MixteraHFDataset
        ds = MixteraHFDataset(**args)
        if sc["G"] > 1 or self.rng.random() < 0.5:
            ds = split_dataset_by_node(ds, rank=g, world_size=sc["G"])
        return ds.map(lambda x: x) if self.rng.random() < 0.5 else ds

    def handle(self, ds, dl=None):
        """What the training loop has in its hands"""
        import torch
        dl = dl if dl is not None else torch.utils.data.DataLoader(ds, batch_size=2)

        def check(dataloader):
            yield from dataloader

        class Wrapped(torch.utils.data.IterableDataset):
            def __init__(self, inner):
                self.inner = inner

            def __iter__(self):
                return iter(self.inner)
        kinds = [("dataset", ds), ("loader", dl), ("generator", check(dl))]
        if self.sc["lib"] == "torch":
            kinds += [("wrapped", Wrapped(ds)), ("loader of wrapped", torch.utils.data.DataLoader(Wrapped(ds))),
                      ("in list", Wrapped(Holder(parts=[1, ds]))), ("in dict", Wrapped(Holder(parts={"a": Holder(b=ds)}))),
                      ("deep", Wrapped(Holder(x=Holder(y=(Holder(z=ds),)))))]
        return self.rng.choice(kinds)

    def report(self, c, job, g, what, lo=None):
        from mixtera.utils.feedback import handle_mixtera_feedback
        rng = self.rng
        self.step += rng.choice([0, 1, 1, 2, 7])
        n = rng.randint(1, self.sc["ncomps"])
        l, k = [rng.randint(0, 500) for _ in range(n)], [rng.choice([rng.randint(0, 9), rng.randint(0, 9), 16777217, 2147483647 - rng.randint(0, 9)]) for _ in range(n)]
        r = rng.random()
        if r < 0.1:
            l = k = None
        tp = rng.choice([0, 0, 0, 0, 1, 3])
        before = len(lines(_arrivals))
        mine = what is not None
        try:
            handle_mixtera_feedback(what[1] if mine else rng.choice([Holder(a=1), [1, 2]]), self.step, typed(rng, l, True), typed(rng, k, False), g, tp)
            failed = False
        except Exception as ex:
            failed = f"{type(ex).__name__}: {ex}"
        e = {"ev": "report", "c": c, "job": job, "dp": g, "tp": tp, "step": self.step, "l": l or [], "n": k or [], "mine": mine, "how": what[0] if mine else "", "exact": lo is None,
             "failed": bool(failed), "arrived": lines(_arrivals)[before:]}
        if failed:
            e["why"] = failed
        if lo is not None:
            e.update(lo=lo, hi=max([m for j, m in lines(self.got) if j == job], default=-1))
        self.ev.append(e)

    def exact(self, job, clients):
        """All loaders in one thread, in any order"""
        from mixtera.core.client.mixtera_client import ResultStreamingArgs
        sc, rng = self.sc, self.rng
        ds, gens = {}, []
        for g in range(sc["G"]):
            c = g % len(clients)
            ds[g] = self.dataset(clients[c], job, g)
            for n in range(sc["N"]):      # nodes that lag behind receive older chunks
                for w in range(max(sc["W"], 1)):
                    gens.append([c, iter(clients[c].stream_results(ResultStreamingArgs(job_id=job, dp_group_id=g, node_id=n, worker_id=w, **sc["args"])))])
        after = 4
        while gens or after:
            if gens and rng.random() < 0.75:
                x = rng.choice(gens)
                for _ in range(rng.choice([1, 2, 5, 20])):
                    if next(x[1], None) is None:
                        self.ev.append({"ev": "end", "c": x[0] + 1})
                        gens.remove(x)
                        break
            else:
                after -= not gens
                g = rng.choice([0, 0, 0, rng.randrange(sc["G"])])
                c = g % len(clients)
                if self.known.get(c + 1) == job:
                    self.report(c + 1, job, g, self.handle(ds[g]) if rng.random() < 0.95 else None)

    def workers(self, job, clients):
        import torch
        sc, rng = self.sc, self.rng
        ds = [self.dataset(clients[g % len(clients)], job, g) for g in range(sc["G"])]
        dls = [torch.utils.data.DataLoader(d, batch_size=sc["batch"], collate_fn=collate, num_workers=sc["W"], prefetch_factor=sc["pf"],
                                           multiprocessing_context="fork", timeout=25) for d in ds]
        its = [iter(d) for d in dls]
        seen, active, after = [-1] * sc["G"], set(range(sc["G"])), 3
        while active or after:
            if active:
                g = rng.choice(sorted(active))
                m = next(its[g], None)
                if m is None:
                    active.discard(g)
                    self.ev.append({"ev": "end", "c": g % len(clients) + 1})
                else:
                    seen[g] = max(seen[g], m)
            else:
                after -= 1
            g = rng.choice([0, 0, 0, rng.randrange(sc["G"])])
            if seen[g] >= 0 and rng.random() < 0.7:
                mine = [x for x in range(sc["G"]) if x % len(clients) == g % len(clients)]
                self.report(g % len(clients) + 1, job, g, self.handle(ds[g], dls[g]), lo=max(seen[x] for x in mine))
        its.clear()
        gc.collect()


def run(sc, rec):
    global _arrivals
    root = pathlib.Path(tempfile.mkdtemp(prefix="fbk"))
    _arrivals = root / "arrivals"
    r = None
    patch()
    try:
        r = Run(sc, rec, root)
        clients = [r.client() for _ in range(min(sc["clients"], sc["G"]) if sc["server"] else 1)]
        for i, cl in enumerate(clients):
            r.watch(cl, i + 1)
        rec["cfg"] = {"clients": [0] * len(clients)}
        for k in range(sc["jobs"]):
            (r.workers if sc["workers"] else r.exact)(f"f{os.getpid()}x{sc['seed']}x{k}", clients)
    finally:
        if r is not None:
            if r.pid:
                L.stop(r.pid)
            try:
                r.co.close()
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)
