"""A real server on the loopback interface and its clients. Scenario: {"data": {name: files}, "bad": [...], "jobs": {id: {"q", "m", "G",
"N", "W", "valid"}}, "ops"}; operations: ["add"|"remove"|"exists", name] ["list"] ["par", [[add …], …]] ["query", j] ["status", j]
["wait", j] ["chunk", j, g, n, w, how] ["meta", j] ["feedback", j, k] ["checkpoint", j, g, n] ["restore", j, k] ["file", name]
["unknown", what] ["cut", op, fraction] ["slow", op, fraction, op] ["restart"]"""
import asyncio, io, json, os, pathlib, random, shutil, socket, tempfile, threading, time
from contextlib import asynccontextmanager

import cache as K
import corpus as C
import job as J
from registry import open_db


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def parse(x):
    import json
    return json.loads(x)["text"]


class Shared:
    """The server's database connection; while active, threads stop where others could run."""

    def __init__(self, conn):
        self.conn, self.active, self.seen, self.cond = conn, False, 0, threading.Condition()

    def pause(self):
        if self.active:
            with self.cond:
                self.seen += 1
                self.cond.notify_all()
                now = self.seen
                self.cond.wait_for(lambda: self.seen > now, 0.06)

    def __getattr__(self, name):
        f = getattr(self.conn, name)
        if name not in ("execute", "register", "unregister"):
            return f

        def call(*a, **kw):
            r = f(*a, **kw)
            self.pause()
            return r
        return call


class Patches:
    """Shorter waiting of clients; requests on unknown jobs wait until they are let go."""

    def __init__(self):
        import mixtera.core.client.local.local_stub as ls
        import mixtera.core.client.server.server_stub as ss
        import mixtera.network.connection.server_connection as sc
        import tenacity

        class Aio:
            def __getattr__(s, n):
                return getattr(asyncio, n)

            async def sleep(s, t):
                await asyncio.sleep(min(t, 0.02))

        class Time:
            def __getattr__(s, n):
                return getattr(time, n)

            def sleep(s, t):
                time.sleep(min(t, 0.02))
        self.old = [(ls, "wait_for_key_in_dict", ls.wait_for_key_in_dict), (ss, "time", ss.time), (sc, "asyncio", sc.asyncio),
                    (sc, "wait_random_exponential", sc.wait_random_exponential)]
        ss.time, sc.asyncio = Time(), Aio()
        sc.wait_random_exponential = lambda *a, **kw: tenacity.wait_none()
        self.waiting, self.go, self.limit = threading.Event(), threading.Event(), 1.0

        def wait(d, key, timeout):
            end = time.time() + (min(timeout, self.limit) if not self.hold else 4)
            while key not in d and time.time() < end and not (self.hold and self.go.is_set()):
                self.waiting.set()
                time.sleep(0.01)
            return key in d
        self.hold = False
        ls.wait_for_key_in_dict = wait

    def undo(self):
        for m, n, v in self.old:
            setattr(m, n, v)


class Server:
    def __init__(self, directory):
        from mixtera.network.server import MixteraServer
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.srv = MixteraServer(directory, "127.0.0.1", self.port)
        self.shared = self.srv._local_stub._mdc._connection = Shared(self.srv._local_stub._mdc._connection)
        self.loop = asyncio.new_event_loop()
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()
        for _ in range(500):
            try:
                socket.create_connection(("127.0.0.1", self.port)).close()
                return
            except OSError:
                time.sleep(0.01)
        raise RuntimeError("server does not start")

    def run(self):
        asyncio.set_event_loop(self.loop)
        self.task = self.loop.create_task(self.srv._run_async())
        try:
            self.loop.run_until_complete(self.task)
        except BaseException:
            pass

    def stop(self):
        try:
            self.loop.call_soon_threadsafe(self.task.cancel)
        except RuntimeError:
            pass
        self.thread.join(5)
        try:
            self.srv._local_stub._mdc._connection.conn.close()
        except Exception:
            pass


class Writer:
    def __init__(self):
        self.data = bytearray()

    def write(self, b):
        self.data.extend(b)

    async def drain(self):
        pass


class Asked(Exception):
    pass


def raw_request(client, call) -> bytes:
    """The bytes of the request that call() sends first."""
    w, used = Writer(), []

    @asynccontextmanager
    async def fake(*a, **kw):
        if used:
            raise Asked()
        used.append(1)
        r = asyncio.StreamReader()
        r.feed_eof()
        yield r, w
    con = client.server_connection
    con._connect_to_server = fake
    try:
        call()
    except Exception:
        pass
    finally:
        del con._connect_to_server
    return bytes(w.data)


def with_answer(client, call, answer: bytes):
    """What call() makes of an answer."""
    @asynccontextmanager
    async def fake(*a, **kw):
        r = asyncio.StreamReader(limit=2**26)
        r.feed_data(answer)
        r.feed_eof()
        yield r, Writer()
    con = client.server_connection
    con._connect_to_server = fake
    try:
        return call()
    finally:
        del con._connect_to_server


class Raw:
    def __init__(self, port, data, part):
        self.s = socket.create_connection(("127.0.0.1", port))
        self.s.settimeout(20)
        self.rest = data[part:]
        if part:
            self.s.sendall(data[:part])

    def cut(self):
        self.s.shutdown(socket.SHUT_WR)
        self.read()

    def finish(self) -> bytes:
        if self.rest:
            self.s.sendall(self.rest)
        return self.read()

    def read(self) -> bytes:
        out = b""
        try:
            while d := self.s.recv(65536):
                out += d
        except ConnectionResetError:
            pass
        self.s.close()
        return out


class Side:
    """Operations on jobs, on the server through a client or on a local client."""

    def __init__(self, client, sc, root, remote):
        self.cl, self.sc, self.root, self.remote = client, sc, root, remote
        self.ids: dict = {}
        self.meta: dict = {}
        self.answer = None

    def chunk(self, j, g, n, w, how):
        from mixtera.core.client.mixtera_client import ResultStreamingArgs
        import dill
        if self.remote:
            from mixtera.utils import run_async_until_complete

            def fetch():
                return run_async_until_complete(self.cl.server_connection._get_next_result(j, g, n, w))
            ch = fetch() if self.answer is None else with_answer(self.cl, fetch, self.answer)
        else:
            try:
                ch = dill.loads(self.cl._get_query_chunk_distributor(j).next_chunk_for(g, n, w, False))
            except StopIteration:
                ch = None
        if ch is None:
            return ["end"]
        if j not in self.meta:
            self.meta[j] = self.cl._get_result_metadata(j)
        paths = self.meta[j][2]
        keys = sorted([[C.key_props(k), sorted([str(paths[f]), [list(map(int, r)) for r in rs]] for _, fs in ds.items() for f, rs in fs.items())]
                       for k, ds in ch._result_index.items()], key=json.dumps)
        ch.configure_result_streaming(self.cl, ResultStreamingArgs(job_id=j, tunnel_via_server=self.remote and how == "tunnel"))
        return ["chunk", ch.mixture_id, keys, [[int(k), s] for _, k, s in ch]]

    def do(self, op, answer=None):
        if answer is None or op[0] == "chunk":
            self.answer = answer
            return self.request(op)
        return with_answer(self.cl, lambda: self.request(op), answer)

    def request(self, op):
        import numpy as np
        from mixtera.network.client.client_feedback import ClientFeedback
        kind, j = op[0], op[1]
        if kind == "chunk":
            return self.chunk(*op[1:])
        if kind == "meta":
            m = self.cl._get_result_metadata(j)
            self.meta[j] = m
            return [sorted([int(k), v.__name__] for k, v in m[0].items()), sorted([int(k), v('{"text": "abc"}')] for k, v in m[1].items()),
                    sorted(str(v) for v in m[2].values())]
        if kind == "feedback":
            fb = ClientFeedback(training_steps=op[2], mixture_id=op[3])
            if op[4]:
                fb.losses, fb.counts = np.array(op[4], dtype=np.float32), np.array(op[5], dtype=np.int64)
            try:
                return [bool(self.cl.process_feedback(j, fb))]
            except Exception:
                return [False]
        if kind == "checkpoint":
            cids = set()
            for g in range(self.sc["jobs"][j]["G"] if j in self.sc["jobs"] else 1):
                for n in range(self.sc["jobs"][j]["N"] if j in self.sc["jobs"] else 1):
                    cids.add(self.cl.checkpoint(j, g, n, op[2], **({} if self.remote else {"server": True})))
            if len(cids) != 1 or None in cids:
                raise RuntimeError(f"refused: {cids}")
            cid = cids.pop()
            self.ids.setdefault(j, []).append(cid)
            for _ in range(800):
                if self.cl.checkpoint_completed(j, cid, True):
                    return ["id", self.ids[j].index(cid)]
                time.sleep(0.02)
            return ["never completed"]
        if kind == "restore":
            try:   # a failed restore is raised locally and a status on a server
                self.cl.restore_checkpoint(j, self.ids[j][op[2]] if j in self.ids else "nosuch_checkpoint")
            except FileNotFoundError:
                return [False]
            self.meta.pop(j, None)
            return [bool(self.cl.wait_for_execution(j))]
        raise ValueError(kind)


def digest(x):
    import hashlib
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 60 else hashlib.sha1(s.encode()).hexdigest()[:16]


def args(job):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs
    return QueryExecutionArgs(mixture=J.make(job["m"]), dp_groups=job["G"], nodes_per_group=job["N"], num_workers=job["W"])


def run(sc, rec):
    import dill
    from mixtera.core.client import MixteraClient
    from mixtera.core.datacollection.datasets import JSONLDataset

    root = pathlib.Path(tempfile.mkdtemp(prefix="srv"))
    patches = server = None
    ev = rec["events"]
    try:
        (root / "db").mkdir()
        locs = {}
        for n, files in sc["data"].items():
            locs[n] = root / f"data-{n}"
            locs[n].mkdir()
            for k, rows in enumerate(files):
                C.write_file(locs[n] / f"f{k}.jsonl", "jsonl", [{"p": r, "text": f"{n}-{k}-{i} \u00e4\u20ac"} for i, r in enumerate(rows)])
            if n in sc["bad"]:
                (locs[n] / "g.jsonl").write_text("this is not a record\n")
        patches = Patches()
        cls = []

        def start():
            nonlocal server
            server = Server(root / "db")
            server.srv._local_stub.register_metadata_parser("V0", C.make_parser(name="VerifParser0"))
            cls[:] = [MixteraClient.from_remote("127.0.0.1", server.port) for _ in range(2)]
        start()
        cl = cls[0]
        side = Side(cl, sc, root, True)
        solo: dict = {}
        solo_ops: dict = {j: [] for j in sc["jobs"]}
        registry: list = []             # successful changes of the registry, in order

        def add(c, n):
            return bool(c.register_dataset(n, str(locs[n]), JSONLDataset, parse, "V0"))

        def dataset(c, op):
            e = {"ev": "dataset", "op": op[0], "name": op[1] if len(op) > 1 else "", "ok": True, "names": [], "possible": len(op) > 1 and op[1] not in sc["bad"]}
            if op[0] == "add":
                e["ok"] = add(c, op[1])
            elif op[0] == "remove":
                e["ok"] = bool(c.remove_dataset(op[1]))
            elif op[0] == "exists":
                e["ok"] = bool(c.check_dataset_exists(op[1]))
            else:
                e["names"] = sorted(c.list_datasets())
            return e

        def note(e):
            if e["op"] in ("add", "remove") and e["ok"]:
                registry.append([e["op"], e["name"]])

        def begin_solo(j):
            d = root / f"solo-{j}"
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir()
            lc = open_db(d, [{}])
            for what, n in registry:
                ok = lc.register_dataset(n, str(locs[n]), JSONLDataset, parse, "V0") if what == "add" else lc.remove_dataset(n)
                if not ok:
                    raise RuntimeError("verif: registry of the local client")
            jb = sc["jobs"][j]
            lc.execute_query(K.make_query(j, jb["q"]), args(jb))
            solo[j] = Side(lc, sc, root, False)
            solo[j].dir = d

        def on_solo(op):
            if op[1] not in solo:
                begin_solo(op[1])
            try:
                r = solo[op[1]].do(op)
            except Exception as ex:
                r = ["refused", type(ex).__name__]
            solo_ops[op[1]].append(digest([op[0], r]))

        def reply(op, f):
            on_solo(op)
            ev.append({"ev": "ask"})
            try:
                r = f()
            except Exception as ex:
                if solo_ops[op[1]][-1] != digest([op[0], ["refused", type(ex).__name__]]) and "refused" not in solo_ops[op[1]][-1]:
                    raise
                r = None
            ev[-1] = {"ev": "job", "job": op[1], "op": op[0], "reply": digest([op[0], r]) if r is not None else solo_ops[op[1]][-1]}

        def simple(op, c=None):
            c = c or cl
            if op[0] in ("add", "remove", "exists", "list"):
                ev.append({"ev": "ask"})
                ev[-1] = dataset(c, op)
                note(ev[-1])
            elif op[0] == "query":
                jb = sc["jobs"][op[1]]
                ev.append({"ev": "ask"})
                ev[-1] = {"ev": "query", "job": op[1], "ok": bool(c.execute_query(K.make_query(op[1], jb["q"]), args(jb)))}
            elif op[0] == "status":
                ev.append({"ev": "ask"})
                ev[-1] = {"ev": "status", "job": op[1], "st": c.server_connection.check_query_exec_status(op[1])}
            elif op[0] == "wait":
                ev.append({"ev": "ask"})
                ev[-1] = {"ev": "wait", "job": op[1], "ok": bool(c.wait_for_execution(op[1]))}
                if ev[-1]["ok"] and op[1] not in solo:
                    begin_solo(op[1])
            elif op[0] == "file":
                n = sorted(locs[op[1]].iterdir())[0]
                ev.append({"ev": "ask"})
                ev[-1] = {"ev": "file", "same": [x.rstrip("\n") for x in c.server_connection.get_file_iterable(str(n))]
                                                == [x.rstrip("\n") for x in n.open(encoding="utf-8")]}
            else:
                reply(op, lambda: side.do(op))

        def call_of(op, s):
            """The client's call for an operation, for its bytes."""
            c = s.cl
            if op[0] == "add":
                return lambda: add(c, op[1])
            if op[0] == "query":
                return lambda: c.execute_query(K.make_query(op[1], sc["jobs"][op[1]]["q"]), args(sc["jobs"][op[1]]))
            if op[0] in ("remove", "exists", "list"):
                return lambda: dataset(c, op)
            return lambda: s.do(op)

        def concurrent(k, o):
            c = cls[k % 2]
            if o[0] == "query":
                return {"ev": "query", "job": o[1], "ok": bool(c.execute_query(K.make_query(o[1], sc["jobs"][o[1]]["q"]), args(sc["jobs"][o[1]])))}
            return dataset(c, o)

        for op in sc["ops"]:
            if op[0] == "par":
                server.shared.active = True
                res: dict = {}
                ths = [threading.Thread(target=lambda k=k, o=o: res.update({k: guard(lambda: concurrent(k, o))})) for k, o in enumerate(op[1])]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(30)
                for o in op[1]:
                    if o[0] == "query":
                        cl.wait_for_execution(o[1])
                server.shared.active = False
                order = {n: i for i, (n,) in enumerate(server.shared.conn.cursor().execute("SELECT name FROM datasets ORDER BY id").fetchall())}
                for k in sorted(range(len(op[1])), key=lambda k: order.get(op[1][k][1], 99) if op[1][k][0] == "add" else -1):
                    if k not in res or isinstance(res[k], Exception):
                        raise res.get(k) or RuntimeError("request did not end")
                    ev.append(res[k])
                    if op[1][k][0] != "query":
                        note(res[k])
            elif op[0] == "restart":        # the server ends and starts again
                server.stop()
                start()
                cl = side.cl = cls[0]
                side.meta.clear()
                for so in solo.values():
                    so.cl._mdc._connection.close()
                    so.cl = open_db(so.dir, [{}])
                    so.meta.clear()
                ev.append({"ev": "restart"})
            elif op[0] == "cut":
                data = raw_request(cl, call_of(op[1], side))
                k = min(len(data) - 1, max(1, int(len(data) * op[2])))
                r = Raw(server.port, data, k)
                r.cut()
                time.sleep(0.03)
                ev.append({"ev": "cut", "op": op[1][0], "at": k, "of": len(data)})
            elif op[0] == "slow":
                first, second = op[1], op[3]
                call = call_of(first, side)
                if first[0] == "chunk" and first[1] not in side.meta:
                    side.meta[first[1]] = cl._get_result_metadata(first[1])
                data = raw_request(cl, call)
                r = Raw(server.port, data, min(len(data) - 1, max(1, int(len(data) * op[2]))))
                time.sleep(0.01)
                simple(second, cls[1])
                answer = r.finish()
                if first[0] in ("exists", "list"):
                    ev.append({"ev": "ask"})
                    ev[-1] = with_answer(cl, call, answer)
                    note(ev[-1])
                else:
                    reply(first, lambda: side.do(first, answer))
            elif op[0] == "unknown":
                patches.waiting.clear(), patches.go.clear()
                patches.hold = True
                out: dict = {}

                def ask():
                    try:
                        out["r"] = side.do(op[1])
                        out["reported"] = out["r"] == [False]
                    except Exception:
                        out["reported"] = True
                th = threading.Thread(target=ask)
                th.start()
                patches.waiting.wait(0.5)
                other: dict = {}
                th2 = threading.Thread(target=lambda: other.update(r=guard(cls[1].list_datasets)))
                th2.start()
                th2.join(2)
                served = "r" in other and not isinstance(other["r"], Exception)
                patches.go.set()
                th.join(20), th2.join(20)
                patches.hold = False
                ev.append({"ev": "unknown", "op": op[1][0], "reported": bool(out.get("reported")), "served": served})
            else:
                simple(op, cls[len(ev) % 2] if op[0] in ("add", "remove", "exists", "list", "query", "status", "wait") else None)
    finally:
        rec["cfg"] = {"solo": locals().get("solo_ops") or {j: [] for j in sc["jobs"]}, "valid": {j: jb["valid"] for j, jb in sc["jobs"].items()}}
        if server:
            server.stop()
        if patches:
            patches.undo()
        for s in (locals().get("solo") or {}).values():
            try:
                s.cl._mdc._connection.close()
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)


def guard(f):
    try:
        return f()
    except Exception as ex:
        return ex
