"""Messages over a byte stream. Scenario: {"msgs": [[type, size_bytes, value spec]], "frags": seed, "cut": fraction|null, "stall", "gaps", "mode"}"""
import asyncio, hashlib, io, pickle, random, struct


def Recorder(sc):
    return {"scenario": sc, "cfg": {"sizes": [], "vals": [], "pieces": [], "ends": True}, "events": []}


class VirtualLoop(asyncio.SelectorEventLoop):
    """Time passes when nothing else is to be done."""

    def __init__(self):
        super().__init__()
        self.t = 0.0
        select = self._selector.select

        def fast(timeout=None):
            r = select(0)
            if not r and timeout:
                self.t += timeout
            return r
        self._selector.select = fast

    def time(self):
        return self.t


class Writer:
    def __init__(self):
        self.data = bytearray()

    def write(self, b):
        self.data.extend(b)

    async def drain(self):
        pass


def value(spec):
    import numpy as np
    kind, x = spec
    if kind in ("int", "obj", "str"):
        return x
    if kind == "text":
        return x[0] * x[1]
    if kind == "float":
        return struct.unpack(">d", bytes.fromhex(x))[0]
    if kind == "bytes":
        return random.Random(x[0]).randbytes(x[1])
    if kind == "none":
        return None
    if kind == "array":
        r = np.random.default_rng(x[0])
        a = r.integers(0, 200, size=x[2]).astype(x[1])
        return a if not x[3] else np.asfortranarray(a)[..., ::2] if a.ndim > 1 else a[::2] if a.ndim else a
    raise ValueError(kind)


def ident(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        x = ("array", str(x.dtype), x.shape, x.tobytes())
    elif isinstance(x, float):
        x = ("float", struct.pack(">d", x))
    elif isinstance(x, (bytes, bytearray)):
        x = ("bytes", bytes(x))
    else:
        x = (type(x).__name__, repr(x))
    return hashlib.sha1(pickle.dumps(x)).hexdigest()[:12]


def run(sc, rec):
    from mixtera.network import network_utils as nu
    rng = random.Random(sc["seed"])
    ev, cfg = rec["events"], rec["cfg"]

    def write(w, t, n, v):
        return {"int": lambda: nu.write_int(v, n, w), "str": lambda: nu.write_utf8_string(v, n, w), "bytes": lambda: nu.write_bytes_obj(v, n, w),
                "obj": lambda: nu.write_pickeled_object(v, n, w), "float": lambda: nu.write_float(v, w),
                "array": lambda: nu.write_numpy_array(v, 4, n, w)}[t]()

    def read(r, t, n):
        return {"int": lambda: nu.read_int(n, r), "str": lambda: nu.read_utf8_string(n, r), "bytes": lambda: nu.read_bytes_obj(n, r),
                "obj": lambda: nu.read_pickeled_object(n, r), "float": lambda: nu.read_float(r),
                "array": lambda: nu.read_numpy_array(4, n, r)}[t]()

    data, msgs = bytearray(), []

    async def produce():
        for t, n, spec in sc["msgs"]:
            v, w = value(spec), Writer()
            fits = True
            if t == "int":
                fits = -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))
            elif t == "str":
                fits = len(v.encode()) < (1 << (8 * n - 1))
            elif t == "bytes" and v is not None:
                fits = len(v) < (1 << (8 * n - 1))
            elif t in ("obj", "array"):
                fits = n >= 4
            e = {"ev": "write", "t": t, "ok": True, "fits": fits}
            try:
                await write(w, t, n, v)
            except OverflowError:
                e["ok"] = False
            if t not in ("obj", "array") or fits:
                ev.append(e)
            if e["ok"]:
                msgs.append((t, n, v))
                data.extend(w.data)
                cfg["sizes"].append(len(w.data))
                cfg["vals"].append(ident(v))

    async def consume(r, loop):
        for t, n, _ in msgs:
            try:
                v = await read(r, t, n)
                # None stands for the end of the stream, except where it was written
                none = v is None and not (t in ("bytes", "array", "obj") and cfg["vals"][len([e for e in ev if e["ev"] == "read"])] == ident(None))
                e = {"ev": "read", "res": "none" if none else "value", "val": ident(v)}
            except Exception as ex:
                e = {"ev": "read", "res": "error", "val": type(ex).__name__}
            e["now"] = int(loop.time()) if sc["mode"] != "socket" else 0
            k = len([x for x in ev if x["ev"] == "read"])
            if e["res"] == "value" and e["val"] == ident(None) and sum(cfg["sizes"][:k + 1]) > total:
                e["res"] = "none"     # cannot be told apart
            ev.append(e)
            if e["res"] != "value":
                return

    asyncio.run(produce())
    total = len(data) if sc["cut"] is None else int(len(data) * sc["cut"])
    pieces, pos, at = [], 0, 0
    while pos < total:
        n = min(total - pos, rng.choice([1, 1, 2, 3, 7, 100, 5000, 1 << 20]) if sc["frag"] == "any" else 1 if sc["frag"] == "one" and len(data) < 3000 else total)
        pos += n
        at += rng.choice(sc["gaps"]) if len(pieces) < 400 else 0
        pieces.append((pos, at))
    cfg["pieces"] = [{"upto": p, "at": a} for p, a in pieces] if sc["mode"] != "socket" else [{"upto": total, "at": 0}] if total else []
    if sc["mode"] == "socket":
        async def go():
            async def serve(r, w):
                prev = 0
                for p, _ in pieces:
                    w.write(bytes(data[prev:p]))
                    if rng.random() < 0.3:
                        await w.drain()
                        await asyncio.sleep(0)
                    prev = p
                await w.drain()
                w.close()
            s = await asyncio.start_server(serve, "127.0.0.1", 0)
            r, w = await asyncio.open_connection("127.0.0.1", s.sockets[0].getsockname()[1])
            await consume(r, asyncio.get_running_loop())
            w.close()
            s.close()
        asyncio.run(go())
        return
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        async def go():
            r = asyncio.StreamReader(limit=sc.get("limit", 2**16))

            async def feed():
                prev = 0
                for p, a in pieces:
                    if a > loop.time():
                        await asyncio.sleep(a - loop.time())
                    r.feed_data(bytes(data[prev:p]))
                    prev = p
                    if rng.random() < 0.5:
                        await asyncio.sleep(0)
                if not sc["stall"]:
                    r.feed_eof()
            r._transport = type("T", (), {"pause_reading": lambda s: None, "resume_reading": lambda s: None})()
            f = asyncio.create_task(feed())
            await consume(r, loop)
            f.cancel()
        loop.run_until_complete(go())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
