"""Generates chunk streams from QueryResult over real registered data. Scenario:
{"corpus": {...}, "query": [...conditions] | null, "steps": [["mix", mixture], ["pull", n], ["fork", processes], ["drain"]]}"""
import atexit, json, os, pathlib, random, signal

import corpus as C

_cache: dict = {}
_count = 0


def get_corpus(spec) -> C.Corpus:
    k = json.dumps(spec, sort_keys=True)
    if k not in _cache:
        if len(_cache) > 6:
            _cache.pop(next(iter(_cache))).close()
        _cache[k] = C.Corpus(spec)
    return _cache[k]


atexit.register(lambda: [c.close() for c in _cache.values()])


def mkey(props):
    from mixtera.core.query.mixture import MixtureKey
    return MixtureKey({n: list(v) for n, v in props})


def strictness(m):
    """strict is the default: strict mixtures of odd sizes rely on that"""
    return {} if m["strict"] and m["size"] % 2 else {"strict": m["strict"]}


def make_mixture(m: dict):
    """{"kind": arbitrary|static|hier|infer, "size":…, "strict":…, "keys": [[props, num], …], "den":…}"""
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, StaticMixture
    from mixtera.core.query.mixture.hierarchical_static_mixture import Component, HierarchicalStaticMixture, MixtureNode
    if m["kind"] == "arbitrary":
        return ArbitraryMixture(m["size"])
    if m["kind"] == "infer":
        return InferringMixture(m["size"], **strictness(m))
    if m["kind"] == "static":
        return StaticMixture(m["size"], {mkey(p): n / m["den"] for p, n in m["keys"]}, **strictness(m))
    if m["kind"] == "hier":
        def node(d):
            return MixtureNode(d["prop"], [Component(v, n / m["den"], node(sub) if sub else None) for v, n, sub in d["comps"]])
        return HierarchicalStaticMixture(m["size"], node(m["node"]), **strictness(m))
    raise ValueError(m["kind"])


def flatten(d, den):
    out = []
    for v, n, sub in d["comps"]:
        if sub:
            for props, k, dd in flatten(sub, den):
                out.append((sorted(props + [[d["prop"], list(v)]]), k * n, dd * den))
        else:
            out.append(([[d["prop"], list(v)]], n, den))
    return out


def mix_event(m: dict, mixture, comps) -> dict:
    """The mixture as the specification sees it: requested shares (from the scenario) and the rows the code prescribes."""
    rows = {json.dumps(C.key_props(k)): v for k, v in mixture.mixture_in_rows().items()}
    e = {"kind": "static", "size": m["size"], "strict": bool(m.get("strict", False)), "keys": [], "den": 0, "slack": 0}
    if m["kind"] == "arbitrary":
        e["kind"] = "arbitrary"
        return {"ev": "mix", "mix": e}
    if m["kind"] == "static":
        shares, e["den"] = [(p, n) for p, n in m["keys"]], m["den"]
    elif m["kind"] == "hier":
        fl = flatten(m["node"], m["den"])
        den = max(d for _, _, d in fl)
        shares, e["den"] = [(p, n * den // d) for p, n, d in fl], den
        e["slack"] = len(fl)
    else:
        shares, e["den"] = [(c["props"], len(c["ids"])) for c in comps], sum(len(c["ids"]) for c in comps)
    for p, n in shares:
        p = [[a, sorted(v)] for a, v in sorted(p)]
        e["keys"].append({"props": p, "num": n, "rows": rows.pop(json.dumps(p), -1)})
    for p, r in rows.items():
        e["keys"].append({"props": json.loads(p), "num": 0, "rows": r})
    return {"ev": "mix", "mix": e}


def build_query(job, conds):
    from mixtera.core.query import Query
    q = Query.for_job(job)
    for c in conds if conds else [None]:
        q = q.select(c)
    return q


def select_ids(rows, query) -> list:
    """Ground truth of the simple conditions used here: [(prop, '==', value)] in conjunction."""
    if not query:
        return sorted(rows)
    def ok(r):
        for p, _, v in query:
            x = r.get(p)
            if x is None or (v not in x if isinstance(x, list) else v != x):
                return False
        return True
    return [i for i in sorted(rows) if ok(rows[i])]


def run(sc: dict, rec: dict) -> None:
    global _count
    _count += 1
    co = get_corpus(sc["corpus"])
    comps = co.comps(select_ids(co.rows, sc.get("query")))
    steps = list(sc["steps"])
    first = steps.pop(0)[1]
    rec["cfg"] = {"comps": comps, "mix": {"kind": "arbitrary", "size": 1, "strict": False, "keys": [], "den": 0, "slack": 0}}
    ev = rec["events"]
    q = build_query(f"job{_count}", [[tuple(c) for c in sc["query"]]] if sc.get("query") else None)
    mixture = make_mixture(first)
    q.execute(co.client._mdc, mixture)
    qr = q.results
    qr.stop_on_none = False
    cur = first
    ev.append(mix_event(first, mixture, comps))
    total = sum(len(c["ids"]) for c in comps)

    def fetch() -> dict:
        try:
            chunk = next(qr)
        except StopIteration:
            return {"ev": "end"}
        if chunk is None:
            return {"ev": "none"}
        # with the id every combination is delivered with, as the job's chunks tell it
        return {**co.chunk_event(qr, chunk),
                "kids": [{"props": C.key_props(key), "id": int(chunk._key_id_map.get(key, -1))} for key in chunk._result_index]}

    def pull() -> str:
        k = rng.randrange(len(readers) + 1)
        ev.append({"ev": "ask"})
        ev[-1] = fetch() if k == len(readers) else readers[k].ask()
        return ev[-1]["ev"]
    readers: list = []           # processes forked in the middle of the stream, which go on together with this one
    rng = random.Random(len(comps))

    try:
        _steps(sc, steps, ev, qr, comps, pull, fetch, readers, total)
    finally:
        for r in readers:
            r.end()


class Reader:
    def __init__(self, fetch):
        self.get, child_put = os.pipe()
        child_get, self.put = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                os.close(self.put)
                while os.read(child_get, 1):
                    try:
                        e = fetch()
                    except BaseException as ex:
                        e = {"ev": "raise", "what": repr(ex)[:200]}
                    data = json.dumps(e).encode() + b"\n"
                    while data:
                        data = data[os.write(child_put, data):]
            finally:
                os._exit(0)
        os.close(child_put), os.close(child_get)
        self.file = os.fdopen(self.get, "rb")

    def ask(self):
        os.write(self.put, b"x")
        line = self.file.readline()
        return json.loads(line) if line else {"ev": "died"}

    def end(self):
        os.close(self.put)
        self.file.close()
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def _steps(sc, steps, ev, qr, comps, pull, fetch, readers, total):
    for st in steps:
        if st[0] == "fork":
            readers += [Reader(fetch) for _ in range(st[1])]
        elif st[0] == "mix":
            cur = st[1]
            mixture = make_mixture(cur)
            qr.update_mixture(mixture)
            ev.append(mix_event(cur, mixture, comps))
        elif st[0] == "pull":
            for _ in range(st[1]):
                if pull() == "end":
                    return
        elif st[0] == "drain":
            for _ in range(total + 3):
                r = pull()
                if r == "end":
                    return
                if r == "none":
                    break
            else:
                ev.append({"ev": "limit"})


# ------------------------------------------------------------------ scenarios
def random_mixture(rng: random.Random, comps: list, kinds=("arbitrary", "static", "hier", "infer"), strict=None, size=None) -> dict:
    kind = rng.choice(kinds)
    size = size or rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    strict = rng.random() < 0.5 if strict is None else strict
    m = {"kind": kind, "size": size, "strict": strict}
    props = sorted({n for c in comps for n, _ in c["props"]})
    if kind in ("arbitrary", "infer") or not props:
        m["kind"] = kind if kind in ("arbitrary", "infer") else "arbitrary"
        return m
    vals = {p: sorted({v for c in comps for n, vs in c["props"] if n == p for v in vs}) for p in props}
    if kind == "static":
        keys: list = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.55:      # a component naming one property
                p = rng.choice(props)
                k = [[p, [rng.choice(vals[p])]]]
            elif r < 0.7:     # several values
                p = rng.choice(props)
                k = [[p, sorted(rng.sample(vals[p], min(2, len(vals[p]))))]]
            else:             # an existing combination
                c = rng.choice([c for c in comps if c["props"]])
                k = [list(x) for x in c["props"]]
            # a property shared between keys, so that components overlap rarely
            if k not in [x for x, _ in keys]:
                keys.append((k, rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.2 else rng.choice([1, 1, 2, 3, 5])))
        # mostly disjoint mixtures: all keys over the same single property
        if rng.random() < 0.6:
            p = rng.choice(props)
            vs = rng.sample(vals[p], rng.randint(1, len(vals[p])))
            keys = [([[p, [v]]], rng.choice([1, 1, 2, 3, 7])) for v in vs]
        if sum(n for _, n in keys) == 0:
            keys[0] = (keys[0][0], 1)
        m["keys"] = [[k, n] for k, n in keys]
        m["den"] = sum(n for _, n in keys)
        return m
    p = rng.choice(props)
    den = rng.choice([2, 4, 8])

    def comp_list(prop, depth):
        vs = rng.sample(vals[prop], min(len(vals[prop]), rng.randint(1, 3)))
        cuts = sorted(rng.sample(range(1, den), min(len(vs), den) - 1)) if len(vs) > 1 else []
        vs = vs[:len(cuts) + 1]
        ws = [b - a for a, b in zip([0] + cuts, cuts + [den])]
        rest = [q for q in props if q != prop and q != p]
        return [[[v], w, {"prop": (q := rng.choice(rest)), "comps": comp_list(q, depth + 1)} if rest and depth < 1 and rng.random() < 0.5 else None]
                for v, w in zip(vs, ws)]
    m["node"] = {"prop": p, "comps": comp_list(p, 0)}
    m["den"] = den
    return m


def plain_comps(spec) -> list:
    groups: dict = {}
    n = 0
    for ds in spec["datasets"]:
        for f in ds:
            for r in f:
                n += 1
                groups.setdefault(json.dumps(C.props_of(r)), []).append(n)
    return [{"props": json.loads(k), "ids": v} for k, v in groups.items()]


def scenarios(rng: random.Random, ncorpora: int, per: int, kinds, strict=None, changes=0.5, maxrows=60) -> list:
    out = []
    for _ in range(ncorpora):
        spec = C.random_corpus(rng, rng.choice([6, 12, 20, 30, 40, maxrows]))
        comps = plain_comps(spec)
        for _ in range(per):
            query = None
            if rng.random() < 0.25:
                c = rng.choice(comps)
                if c["props"]:
                    n, v = rng.choice(c["props"])
                    query = [[n, "==", v[0]]]
            sel = comps if not query else [c for c in comps if any(n == query[0][0] and query[0][2] in v for n, v in c["props"])]
            steps = [["mix", random_mixture(rng, sel, kinds, strict)]]
            while rng.random() < changes and len(steps) < 9:
                steps += [["pull", rng.randint(1, 4)], ["mix", random_mixture(rng, sel, kinds, strict)]]
                if rng.random() < 0.3:    # the same shares, but strict instead of best effort or the other way round, or in another size
                    old = [st[1] for st in steps[:-1] if st[0] == "mix"][-1]
                    if old["kind"] != "arbitrary":
                        steps[-1][1] = {**old, "strict": not old["strict"]} if rng.random() < 0.7 else {**old, "size": old["size"] + rng.randint(1, 4)}
            if rng.random() < 0.15:
                steps += [["pull", rng.randint(1, 3)]] * rng.randint(0, 1) + [["fork", rng.randint(1, 2)], ["drain"]]
                out.append({"corpus": spec, "query": query, "steps": steps})
                continue
            steps.append(["drain"])
            if rng.random() < 0.3 and "arbitrary" in kinds:
                steps += [["mix", {"kind": "arbitrary", "size": rng.choice([1, 3, 5, 9]), "strict": False}], ["drain"]]
            out.append({"corpus": spec, "query": query, "steps": steps})
    return out
