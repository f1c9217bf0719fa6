"""Mixtures and their components. Scenario: {"ops": [...]}, see run()."""
import pickle
import random

import dill

from mixtera.core.query.mixture import (Component, HierarchicalStaticMixture, InferringMixture, MixtureKey, MixtureNode, MixtureSchedule,
                                        ScheduleEntry, StaticMixture)
from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
from mixtera.utils import distribute_by_ratio


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


def ident(key):
    return tuple(sorted((p, tuple(sorted(map(str, vs)))) for p, vs in key.properties.items()))


def rows(m):
    return {ident(k): int(v) for k, v in m.mixture_in_rows().items()}


def counts(m, ids):
    r = rows(m)
    return [r.get(i, 0) for i in ids], len(set(r) - set(ids))


def look(m):
    return (type(m).__name__, m.chunk_size, m.strict, m.current_step, sorted(rows(m).items()), "" if isinstance(m, DynamicMixture) else str(m))


def copy(m, rec, how):
    b = look(m)
    m = pickle.loads(pickle.dumps(m)) if how == "pickle" else dill.loads(dill.dumps(m))
    rec["events"].append({"ev": "copy", "same": look(m) == b})
    return m


def wrapped(m, op):
    how = op.get("wrap")
    if how == "schedule":
        return MixtureSchedule(op["sizes"][0], [ScheduleEntry(0, m)])
    if how == "dynamic":
        from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
        return DynamicMixture(op["sizes"][0], m, SimpleAveragingAlgorithm())
    return m


def component(spec):
    """[[property, values], …]; built at once or step by step"""
    how, props = spec
    if how == "once":
        return MixtureKey({p: list(v) for p, v in props})
    k = MixtureKey({})
    for n, (p, v) in enumerate(props):
        if how == "hash":
            hash(k), str(k)
        k.add_property(p, list(v))
    return k


def sizes(m, op, rec, event, ids):
    m = wrapped(m, op)
    for n, size in enumerate(op["sizes"]):
        if n > 0:
            m.chunk_size = size
            m.process_chunk_size()
        c, more = counts(m, ids)
        rec["events"].append({**event, "size": size, "refused": False, "counts": c, "more": more})
        if op.get("copy"):
            m = copy(m, rec, op["copy"])
            c, more = counts(m, ids)
            rec["events"].append({**event, "size": size, "refused": False, "counts": c, "more": more})


def flat(op, rec):
    keys = [component(c) for c in op["comps"]]
    ids = [ident(k) for k in keys]
    first = op["sizes"][0] if not op.get("wrap") else op["sizes"][-1]
    event = {"ev": "flat", "W": op["W"], "den": op["den"]}
    try:
        m = StaticMixture(first, {k: w / op["den"] for k, w in zip(keys, op["W"])}, strict=op.get("strict", True))
    except (ValueError, AssertionError, ZeroDivisionError):
        rec["events"].append({**event, "size": first, "refused": True, "counts": [0] * len(ids), "more": 0})
        return
    sizes(m, op, rec, event, ids)


def tree(op, rec):
    ids = []

    def node(t, level, path):
        comps = []
        for n, c in enumerate(t):
            vals = [f"{level}-{n}"] if n % 2 == 0 else [f"{level}-{n}", f"{level}-{n}-b"]
            here = path + [(f"p{level}", tuple(sorted(vals)))]
            if not c["sub"]:
                ids.append(tuple(sorted(here)))
            comps.append(Component(values=vals, weight=c["w"] / op["den"], submixture=node(c["sub"], level + 1, here) if c["sub"] else None))
        return MixtureNode(property_name=f"p{level}", components=comps)

    first = op["sizes"][0] if not op.get("wrap") else op["sizes"][-1]
    n = node(op["tree"], 0, [])
    sizes(HierarchicalStaticMixture(first, n, strict=op.get("strict", True)), op, rec, {"ev": "tree", "den": op["den"], "tree": op["tree"]}, ids)


def inferred(op, rec):
    keys = [component(c) for c in op["comps"]]
    index = {}
    r = random.Random(op["seed"])
    for k, w in zip(keys, op["W"]):
        files, at = {}, 0
        while w > 0:
            n = r.randint(1, w)
            files.setdefault(r.randint(1, 2), {}).setdefault(r.randint(1, 3), []).append((at, at + n))
            at, w = at + n + r.randint(0, 2), w - n
        index[k] = files
    m = InferringMixture(op["sizes"][-1])
    m = wrapped(m, op)
    m.process_index(index)
    size = m.chunk_size
    for step in range(2):
        c, more = counts(m, [ident(k) for k in keys])
        rec["events"].append({"ev": "inferred", "W": op["W"], "size": size, "counts": c, "more": more})
        m = copy(m, rec, op.get("copy", "pickle"))


def keys(op, rec):
    ks = [component(c) for c in op["comps"]]
    if op["mode"] == "hashed":
        for k in ks:
            hash(k)
    if op["mode"] in ("pickle", "dill"):
        for n, k in enumerate(ks):
            if n % 2:
                hash(k)
            c = pickle.loads(pickle.dumps(k)) if op["mode"] == "pickle" else dill.loads(dill.dumps(k))
            rec["events"].append({"ev": "keycopy", "same": ident(c) == ident(k) and hash(c) == hash(k) and str(c) == str(k)
                                  and bool(c == k) == bool(k == k) and not c < k and not k < c})
            if n % 3:
                ks[n] = c
    values = sorted({str(v) for _, ps in op["comps"] for _, vs in ps for v in vs})
    names = sorted({p for _, ps in op["comps"] for p, _ in ps})
    comps = [[{"p": names.index(p), "vs": [values.index(str(v)) for v in vs]} for p, vs in ps] for _, ps in op["comps"]]
    def fresh():      # hashing and the like may leave something behind in a component
        return [component(["once" if c[0] == "hash" else c[0], c[1]]) for c in op["comps"]] if op["mode"] == "fresh" else ks

    h = [hash(k) for k in fresh()]
    s = [str(k) for k in fresh()]
    le, ll = fresh(), fresh()
    rec["events"].append({"ev": "keys", "comps": comps, "eq": [[bool(a == b) for b in le] for a in le],
                          "lt": [[bool(a < b) for b in ll] for a in ll],
                          "hash": [h.index(x) for x in h], "text": [s.index(x) for x in s]})


def ratio(op, rec):
    t = sum(op["W"])
    rec["events"].append({"ev": "ratio", "W": op["W"], "size": op["sizes"][0], "more": 0,
                          "counts": list(distribute_by_ratio(op["sizes"][0], [w / t for w in op["W"]]))})


def run(sc, rec):
    for op in sc["ops"]:
        {"flat": flat, "tree": tree, "inferred": inferred, "keys": keys, "ratio": ratio}[op["op"]](op, rec)
