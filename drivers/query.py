"""Runs queries over registered data and records the chunk index each is reduced to; builds chunk indices from tables.
Property values are recorded as numbers in the order of the values as text (UTF-8), rows of the data as registered.
Scenario: {"kind": "query", "corpus": …, "queries": [{"sel": [[[field, op, value], …], …]}, …], "reopen": bool}
      or  {"kind": "table", "cols": {name: type}, "rows": [[ds, file, {name: value}, lo, hi], …], "threads": n, "split": [n, …]}"""
import json, pathlib, random

import corpus as C
from chunkgen import get_corpus


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


class Values:
    def __init__(self, values):
        self.rank = {v: k for k, v in enumerate(sorted(set(values), key=lambda v: v.encode("utf-8")))}

    def __call__(self, v):
        return self.rank.get(v, -1)

    def props(self, row):
        return [[n, [self(x) for x in vs]] for n, vs in C.props_of(row)]


def flat(v):
    return [x for x in (v if isinstance(v, list) else [v]) if x is not None]


def project(index, val, dsno=lambda d: d, fileno=lambda f: f):
    out = []
    for key, datasets in index.items():
        props = [[n, sorted(val(x) for x in vs)] for n, vs in sorted(key.properties.items())]
        for d, files in sorted(datasets.items()):
            for f, ivs in sorted(files.items()):
                out.append({"p": props, "ds": dsno(d), "file": fileno(f), "iv": [[int(a), int(b)] for a, b in ivs]})
    out.sort(key=lambda e: json.dumps(e))
    return out


def run(sc, rec):
    (run_query if sc["kind"] == "query" else run_table)(sc, rec)


def run_query(sc, rec):
    from mixtera.core.query import Query
    from mixtera.core.query.mixture import ArbitraryMixture

    co = get_corpus(sc["corpus"])
    val = Values([x for row in co.rows.values() for v in row.values() for x in flat(v)]
                 + [x for q in sc["queries"] for sel in q["sel"] for _, _, v in sel for x in flat(v)])
    paths = {p: k for k, p in enumerate(sorted(co.base))}
    dsof = {p: int(pathlib.Path(p).parent.name[2:]) for p in co.base}
    samples = []
    for p, b in co.base.items():
        n = len(sc["corpus"]["datasets"][dsof[p]][int(pathlib.Path(p).stem[1:])])
        known = (sc["corpus"].get("parsers") or [{}])
        known = known[dsof[p] % len(known)].get("props", list(C.KINDS))
        for r in range(n):
            row = {k: v for k, v in co.rows[b + r + 1].items() if k in known}
            samples.append({"ds": dsof[p], "file": paths[p], "row": r, "p": val.props(row)})
    rec["cfg"] = {"samples": samples, "want": sc["want"]}
    mdc = co.client._mdc
    names = {did: int(name[2:]) for did, name in mdc._connection.execute("SELECT id, name FROM datasets").fetchall()}
    for q in sc["queries"]:
        query = Query.for_job("q")
        for sel in q["sel"]:
            conds = [tuple(c) for c in sel]
            query.select(conds[0] if len(conds) == 1 and q.get("tuple") else (conds if conds else None))
        rec["events"].append({"ev": "ask"})
        query.execute(mdc, ArbitraryMixture(q.get("size", 4)))
        res = query.results
        fp = dict(res.file_path)
        rec["events"][-1] = {
            "ev": "query",
            "q": [[{"f": f, "op": op, "null": v is None, "vals": [val(x) for x in flat(v)]} for f, op, v in sel] for sel in q["sel"]],
            "idx": project(res._chunker_index, val, lambda d: names[d], lambda f: paths[str(fp[f])])}


def run_table(sc, rec):
    import pyarrow as pa
    from mixtera.core.query.chunker import create_chunker_index

    val = Values([x for r in sc["rows"] for v in r[2].values() for x in flat(v)])
    types = {"string": pa.string(), "large_string": pa.large_string(), "list": pa.list_(pa.string()),
             "large_list": pa.large_list(pa.large_string()), "dict": pa.dictionary(pa.uint8(), pa.string()),
             "dict16": pa.dictionary(pa.int16(), pa.string()), "list_dict": pa.list_(pa.dictionary(pa.uint8(), pa.string()))}

    def column(kind, values):
        if kind == "list_dict":
            offs, flatv = [0], []
            for v in values:
                flatv += v or []
                offs.append(len(flatv))
            mask = pa.array([v is None for v in values])
            return pa.ListArray.from_arrays(pa.array(offs, pa.int32()), pa.array(flatv, pa.string()).dictionary_encode().cast(
                pa.dictionary(pa.uint8(), pa.string())), mask=mask)
        if kind.startswith("dict"):
            return pa.array(values, pa.string()).dictionary_encode().cast(types[kind])
        return pa.array(values, types[kind])

    parts, at = [], 0
    for n in sc["split"]:
        rows = sc["rows"][at:at + n]
        at += n
        cols = {"dataset_id": pa.array([r[0] for r in rows], pa.int32()), "file_id": pa.array([r[1] for r in rows], pa.int32())}
        for name, kind in sc["cols"].items():
            cols[name] = column(kind, [r[2].get(name) for r in rows])
        cols["group_id"] = pa.array([0] * len(rows), pa.int64())
        cols["interval_start"] = pa.array([r[3] for r in rows], pa.int32() if sc.get("small") else pa.int64())
        cols["interval_end"] = pa.array([r[4] for r in rows], pa.int32() if sc.get("small") else pa.int64())
        parts.append(pa.table(cols))
    table = pa.concat_tables(parts)
    if sc.get("slice"):
        table = pa.concat_tables([table.slice(0, 1), table]).slice(1)
    kids = {}

    def kid(props):   # one number per combination of values: keeps the traces small
        return [["k", [kids.setdefault(json.dumps([[n, sorted(vs)] for n, vs in props]), len(kids))]]]

    want = [{"ds": r[0], "file": r[1], "p": kid(val.props(r[2])), "iv": [r[3], r[4]]} for r in sc["rows"]]
    rec["cfg"] = {"samples": [], "want": sc["want"]}
    rec["events"].append({"ev": "ask"})
    idx = create_chunker_index(table, sc["threads"])
    out = [dict(e, p=kid(e["p"])) for e in project(idx, val)]
    rec["events"][-1] = {"ev": "index", "rows": want, "idx": out}
