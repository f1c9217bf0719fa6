import query_common

TYPES = {"jsonl": ["jsonl", "jsonl", "jsonl.gz", "jsonl.xz", "jsonl.bz2"], "parquet": ["parquet"], "tar": ["tar"]}


def dataset(rng, parsers):
    k = rng.randrange(len(parsers))
    base = query_common.corpus(rng, rng.choice([4, 10, 30]))
    enums = parsers[k]["enums"]
    props = parsers[k]["props"]

    def fix(r):
        out = {}
        for n, v in r.items():
            if n in enums and v is not None:
                v = [rng.choice(enums[n])] if isinstance(v, list) else rng.choice(enums[n])
            out[n] = v
        return {"p": {n: v for n, v in out.items() if n in props or rng.random() < 0.3}}

    files = [[fix(r) for r in f] for d in base["datasets"] for f in d]
    t = rng.choice(list(TYPES))
    d = {"type": t, "loc": "dir", "parser": k, "fits": "yes", "files": [[rng.choice(TYPES[t]), f] for f in files]}
    if rng.random() < 0.15:
        d["files"] = d["files"][:1]
        d["loc"] = "file"
    elif rng.random() < 0.1:
        d["files"].append([rng.choice(TYPES[t]), []])
        if t == "tar":
            d["files"].pop()
    return d


def broken(rng, d):
    d = dict(d, fits="no")
    kind = rng.choice(["nofiles", "boom", "json", "enum", "parser", "generic", "croissant", "missing", "files", "samples", "samples", "columns"])
    if d["type"] != "jsonl" and kind == "json":
        kind = "boom"
    files = [[k, [dict(r) for r in f]] for k, f in d["files"]]
    where = rng.choice([f for _, f in files if f] or [[]])
    if kind == "nofiles":
        d.update(loc="dir", files=[])
    elif kind == "boom" and where:
        where[rng.randrange(len(where))]["boom"] = True
        d["files"] = files
    elif kind == "json" and where:
        d.update(loc="dir", files=files)
        where.insert(rng.randrange(len(where) + 1), '{"p": {')
    elif kind == "enum" and where:
        r = where[rng.randrange(len(where))]
        r["p"] = {**r["p"], "lic": "not-an-option"}
        d["files"] = files
        if d["nolic"]:
            d["fits"] = "yes"
    elif kind == "parser":
        d["parser"] = "none"
    elif kind in ("generic", "croissant"):
        d["type"] = kind
    elif kind == "missing":
        d["loc"] = "missing"
    elif kind == "files":
        d["fault"] = ["_insert_files_into_table", 1]
    elif kind == "columns":
        d["fault"] = ["_add_columns_to_samples_table", 1]
    else:
        d["fault"] = ["_insert_samples_with_metadata", 1]
    return d


def run(ctx):
    ctx.model("RegistryModel", "SPECIFICATION Spec\nCONSTANTS DSNames = {1, 2%s} NFiles = %d MaxOps = %d\n"
              "INVARIANTS Refines Usable\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % ((", 3" if not ctx.quick else ""), ctx.n(2, 3), ctx.n(4, 5)))
    rng, scs = ctx.rng, []
    for k in range(ctx.n(64, 500)):
        enums = {"lic": ["mit", "g'pl", "c c"], "tag": ["t1", "t;2"]}
        parsers = [{"enums": enums, "props": p} for p in rng.choice([[["lang", "topic", "lic", "tag"]], [["lang"], ["topic", "lic"]],
                                                                     [["topic"], ["lang", "topic", "tag"], ["lic"]]])]
        names = rng.sample(["a", "b", "it's", "d\"e", "ü", "A"], 3)
        ops = []
        for _ in range(rng.choice([4, 6, 9])):
            n, x = rng.choice(names), rng.random()
            if x < 0.45:
                ops.append(["register", n, dataset(rng, parsers)])
            elif x < 0.65:
                d = dataset(rng, parsers)
                d["nolic"] = "lic" not in parsers[d["parser"]]["props"]
                ops.append(["register", n, broken(rng, d)])
            elif x < 0.82:
                ops.append(["remove", n])
            elif x < 0.88:
                ops.append(["exists", n])
            elif x < 0.94:
                ops.append(["reopen"])
            else:
                ops.append(["crash", n, dict(dataset(rng, parsers), crash=rng.choice([["_insert_samples_with_metadata", 1], ["_insert_files_into_table", 1],
                                                                                     ["_db_incr_version", 2], ["_db_incr_version", 3]]))])
            if rng.random() < 0.7:
                ops.append(["dump"])
        for n in names:
            ops.append(["exists", n])
        ops.append(["dump"])
        scs.append({"seed": rng.randrange(10 ** 6), "ops": ops, "parsers": parsers})
    for n, m in ctx.n([(2001, 1), (3, 900)], [(2001, 1), (2000, 1), (4001, 1), (1, 3000), (2500, 2)]):      # many files, many rows
        big = {"type": "jsonl", "loc": "dir", "parser": 0, "fits": "yes",
               "files": [["jsonl", [{"p": {"lang": rng.choice(["x", "y"])}} for _ in range(m)]] for _ in range(n)]}
        small = dict(big, files=big["files"][:2])
        scs.append({"seed": 1, "ops": [["register", "b", small], ["register", "a", big], ["dump"], ["remove", "b"], ["dump"]],
                    "parsers": [{"enums": {}, "props": ["lang"]}]})
    half = len(scs) // 3
    traces = ctx.drive("registry", scs[:half], each=90)                       # worker processes
    traces += ctx.drive("registry", scs[half:], each=60, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("RegistryTrace", traces, batch=16)
