import json, random

import corpus as C

WEIRD = ["law", "med", "Med", "o'clock", '"q"', "a;b:c", "c,s", "x y", "", "%", "_", "ü", "ñandú", "日本", "🙂", "a\\b", "--", "'; DROP TABLE samples; --",
         "NULL", "null", "0", "10", "9", "a\tb", "a\nb", "zzz", "[a, b]", "?", "$1", "{}", "a\x1eb"[:1]]
OPS = ["==", "==", "!=", "<", "<=", ">", ">="]


def model(ctx):
    ctx.model("QueryModel", "SPECIFICATION Spec\nCONSTANTS NRows = %d NVals = 2 NThreads = %d\n"
              "INVARIANTS Complete Grouped RunsMaximal Laws\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (ctx.n(4, 5), ctx.n(2, 3)), timeout=800)


def corpus(rng: random.Random, nrows: int) -> dict:
    pool = rng.sample(WEIRD, rng.randint(2, 8))
    langs = rng.sample(WEIRD, rng.randint(2, 4))
    enums = {"lic": rng.sample(["mit", "gpl", "cc", "o'clock", "ü", "a;b:c", '"q"', "x y"], 3), "tag": rng.sample(["t1", "t2", "t'3", "", "t:4"], 3)}
    frag = rng.choice([0.1, 0.4, 0.9])
    missing = rng.choice([0.0, 0.2, 0.6])

    def value(n):
        if rng.random() < missing:
            return None
        if n == "topic":
            return rng.choice(pool)
        if n == "lic":
            return rng.choice(enums["lic"])
        src = langs if n == "lang" else enums["tag"]
        k = rng.choice([0, 1, 1, 1, 2, 2, 3])
        v = rng.sample(src, min(k, len(src)))
        return v + v[:1] if v and rng.random() < 0.04 else v

    nd = rng.randint(1, 3)
    parsers = [{"enums": enums, "props": rng.choice([list(C.KINDS), list(C.KINDS), ["topic"], ["lang", "lic"], ["topic", "tag"]])} for _ in range(nd)]
    datasets, cur = [[] for _ in range(nd)], None
    variants = [{n: value(n) for n in C.KINDS} for _ in range(rng.choice([2, 4, 10]))]
    nf = rng.randint(1, 5)
    for f in range(max(nf, nd)):
        rows = []
        for _ in range(rng.choice([1, 3, max(1, nrows // nf), max(1, nrows // nf)])):
            if cur is None or rng.random() < frag:
                cur = dict(rng.choice(variants))
                if rng.random() < 0.3:
                    cur = {n: value(n) for n in C.KINDS}
            row = dict(cur)
            for n in ("lang", "tag"):
                if row[n] and rng.random() < 0.3:
                    row[n] = rng.sample(row[n], len(row[n]))
            rows.append({n: v for n, v in row.items() if v is not None or rng.random() < 0.5})
        datasets[f % nd].append(rows)
    return {"datasets": datasets, "parsers": parsers}


def query(rng: random.Random, co: dict) -> dict:
    known = {n for p in co["parsers"] for n in p["props"]}
    seen = {n: sorted({x for d in co["datasets"] for f in d for r in f for x in ([r[n]] if isinstance(r.get(n), str) else r.get(n) or [])}) for n in known}

    def val(n):
        return rng.choice(seen[n]) if seen[n] and rng.random() < 0.8 else rng.choice(WEIRD)

    def cond():
        n = rng.choice(sorted(known))
        op = rng.choice(OPS)
        if C.KINDS[n][1] and op in ("<", "<=", ">", ">="):
            op = rng.choice(["==", "!="])   # see the known finding
        if op in ("==", "!=") and rng.random() < 0.15:
            return [n, op, None]
        if rng.random() < 0.3:
            return [n, op, [val(n) for _ in range(rng.randint(1, 3))]]
        return [n, op, val(n)]

    def select():
        k = rng.choice([1, 1, 2, 2, 3])
        cs = [cond() for _ in range(k)]
        if rng.random() < 0.25:
            singles = [n for n in sorted(known) if not C.KINDS[n][1]]
            if singles:
                n = rng.choice(singles)
                a, b = sorted([val(n), val(n)])
                cs += [[n, rng.choice([">", ">="]), a], [n, rng.choice(["<", "<="]), b]]
        return cs

    if rng.random() < 0.1:
        return {"sel": [[]]}
    return {"sel": [select() for _ in range(rng.choice([1, 1, 1, 2, 3]))], "tuple": rng.random() < 0.5, "size": rng.randint(1, 9)}


def queries(ctx, want, ncorpora, nqueries):
    out = []
    for _ in range(ncorpora):
        co = corpus(ctx.rng, ctx.rng.choice([6, 15, 40, ctx.n(40, 120)]))
        out.append({"kind": "query", "want": want, "corpus": co, "queries": [query(ctx.rng, co) for _ in range(nqueries)] + [{"sel": [[]]}]})
    return out


def tables(ctx, n):
    rng, out = ctx.rng, []
    for k in range(n):
        nprops = rng.randint(0, 5)
        kinds = ["string", "large_string", "list", "large_list", "dict", "dict16", "list_dict"]
        cols = {f"p{j}": rng.choice(kinds) for j in range(nprops)}
        pools = {c: rng.sample(WEIRD[:-1], rng.randint(1, 4)) for c in cols}
        nrows = rng.choice([1, 2, 7, 30, 120, ctx.n(400, 1500)])
        nd, nf = rng.randint(1, 3), rng.randint(1, 4)
        rows, at = [], {}

        def value(c):
            if rng.random() < 0.2:
                return None
            if "list" in cols[c]:
                return rng.sample(pools[c], rng.randint(0, len(pools[c])))
            return rng.choice(pools[c])

        few = [{c: value(c) for c in cols} for _ in range(rng.choice([1, 3, 12]))]
        big = rng.random() < 0.1
        for _ in range(nrows):
            d = rng.randrange(nd)
            f = d * 10 + rng.randrange(nf)
            lo = at.get((d, f), 0) + rng.choice([0, 0, 1, 5])
            if big:
                lo += 10 ** 6
            hi = lo + rng.choice([1, 1, 2, 10])
            at[(d, f)] = hi
            p = dict(rng.choice(few))
            for c in cols:
                if "list" in cols[c] and p[c]:
                    p[c] = rng.sample(p[c], len(p[c]))
            rows.append([d, f, {c: v for c, v in p.items() if v is not None}, lo, hi])
        rng_order = rng.random()
        if rng_order < 0.7:   # as the query orders them
            rows.sort(key=lambda r: (r[0], r[1], json.dumps([r[2].get(c) for c in sorted(cols)]), r[3]))
        split = []
        left = nrows
        while left:
            m = rng.randint(1, left) if rng.random() < 0.5 else max(1, min(left, nrows // 6))
            split.append(m)
            left -= m
        out.append({"kind": "table", "want": "C13", "cols": cols, "rows": rows, "threads": rng.choice([0, 1, 2, 3, 4, 8, 16]),
                    "split": split, "small": not big and rng.random() < 0.4, "slice": rng.random() < 0.2})
    return out


def run(ctx, want, extra=()):
    model(ctx)
    scs = queries(ctx, want, ctx.n(40, 250), ctx.n(16, 30)) + list(extra)
    traces = ctx.drive("query", scs, each=60, env={"PYTEST_CURRENT_TEST": "1"} if want == "C12" else {})
    ctx.validate("QueryTrace", traces, batch=12)
