import chunk_common, chunkgen, corpus


def run(ctx):
    chunk_common.model(ctx)
    ncor, njobs = ctx.n(8, 40), ctx.n(7, 16)
    corpora = [corpus.random_corpus(ctx.rng, ctx.rng.choice([12, 20, 30, 48])) for _ in range(ncor)]
    prep = [{"mode": "prep", "corpus": c, "dir": str(ctx.tmp / f"cor{i}")} for i, c in enumerate(corpora)]
    done = ctx.drive("determinism", prep)
    runs = []
    for i, (c, d) in enumerate(zip(corpora, done)):
        if d["events"]:
            ctx.fail(["raised-exception"], d, 1, "prep")
            continue
        comps = chunkgen.plain_comps(c)
        jobs = []
        for j in range(njobs):
            query, sel = None, comps
            if ctx.rng.random() < 0.4:
                k = ctx.rng.choice(comps)
                if k["props"]:
                    n, v = ctx.rng.choice(k["props"])
                    query, sel = [[n, "==", v[0]]], [x for x in comps if any(n == m and v[0] in w for m, w in x["props"])]
            steps = [["mix", chunkgen.random_mixture(ctx.rng, sel)]]
            while ctx.rng.random() < 0.5 and len(steps) < 7:
                steps += [["pull", ctx.rng.randint(1, 3)], ["mix", chunkgen.random_mixture(ctx.rng, sel)]]
            steps.append(["drain"])
            jobs.append({"name": f"j{j}", "query": query, "steps": steps, "limit": 60})

        def named(order, cache=None):
            return [{**jobs[k], "id": f"{x}-{jobs[k]['name']}", "cache": cache is None or cache(x)} for x, k in enumerate(order)]
        fwd = list(range(njobs))
        rev = fwd[::-1]
        mixed = fwd + fwd
        ctx.rng.shuffle(mixed)
        for tag, order, cache in [("fresh", fwd, lambda x: False), ("twice", fwd + fwd, None), ("reversed", rev, None), ("mixed", mixed, None)]:
            runs.append({"mode": "run", "dir": str(ctx.tmp / f"cor{i}"), "tag": tag, "jobs": named(order, cache), "base": d["base"],
                         "salt": ctx.rng.randint(0, 99), "corpus": i})
    # every process has another hash seed, and the four runs of a corpus are in four different processes
    res = ctx.drive("determinism", runs, procs=8, each=60, hashseeds=[0, 1, 17, 4242, 99, 7, 123456, 31337])
    traces = []
    for i in range(ncor):
        rs = [r for r in res if r["scenario"].get("corpus") == i]
        for job in rs[0]["scenario"]["jobs"]:
            ev = [e for r in rs for e in r["events"] if e.get("job", job["name"]) == job["name"]]
            traces.append({"scenario": {"corpus": corpora[i], "job": job}, "cfg": {"n": len(rs)}, "events": ev})
    ctx.validate("Determinism", traces)
    ctx.notes["streams_compared"] = sum(len(t["events"]) for t in traces)
