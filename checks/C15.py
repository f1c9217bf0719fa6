import corpus as C


def run(ctx):
    ctx.model("CacheModel", "SPECIFICATION Spec\nCONSTANTS Queries = {1, 2} MaxVer = %d MarkLast = TRUE VersionFirst = TRUE BumpBefore = TRUE\n"
              "INVARIANT HitsAreRight\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 6))
    rng, scs = ctx.rng, []
    for k in range(ctx.n(56, 400)):
        spec = C.random_corpus(rng, rng.choice([6, 12, 25]), rng.choice(["one", "two", "frag"]))
        names = ["a", "b", "c"]
        files = [f for d in spec["datasets"] for f in d]
        data = {n: files[j::3] or [[{"topic": "law"}]] for j, n in enumerate(names)}
        qs = rng.sample([[[]], [[["topic", "==", "law"]]], [[["topic", "!=", "law"]]], [[["topic", "==", "med"]]], [[["topic", "==", ["law", "med"]]]],
                         [[["topic", "==", "law"]], [["topic", "==", "med"]]], [[["topic", "==", "law"], ["topic", "==", "med"]]]], 3)
        pair = k % 2 == 0
        if pair:                      # a query that looks like another one
            a, b = rng.choice([("law", "LAW"), ("law", " law"), ("law", "law "), ("law", "law', 'med"), ("law", "lAw"), ("law", ["law", "LAW"]),
                               (None, "None"), (None, "null"), (["law", "med"], "['law', 'med']"), (["law", "med"], "law, med"), (["law", "med"], ["med, law"]),
                               ("law and", "law')]), ('topic', '==', 'med"), (["None"], None), (["law", "med"], ["law", "me", "d"])])
            op = rng.choice(["==", "!="])
            qs[:2] = [[[["topic", op, a]]], [[["topic", op, b]]]]
            if rng.random() < 0.25:   # conditions of one query in a value of the other
                c = rng.choice([" and ", ", ", "')] or [('", "'), ('", "', '"]) + rng.choice(["topic", "lang"])
                qs[:2] = [[[["topic", "==", "law"], ["lang", "!=", "x"]]], [[["topic", "==", "law" + c + " != x"]]]]
                a, b = "law", "law" + c + " != x"
            for n in names:
                data[n] = data[n] + [[{"topic": v} for x in (a, b) for v in (x if isinstance(x, list) else [x]) if v is not None] + [{"lang": "y"}]]
        size = rng.choice([2, 3, 5])
        ms = [{"kind": "arbitrary", "size": size}, {"kind": "static", "size": size, "strict": rng.random() < 0.5,
                                                    "keys": [[[["topic", ["law"]]], 1], [[["topic", ["med"]]], 1]], "den": 2}]
        if rng.random() < 0.4:
            ms.append({"kind": "infer", "size": size, "strict": rng.random() < 0.5})
        have = set()
        ops = []

        def toggle():
            n = rng.choice(names)
            if len(have) == 1 and n in have:
                n = rng.choice([x for x in names if x not in have])
            c = ["change", "remove" if n in have else "add", n]
            have.symmetric_difference_update({n})
            return c
        for n in rng.sample(names, 2):
            have.add(n)
            ops.append(["change", "add", n])
        for _ in range(rng.choice([6, 9, 12])):
            x, q, m = rng.random(), rng.choice(qs + qs[:2]), rng.choice(ms)
            if x < 0.5:
                ops.append(["serve", q, m])
            elif x < 0.68:
                ops.append(toggle())
            elif x < 0.76:
                ops.append(["race", q, m, toggle()])
                ops.append(["serve", q, rng.choice(ms)])
            elif x < 0.8:
                ops.append(["overlap", q, m, toggle()])
                ops += [["serve", q, rng.choice(ms)]] * 2
            elif x < 0.84:
                ops.append(["reopen"])
            elif x < 0.9:
                ops.append(["half", q, rng.choice(["raise", "index", "raise", "dill", "npy0", "npy1", "npy2"]), m])
                ops += [["serve", q, rng.choice(ms)]] * rng.choice([1, 2])
            elif x < 0.95 and len(have) > 1:
                n = rng.choice(sorted(have))
                have.discard(n)
                ops += [["serve", q, m], ["crashremove", n], ["serve", q, m]]
            else:
                ops += [["serve", q, m], ["damage", q, rng.choice(["dilled.pkl", "pickled.pkl", "meta.pkl", "mixture_keys_order.pkl", "*.npy"])],
                        ["serve", q, m], ["serve", q, m]]
        if pair:
            at = rng.randint(2, len(ops))
            ops[at:at] = [["serve", q, rng.choice(ms)] for q in rng.sample(qs[:2], 2)]
        scs.append({"data": data, "ops": ops, "backwards": rng.random() < 0.5})
    traces = ctx.drive("cache", scs, each=90, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("CacheTrace", traces, batch=40)
