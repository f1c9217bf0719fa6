MODEL = """SPECIFICATION Spec
CONSTANTS MaxComp = %d MaxDen = %d MaxSize = %d
INVARIANTS IsFair NeverTooMany ZeroStaysZero Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
SIZES = [1, 2, 3, 5, 7, 9, 10, 11, 13, 16, 31, 64, 97, 100, 101, 128, 250, 999, 1000, 1024, 4096, 9999]


def weights(rng, n, den):
    cut = sorted(rng.randint(0, den) for _ in range(n - 1))
    w = [b - a for a, b in zip([0] + cut, cut + [den])]
    rng.shuffle(w)
    return w


def comps(rng, n):
    """n different components, some with values in common"""
    res, seen = [], set()
    while len(res) < n:
        props = []
        for p in rng.sample(["a", "b", "c", "lang:x"], rng.choice([1, 1, 2, 3])):
            props.append([p, rng.sample(["x", "y", "z", "x y", "u", "v", "w:1", "1", "2", "3"], rng.choice([1, 1, 2, 3]))])
        k = str(sorted((p, sorted(v)) for p, v in props))
        if k not in seen:
            seen.add(k)
            res.append([rng.choice(["once", "steps", "hash"]), props])
    return res


def tree(rng, den, levels):
    return [{"w": w, "sub": tree(rng, den, levels - 1) if levels > 1 and rng.random() < 0.5 else []} for w in weights(rng, rng.choice([1, 2, 2, 3, 4, 6]), den)]


def run(ctx):
    ctx.model("SharesModel", MODEL % ((4, 9, 9) if ctx.n(0, 1) else (3, 8, 9)), timeout=1500)
    rng, scs = ctx.rng, []
    for _ in range(ctx.n(500, 8000)):
        ops = []
        for _ in range(12):
            size = [rng.choice(SIZES) if rng.random() < 0.6 else rng.randint(1, 3000) for _ in range(rng.choice([1, 1, 2, 3]))]
            kind = rng.choice(["flat", "flat", "flat", "tree", "tree", "tree", "inferred", "ratio", "invalid"])
            op = {"op": kind, "sizes": size, "copy": rng.choice(["", "", "pickle", "dill"]), "strict": rng.random() < 0.7,
                  "wrap": rng.choice(["", "", "", "schedule", "dynamic"])}
            n = rng.choice([1, 2, 3, 3, 4, 5, 7, 10, 13, 20])
            den = rng.choice([n, n, 3, 6, 7, 10, 12, 100, 100, 1000])
            if kind == "flat":
                w = weights(rng, n, den) if rng.random() < 0.8 or den % n else [den // n] * n
                op.update(comps=comps(rng, n), W=w, den=den)
            elif kind == "invalid":
                w = weights(rng, n, den)
                how = rng.choice(["negative", "more", "less"] if n > 1 else ["more", "less"])
                k = rng.randrange(n)
                if how == "negative":
                    d = rng.choice([1, 1, den, w[k] + 1])
                    w[(k + 1) % n] += w[k] + d
                    w[k] = -d
                elif how == "more":
                    w[k] += rng.choice([1, den, 1 + den // 50])
                else:
                    k = max(range(n), key=lambda i: w[i])
                    w[k] -= rng.choice([1, 1, max(1, w[k] // 2), w[k]])
                op.update(op="flat", comps=comps(rng, n), W=w, den=den)
            elif kind == "tree":
                den = rng.choice([2, 3, 5, 10, 10, 20])
                op.update(tree=tree(rng, den, rng.choice([1, 2, 2, 3])), den=den)
            else:
                w = [rng.choice([1, 1, 2, 3, 10, 100, rng.randint(1, 1000)]) for _ in range(n)]
                op.update(W=w, comps=comps(rng, n), seed=rng.randrange(10**6))
            ops.append(op)
        scs.append({"ops": ops})
    traces = ctx.drive("mixtures", scs)
    ctx.validate("MixtureTrace", traces, batch=100)
