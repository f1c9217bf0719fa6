MODEL = """SPECIFICATION Spec
CONSTANTS Properties = {%s} Values = {%s} MaxVals = %d
INVARIANTS Reflexive Total Transitive Representation SameMatch Narrower SpecificFirst
CHECK_DEADLOCK FALSE
"""
NUMBERS = [0, 1, 2, 9, 10, 100, -1, 1.5, 2.5, 1e30]
TEXTS = ["x", "y", "z", "X", "", " ", "x:y", "x;y", "a:x", "ä", "日本", "x\x00y", "10", "9", "None", "xx", "x,y", "'", '"']


def run(ctx):
    ctx.model("ComponentsModel", MODEL % ("1, 2", "1, 2", 2))
    if ctx.n(0, 1):
        ctx.model("ComponentsModel", MODEL % ("1, 2", "1, 2, 3", 2), timeout=3000, optional=True)
        ctx.model("ComponentsModel", MODEL % ("1", "1, 2, 3", 3), timeout=1500)
    rng, scs = ctx.rng, []
    for _ in range(ctx.n(350, 9000)):
        ops = []
        for _ in range(3):
            names = rng.sample(["a", "b", "c", "a:x", "B", "", "ä", "language"], rng.choice([1, 2, 3]))
            pool = {p: (rng.sample(NUMBERS, 4) if rng.random() < 0.15 else rng.sample(TEXTS, rng.choice([2, 3, 5]))) for p in names}
            cs = []
            for _ in range(rng.choice([3, 5, 8])):
                props = [[p, rng.sample(pool[p], rng.choice([0, 1, 1, 1, 2, 2, 3][1 if rng.random() < 0.8 else 0:]) % (len(pool[p]) + 1))]
                         for p in rng.sample(names, rng.randint(0 if rng.random() < 0.1 else 1, len(names)))]
                cs.append(props)
                while rng.random() < 0.5:     # the same, given differently
                    p2 = [[p, rng.sample(v, len(v))] for p, v in props]
                    rng.shuffle(p2)
                    cs.append(p2)
            rng.shuffle(cs)
            ops.append({"op": "keys", "mode": rng.choice(["fresh", "hashed", "pickle", "dill"]),
                        "comps": [[rng.choice(["once", "steps", "hash"]), c] for c in cs[:14]]})
        scs.append({"ops": ops})
    traces = ctx.drive("mixtures", scs)
    ctx.validate("MixtureTrace", traces, batch=60)
