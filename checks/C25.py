MODEL = """SPECIFICATION Spec
CONSTANTS Depth = %d Variant = "%s" Kind = "%s" MaxN = %d
INVARIANTS Distribution AtLeast Proportional Nothing
CHECK_DEADLOCK FALSE
"""


def ado(rng, real=False):
    K = rng.choice([1, 2, 2, 3, 3, 4])
    late = rng.choice([0, 0, 1]) if K > 1 else 0          # components the initial mixture does not know
    mu = [rng.choice([1, 1, 2, 3, 5, 0]) for _ in range(K - late)]
    if not any(mu):
        mu[rng.randrange(len(mu))] = 1
    ignore = rng.choice([0, 1, 2, 4])
    start = ignore + rng.choice([1, 2, 3])
    variant = rng.choice(["vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"])
    c = {"kind": "ado", "variant": variant, "g1": rng.choice([0, 50, 100, 300, 1000]), "g2": rng.choice([50, 100, 400, 1000]), "s2": rng.choice([0, 1, 1, 2, 4]),
         "dmin": rng.choice([0, 100000, 100000, 500000, 1500000]), "interval": rng.choice([1, 3, 5, 20]), "ignore": ignore, "start": start,
         "sub": rng.choice([1, 1, 2, 3]), "same": rng.random() < 0.6, "mu": mu}
    long = variant == "adjusted_v3"
    savgol = rng.random() < 0.3
    first = {k: rng.choice([0, 0, 0, 0, 1, start, start + 2]) if not savgol else 0 for k in range(K)}
    if rng.random() < 0.7:
        first[rng.randrange(K)] = 0
    const = [rng.randint(1, 80) for _ in range(K)]
    steps, m = [], 0
    changes = rng.choice([0.1, 0.3, 1])
    for t in range(start + (rng.choice([20, 30, 40]) if long else rng.choice([2, 6, 12]))):
        if rng.random() < 0.05:
            steps.append(rng.choice(["deepcopy", "dill", "pickle"]))
        l, n = [], []
        for k in range(K):
            x = 0 if t < first[k] or (not savgol and rng.random() < 0.15) else rng.choice([1, 2, 3, 4, 6])
            n.append(x)
            l.append(x * (const[k] if savgol else rng.randint(1, 80)))
        while len(n) > 1 and n[-1] == 0 and rng.random() < 0.7:      # nothing is known of the last ones
            n.pop(), l.pop()
        steps.append([l, n, m if rng.random() < 0.9 else max(m - 1, 0)])
        if rng.random() < changes:
            m += 1
    return {"c": c, "steps": steps, "savgol": savgol, "norm": rng.choice([None, 1, 2, 7]), "log": rng.random() < 0.2, "ctype": rng.choice(["int64", "int32"])}


def avg(rng):
    K = rng.choice([1, 2, 3, 5])
    c = {"kind": "avg", "variant": "", "g1": 0, "g2": 0, "s2": 0, "dmin": 0, "interval": 1, "ignore": 0, "start": 1, "sub": 1, "same": False, "mu": [1] * K}
    steps = []
    for _ in range(rng.choice([2, 5, 12])):
        if rng.random() < 0.1:
            steps.append(rng.choice(["deepcopy", "dill", "pickle"]))
        n = [rng.choice([0, 0, 1, 2, 5, 40, 300]) for _ in range(rng.randint(1, K))]
        steps.append([[x * rng.choice([0, 1, 8, 20, 77]) + (rng.randint(0, 9) if x else 0) for x in n], n, rng.choice([0, 1, 2])])
    if rng.random() < 0.15:
        steps = [x if isinstance(x, str) else [[0] * len(x[0]), x[1], x[2]] for x in steps]
    return {"c": c, "steps": steps, "savgol": False, "norm": None, "log": False, "ctype": rng.choice(["int64", "int32"])}


def run(ctx):
    for kind, variant, depth in [("avg", "", 3), ("ado", "vanilla", 2), ("ado", "adjusted_v2", 2)] + (
            [("ado", v, 3) for v in ("vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3")] if ctx.n(0, 1) else []):
        ctx.model("AlgoModel", MODEL % (depth, variant, kind, 1), timeout=1500)
    rng = ctx.rng
    scs = [ado(rng) for _ in range(ctx.n(130, 2500))] + [avg(rng) for _ in range(ctx.n(120, 2500))]
    traces = ctx.drive("algo", scs, each=60)
    ctx.validate("AlgoTrace", traces, batch=16)
