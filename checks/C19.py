MODEL = """SPECIFICATION Spec
CONSTANTS MaxRows = %d MaxGroups = %d MaxRanges = %d MaxBatch = %d Strict = TRUE
INVARIANTS RowsRead NothingConcealed ErrorsHaveCause Numbered RunsFaithful
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def ranges(rng, n, beyond):
    """Ascending disjoint ranges, some adjacent."""
    k = rng.choice([1, 1, 2, 3, 6])
    pts = sorted(rng.randrange(n + 1 + (4 if beyond else 0)) for _ in range(2 * k))
    rs = [[pts[2 * i], pts[2 * i + 1]] for i in range(k)]
    if rng.random() < 0.3:
        for i in range(1, k):
            if rng.random() < 0.5:
                rs[i][0] = rs[i - 1][1]
    if rng.random() < 0.9:
        rs = [r for r in rs if r[0] < r[1]]
    return rs or [[0, n]]


def run(ctx):
    ctx.model("ReadersModel", MODEL % (4, 3, 2, 2))
    ctx.model("ReadersModel", MODEL % ((5, 4, 2, 3) if ctx.n(0, 1) else (5, 3, 2, 3)), timeout=1500)
    rng, scs = ctx.rng, []
    for k in range(ctx.n(700, 8000)):
        kind = rng.choice(["jsonl", "jsonl", "jsonl.gz", "jsonl.bz2", "jsonl.xz", "jsonl.zst", "parquet", "parquet", "parquet", "tar", "tar"])
        sizes = [rng.choice([1, 2, 3, 5, 9, 17, 40]) for _ in range(rng.choice([1, 1, 2, 3]))]
        if k % 100 == 7:
            kind, sizes = rng.choice(["jsonl", "parquet", "parquet"]), [70000 + rng.randrange(100)]
        elif kind != "tar" and rng.random() < 0.1:
            sizes[-1] = 0
        blank = kind.startswith("jsonl") and rng.random() < 0.2
        reads = []
        for _ in range(rng.choice([2, 4, 6])):
            fs = rng.sample(range(len(sizes)), rng.choice([1, len(sizes)]))
            reads.append([[f, ranges(rng, sizes[f], rng.random() < 0.15)] for f in fs])
        scs.append({"seed": rng.randrange(10**9), "kind": kind, "sizes": sizes, "layout": rng.choice(["one", "many", "many", "dirs"]), "blank": blank,
                    "reads": reads, "wire": kind.startswith("jsonl") and rng.random() < 0.12})
    traces = ctx.drive("readers", scs, each=60)
    ctx.validate("ReadersTrace", traces, batch=100)
