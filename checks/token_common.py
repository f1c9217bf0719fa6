import corpus as C

MODEL = """SPECIFICATION Spec
CONSTANTS MaxSamples = %d MaxTokens = %d MaxBatch = 2 MaxL = 2 Failures = TRUE
INVARIANTS Sequences_ AllAtEnd ErrorRaised
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def samples(rng, long=False):
    out, w = [], 0
    if long:                  # more tokens than any buffer one might think of
        for _ in range(rng.choice([1, 3, 6])):
            k = rng.choice([1100, 2500, 4200, 9000])
            out.append([(w + i) % 199 for i in range(k)])
            w += k
        return out
    for _ in range(rng.choice([0, 1, 2, 5, 9, 14])):
        k = rng.choice([0, 1, 1, 2, 3, 7, 12])
        out.append([(w + i) % 200 for i in range(k)])
        w += k
    return out


def options(rng):
    return {"L": rng.choice([1, 2, 3, 5, 8, 20, 60]), "overlap": rng.random() < 0.5, "atleast": rng.random() < 0.6, "bos": rng.random() < 0.3, "eos": rng.random() < 0.3,
            "how": "demand", "pauses": [], "slow": -1, "rest": -1}


def pauses(rng):
    return [[rng.choice(["cons", "bg"]), rng.choice([rng.randint(1, 12), rng.randint(1, 60)])] for _ in range(rng.choice([1, 1, 2, 3]))]


def iterator(rng, background):
    long = rng.random() < 0.04
    s, opens = samples(rng, long), []
    for _ in range(rng.choice([1, 2])):
        o = options(rng)
        if long:
            o["L"] = rng.choice([127, 256, 1000])
        opens.append(o)
        if background:
            for _ in range(rng.choice([2, 3, 4])):
                opens.append(dict(o, how="background", pauses=pauses(rng) if rng.random() < 0.85 else [], slow=rng.choice([-1, -1, 0, len(s) - 1]),
                                  rest=rng.choice([-1, -1, 0, 1, 2])))
    bad = rng.randrange(len(s) + 1) if rng.random() < 0.2 else -1
    return {"kind": "iterator", "samples": s, "batch": rng.choice([1, 2, 3, 5, 100]), "opens": opens, "bad": bad,
            "badhow": "source" if bad == len(s) else rng.choice(["source", "tokenizer"])}


def chunk(rng, k):
    procs = k % 6 == 0
    spec = C.random_corpus(rng, rng.choice([20, 40, 60]), rng.choice(["one", "two", "single-key"] if procs else ["one", "two", "multi"]))
    spec["kinds"] = {str(d): rng.choice(["jsonl", "jsonl", "parquet"]) for d in range(len(spec["datasets"]))}
    spec["parse"] = "parse_any"
    size = rng.choice([5, 10, 17, 30])
    opens = []
    for _ in range(rng.choice([1, 2])):
        o = dict(options(rng), how=rng.choice(["demand", "background"]), dop=rng.choice([1, 2, 3]) if procs else 1, pre=rng.random() < 0.5, skip=0,
                 batch=rng.choice([1, 2, 5, 100]))
        opens.append(o)
        opens.append(dict(o, how=rng.choice(["demand", "background"]), pre=rng.random() < 0.5, skip=rng.choice([0, 1, 2, 5]), batch=rng.choice([1, 3, 100])))
    return {"kind": "chunk", "seed": rng.randrange(10**6), "corpus": spec, "mixture": {"kind": rng.choice(["arbitrary", "arbitrary", "infer"]), "size": size, "strict": False},
            "chunks": 3, "opens": opens, "lengths": rng.choice([[0, 1, 2, 5], [3, 9, 20], [1, 1, 1, 30], [0, 0, 0, 4], [10]])}


def run(ctx, scs, each):
    ctx.model("TokensModel", MODEL % (ctx.n(3, 4), 3))
    traces = ctx.drive("tokens", scs, each=each, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("TokensTrace", traces, batch=40)
