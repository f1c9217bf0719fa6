import chunk_common as CC
import corpus as C

MODEL = "SPECIFICATION Spec\nCONSTANTS NKeys = 2 MaxN = %d MaxProcs = 2 MaxW = %d Failures = %s ReportFailures = TRUE\n%s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS Allowed EndIsAllowed NothingLost"


def conf(rng, total, procs):
    mode = rng.choice(["simple", "window", "window"])
    return {"mode": mode, "w": rng.choice([1, 2, 3, 5, 7, 11, 13, total, total + 5, 0, rng.randint(1, 40)]), "best": rng.random() < 0.5,
            "dop": rng.choice([1, 2, 3, 5]) if procs else 1, "pre": rng.random() < 0.5, "skip": rng.choice([0, 0, 0, rng.random()]),
            "stop": rng.choice([None, None, None, None, rng.random()]), "how": rng.choice(["fresh", "again"]),
            "kill": rng.choice([None] * 5 + [rng.random()]), "victim": rng.randrange(8), "tunnel": False}


def scenario(rng, k, remote):
    procs = k % 3 == 0       # processes are costly with many keys
    style = rng.choice(["one", "two", "single-key"] if procs else ["one", "two", "multi", "frag", "frag"])
    spec = C.random_corpus(rng, rng.choice([20, 40, 60, 90]), style)
    n = sum(len(f) for d in spec["datasets"] for f in d)
    spec["kinds"] = {str(d): "jsonl" if remote else rng.choice(["jsonl", "jsonl", "parquet", "tar"])
                     for d in range(len(spec["datasets"]))}
    spec["parse"] = rng.choice(["parse_any", "parse_any", "parse_odd"])
    if spec["parse"] == "parse_any" and rng.random() < 0.2:
        spec["bang"] = rng.sample(range(1, n + 1), rng.choice([1, 2]))
    size = rng.choice([5, 10, 17, 23, 26, 39, 40])
    mix = {"kind": rng.choice(["arbitrary", "arbitrary", "infer"]), "size": size, "strict": False}
    confs = []
    for _ in range(rng.choice([1, 2, 3])):
        cs = [conf(rng, size, procs) for _ in range(rng.choice([2, 3, 4]))]
        for c in list(cs):     # the same again, and a part of it
            d = dict(c)
            c.update(skip=0, stop=None, kill=None)
            d.update(how=rng.choice(["fresh", "again"]), kill=rng.choice([None, None, 0, rng.random()]))
            cs.insert(cs.index(c) + 1 + rng.randint(0, 1), d)
        if remote:
            for c in cs:
                c["tunnel"] = rng.random() < 0.7
        confs.append(cs)
    stream = None
    if rng.random() < 0.5 and "bang" not in spec:
        stream = dict(confs[0][0], skip=0, stop=None, kill=None)
        confs = [[dict(stream)] + cs for cs in confs]
    gone = 0 if rng.random() < 0.2 else None
    return {"seed": rng.randrange(10**6), "gone": gone, "corpus": spec, "mixture": mix, "remote": remote, "chunks": 40 if stream else rng.choice([2, 4]), "confs": confs, "stream": stream}


def run(ctx):
    ctx.model("ReadingModel", MODEL % (ctx.n(2, 3), ctx.n(3, 4), "TRUE", INV))
    ctx.model("ReadingModel", MODEL % (3, 4, "FALSE", INV + " NoAlarm"))
    scs = [scenario(ctx.rng, k, k % 8 == 0) for k in range(ctx.n(240, 3000))]
    traces = ctx.drive("reading", scs, each=60, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("ReadingTrace", traces, batch=12)
