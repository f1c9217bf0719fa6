import json

import chunkgen, corpus

SIM = ("SPECIFICATION SimSpec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Emit\n"
       "CONSTANTS G={G} N={N} W={W} Total={T} MaxFb={F} MaxCk=12 Depth={D}\n")
MODEL = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoClauseViolated Disjoint NoDuplicate NothingLost\n"
         "CONSTANTS G={} N={} W={} Total={} MaxFb={} MaxCk={}\n")


def model(ctx):
    for c in [(1, 2, 2, 3, 0, 1), (2, 1, 2, 4, 0, 1), (2, 2, 1, 3, 0, 1), (1, 2, 1, 3, 1, 1)]:
        ctx.model("DistributorModel", MODEL.format(*c))
    if not ctx.quick:
        for c in [(1, 2, 1, 3, 1, 2), (1, 2, 2, 5, 0, 1), (2, 2, 2, 4, 0, 1), (1, 3, 2, 4, 0, 1), (2, 2, 1, 4, 1, 1)]:
            ctx.model("DistributorModel", MODEL.format(*c), timeout=700, optional=True)


def mixture(rng, comps, kinds, size=None):
    size = size or rng.choice([1, 2, 2, 3, 3, 4, 5])
    kind = rng.choice(kinds)
    fixed = ("arbitrary", "static", "hier", "infer")
    if kind == "schedule":
        starts, entries, s = [], [], rng.choice([0, 0, 0, 1, 3])
        for _ in range(rng.randint(1, 4)):
            starts.append(s)
            s += rng.choice([1, 2, 3, 5, 9])
        for s in starts:
            e = mixture(rng, comps, ("static", "static", "infer", "arbitrary", "hier", "dynamic"), size if rng.random() < 0.8 else size + rng.choice([1, 2]))
            entries.append([s, e])
        rng.shuffle(entries)
        return {"kind": "schedule", "size": size, "entries": entries}
    if kind == "dynamic":
        init = chunkgen.random_mixture(rng, comps, ("static", "infer"), None, size if rng.random() < 0.85 else size + 1)
        if init["kind"] == "arbitrary":
            init = {"kind": "infer", "size": size, "strict": init["strict"]}
        return {"kind": "dynamic", "size": size, "strict": rng.random() < 0.5, "init": init}
    return chunkgen.random_mixture(rng, comps, tuple(k for k in kinds if k in fixed) if kind in fixed else fixed, None, size)


def disturb(rng, ops):
    """Polls without waiting, and kills of the processes writing checkpoints after their last report."""
    out = []
    kills = rng.random() < 0.5
    for op in ops:
        if op[0] == "await" and rng.random() < 0.35:
            op = ["poll"]
        out.append(op)
        if op[0] == "report" and kills and rng.random() < 0.15:
            out.append(["kill"])
        if op[0] == "report" and rng.random() < 0.1:
            out.append(["poll"])
    return out


def scenarios(ctx, want, kinds, num, shapes, depth=(30, 60), maxfb=6, strip=(), rows=(24, 40, 60), faults=False):
    out = []
    left = num
    while left > 0:
        G, N, W = ctx.rng.choice(shapes)
        n = min(left, max(6, num // 8))
        left -= n
        save, ctx.seed = ctx.seed, ctx.rng.randint(1, 10**6)
        bs = ctx.behaviours("DistributorSim", SIM.format(G=G, N=N, W=W, T=40, F=maxfb, D=ctx.rng.randint(*depth)), num=n, depth=600)
        ctx.seed = save
        spec = corpus.random_corpus(ctx.rng, ctx.rng.choice(rows))
        comps = chunkgen.plain_comps(spec)
        for b in bs:
            b = [op for op in b if op[0] not in strip]
            if faults:
                b = disturb(ctx.rng, b)
            out.append({"corpus": spec, "query": None, "mixture": mixture(ctx.rng, comps, kinds), "G": G, "N": N, "W": W,
                        "ops": b, "slowcopy": ctx.rng.choice([0, 0, 0.01, 0.05]) if faults else 0, "salt": ctx.rng.randint(0, 10**6), "want": want,
                        "warm": mixture(ctx.rng, comps, ("static", "arbitrary")) if ctx.rng.random() < 0.4 else None,
                        "nocache": ctx.rng.random() < 0.2})
    return out


def run(ctx, want, sc, each=60):
    tr = ctx.drive("job", sc, each=each)
    ctx.validate("JobTrace", tr, batch=40)
    kinds: dict = {}
    for t in tr:
        for e in t["events"]:
            k = e["ev"] + (f":{e['res']}" if "res" in e else "")
            kinds[k] = kinds.get(k, 0) + 1
    ctx.notes["operations_replayed"] = {k: kinds[k] + ctx.notes.get("operations_replayed", {}).get(k, 0) for k in kinds}
    return tr


def mixing_model(ctx):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Forward Latest OthersKept Distribution StaticEntries\n"
           "CONSTANTS Entries={} MaxStep={} Depth={}\n")
    ctx.model("MixingModel", cfg.format(2, 2, 2))
    if not ctx.quick:
        ctx.model("MixingModel", cfg.format(2, 3, 3), timeout=600, optional=True)
        ctx.model("MixingModel", cfg.format(3, 2, 2), timeout=600, optional=True)
