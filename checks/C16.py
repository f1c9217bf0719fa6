import corpus as C

MODEL = "SPECIFICATION Spec\nCONSTANTS Clients = {c1, c2, c3} Jobs = {\"a\", \"b\"} Invalid = {\"b\"} RejectDuplicates = TRUE MaxTasks = %d\nINVARIANTS StatusIsTrue JobsStayUsable OwnOutcome\nCHECK_DEADLOCK FALSE\n"
SHARED = "SPECIFICATION Spec\nCONSTANTS Tasks = {1, 2, 3} Serialised = TRUE\nINVARIANT OwnRows\nCHECK_DEADLOCK FALSE\n"


def mix(rng, size):
    x = rng.random()
    if x < 0.4:
        return {"kind": "arbitrary", "size": size}
    st = {"kind": "static", "size": size, "strict": rng.random() < 0.3, "keys": [[[["topic", ["law"]]], 1], [[["topic", ["med"]]], 1]], "den": 2}
    if x < 0.6:
        return st
    if x < 0.8:
        return {"kind": "infer", "size": size, "strict": False}
    return {"kind": "dynamic", "size": size, "strict": False, "init": {**st, "strict": False}}


def scenario(rng):
    spec = C.random_corpus(rng, rng.choice([12, 25, 40]), rng.choice(["one", "two", "frag"]))
    files = [f for d in spec["datasets"] for f in d]
    names = ["a", "b", "c", "d"]
    data = {n: files[j::3] or [[{"topic": "law"}, {"topic": "med"}]] for j, n in enumerate(names)}
    bad = ["d"]
    qs = [[[]], [[["topic", "==", "law"]]], [[["topic", "!=", "law"]]], [[["topic", "==", ["law", "med"]]]]]
    jobs = {}
    for j in ["j1", "j2", "j3"]:
        jobs[j] = {"q": rng.choice(qs), "m": mix(rng, rng.choice([2, 3, 5])), "G": rng.choice([1, 1, 2]), "N": rng.choice([1, 1, 2]),
                   "W": rng.choice([1, 1, 2]), "valid": True}
    # Queries which fail: refused arguments, or an error of the database (the any_value of a property with several values)
    jobs["bad"] = {**jobs["j1"], "G": 0, "valid": False} if rng.random() < 0.4 else \
        {**jobs["j1"], "q": [[[rng.choice(["tag", "lang"]), rng.choice([">", "<="]), "law"]]], "valid": False}
    jobs_left = dict(jobs)
    have, ok, pending, cks = set(), [], [], {j: 0 for j in jobs}
    ops, steps = [], 0

    def request(j):
        jb = jobs[j]
        x = rng.random()
        if x < 0.66:
            return ["chunk", j, rng.randrange(jb["G"]), rng.randrange(jb["N"]), rng.randrange(jb["W"]), rng.choice(["tunnel", "direct"])]
        if x < 0.76:
            return ["feedback", j, rng.randint(1, 30), rng.randint(0, 2), *(([1.0, 2.0], [1, 2]) if rng.random() < 0.5 else (None, None))]
        if x < 0.83:
            return ["meta", j]
        if x < 0.86:
            return ["chunk", j, jb["G"] + 3, 0, 0, "direct"]
        if x < 0.94 or not cks[j]:
            return ["checkpoint", j, [0] * jb["W"]]
        return ["restore", j, rng.randrange(cks[j])]

    first = rng.sample(["a", "b", "c"], 2)
    ops.append(["par", [["add", n] for n in first]] if rng.random() < 0.4 else ["add", first[0]])
    have.update(n for n in (first if ops[0][0] == "par" else first[:1]))
    for _ in range(rng.choice([14, 22, 30])):
        x = rng.random()
        free = [j for j in jobs_left if j not in ok and j not in pending]
        if not ok and free and not pending and x < 0.5:
            x = 0.25
        if x < 0.1 and not pending:
            n = rng.choice(names)
            if n in have and len(have) > 1 and rng.random() < 0.4:
                ops.append(["remove", n])
                have.discard(n)
            elif rng.random() < 0.3:
                rest = [m for m in names if m not in have]
                ops.append(["par", [["add", m] for m in rest[:3]] + [["exists", "zz"]]])
                have.update(m for m in rest[:3] if m not in bad)
            else:
                ops.append(["add", n])
                if n not in bad:
                    have.add(n)
        elif x < 0.18:
            ops.append(rng.choice([["exists", rng.choice(names)], ["list"], ["remove", "zz"] if not pending else ["list"], ["file", sorted(have)[0]]]))
        elif x < 0.32:
            if free and rng.random() < 0.75:
                if len(free) > 1 and rng.random() < 0.25 and not pending:
                    a, b = rng.sample(free, 2)
                    ops += [["par", [["query", a], ["query", b], ["exists", sorted(have)[0]]]], ["wait", a], ["wait", b]]
                    ok += [j for j in (a, b) if jobs[j]["valid"]]
                else:
                    j = rng.choice(free)
                    ops.append(["query", j])
                    pending.append(j)
            elif ok + pending:
                if any(jobs[j]["valid"] for j in ok + pending):
                    ops.append(["query", rng.choice([j for j in ok + pending if jobs[j]["valid"]])])
        elif x < 0.4:
            j = rng.choice(list(jobs))
            ops.append(["status", j] if j in jobs_left else ["list"])
        elif x < 0.5 and pending:
            j = pending.pop()
            ops.append(["wait", j])
            if jobs[j]["valid"]:
                ok.append(j)
        elif x < 0.55:
            ops.append(["unknown", rng.choice([["chunk", "nojob", 0, 0, 0, "direct"], ["meta", "nojob"], ["feedback", "nojob", 1, 0, None, None],
                                               ["checkpoint", "nojob", [0]], ["restore", "nojob", 0]])])
        elif x < 0.67:
            t = request(rng.choice(ok)) if ok else ["list"]
            c = [["add", rng.choice(names)], ["query", "bad"], ["exists", "a"], ["remove", sorted(have)[0]]]
            t = rng.choice([t] + c if rng.random() < 0.5 else [t])
            if t[0] in ("restore", "checkpoint"):
                t = ["checkpoint", t[1], [0] * jobs[t[1]]["W"]]
            if not (pending and t[0] in ("add", "remove")):
                ops.append(["cut", t, rng.choice([0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 1.0])])
        elif x < 0.70 and not pending:
            ops.append(["restart"])
            for j in list(ok):
                if cks[j] and rng.random() < 0.8:
                    ops.append(["restore", j, rng.randrange(cks[j])])
                else:
                    ok.remove(j)
                    del jobs_left[j]
        elif ok and x < 0.77:
            f = request(rng.choice(ok))
            if f[0] in ("chunk", "feedback", "meta"):
                g = request(rng.choice([j for j in ok if j != f[1]] or ok))
                if g[0] in ("checkpoint", "restore"):
                    g = ["list"]
                if g[0] == "list" or g[1] != f[1]:
                    ops.append(["slow", f, rng.choice([0.0, 0.2, 0.5, 0.9, 1.0]), g])
        elif ok:
            ops.append(request(rng.choice(ok)))
            if ops[-1][0] == "checkpoint":
                cks[ops[-1][1]] += 1
    for j in pending:
        ops.append(["wait", j])
    for j in ok + [j for j in pending if jobs[j]["valid"]]:
        ops += [["chunk", j, 0, 0, 0, "direct"]] * 2
    ops.append(["list"])
    return {"data": data, "bad": bad, "jobs": jobs, "ops": ops}


def run(ctx):
    ctx.model("ServerModel", MODEL % ctx.n(5, 7))
    ctx.model("SharedModel", SHARED)
    scs = [scenario(ctx.rng) for _ in range(ctx.n(96, 700))]
    traces = ctx.drive("server", scs, each=90, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("ServerTrace", traces, batch=40)
