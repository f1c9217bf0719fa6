MODEL = """SPECIFICATION Spec
CONSTANTS Clients = {%s} Names = {"p", "q"} Sources = {"x", "y"} OwnModules = TRUE CheckFirst = TRUE
INVARIANTS OnePerName SomeoneWins OwnClass
CHECK_DEADLOCK FALSE
"""
GOOD = ["copy", "helper", "later-line", "swap", "const", "parity", "line", "picky"]
ODD = ["foreign-global", "with-own-base", "nested"]


def scenario(rng, remote):
    names, data = ["P", "Q", "my parser", "\u00fc"], {}
    n = 0
    for d in ["a", "b", "c", "d"]:
        files = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            files.append([])
            for _ in range(rng.randint(1, 5)):
                n += 1
                files[-1].append({"lang": sorted(rng.sample(["en", "de", "fr"], rng.choice([1, 1, 2]))), "topic": rng.choice(["law", "med", "a;b:c"]),
                                  "n": rng.choice([0, 1, 2, 4, 5]) if rng.random() < 0.93 else 3, "text": f"{d}{n} \u00e4"})
        data[d] = files
    ops, have, regs = [], set(), []
    for _ in range(rng.choice([8, 12, 18])):
        x = rng.random()
        if not regs or x < 0.3:
            v = rng.choice(GOOD) if rng.random() < 0.8 else rng.choice(ODD)
            m = rng.choice(names) if rng.random() < 0.9 else rng.choice(["PILE", "FINEWEB"])
            ops.append(["reg", m, v])
            regs.append(m)
        elif x < 0.38:
            m = rng.choice(names)
            ops.append(["race", m, [rng.choice(GOOD) for _ in range(rng.choice([2, 3, 4]))]])
            regs.append(m)
        elif x < 0.75:
            ops.append(["add", rng.choice(sorted(data)), rng.choice(regs) if rng.random() < 0.9 else rng.choice(names + ["nothing"])])
            have.add(ops[-1][1])
        elif x < 0.83 and have:
            ops.append(["remove", rng.choice(sorted(data))])
        elif x < 0.9 and have:
            ops.append(["restart"])
        elif have:
            ops.append(["read"])
    return {"remote": remote, "files": data, "ops": ops + [["read"]], "seed": rng.randrange(10**6)}


def run(ctx):
    ctx.model("ParsersModel", MODEL % "c1, c2")
    if not ctx.quick:
        ctx.model("ParsersModel", MODEL % "c1, c2, c3", timeout=1500)
    tr = ctx.drive("parsers", [scenario(ctx.rng, k % 4 != 0) for k in range(ctx.n(90, 900))], each=90)
    ctx.validate("ParsersTrace", tr, batch=30)
