import chunkgen

MODEL = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OutcomeAllowed NothingTwice\n{live}"
         "CONSTANTS MaxPerKey={n} Sizes={sizes} MaxChanges={ch}\n")


def model(ctx):
    """The design satisfies the clauses for every table, mixture and (thorough) change of the mixture in the bounds."""
    ctx.model("ChunkGenModel", MODEL.format(n=2, sizes="{2, 3}", ch=0, live="PROPERTY EventuallyEnds\n"))
    ctx.model("ChunkGenModel", MODEL.format(n=2, sizes="{2, 3}", ch=1, live=""))
    if not ctx.quick:
        ctx.model("ChunkGenModel", MODEL.format(n=3, sizes="{2, 3, 4}", ch=1, live=""), timeout=1500, optional=True)
        ctx.model("ChunkGenModel", MODEL.format(n=2, sizes="{1, 2, 3}", ch=2, live=""), timeout=1500, optional=True)


def streams(ctx, kinds, strict, ncorpora, per, **kw):
    sc = chunkgen.scenarios(ctx.rng, ncorpora, per, kinds, strict, **kw)
    tr = ctx.drive("chunkgen", sc)
    ctx.validate("ChunkGenTrace", tr)
    ends = sum(e["ev"] in ("none", "end") for t in tr for e in t["events"])
    ctx.notes["streams"] = {"chunks": sum(e["ev"] == "chunk" for t in tr for e in t["events"]), "exhaustions": ends,
                            "mixture_changes": sum(e["ev"] == "mix" for t in tr for e in t["events"]) - len(tr)}
