MODEL = """SPECIFICATION Spec
CONSTANTS Vals = {%s} MaxFiles = %d MaxRows = %d MaxBatch = %d
INVARIANTS AsSpecified Stable Single Batched Own
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
SLIM = ["RedPajamaCommonCrawl", "RedPajamaC4", "RedPajamaWikipedia", "RedPajamaStackExchange", "RedPajamaGithub", "RedPajamaArXiv", "RedPajamaBook"]
PILE = ["Pile-CC", "PubMed Central", "Books3", "OpenWebText2", "ArXiv", "Github", "FreeLaw", "StackExchange", "USPTO Backgrounds", "PubMed Abstracts",
        "Gutenberg (PG-19)", "OpenSubtitles", "Wikipedia (en)", "DM Mathematics", "Ubuntu IRC", "BookCorpus2", "EuroParl", "HackerNews",
        "YoutubeSubtitles", "PhilPapers", "NIH ExPorter", "Enron Emails"]
TEXTS = ["x", "y", "z", "X", "", " ", "en", "de", "ä", "日本", "'", '"', "x,y", "[x]", "None", "null", "2020-01-01", "ArXiv", "C4"]
TROUBLES = ["few", "many", "none", "dict", "type", "gone", "ray", "degree", "zero", "batch"]


def some(rng, value, absent=0.15, null=0.1):
    """absent, null or a value"""
    x = rng.random()
    return ["-"] if x < absent else [None] if x < absent + null else [value]


def builtin(rng, name):
    def fields():
        f = {}

        def put(n, v):
            if v != ["-"]:
                f[n] = v[0]
        if name == "RED_PAJAMA":
            put("language", some(rng, [rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]))
            put("publication_date", some(rng, rng.choice(TEXTS)))
        elif name in ("SLIM_PAJAMA", "PILE"):
            put("redpajama_set_name" if name == "SLIM_PAJAMA" else "pile_set_name",
                some(rng, rng.choice(SLIM + PILE if rng.random() < 0.15 else SLIM if name == "SLIM_PAJAMA" else PILE)))
        elif name == "IMAGENET_WEB_DATASET":
            put("class_label", some(rng, rng.choice([0, 1, 7, 999, "x", "tench", "0"]), null=0))
        elif name == "FINEWEB":
            put("dump", some(rng, rng.choice(TEXTS)))
            put("language", some(rng, rng.choice(["en"] * 6 + ["de", "EN", ""])))
        return f
    line, samples = rng.choice([0, 0, 5]), []
    for _ in range(rng.choice([2, 6, 12])):
        samples.append([line, fields()])
        line += rng.choice([1, 1, 1, 4])
    return {"op": "parser", "builtin": name, "decl": [], "options_as": "set", "noise": rng.random() < 0.4, "samples": samples,
            "options": {"SLIM_PAJAMA": SLIM, "PILE": PILE, "FINEWEB": ["en"]}.get(name, [])}


def own(rng):
    decl = []
    for n in rng.sample(["a", "b", "c", "A", "sample", "dataset"], rng.choice([1, 2, 3, 4])):
        enum = rng.random() < 0.5
        decl.append({"name": n, "enum": enum, "multi": rng.random() < 0.5, "nullable": rng.random() < 0.6,
                     "options": rng.sample(TEXTS, rng.choice([1, 3, 6])) if enum else []})
    line, samples = 0, []
    for _ in range(rng.choice([2, 6, 12])):
        f = {}
        for d in decl:
            pool = d["options"] if d["enum"] and rng.random() < 0.9 else TEXTS
            v = rng.choice(pool)
            if rng.random() < (0.6 if d["multi"] else 0.06):
                v = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3]))]
            q = some(rng, v, 0.2 if d["nullable"] else 0.03, 0.2 if d["nullable"] else 0.03)
            if q != ["-"]:
                f[d["name"]] = q[0]
        samples.append([line, f])
        line += rng.choice([1, 1, 1, 4])
    return {"op": "parser", "builtin": "", "decl": decl, "options_as": rng.choice(["set", "list"]), "noise": rng.random() < 0.4, "samples": samples, "options": []}


def calc(rng):
    nf = rng.choice([0, 1, 1, 2, 3, 5])
    words = ["{\"text\": \"%d\"}" % k for k in range(40)] + ["", "ä", "日本", "x ", "x\t", "  x", "long" * 50]
    kind = rng.choice(["str", "int", "float", "list", "mixed"])
    values = {"str": ["a", "b", "", "c"], "int": [0, 1, -5, 10**12], "float": [0.0, 1.5, -2.25], "list": [[], ["a"], ["a", "b"], [1, 2]],
              "mixed": ["a", 1, 2.5, ["a"], "", 0, []]}[kind]
    ids = rng.sample(range(1, 20), nf)
    return {"op": "calc", "files": [[rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 9]))] for _ in range(nf)],
            "ids": [[f, rng.choice([1, 2])] for f in ids], "size": rng.choice([1, 1, 2, 3, 4, 5, 100]), "values": rng.sample(values, len(values)),
            "as": rng.choice(["list", "list", "tuple"]), "split": rng.random() < 0.2, "other": rng.choice(["tar", "parquet"]),
            "trouble": rng.choice(TROUBLES) if rng.random() < 0.3 else ""}


def factory(rng):
    return {"op": "factory", "steps": [[rng.choice(["add", "add", "create", "create", "remove"]), rng.choice(["A", "B", "a", "PILE"]), rng.randrange(4),
                                        rng.random() < 0.3] for _ in range(rng.choice([5, 15, 30]))]}


def run(ctx):
    ctx.model("MetadataModel", MODEL % ("1", 2, 2, 3), timeout=600)
    if ctx.n(0, 1):
        ctx.model("MetadataModel", MODEL % ("1, 2", 3, 4, 5), timeout=1500)
    rng, scs = ctx.rng, []
    for _ in range(ctx.n(400, 8000)):
        ops = [builtin(rng, n) for n in rng.sample(["RED_PAJAMA", "SLIM_PAJAMA", "PILE", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO"], 2)]
        ops += [own(rng), own(rng), calc(rng), calc(rng), calc(rng), factory(rng)]
        rng.shuffle(ops)
        scs.append({"ops": ops})
    traces = ctx.drive("metadata", scs)
    ctx.validate("MetadataTrace", traces, batch=60)
