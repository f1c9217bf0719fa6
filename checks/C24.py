import chunkgen as G
import corpus as C

MODEL = """SPECIFICATION Spec
CONSTANTS G = %d N = %d W = %d NChunks = %d Size = 2 Ahead = %d Restarts = %d
INVARIANTS SameSamples NoneTwice Disjoint StatusIsPosition Everything NothingLost Again LostAtMost
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    for m in [(1, 1, 2, 3, 2, 1), (2, 1, 1, 3, 1, 1), (1, 2, 1, 2, 2, 1)] + ([(1, 1, 2, 4, 2, 2), (2, 2, 1, 2, 1, 1), (1, 2, 2, 2, 1, 1)] if ctx.n(0, 1) else []):
        ctx.model("LoaderModel", MODEL % m, timeout=1500)
    rng, scs = ctx.rng, []
    for k in range(ctx.n(120, 2500)):
        kind = ["local", "local", "local", "local", "local", "local", "server", "workers"][k % 8]
        server = kind != "local"
        W = rng.choice([1, 2, 2, 3]) if kind == "workers" else 0
        lib = rng.choice(["torch", "torch", "hf"])
        gg, n = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2])
        if kind == "workers" and gg * n * W > 6:
            gg, n = rng.choice([(1, 1), (2, 1), (1, 2)])
        spec = C.random_corpus(rng, rng.choice([12, 30, 50]), rng.choice(["one", "two", "multi", "single-key"]))
        spec["kinds"] = {str(d): rng.choice(["jsonl", "jsonl", "parquet"]) for d in range(len(spec["datasets"]))}
        spec["parse"] = "parse_any"
        batch, pf = rng.choice([1, 2, 3, 5]), rng.choice([1, 2])
        size = rng.choice([4, 7, 10, 16])
        stops = [rng.choice([0, 1, 1, 2, 2, 3]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if W and stops:
            size = max(size, (pf + 1) * batch + 1)      # what is lost on the way is less than a chunk
            kinds = spec["kinds"]
            spec = {**C.random_corpus(rng, sum(len(f) for d in spec["datasets"] for f in d), "single-key"), "parse": "parse_any"}
            spec["kinds"] = {str(d): kinds.get(str(d), "jsonl") for d in range(len(spec["datasets"]))}
            stops = stops[:1]
            stops = [W * max(stops[0], 1)]
        mode = rng.choice(["simple", "simple", "window", "token"])
        args = {"chunk_reading_mixture_type": mode, "chunk_reading_prefetch_first_sample": rng.random() < 0.5,
                "chunk_reading_window_size": rng.choice([2, 5, 128]), "chunk_reading_window_best_effort": rng.random() < 0.5,
                "tunnel_via_server": server and mode != "token" and rng.random() < 0.3}
        if mode == "token":
            args.update(chunk_reading_sequence_len=rng.choice([2, 4]), chunk_reading_token_separate_thread=rng.random() < 0.5,
                        chunk_reading_token_overlapping=True if lib == "hf" else rng.random() < 0.5)
        if args["tunnel_via_server"]:
            spec["kinds"] = {str(d): "jsonl" for d in range(len(spec["datasets"]))}
        scs.append({"corpus": spec, "mixture": {"kind": rng.choice(["arbitrary", "arbitrary", "infer"]), "size": size, "strict": rng.random() < 0.5},
                    "G": gg, "N": n, "W": W, "lib": lib, "split": gg > 1 or not W or bool(stops) or rng.random() < 0.5, "server": server, "batch": batch, "pf": pf, "args": args, "seed": rng.randrange(10**6), "stops": stops,
                    "restart": rng.random() < 0.5})
    traces = ctx.drive("loaders", scs, each=60, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("LoaderTrace", traces, batch=40)
