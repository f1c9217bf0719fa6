import chunkgen as G
import corpus as C
import job_common as J

MODEL = """SPECIFICATION Spec
CONSTANTS W = %d NChunks = %d Jobs = %d Ahead = %d
INVARIANTS Known Monotone Once
PROPERTY ToTheEnd
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    for m in [(2, 3, 2, 2), (3, 3, 1, 1)] + ([(2, 4, 2, 2), (3, 4, 2, 1)] if ctx.n(0, 1) else []):
        ctx.model("FeedbackModel", MODEL % m, timeout=1500)
    rng, scs = ctx.rng, []
    for k in range(ctx.n(110, 2500)):
        kind = ["local", "local", "server", "local", "workers"][k % 5]
        spec = C.random_corpus(rng, rng.choice([12, 24, 40]), rng.choice(["one", "two", "single-key"]))
        spec["kinds"] = {str(d): "jsonl" for d in range(len(spec["datasets"]))}
        spec["parse"] = "parse_any"
        comps = G.plain_comps(spec)
        size = rng.choice([2, 3, 4])
        mix = J.mixture(rng, comps, ("schedule", "schedule", "dynamic", "dynamic", "arbitrary"), size)
        W = rng.choice([1, 2, 3]) if kind == "workers" else rng.choice([0, 0, 2, 3])
        gg = rng.choice([1, 1, 2]) if W < 3 else 1
        scs.append({"corpus": spec, "mixture": mix, "server": kind != "local", "workers": kind == "workers", "G": gg, "W": W,
                    "N": 1 if kind == "workers" else rng.choice([1, 1, 2]),
                    "jobs": rng.choice([1, 1, 2]), "lib": rng.choice(["torch", "torch", "hf"]), "clients": rng.choice([1, 2]),
                    "batch": rng.choice([1, 2, 3]), "pf": rng.choice([1, 2, 4]), "seed": rng.randrange(10**6), "ncomps": len(comps),
                    "args": {"chunk_reading_mixture_type": "simple", "tunnel_via_server": False}})
    traces = ctx.drive("feedback", scs, each=60, env={"PYTEST_CURRENT_TEST": "1"})
    ctx.validate("FeedbackTrace", traces, batch=40)
