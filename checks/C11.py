import chunkgen
import job_common as J


def run(ctx):
    J.model(ctx)
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (1, 1, 2)]
    want = ["C11"]
    J.run(ctx, want, J.scenarios(ctx, want, ("arbitrary", "static", "infer", "hier", "schedule", "schedule", "dynamic", "dynamic"),
                                 ctx.n(110, 900), shapes, depth=(30, 60), maxfb=10))
    # Mixtures with new components in the middle of a stream
    sc = chunkgen.scenarios(ctx.rng, ctx.n(16, 100), ctx.n(8, 15), ("arbitrary", "static", "static", "hier", "infer"), None, changes=0.8)
    ctx.validate("KeyIdsTrace", ctx.drive("chunkgen", sc))
