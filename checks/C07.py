import job_common as J


def run(ctx):
    J.model(ctx)
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2), (1, 1, 3)]
    want = ["C07"]
    J.run(ctx, want, J.scenarios(ctx, want, ("arbitrary", "static", "infer", "hier", "schedule", "schedule", "dynamic", "dynamic"),
                                 ctx.n(110, 900), shapes, depth=(30, 70)))
