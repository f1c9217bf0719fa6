import job_common as J


def run(ctx):
    J.model(ctx)
    shapes = [(1, 2, 1), (2, 1, 1), (2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 2, 1), (1, 1, 3), (2, 3, 3), (1, 2, 4)]
    want = ["C05"]
    J.run(ctx, want, J.scenarios(ctx, want, ("arbitrary", "static", "infer"), ctx.n(80, 700), shapes, depth=(40, 80)))
