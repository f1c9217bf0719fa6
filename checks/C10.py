import job_common as J


def run(ctx):
    J.mixing_model(ctx)
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2)]
    want = ["C10"]
    J.run(ctx, want, J.scenarios(ctx, want, ("schedule",), ctx.n(130, 1000), shapes, depth=(30, 60), maxfb=14, rows=(40, 60, 80)))
