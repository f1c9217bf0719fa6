import chunk_common


def run(ctx):
    chunk_common.model(ctx)
    chunk_common.streams(ctx, ("static", "static", "hier", "infer"), True, ctx.n(32, 300), ctx.n(10, 20), changes=0.35)
