import chunk_common


def run(ctx):
    chunk_common.model(ctx)
    chunk_common.streams(ctx, ("arbitrary", "arbitrary", "static", "hier", "infer"), None, ctx.n(32, 300), ctx.n(9, 20))
