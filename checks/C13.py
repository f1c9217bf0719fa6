import query_common


def run(ctx):
    query_common.run(ctx, "C13", query_common.tables(ctx, ctx.n(120, 800)))
