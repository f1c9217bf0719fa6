import token_common as T


def run(ctx):
    rng = ctx.rng
    T.run(ctx, [T.iterator(rng, True) for _ in range(ctx.n(900, 12000))], 20)
