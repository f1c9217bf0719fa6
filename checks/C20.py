import token_common as T


def run(ctx):
    rng = ctx.rng
    T.run(ctx, [T.iterator(rng, False) for _ in range(ctx.n(400, 5000))] + [T.chunk(rng, k) for k in range(ctx.n(110, 1500))], 60)
