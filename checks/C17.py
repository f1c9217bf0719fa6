import struct

MODEL = "SPECIFICATION Spec\nCONSTANTS Header = 2 MaxLen = 2 MaxMsgs = %d Exact = TRUE\nINVARIANT WholeAndInOrder\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"


def message(rng):
    t = rng.choice(["int", "int", "str", "str", "bytes", "obj", "float", "array"])
    n = rng.choice([4, 8, 4, 8, 1, 2])
    if t == "int":
        m = 1 << (8 * n - 1)
        return [t, n, ["int", rng.choice([0, 1, -1, m - 1, -m, m, -m - 1, 127, 128, 255, 256, rng.randrange(-m, m)])]]
    if t == "str":
        if rng.random() < 0.4:
            return [t, n, ["str", "".join(rng.choice("aä€\U0001f600\n\0\r\u2028 ") for _ in range(rng.choice([0, 1, 5, 40])))]]
        return [t, n, ["text", [rng.choice(["x", "ä", "€"]), rng.choice([0, 1, 126, 127, 128, 129, 255, 256, 32767, 32768, 65536, 70000])]]]
    if t == "bytes":
        if rng.random() < 0.15:
            return [t, n, ["none", 0]]
        return [t, n, ["bytes", [rng.randrange(1000), rng.choice([1, 2, 10, 127, 128, 200, 255, 256, 32767, 32768, 66000, 300000])]]]
    if t == "obj":
        return [t, rng.choice([4, 8]), ["obj", rng.choice([None, [], {}, {"a": [1, 2.5, None]}, "x" * 70000, [[1, [2, [3]]]] * 50, True, -1, ""])]]
    if t == "float":
        return [t, 8, ["float", rng.choice([struct.pack(">d", x).hex() for x in (0.0, -0.0, 1.5, float("inf"), float("-inf"), 5e-324, 1.7976931348623157e308, 0.1)]
                                           + ["7ff8000000000000", "%016x" % rng.getrandbits(62)])]]
    if rng.random() < 0.2:
        return [t, rng.choice([4, 8]), ["none", 0]]
    return [t, rng.choice([4, 8]), ["array", [rng.randrange(1000), rng.choice(["float32", "int64", "uint8", "float64", "bool", ">i4"]),
                                               rng.choice([[0], [1], [5], [3, 4], [], [2, 0, 3], [20000], [2, 3, 4]]), rng.random() < 0.3]]]


def run(ctx):
    ctx.model("WireModel", MODEL % ctx.n(2, 3))
    rng, scs = ctx.rng, []
    for k in range(ctx.n(5000, 50000)):
        stall = rng.random() < 0.25
        gaps = rng.choice([[0], [0], [0, 0, 1], [0, 0, 0, 0, 3, 6], [0, 4]])
        scs.append({"seed": rng.randrange(10**9), "msgs": [message(rng) for _ in range(rng.choice([1, 2, 3, 6]))],
                    "cut": rng.choice([None, rng.random(), rng.random(), 0.0, 0.999]), "stall": stall, "gaps": gaps,
                    "frag": rng.choice(["any", "any", "one", "all"]), "mode": "socket" if k % 8 == 0 else "virtual"})
    traces = ctx.drive("wire", scs, each=20)
    ctx.validate("WireTrace", traces, batch=200)
