"""Reads files of all kinds and layouts. Scenario: {"seed", "kind", "sizes": rows per file, "layout", "reads": [[[f, ranges], …]…], "blank", "wire"}"""
import bz2, gzip, io, json, lzma, pathlib, pickle, random, shutil, subprocess, tarfile, tempfile


def Recorder(sc):
    return {"scenario": sc, "cfg": {"files": []}, "events": []}


ALPHABET = "abcäß€\U0001f600\u2028\u2029\x85\x0b\x0c\x1c\u00a0\u3000\"\\/{}[],: \t"


def text(rng, small):
    n = rng.choice([0, 1, 3, 12, 40]) if small or rng.random() < 0.97 else rng.choice([5000, 9000, 70000])
    return "".join(rng.choice(ALPHABET) for _ in range(n))


def value(rng, small, depth=0):
    k = rng.randrange(7 if depth > 1 else 9)
    return (text(rng, small) if k < 2 else rng.randrange(-2**53, 2**53) if k == 2 else rng.random() if k == 3 else None if k == 4 else rng.random() < 0.5 if k == 5
            else text(rng, True) + "\n\r" if k == 6 else [value(rng, small, depth + 1) for _ in range(rng.randrange(3))] if k == 7
            else {text(rng, True): value(rng, small, depth + 1) for _ in range(rng.randrange(3))})


def compress(kind, raw, rng):
    cut = rng.randrange(len(raw) + 1)
    if kind.endswith(".gz"):
        return gzip.compress(raw) if rng.random() < 0.5 else gzip.compress(raw[:cut]) + gzip.compress(raw[cut:])
    if kind.endswith(".bz2"):
        return bz2.compress(raw) if rng.random() < 0.5 else bz2.compress(raw[:cut]) + bz2.compress(raw[cut:])
    if kind.endswith(".xz"):
        return lzma.compress(raw) if rng.random() < 0.5 else lzma.compress(raw[:cut]) + lzma.compress(raw[cut:])
    if kind.endswith(".zst"):
        return subprocess.run(["zstd", "-qc"], input=raw, capture_output=True, check=True).stdout
    return raw


def jsonl(path, kind, n, rng, layout, blank, base):
    small = n > 500
    lines = []
    for i in range(n):
        if blank and rng.random() < 0.2:
            # empty (once), or blank in a way of its own
            lines.append("" if "" not in lines and base == 0 and rng.random() < 0.5 else " \t" + "".join(" \t"[int(b)] for b in bin(base + i)[2:]))
            continue
        rec = {"#": base + i, "v": value(rng, small)} if not small else {"#": base + i}
        s = json.dumps(rec, ensure_ascii=rng.random() < 0.5)
        lines.append(rng.choice(["", "", " "]) + s + rng.choice(["", "", " "]))
    eol = rng.choice(["\n", "\n", "\r\n"])
    data = "".join(x + eol for x in lines)
    if lines and lines[-1].strip() and rng.random() < 0.4:
        data = data[:-len(eol)]
    path.write_bytes(compress(kind, data.encode("utf-8"), rng))
    return lines, [json.loads(x) if x.strip() else None for x in lines]


def parquet(path, n, rng, layout, base):
    import pyarrow as pa
    import pyarrow.parquet as pq
    small = n > 500
    cols = {"#": list(range(base, base + n))}
    for c in range(0 if small else rng.randrange(4)):
        t = rng.choice(["str", "int", "list", "struct", "bin", "dict"])
        null = rng.choice([0, 0.3])

        def one():
            if rng.random() < null:
                return None
            return {"str": lambda: text(rng, True), "int": lambda: rng.randrange(-2**62, 2**62), "list": lambda: [text(rng, True) for _ in range(rng.randrange(3))],
                    "struct": lambda: {"a": rng.randrange(9), "b": text(rng, True)}, "bin": lambda: rng.randbytes(3), "dict": lambda: rng.choice("xyz")}[t]()
        typ = {"str": pa.string(), "int": pa.int64(), "list": pa.list_(pa.string()), "struct": pa.struct([("a", pa.int64()), ("b", pa.string())]), "bin": pa.binary(),
               "dict": pa.string()}[t]
        a = pa.array([one() for _ in range(n)], typ)
        cols[f"c{c}"] = a.dictionary_encode() if t == "dict" else a
    table = pa.table(cols)
    recs = [{k: (v[i].as_py() if k != "#" else base + i) for k, v in cols.items()} for i in range(n)]
    with pq.ParquetWriter(path, table.schema, compression=rng.choice(["snappy", "none", "zstd"])) as w:
        pos = 0
        while pos < n:
            k = n - pos if layout == "one" else min(n - pos, rng.choice([1, 2, 3, 5, 8, 0]) if not small else rng.choice([7, 1000, 33000, 70000]))
            w.write_table(table.slice(pos, k), row_group_size=max(k, 1))
            pos += k
    return recs


def tar(path, n, rng, layout, base):
    import numpy as np
    recs = []
    with tarfile.open(path, "w", format=rng.choice([tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT])) as t:
        def add(name, b):
            ti = tarfile.TarInfo(name)
            ti.size = len(b)
            t.addfile(ti, io.BytesIO(b))
        if layout == "dirs":
            d = tarfile.TarInfo("d.x")
            d.type = tarfile.DIRTYPE
            t.addfile(d)
        for i in range(n):
            key = ("d.x/" if layout == "dirs" else "") + f"s{base + i:05d}"
            r = {"__key__": key}
            for ext in rng.sample([".json", ".txt", ".cls", ".npy", ".meta.json", ".json.gz", ".bin", ".seg.txt", ".png"], rng.choice([1, 2, 3])):
                j = {"#": base + i, "v": value(rng, True)}
                if ext == ".json" or ext == ".meta.json":
                    b, v = json.dumps(j).encode(), j
                elif ext == ".json.gz":
                    b, v = gzip.compress(json.dumps(j).encode()), j
                elif ext.endswith(".txt"):
                    v = text(rng, True)
                    b = v.encode("utf-8")
                elif ext == ".cls":
                    v = rng.randrange(1000)
                    b = str(v).encode()
                elif ext == ".npy":
                    v = np.array([i, rng.randrange(100)])
                    f = io.BytesIO()
                    np.save(f, v)
                    b = f.getvalue()
                elif ext == ".png":
                    from PIL import Image
                    v = Image.new("RGB", (2, 1 + i % 2))
                    v.putdata([tuple(rng.randbytes(3)) for _ in range(2 * (1 + i % 2))])
                    f = io.BytesIO()
                    v.save(f, "PNG")
                    b = f.getvalue()
                    v = pixels(v)
                else:
                    v = b = rng.randbytes(rng.choice([1, 511, 512, 513]))
                add(key + ext, b)
                r[ext] = v
            recs.append(r)
    return recs


def pixels(image):
    import numpy as np
    return ["pixels", *np.asarray(image).transpose(2, 0, 1).tolist()]


def canon(x):
    if type(x).__module__ == "torch":       # images are decoded, but not for the metadata parser
        return canon(["pixels", *(x * 255).round().int().tolist()])
    if hasattr(x, "getvalue") and x.getvalue()[1:4] == b"PNG":
        from PIL import Image
        return canon(pixels(Image.open(x)))
    if isinstance(x, dict):
        return repr(sorted((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(canon, x)) + "]"
    if hasattr(x, "getvalue"):
        return repr(x.getvalue())
    return repr(x)


def runs(seq):
    out = []
    for x in seq:
        if out and x >= 0 and out[-1][1] == x and out[-1][0] >= 0:
            out[-1][1] = x + 1
        else:
            out.append([x, x + 1 if x >= 0 else x])
    return out


def run(sc, rec):
    from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset
    rng = random.Random(sc["seed"])
    ev, kind = rec["events"], sc["kind"]
    cls = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}[kind.split(".")[0]]
    root = pathlib.Path(tempfile.mkdtemp(prefix="rdr"))
    server = patches = None
    try:
        d = root / "data"
        d.mkdir()
        files, base = [], 0
        for f, n in enumerate(sc["sizes"]):
            path = d / f"f{f}.{kind}"
            raw = None
            if kind.startswith("jsonl"):
                raw, recs = jsonl(path, kind, n, rng, sc["layout"], sc["blank"], base)
            elif kind == "parquet":
                recs = parquet(path, n, rng, sc["layout"], base)
            else:
                recs = tar(path, n, rng, sc["layout"], base)
            files.append((str(path), base, recs, raw))
            rec["cfg"]["files"].append({"base": base, "n": n})
            base += n + 1
        other = {"jsonl": ["x.json", "jsonl", "y.jsonl.bak", "z.parquet"], "parquet": ["x.jsonl", "y.parquet.tmp", "parquet"], "tar": ["x.tar.gz", "y.jsonl", "tar"]}[kind.split(".")[0]]
        for o in rng.sample(other, 2):
            (d / o).write_text("nothing")
        if rng.random() < 0.5:
            (d / "sub").mkdir()
        names = {p: i for i, (p, *_) in enumerate(files)}
        ev.append({"ev": "files", "found": [names.get(str(p), -1) for p in cls.iterate_files(str(d))], "want": list(range(len(files)))})
        if not (sc["blank"] and kind.startswith("jsonl")):
            ev.append({"ev": "files", "found": [names.get(str(p), -1) for p in cls.iterate_files(files[0][0])], "want": [0]})

        class Scan:
            def __init__(self):
                self.seen = []

            def parse(self, line_number, payload, **kw):
                self.seen.append((line_number, payload))
        for f, (path, b, recs, raw) in enumerate(files):
            index = {canon(r): i for i, r in enumerate(recs)}
            if not sc["blank"]:
                s = Scan()
                cls.inform_metadata_parser(pathlib.Path(path), s)
                ev.append({"ev": "scan", "f": f + 1, "nums": runs([int(k) for k, _ in s.seen]),
                           "runs": runs([(b + index[canon(p)]) if canon(p) in index else -1 for _, p in s.seen])})
        con = None
        if sc["wire"]:
            import server as S
            from mixtera.core.client import MixteraClient
            patches = S.Patches()
            (root / "srv").mkdir()
            server = S.Server(root / "srv")
            con = MixteraClient.from_remote("127.0.0.1", server.port).server_connection
        key = (lambda x: x.rstrip("\n") if isinstance(x, str) else None) if files[0][3] is not None else canon
        known = {(canon(x) if raw is None else x): b + i for _, b, recs, raw in files for i, x in enumerate(recs if raw is None else raw)}
        for parts in sc["reads"]:
            got, failed = [], False
            req = {files[f][0]: [tuple(r) for r in rs] for f, rs in parts}
            try:
                for y in cls.read_ranges_from_files(req, lambda x: ["parsed", x], con):
                    got.append(known.get(key(y[1]), -1) if isinstance(y, list) and y[0] == "parsed" else -1)
            except Exception as ex:
                failed = type(ex).__name__
            ev.append({"ev": "read", "kind": kind.split(".")[0], "parts": [{"f": f + 1, "ranges": rs} for f, rs in parts], "runs": runs(got), "failed": bool(failed),
                       "what": str(failed)})
    finally:
        if server is not None:
            server.stop()
        if patches is not None:
            patches.undo()
        shutil.rmtree(root, ignore_errors=True)
