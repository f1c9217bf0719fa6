"""Small datasets with known ground truth, registered through mixtera's client API."""
import json, os, pathlib, random, shutil, tempfile

LANGS = ["en", "de", "fr"]
TOPICS = ["law", "med", "c,s", "a;b:c", "x y"]     # separators are data, too
LICS = ["mit", "gpl", "cc"]
TAGS = ["t1", "t2", "t3"]
PROPS = ["lang", "lic", "tag", "topic"]


def parse_text(line: str) -> str:
    return json.loads(line)["text"]


def parse_any(record):
    """The text of a record of any kind of file; fails on marked ones."""
    import json
    if isinstance(record, str):
        record = json.loads(record)
    elif ".json" in record:
        record = record[".json"] if isinstance(record[".json"], dict) else json.loads(record[".json"])
    if record["text"].startswith("BANG"):
        raise ValueError("unreadable sample")
    return record["text"]


def parse_odd(record):
    """Samples that are no strings, or look like none at all."""
    import corpus
    import numpy as np
    x = corpus.parse_any(record)
    n = int(x[1:])
    return {1: "", 2: None, 3: 0, 4: [], 5: False}[n] if n < 6 else [x, n] if n % 3 == 0 else np.array([n, n]) if n % 3 == 1 else x


def odd_value(n):
    import numpy as np
    x = f"s{n}"
    return {1: "", 2: None, 3: 0, 4: [], 5: False}[n] if n < 6 else [x, n] if n % 3 == 0 else np.array([n, n]) if n % 3 == 1 else x


def dataset_type(kind):
    from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset
    return {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}[kind.split(".")[0]]


KINDS = {"lang": ("STRING", True), "topic": ("STRING", False), "lic": ("ENUM", False), "tag": ("ENUM", True)}


def make_parser(props=tuple(KINDS), enums=None, name="VerifParser"):
    """A metadata parser class recording `props` from the "p" object of each record."""
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty
    enums = {"lic": LICS, "tag": TAGS, **(enums or {})}
    decl = [MetadataProperty(name=n, dtype=KINDS[n][0], multiple=KINDS[n][1], nullable=True,
                             enum_options=set(enums[n]) if KINDS[n][0] == "ENUM" else set()) for n in props]

    class Parser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return decl

        def parse(self, line_number, payload, **kwargs):
            payload = payload.get(".json", payload)   # the member of a web dataset sample
            if payload.get("boom"):
                raise ValueError("unparsable record")
            p = json.loads(payload["p"]) if isinstance(payload["p"], str) else payload["p"]
            self.add_metadata(sample_id=line_number, **{k: v for k, v in p.items() if k in props})

    globals()[name] = Parser  # to be found when unpickled in worker processes
    Parser.__module__ = __name__
    Parser.__name__ = Parser.__qualname__ = name
    return Parser


def props_of(row: dict) -> list:
    """Ground truth for the key of a row: its recorded properties; values of a multi-valued property are unordered."""
    out = []
    for name in sorted(row):
        v = row[name]
        if v is None:
            continue
        out.append([name, sorted(v) if isinstance(v, list) else [v]])
    return out


def key_props(key) -> list:
    return [[n, sorted(str(x) for x in v)] for n, v in sorted(key.properties.items())]


def random_corpus(rng: random.Random, nrows: int, style: str | None = None) -> dict:
    """{"datasets": [[file, …], …]} with file = list of property dicts."""
    style = style or rng.choice(["one", "two", "multi", "frag", "single-key"])
    files, left = [], nrows
    while left > 0:
        n = min(left, rng.randint(1, max(1, nrows // 2)))
        left -= n
        rows, cur = [], None
        for _ in range(n):
            if cur is None or rng.random() < {"frag": 0.8, "single-key": 0.0}.get(style, 0.35):
                if style == "single-key":
                    cur = {"topic": "law"}
                elif style == "one":
                    cur = {"topic": rng.choice(TOPICS[:3])}
                elif style == "two":
                    cur = {"topic": rng.choice(TOPICS[:2]), "lic": rng.choice(LICS[:2])}
                else:
                    cur = {}
                    if rng.random() < 0.85:
                        k = rng.choice([1, 1, 2])
                        cur["lang"] = rng.sample(LANGS, k)
                    if rng.random() < 0.7:
                        cur["topic"] = rng.choice(TOPICS)
                    if style == "multi" and rng.random() < 0.5:
                        cur["lic"] = rng.choice(LICS)
                    if style == "multi" and rng.random() < 0.4:
                        cur["tag"] = rng.sample(TAGS, rng.choice([1, 2]))
            r = dict(cur)
            if "lang" in r and rng.random() < 0.3:
                r["lang"] = r["lang"][::-1]       # same values, other order
            rows.append(r)
        files.append(rows)
    nd = rng.randint(1, min(3, len(files)))
    datasets = [[] for _ in range(nd)]
    for i, f in enumerate(files):
        datasets[i % nd].append(f)
    return {"datasets": datasets}


def write_file(path: pathlib.Path, kind: str, records: list, rng: random.Random | None = None) -> None:
    """Writes records as jsonl[.gz|.xz|.bz2|.zst], parquet or tar; a record that is a string is written as it is (jsonl)."""
    rng = rng or random.Random(0)
    lines = [r if isinstance(r, str) else json.dumps(r, ensure_ascii=rng.random() < 0.5) for r in records]
    if kind.startswith("jsonl"):
        data = "".join(x + "\n" for x in lines)
        if lines and rng.random() < 0.3:
            data = data[:-1]
        raw = data.encode("utf-8")
        if kind.endswith(".gz"):
            import gzip
            raw = gzip.compress(raw)
        elif kind.endswith(".xz"):
            import lzma
            raw = lzma.compress(raw)
        elif kind.endswith(".bz2"):
            import bz2
            raw = bz2.compress(raw)
        path.write_bytes(raw)
    elif kind == "parquet":
        import pyarrow as pa
        import pyarrow.parquet as pq
        cols = {"id": pa.array([r["id"] for r in records], pa.int64()), "p": pa.array([json.dumps(r["p"]) for r in records], pa.string()),
                "text": pa.array([r["text"] for r in records], pa.string()), "boom": pa.array([bool(r.get("boom")) for r in records], pa.bool_())}
        pq.write_table(pa.table(cols), path, row_group_size=rng.choice([1, 2, 3, 7, 1000]))
    elif kind == "tar":
        import io
        import tarfile
        with tarfile.open(path, "w") as t:
            for k, r in enumerate(records):
                for ext, b in ((".json", json.dumps(r).encode()), (".txt", r["text"].encode("utf-8"))):
                    ti = tarfile.TarInfo(f"s{k:05d}{ext}")
                    ti.size = len(b)
                    t.addfile(ti, io.BytesIO(b))
    else:
        raise ValueError(kind)


class Corpus:
    """Writes the files, registers the datasets. ids number all samples of the corpus from 1."""

    def __init__(self, spec: dict, root: pathlib.Path | None = None, client=None, register: bool = True, remote: bool = False):
        from mixtera.core.client import MixteraClient

        self.root = pathlib.Path(root or tempfile.mkdtemp(prefix="corpus"))
        self.rows: dict[int, dict] = {}
        self.base: dict[str, int] = {}
        (self.root / "db").mkdir(parents=True)
        self.client = client or MixteraClient.from_directory(self.root / "db")
        parsers = spec.get("parsers") or [{}]
        for k, pspec in enumerate(parsers):
            if not remote:     # remote: the server knows them
                self.client.register_metadata_parser(f"VERIF{k}", make_parser(name=f"VerifParser{k}", **pspec))
        n = 0
        for d, files in enumerate(spec["datasets"]):
            loc = self.root / f"ds{d}"
            loc.mkdir()
            kind = (spec.get("kinds") or {}).get(str(d), "jsonl")
            for f, rows in enumerate(files):
                path = loc / f"f{f}.{kind}"
                self.base[str(path)] = n
                if "kinds" in spec:
                    recs = []
                    for row in rows:
                        n += 1
                        self.rows[n] = row
                        recs.append({"id": n, "p": row, "text": ("BANG" if n in spec.get("bang", []) else "") + spec.get("texts", {}).get(n, f"s{n}")})
                    write_file(path, kind, recs, random.Random(n))
                    continue
                with open(path, "w", encoding="utf-8") as fp:
                    for row in rows:
                        n += 1
                        self.rows[n] = row
                        fp.write(json.dumps({"id": n, "p": row, "text": f"s{n}"}) + "\n")
            if register and not self.client.register_dataset(f"ds{d}", loc, dataset_type(kind), globals()[spec.get("parse", "parse_text")],
                                                             f"VERIF{d % len(parsers)}"):
                raise RuntimeError("register_dataset returned False")

    def comps(self, ids=None) -> list:
        groups: dict = {}
        for i in sorted(self.rows if ids is None else ids):
            groups.setdefault(json.dumps(props_of(self.rows[i])), []).append(i)
        return [{"props": json.loads(k), "ids": v} for k, v in groups.items()]

    def ids_of(self, file_path: str, ranges) -> list:
        b = self.base[str(file_path)]
        return [b + k + 1 for lo, hi in ranges for k in range(lo, hi)]

    def chunk_event(self, qr, chunk) -> dict:
        """Projects a generated chunk on what the specification talks about."""
        keys = []
        reported = {} if chunk._mixture is None else {json.dumps(key_props(k)): v for k, v in chunk._mixture.items()}
        for key, datasets in chunk._result_index.items():
            ids = []
            for _, files in sorted(datasets.items()):
                for fid, ranges in sorted(files.items()):
                    ids += self.ids_of(qr.file_path[fid], ranges)
            props = key_props(key)
            keys.append({"props": props, "ids": ids, "rep": reported.pop(json.dumps(props), -1)})
        keys.sort(key=lambda k: json.dumps(k["props"]))
        return {"ev": "chunk", "keys": keys, "hasmix": chunk._mixture is not None, "mid": chunk.mixture_id,
                "repother": sum(reported.values()), "size": chunk._chunk_size if hasattr(chunk, "_chunk_size") else -1}

    def close(self) -> None:
        try:
            self.client._mdc._connection.close()
        except Exception:
            pass
        shutil.rmtree(self.root, ignore_errors=True)
