"""Metadata parsers and property calculation. Scenario: {"ops": [...]}, see run()."""
import json, pathlib, shutil, tempfile

from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty
from mixtera.core.datacollection.index.parser.parser_collection import MetadataParserFactory
from mixtera.core.processing import ExecutionMode
from mixtera.core.processing.property_calculation import PropertyCalculationExecutor

TEXTS = ["0", "1", "2"]      # known to the specification as 1, 2, 3
BUILTIN = {"RED_PAJAMA": ["language", "publication_date"], "SLIM_PAJAMA": ["redpajama_set_name"], "PILE": ["pile_set_name"],
           "IMAGENET_WEB_DATASET": ["class_label"], "FINEWEB": ["dump", "language"], "MSCOCO": ["parity"]}


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


class Numbers:
    def __init__(self):
        self.d = {("str", ""): 0, **{("str", x): k + 1 for k, x in enumerate(TEXTS)}}

    def __call__(self, x):
        x = x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)
        return self.d.setdefault((type(x).__name__, x), len(self.d))

    def value(self, x, there=True):
        if not there or x is None:
            return {"k": "null" if there else "absent", "vs": []}
        return {"k": "list", "vs": [self(v) for v in x]} if isinstance(x, list) else {"k": "one", "vs": [self(x)]}


def parser_class(decl, how):
    props = [MetadataProperty(name=d["name"], dtype="ENUM" if d["enum"] else "STRING", multiple=d["multi"], nullable=d["nullable"],
                              enum_options=(list if how == "list" else set)(d["options"]) if d["enum"] else None) for d in decl]

    class Own(MetadataParser):
        @classmethod
        def get_properties(cls):
            return props

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(line_number, **payload)
    return Own


def payload(name, fields):
    """The record whose metadata has these fields"""
    if name == "RED_PAJAMA":
        f = dict(fields)
        if f.get("language"):
            f["language"] = [{"name": x, "score": 1} for x in f["language"]]
        return {"text": "t", "meta": f}
    if name in ("SLIM_PAJAMA", "PILE"):
        return {"text": "t", "meta": dict(fields)}
    if name == "IMAGENET_WEB_DATASET":
        return {"__key__": "k", ".jpg": b"", **({".cls": fields["class_label"]} if "class_label" in fields else {})}
    return {"text": "t", **fields}


def parser(op, num, ev):
    factory = MetadataParserFactory()
    if op["builtin"]:
        names = BUILTIN[op["builtin"]]
        p = factory.create_metadata_parser(op["builtin"], 3, 7)
        decl = [{"enum": q.dtype == "ENUM", "multi": q.multiple, "nullable": q.nullable, "options": []} for n in names for q in p.get_properties() if q.name == n]
    else:
        names = [d["name"] for d in op["decl"]]
        cls = parser_class(op["decl"], op["options_as"])
        factory.add_parser("OWN", cls)
        p = factory.create_metadata_parser("OWN", 3, 7)
        decl = [{"enum": d["enum"], "multi": d["multi"], "nullable": d["nullable"], "options": [num(x) for x in d["options"]]} for d in op["decl"]]
    ev.append({"ev": "parser", "builtin": op["builtin"], "decl": decl, "options": [num(x) for x in op["options"]]})
    other = factory.create_metadata_parser(op["builtin"] or "OWN", 3, 8)
    for line, fields in op["samples"]:
        given = fields
        if op["builtin"] == "IMAGENET_WEB_DATASET" and "class_label" in fields:
            given = {"class_label": str(fields["class_label"])}
        xs = [num.value(given.get(n), n in given) for n in names]
        pay = payload(op["builtin"], fields) if op["builtin"] else {**fields, **({"unknown": "x"} if op["noise"] else {})}
        if op["builtin"] in ("RED_PAJAMA", "SLIM_PAJAMA", "PILE") and not fields and op["noise"]:
            del pay["meta"]
        refused = False
        try:
            p.parse(line, json.loads(json.dumps(pay)) if op["builtin"] and op["builtin"] != "IMAGENET_WEB_DATASET" else pay)
        except Exception:
            refused = True
        ev.append({"ev": "sample", "line": line, "xs": xs, "refused": refused})
        if op["noise"]:
            try:
                other.parse(line + 1, pay)      # the parser of another file
            except Exception:
                pass
    ev.append({"ev": "meta", "recs": [{"line": int(m["sample_id"]), "got": [num.value(m.get(n), n in m) for n in names],
                                       "extra": len(set(m) - set(names) - {"sample_id"})} for m in p.metadata]})


def factory(op, ev):
    f = MetadataParserFactory()
    for n in list(BUILTIN):
        f.remove_parser(n)
    classes = [parser_class([], "set") for _ in range(4)]
    for what, name, k, over in op["steps"]:
        result = 0
        if what == "add":
            result = int(bool(f.add_parser(name, classes[k], overwrite=over)))
        elif what == "remove":
            f.remove_parser(name)
        else:
            try:
                p = f.create_metadata_parser(name, 1, k)
                result = next(j for j, c in enumerate(classes) if type(p) is c) + 1
                if (p.dataset_id, p.file_id, p.metadata) != (1, k, []):
                    result = 99
            except ModuleNotFoundError:
                pass
        ev.append({"ev": "factory", "op": what, "name": name, "cls": k + 1, "overwrite": over, "result": result})


def calc(op, num, ev, root):
    """op: files: [[texts], ...], size, kind, trouble"""
    trouble = op["trouble"]
    texts = sorted({x.rstrip() for f in op["files"] for x in f})
    ids = {x: k + 1 for k, x in enumerate(texts)}
    fn = {x: op["values"][k % len(op["values"])] for k, x in enumerate(texts)}
    files, desc = [], []
    for k, rows in enumerate(op["files"]):
        p = root / f"f{len(list(root.iterdir()))}.jsonl"
        p.write_text("".join(x + "\n" for x in rows), encoding="utf-8")
        fid, did = op["ids"][k]
        files.append((fid, did, JSONLDataset, str(p)))
        desc.append({"id": fid, "ds": did, "rows": [ids[x.rstrip()] for x in rows]})
    if trouble == "type":
        files.append((99, 1, op["other"] == "tar" and WebDataset or ParquetDataset, files[-1][3] if files else "x"))
    if trouble == "gone":
        files.append((99, 1, JSONLDataset, str(root / "gone")))
    seen, setups = [], []

    def setup(x):
        setups.append(1)
        x.table = fn

    def function(x, batch):
        seen.append([{"f": int(f), "d": int(d), "line": int(n), "x": ids.get(str(t), 0)}
                     for t, f, d, n in zip(batch["data"], batch["file_id"], batch["dataset_id"], batch["line_id"], strict=True)])
        out = [x.table.get(str(t)) for t in batch["data"]]
        if trouble == "few":
            out = out[:-1]
        elif trouble == "many":
            out = out + out[:1]
        elif trouble in ("none", "dict"):
            out[-1] = None if trouble == "none" else {}
        return tuple(out) if op["as"] == "tuple" else out
    refused, res = False, []
    try:
        ex = PropertyCalculationExecutor.from_mode(ExecutionMode.RAY if trouble == "ray" else ExecutionMode.LOCAL,
                                                   {"degree": 2, "zero": 0}.get(trouble, 1), 0 if trouble == "batch" else op["size"], setup, function)
        if op["split"] and len(files) > 1:
            ex.load_data(files[:1], True)
            ex.load_data(files[1:], False)
        else:
            ex.load_data(files, True)
        res = [{"f": int(r["file_id"]), "d": int(r["dataset_id"]), "line": int(r["sample_id"]), "x": num(r["property_value"])} for r in ex.run()]
    except Exception:
        refused = True
    has = any(op["files"])
    wrong = trouble in ("type", "gone", "ray", "degree", "zero", "batch") or (has and trouble in ("few", "many", "none", "dict"))
    ev.append({"ev": "calc", "files": desc, "size": op["size"], "batches": seen, "res": res, "refused": refused, "wrong": wrong,
               "setups": len(setups), "fn": [num(fn[x]) for x in texts]})


def run(sc, rec):
    num, ev = Numbers(), rec["events"]
    root = pathlib.Path(tempfile.mkdtemp(prefix="meta"))
    try:
        for op in sc["ops"]:
            if op["op"] == "parser":
                parser(op, num, ev)
            elif op["op"] == "factory":
                factory(op, ev)
            else:
                calc(op, num, ev, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
