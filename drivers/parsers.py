"""Metadata parsers registered by clients, at a server in a process of its own or locally. Scenario: {"remote", "files": {dataset: [[record]]},
"ops"}; operations: ["reg", name, variant] ["race", name, [variants]] ["add", dataset, parser] ["remove", dataset] ["read"] ["restart"]"""
import importlib, itertools, json, os, pathlib, random, shutil, socket, sys, tempfile, threading

import corpus as C
import loaders as L

LANG = 'MetadataProperty("lang", "STRING", multiple=True, nullable=True, enum_options=set())'
TOPIC = 'MetadataProperty(name="topic", dtype="STRING", multiple=False, nullable=True, enum_options=set())'
TAG = 'MetadataProperty("tag", "ENUM", multiple=True, nullable=True, enum_options={"t1", "t2", "t3"})'
HEAD = ("from mixtera.core.datacollection.index.parser import MetadataParser\n"
        "from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty\n"
        "from typing import Any, Optional, List, Dict\nMORE = ['lang', 'topic']\n\n")


def source(variant, N):
    def cls(props, body, base="MetadataParser", extra=""):
        return (f"class {N}({base}):\n    \"\"\"{variant} \u00e4\u20ac\"\"\"\n{extra}    @classmethod\n    def get_properties(cls) -> List[MetadataProperty]:\n        return [{', '.join(props)}]\n\n"
                f"    def parse(self, line_number: int, payload: Any, **kwargs: Optional[Dict[str, Any]]) -> None:\n        p = payload['p']\n"
                + "".join(f"        {b}\n" for b in body))
    copy = ["self.add_metadata(sample_id=line_number, lang=p['lang'], topic=p['topic'])"]
    if variant == "copy":
        return cls([LANG, TOPIC], copy)
    if variant == "helper":
        return cls([LANG, TOPIC], ["self.add_metadata(sample_id=line_number, lang=self.lang_of(p), topic=self.FIELD[0](p))"],
                   extra="    FIELD = [lambda p: p['topic']]\n\n    def lang_of(self, p):\n        return list(p['lang'])\n\n")
    if variant == "later-line":
        return cls([TOPIC, LANG], ["self.kept = getattr(self, 'kept', []) + [p]", "self.add_metadata(sample_id=line_number, lang=self.kept[line_number]['lang'], topic=p['topic'])"])
    if variant == "swap":
        return cls([LANG, TOPIC], ["self.add_metadata(sample_id=line_number, lang=[p['topic']], topic=p['lang'][0])"])
    if variant == "const":
        return cls([TOPIC], ["self.add_metadata(sample_id=line_number, topic='law')"])
    if variant == "parity":
        return cls([TOPIC, TAG], ["self.add_metadata(sample_id=line_number, topic='even' if p['n'] % 2 == 0 else 'odd', tag=['t1', 't2'] if p['n'] > 2 else ['t3'])"])
    if variant == "line":
        return cls([TOPIC, LANG], ["self.add_metadata(sample_id=line_number, topic='later' if self.metadata else 'first', lang=p['lang'])"])
    if variant == "picky":
        return cls([LANG], ["if p['n'] == 3:", "    raise ValueError('three')", "self.add_metadata(sample_id=line_number, lang=p['lang'])"])
    if variant == "foreign-global":
        return cls([LANG, TOPIC], ["self.add_metadata(sample_id=line_number, **{k: p[k] for k in MORE})"])
    if variant == "with-own-base":
        return "class Base(MetadataParser):\n    pass\n\n\n" + cls([LANG, TOPIC], copy, base="Base")
    if variant == "nested":
        return "if True:\n" + "".join("    " + x + "\n" if x else "\n" for x in cls([LANG, TOPIC], copy).split("\n"))
    raise ValueError(variant)


_n = itertools.count()


def make(variant, rng, where):
    name = rng.choice(["Parser", "Parser", "Mine"])
    mod = f"verif_pm_{os.getpid()}_{next(_n)}"
    (where / f"{mod}.py").write_text(HEAD + source(variant, name), encoding="utf-8")
    if str(where) not in sys.path:
        sys.path.insert(0, str(where))
    importlib.invalidate_caches()
    return getattr(importlib.import_module(mod), name)


def Recorder(sc):
    return {"scenario": sc, "cfg": {"remote": sc["remote"], "files": sc["files"]}, "events": []}


def parse(x):
    import json
    return json.loads(x)["p"]["text"]


def run(sc, rec):
    from mixtera.core.client import MixteraClient
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.datacollection.datasets import JSONLDataset
    from mixtera.core.query import Query
    from mixtera.core.query.mixture import ArbitraryMixture
    root = pathlib.Path(tempfile.mkdtemp(prefix="par"))
    ev, rng, pid, jobs = rec["events"], random.Random(sc["seed"]), None, itertools.count()
    (root / "db").mkdir(), (root / "src").mkdir()
    try:
        for n, files in sc["files"].items():
            (root / n).mkdir()
            for k, f in enumerate(files):
                (root / n / f"f{k}.jsonl").write_text("".join(json.dumps({"p": r}) + "\n" for r in f))

        def start():
            nonlocal pid, cls
            if not sc["remote"]:
                cls = [MixteraClient.from_directory(root / "db")] * 3
                return
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            pid = L.serve(root / "db", port)
            cls = [MixteraClient.from_remote("127.0.0.1", port) for _ in range(3)]

        def attempt(f):
            try:
                return bool(f())
            except Exception:
                return False
        cls = []
        start()
        for op in sc["ops"]:
            c = rng.choice(cls)
            ev.append({"ev": "ask", "op": op[0]})
            if op[0] == "reg":
                p = make(op[2], rng, root / "src")
                ev[-1] = {"ev": "reg", "name": op[1], "variant": op[2], "ok": attempt(lambda: c.register_metadata_parser(op[1], p))}
            elif op[0] == "race":
                ps = [make(v, rng, root / "src") for v in op[2]]
                oks = [False] * len(ps)
                ths = [threading.Thread(target=lambda k=k: oks.__setitem__(k, attempt(lambda: cls[k % 3].register_metadata_parser(op[1], ps[k]))))
                       for k in range(len(ps))]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(30)
                ev[-1] = {"ev": "race", "name": op[1], "variants": op[2], "oks": oks}
            elif op[0] == "add":
                ev[-1] = {"ev": "add", "name": op[1], "parser": op[2], "ok": attempt(lambda: c.register_dataset(op[1], str(root / op[1]), JSONLDataset, parse, op[2]))}
            elif op[0] == "remove":
                ev[-1] = {"ev": "remove", "name": op[1], "ok": attempt(lambda: c.remove_dataset(op[1]))}
            elif op[0] == "restart":
                if sc["remote"]:
                    L.stop(pid)
                else:
                    cls[0]._mdc._connection.close()
                start()
                ev[-1] = {"ev": "restart"}
            else:
                job = f"job{next(jobs)}"
                rows = []
                if c.execute_query(Query.for_job(job).select(None), QueryExecutionArgs(mixture=ArbitraryMixture(5))) and c.wait_for_execution(job):
                    for ch in c._stream_result_chunks(job, 0, 0, 0):
                        ch.configure_result_streaming(c, ResultStreamingArgs(job_id=job))
                        keys = {v: C.key_props(k) for k, v in ch._key_id_map.items() if k in ch._result_index}
                        rows += [{"text": s, "props": keys[k]} for _, k, s in ch]
                ev[-1] = {"ev": "read", "rows": rows}
    finally:
        if pid:
            L.stop(pid)
        elif cls:
            try:
                cls[0]._mdc._connection.close()
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)
