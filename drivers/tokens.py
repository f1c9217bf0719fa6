"""Token sequences. Scenario kinds:
iterator: {"samples": [[word…]…], "batch", "opens": [{L, overlap, atleast, bos, eos, how: demand|background, pauses: [[who, line no.]…], "bad": sample|-1, "badhow"}]}
chunk: {"corpus", "mixture", "chunks", "opens": [… + "dop", "pre", "skip"]}"""
import atexit, json, pathlib, random, shutil, sys, tempfile, threading, time

import chunkgen as G
import corpus as C


def Recorder(sc):
    return {"scenario": sc, "cfg": {}, "events": []}


_dir = []


def tokenizer_dir(words):
    """A tokenizer whose tokens are words: word w<n> is token n + 3."""
    from tokenizers import Tokenizer, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix="tok"))
        atexit.register(shutil.rmtree, _dir[0], True)
    d = pathlib.Path(_dir[0]) / str(words)
    if not d.exists():
        t = Tokenizer(models.WordLevel({"<unk>": 0, "<bos>": 1, "<eos>": 2, **{f"w{i}": i + 3 for i in range(words)}}, unk_token="<unk>"))
        t.pre_tokenizer = pre_tokenizers.WhitespaceSplit()
        PreTrainedTokenizerFast(tokenizer_object=t, bos_token="<bos>", eos_token="<eos>", unk_token="<unk>").save_pretrained(d)
    return str(d)


BOS, EOS = 1, 2
_loaded: dict = {}


def text(words):
    return " ".join(f"w{i}" for i in words)


class Pauses:
    """Halts one of the threads at some lines, so that the other one can go on."""

    def __init__(self, pauses):
        self.at = {(w, n) for w, n in pauses}
        self.count = {"cons": 0, "bg": 0}
        self.main = threading.current_thread()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith("tokenizing_iterator.py"):
            return None
        if event == "line":
            who = "cons" if threading.current_thread() is self.main else "bg"
            self.count[who] += 1
            if (who, self.count[who]) in self.at:
                time.sleep(0.03)
        return self.trace

    def __enter__(self):
        if self.at:
            threading.settrace(self.trace)
            sys.settrace(self.trace)

    def __exit__(self, *a):
        if self.at:
            sys.settrace(None)
            threading.settrace(None)


def opened(o, skip, fails):
    return {"ev": "open", "L": o["L"], "overlap": o["overlap"], "atleast": o["atleast"], "bos": [BOS] if o["bos"] else [], "eos": [EOS] if o["eos"] else [],
            "skip": skip, "fails": fails, "how": o["how"]}


def iterators(sc, ev):
    from transformers import AutoTokenizer
    from mixtera.utils import ThreadedTokenizingIterator, TokenizingIterator
    if 200 not in _loaded:
        _loaded[200] = AutoTokenizer.from_pretrained(tokenizer_dir(200), use_fast=True)
    tok = _loaded[200]
    ev.append({"ev": "chunk", "windowed": False, "keys": [{"kid": 0, "rows": 1, "ids": [[w + 3 for w in s] for s in sc["samples"]]}]})
    for o in sc["opens"]:
        bad = sc["bad"]
        ev.append(opened(o, 0, bad >= 0))

        def source():
            for i, s in enumerate(sc["samples"]):
                if i == bad:
                    if sc["badhow"] == "source":
                        raise ValueError("unreadable")
                    yield 12345        # nothing a tokenizer takes
                    continue
                if o["slow"] == i:
                    time.sleep(0.02)
                yield text(s)
            if bad == len(sc["samples"]):
                raise ValueError("unreadable")
        cls = ThreadedTokenizingIterator if o["how"] == "background" else TokenizingIterator
        with Pauses(o["pauses"] if o["how"] == "background" else []):
            it = cls(source(), tok, o["L"], sc["batch"], o["atleast"], o["overlap"], o["eos"], o["bos"])
            n = 0
            while True:
                try:
                    toks = next(it)
                    ev.append({"ev": "seq", "idx": n, "kid": 0, "toks": [int(x) for x in toks]})
                    n += 1
                except StopIteration:
                    ev.append({"ev": "end"})
                    try:
                        ev.append({"ev": "seq", "idx": n, "kid": 0, "toks": list(next(it))})
                    except StopIteration:
                        pass
                    break
                except Exception as ex:
                    ev.append({"ev": "fail", "what": f"{type(ex).__name__}: {str(ex)[-100:]}"})
                    break
                if n > 3000:
                    raise RuntimeError("no end of sequences")
                if o["rest"] == n:
                    time.sleep(0.02)
            if o["how"] == "background":
                it.background_thread.join(10)


def chunks(sc, ev):
    import dill
    import multiprocessing as mp
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.query import Query
    root = pathlib.Path(tempfile.mkdtemp(prefix="tkc"))
    words = 1500
    d = tokenizer_dir(words)
    try:
        rng = random.Random(sc["seed"])
        n = sum(len(f) for ds in sc["corpus"]["datasets"] for f in ds)
        texts, w = {}, 0
        for i in range(1, n + 1):
            k = rng.choice(sc["lengths"])
            texts[i] = text(range(w, w + k))
            w += k
        assert w <= words
        co = C.Corpus(dict(sc["corpus"], texts=texts), root=root / "c")
        cl = co.client
        if not cl.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=G.make_mixture(sc["mixture"]))):
            raise RuntimeError("query not executed")
        for m, ch in enumerate(cl._stream_result_chunks("j", 0, 0, 0)):
            if m >= sc["chunks"]:
                break
            stored = dill.dumps(ch)
            first = None
            for o in sc["opens"]:
                plain = dill.loads(stored)
                plain.configure_result_streaming(cl, ResultStreamingArgs(job_id="j", chunk_reading_degree_of_parallelism=o["dop"]))
                keys: dict = {}
                for _, kid, s in plain:
                    keys.setdefault(int(kid), []).append([int(x[1:]) + 3 for x in s.split()])
                this = [{"kid": k, "rows": len(v), "ids": v} for k, v in sorted(keys.items())]
                if this != first:
                    first = this
                    ev.append({"ev": "chunk", "windowed": True, "keys": this})
                cur = dill.loads(stored)
                skip = o["skip"]
                cur._samples_to_skip = skip
                cur.configure_result_streaming(cl, ResultStreamingArgs(
                    job_id="j", chunk_reading_degree_of_parallelism=o["dop"], chunk_reading_prefetch_first_sample=o["pre"], chunk_reading_mixture_type="token",
                    chunk_reading_window_size=rng.choice([1, 128]), chunk_reading_window_best_effort=rng.random() < 0.5, chunk_reading_tokenizer=d,
                    chunk_reading_sequence_len=o["L"], chunk_reading_tokenization_bs=o["batch"], chunk_reading_token_separate_thread=o["how"] == "background",
                    chunk_reading_token_at_least_one_sample=o["atleast"], chunk_reading_token_overlapping=o["overlap"], chunk_reading_eos=o["eos"],
                    chunk_reading_bos=o["bos"]))
                ev.append(opened(o, skip, False))
                for idx, kid, toks in cur:
                    ev.append({"ev": "seq", "idx": int(idx), "kid": int(kid), "toks": [int(x) for x in toks]})
                ev.append({"ev": "end"})
                for p in mp.active_children():
                    p.kill()
                    p.join()
    finally:
        try:
            co.close()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)


def run(sc, rec):
    (iterators if sc["kind"] == "iterator" else chunks)(sc, rec["events"])
