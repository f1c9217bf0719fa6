"""Common machinery: run drivers against the code in /repo, run TLC, turn TLC's verdicts into a check result."""
import atexit, concurrent.futures, json, os, pathlib, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SPECS = VERIF / "specs"
CPUS = min(8, os.cpu_count() or 8)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed; nothing is known about the property."""


class Ctx:
    def __init__(self, prop: str, tier: str):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.accepted = self.rejected = 0
        self.samples, self.notes, self.failures = [], {}, []
        self.exhaustive = True
        base = VERIF / "build" / "run"
        base.mkdir(parents=True, exist_ok=True)
        # Scratch space only; removed at exit
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        os.chmod(self.tmp, 0o755)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))

    def n(self, quick: int, thorough: int) -> int:
        return quick if self.quick else thorough

    # -------------------------------------------------------------- the code
    def drive(self, driver: str, scenarios: list, procs: int = CPUS, each: float = 30.0, env: dict | None = None,
              hashseeds: list | None = None) -> list:
        """Runs drivers/<driver>.py's run(scenario) for every scenario in worker processes; returns one trace per scenario:
        {"scenario":…, "cfg":…, "events":[…]}. What goes wrong in there (exceptions, hangs, crashes) is an event, too."""
        if not scenarios:
            return []
        procs = max(1, min(procs, len(scenarios)))
        out: list = [None] * len(scenarios)

        def work(p: int) -> None:
            todo = list(range(p, len(scenarios), procs))
            rounds = 0
            while todo:
                rounds += 1
                work_dir = pathlib.Path(tempfile.mkdtemp(prefix="w", dir=self.tmp))
                inp, res = work_dir / "in.json", work_dir / "out.ndjson"
                inp.write_text(json.dumps([[i, scenarios[i]] for i in todo]))
                e = dict(os.environ, PYTHONPATH=f"{REPO}:{VERIF}/lib:{VERIF}/drivers", TMPDIR=str(work_dir),
                         PYTHONHASHSEED=str((hashseeds or [0])[p % len(hashseeds or [0])]), VERIF_EACH=str(each),
                         HOME=str(work_dir), **(env or {}))
                e.pop("PYTEST_CURRENT_TEST", None) if not (env or {}).get("PYTEST_CURRENT_TEST") else None
                with open(work_dir / "log", "w") as log:
                    pr = subprocess.Popen([sys.executable, str(VERIF / "lib/worker.py"), driver, str(inp), str(res)], stdout=log,
                                          stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=work_dir)
                    # Watch for progress: a scenario stuck in spite of its alarm ends the process
                    last, size, status = time.time(), -1, None
                    while True:
                        try:
                            status = pr.wait(timeout=0.2)
                            break
                        except subprocess.TimeoutExpired:
                            pass
                        cur = res.stat().st_size if res.exists() else -1
                        if cur != size:
                            size, last = cur, time.time()
                        if time.time() - last > each + 25:
                            status = "hang"
                            break
                    try:
                        os.killpg(pr.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    pr.wait()
                started = None
                for line in (res.read_text().splitlines() if res.exists() else []):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in rec:
                        started = rec["begin"]
                    else:
                        out[rec["i"]] = rec["trace"]
                logtail = (work_dir / "log").read_text(errors="replace")[-3000:]
                shutil.rmtree(work_dir, ignore_errors=True)
                rest = [i for i in todo if out[i] is None]
                stuck = [i for i in range(p, len(scenarios), procs) if out[i] and out[i]["events"] and out[i]["events"][-1]["ev"] in ("hang", "died")]
                if not rest or len(stuck) >= 2:      # each costs a lot of time; the verdict is clear
                    return
                if started is None:
                    if "VERIF-IMPORT-FAILED" in logtail or rounds > 2:
                        raise Machinery(f"driver {driver} does not start: {logtail}")
                    todo = rest
                    continue
                bad = started if out[started] is None else rest[0]
                out[bad] = {"scenario": scenarios[bad], "cfg": scenarios[bad] if isinstance(scenarios[bad], dict) else {},
                            "events": [{"ev": "hang" if status == "hang" else "died", "what": f"status {status}; {logtail[-600:]}"}]}
                todo = [i for i in rest if i != bad] if not stuck else []

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(work, p) for p in range(procs)]:
                f.result()
        return [x for x in out if x is not None]

    # ------------------------------------------------------------------- TLC
    def _tlc(self, module: str, cfg: str, args: list, env: dict, timeout: float, workers: str, heap: str = "6g") -> str:
        d = pathlib.Path(tempfile.mkdtemp(prefix="tlc", dir=self.tmp))
        for f in SPECS.glob("*.tla"):
            (d / f.name).symlink_to(f)
        (d / "run.cfg").write_text(cfg)
        cmd = ["java", f"-Djava.io.tmpdir={d}", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-config", "run.cfg", "-workers", workers,
               "-metadir", str(d / "meta"), "-noGenerateSpecTE", *args, module]
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **env))
            return r.stdout + r.stderr
        except subprocess.TimeoutExpired as ex:
            so = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            return so + "\nTLC-TIMEOUT"
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def _counts(text: str) -> tuple[int, int]:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            return tuple(int(x.replace(",", "")) for x in m[-1])  # type: ignore
        m = re.findall(r"([\d,]+) states checked", text)
        return (int(m[-1].replace(",", "")),) * 2 if m else (0, 0)

    def model(self, module: str, cfg: str, timeout: float = 600, optional: bool = False, heap: str = "8g") -> None:
        """Exhaustive check of the specification's own properties. A failure here is the specification's, not the code's."""
        t = time.time()
        text = self._tlc(module, cfg, ["-coverage", "1"], {}, timeout, "auto", heap)
        gen, dist = self._counts(text)
        ok = "Model checking completed. No error has been found" in text
        if not ok and not (optional and "TLC-TIMEOUT" in text):
            raise Machinery(f"TLC on {module}: {text[-4000:]}")
        dead = sorted(set(re.findall(r"^<(\w+) line [^>]*>: 0:0$", text, re.M)))
        self.states += dist
        self.transitions += gen
        self.exhaustive &= ok
        self.notes.setdefault("models", []).append(
            {"module": module, "distinct_states": dist, "states_generated": gen, "exhausted": ok, "wall_s": round(time.time() - t, 1),
             **({"actions_never_taken": dead} if dead else {})})

    def behaviours(self, module: str, cfg: str, num: int, depth: int, timeout: float = 300) -> list:
        """Behaviours of the specification, for replay into the code: the JSON values its module prints after BEHAVIOUR."""
        text = self._tlc(module, cfg, ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)], {}, timeout, "1")
        if "Error:" in text:
            raise Machinery(f"TLC simulation of {module}: {text[-3000:]}")
        res, seen = [], set()  # TLC evaluates all successors of the last state: one behaviour per state before it
        for m in re.finditer(r'^"BEHAVIOUR (.*)"$', text, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            b = json.loads(s)
            k = json.dumps(b[:-1]) if isinstance(b, list) else s
            if k not in seen:
                seen.add(k)
                res.append(b)
        gen, _ = self._counts(text)
        self.notes.setdefault("simulations", []).append({"module": module, "behaviours": len(res), "states": gen})
        if not res:
            raise Machinery(f"no behaviours from {module}: {text[-3000:]}")
        return res

    def validate(self, module: str, traces: list, constants: str = "", batch: int = 400, timeout: float = 400) -> None:
        """Checks recorded traces against the trace specification `module` in TLC. Every trace gets exactly one verdict."""
        jobs = [traces[k:k + batch] for k in range(0, len(traces), batch)]
        ts = time.time()

        def one(part: list) -> list:
            f = pathlib.Path(tempfile.mkdtemp(prefix="tr", dir=self.tmp)) / "traces.json"
            f.write_text(json.dumps(no_null([{"cfg": t["cfg"], "ev": t["events"]} for t in part])))
            cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + constants
            for attempt in range(2):
                text = self._tlc(module, cfg, [], {"TRACE_FILE": str(f)}, timeout, "2" if attempt == 0 else "1")
                verd = {}
                for m in re.finditer(r'"VERDICT (\{.*?\})"', text):
                    v = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
                    verd[v["t"]] = v
                if "Error:" not in text and len(verd) == len(part):
                    break
            else:
                keep = VERIF / "build" / f"failed-{self.prop}.json"
                shutil.copy(f, keep)
                raise Machinery(f"TLC gave {len(verd)} verdicts for {len(part)} traces of {module} (kept in {keep}): {text[-3500:]}")
            gen, dist = self._counts(text)
            self.states += dist
            self.transitions += gen
            return [verd[k + 1] for k in range(len(part))]

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            verdicts = [v for vs in ex.map(one, jobs) for v in vs]
        for tr, v in zip(traces, verdicts):
            if v["bad"]:
                self.rejected += 1
                self.fail(v["bad"], tr, v["i"], module)
            else:
                self.accepted += 1
        nev = sum(len(t["events"]) for t in traces)
        self.notes.setdefault("trace_validation", []).append(
            {"module": module, "traces": len(traces), "events": nev, "wall_s": round(time.time() - ts, 1)})
        if traces:
            mid = traces[len(traces) // 2]
            self.samples.append({"module": module, "scenario": short(mid.get("scenario")), "events": short(mid["events"], 900)})

    # ---------------------------------------------------------------- result
    def fail(self, clauses: list, trace: dict, pos: int, module: str) -> None:
        self.failures.append({"clauses": sorted(clauses), "module": module, "position": pos, "trace": trace})

    def finish(self) -> int:
        known = load_known(self.prop)
        new, hit = [], {}
        for f in self.failures:
            k = next((k for k in known if matches(k, f)), None)
            if k is None:
                new.append(f)
            else:
                hit.setdefault(k["id"], k)
        for k in known:  # every listed finding, whether or not this run happened upon it
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.accepted,
                         "traces_rejected": self.rejected, "samples": self.samples[:6], **self.notes},
            "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
        if not new:
            print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.accepted} wall={evidence['wall_s']}s")
            return 0
        rdir = VERIF / "build" / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        groups: dict = {}
        for f in new:
            groups.setdefault((f["module"], tuple(f["clauses"])), []).append(f)
        for (module, clauses), fs in list(groups.items())[:10]:
            f = min(fs, key=lambda f: len(json.dumps(f["trace"], default=str)))
            path = rdir / f"{self.prop}-{re.sub(r'[^A-Za-z0-9]+', '_', '_'.join(clauses))[:60]}.json"
            path.write_text(json.dumps(f, indent=1, default=str))
            ev = f["trace"]["events"]
            at = ev[min(f["position"], len(ev)) - 1] if ev else None
            print(f"  {module}: clause(s) {', '.join(clauses)} violated in {len(fs)} trace(s); event {f['position']}: {short(at, 500)}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1


ASSUMPTIONS = ["TLC evaluates the specification correctly", "the drivers in /verif/drivers record what the code returned"]


def no_null(x):
    """TLC's JSON reader knows no null."""
    if isinstance(x, dict):
        return {k: no_null(v) for k, v in x.items() if v is not None}
    return [no_null(v) for v in x] if isinstance(x, list) else x


def short(x, n: int = 400) -> str:
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "…"


def load_known(prop: str) -> list:
    f = VERIF / "known_findings.jsonl"
    res = []
    for line in f.read_text().splitlines() if f.exists() else []:
        line = line.strip()
        if line and not line.startswith("#"):
            if line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                res.append(k)
    return res


def matches(k: dict, f: dict) -> bool:
    """A finding is identified by the violated clauses and by the driver scenario (a label naming the specific input/history)."""
    sc = f["trace"].get("scenario")
    label = sc.get("label") if isinstance(sc, dict) else None
    return set(f["clauses"]) <= set(k["clauses"]) and label is not None and label == k["label"]
