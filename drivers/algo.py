"""Dynamic mixing algorithms. Scenario: {"c": configuration, "steps": [[losses (eighths), counts, mixture id]|"deepcopy"|"dill"|"pickle"], …}"""
import copy, json, math, os, pathlib, pickle, shutil, tempfile

import dill
import numpy as np
import scipy.optimize

_real = scipy.optimize.minimize
_mode = {"real": False, "dir": None, "last": None}


class _Result(dict):
    __getattr__ = dict.__getitem__


def _minimize(fun, x0, args=(), *a, **kw):
    """Stands in for the optimizer: finds a law by the last loss, and notes the data."""
    if _mode["real"]:
        return _real(fun, x0, args, *a, **kw)
    xs, ys = [np.asarray(v, dtype=float).reshape(-1) for v in args[:2]]
    series = [[float(x), float(y)] for x, y in zip(xs, ys, strict=True)]
    if _mode["last"] != series:
        _mode["last"] = series
        with tempfile.NamedTemporaryFile("w", dir=_mode["dir"], suffix=".part", delete=False) as f:
            json.dump(series, f)
        os.rename(f.name, f.name[:-5] + ".json")
    b = 1 + round(ys[-1] * 8) % 23
    p = np.array([math.log(b), 0.5, 1.0])
    return _Result(success=True, fun=1.0, x=p, message="", status=0, nit=1, nfev=1, jac=np.zeros(3))


scipy.optimize.minimize = _minimize      # before the algorithm is imported


def Recorder(sc):
    return {"scenario": sc, "cfg": {"c": sc["c"], "exact": not sc.get("real")}, "events": []}


def run(sc, rec):
    from mixtera.core.algo.ado.ado import AdoDynamicMixing
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    c = sc["c"]
    root = pathlib.Path(tempfile.mkdtemp(prefix="algo"))
    (root / "fits").mkdir()
    _mode.update(real=bool(sc.get("real")), dir=str(root / "fits"), last=None)
    try:
        if c["kind"] == "avg":
            alg = SimpleAveragingAlgorithm()
        else:
            alg = AdoDynamicMixing(variant=c["variant"], gamma1=c["g1"] / 1000, gamma2=c["g2"] / 1000, s=c["s2"] / 2, delta_min=c["dmin"] / 1e7,
                                   scaling_law_update_interval=c["interval"], subsampling_interval=c["sub"], ignore_initial_steps=c["ignore"],
                                   start_step=c["start"], savgol=sc["savgol"], use_same_step_size=c["same"],
                                   count_normalizer=sc["norm"], logging_path=str(root / "log.json") if sc["log"] else None)
        mu = np.array(c["mu"], dtype=alg.initial_mixture.dtype)
        alg.initial_mixture = mu / mu.sum()
        bufs = {}
        for st in sc["steps"]:
            if isinstance(st, str):
                old = alg
                alg = copy.deepcopy(alg) if st == "deepcopy" else dill.loads(dill.dumps(alg)) if st == "dill" else pickle.loads(pickle.dumps(alg))
                if c["kind"] == "avg" or old.total_steps + 2 < c["start"]:      # what happens to the other one is of no importance
                    old.process_losses(np.full(2, 9, dtype=np.float32), np.full(2, 3, dtype=np.int64), 1000)
                rec["events"].append({"ev": "copy"})
                continue
            l, n, m = st
            b = bufs.setdefault(len(l), (np.zeros(len(l), dtype=np.float32), np.zeros(len(l), dtype=sc["ctype"])))
            b[0][:] = [x / 8 for x in l]
            b[1][:] = n
            pi = alg.process_losses(b[0], b[1], m)
            b[0][:], b[1][:] = 77, 13       # the arrays are used again by their owner
            fits = []
            for f in sorted((root / "fits").glob("*.json")):
                x = [[round(p * (sc["norm"] or 1)), y] for p, y in json.loads(f.read_text())]
                fits.append([[p, round(y * 8) if abs(y * 8 - round(y * 8)) < 0.02 else -1] for p, y in x])
                f.unlink()
            shares = []
            if pi is not None:
                shares = [round(float(x) * 1e7) if np.isfinite(x) and abs(x) < 100 else -1 for x in np.asarray(pi).reshape(-1)]
            rec["events"].append({"ev": "report", "l": l, "n": n, "m": m, "pi": shares, "fits": fits})
    finally:
        shutil.rmtree(root, ignore_errors=True)
