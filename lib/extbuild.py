"""Builds mixtera's C++ chunker extension from /repo's current working tree (the repository's own build needs the network).

Only the progress bar library is missing here; native/shim stands in for it. The result is cached by a digest of the
sources, so a change to the sources is always compiled. No result (compiler errors) -> None.
"""
import fcntl, hashlib, os, pathlib, subprocess, sys, sysconfig

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
CHUNKER = REPO / "mixtera/core/query/chunker"
SHIM = VERIF / "native/shim"


def build() -> pathlib.Path | None:
    files = sorted(p for p in CHUNKER.rglob("*") if p.suffix in (".cpp", ".hpp", ".h", ".cc")) + sorted(SHIM.rglob("*.hpp"))
    digest = hashlib.sha256()
    for f in files:
        digest.update(f.name.encode() + b"\0" + f.read_bytes() + b"\0")
    out = VERIF / "build" / f"ext-{digest.hexdigest()[:20]}"
    so = out / f"chunker_extension{sysconfig.get_config_var('EXT_SUFFIX')}"
    out.mkdir(parents=True, exist_ok=True)
    with open(out / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if so.exists():
            return so
        import pyarrow, pybind11
        la = pyarrow.get_library_dirs()[0]
        arrow = [f":{p.name}" for n in ("libarrow", "libarrow_python") for p in sorted(pathlib.Path(la).glob(f"{n}.so.*"))[:1]]
        sources = [str(p) for p in sorted((CHUNKER / "src").glob("*.cpp"))]
        cmd = ["g++", "-std=c++20", "-O0", "-fPIC", "-shared", "-w", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
               f"-I{SHIM}", f"-I{CHUNKER}/include", f"-I{sysconfig.get_paths()['include']}", f"-I{pybind11.get_include()}",
               f"-I{pyarrow.get_include()}", *sources, "-o", str(so) + ".tmp", f"-L{la}", *[f"-l{a}" for a in arrow],
               f"-Wl,-rpath,{la}", "-lfmt", "-lspdlog", "-labsl_raw_hash_set", "-labsl_hash", "-labsl_city",
               "-labsl_low_level_hash", "-labsl_raw_logging_internal", "-labsl_throw_delegate"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            (out / "error.log").write_text(r.stderr)
            print(r.stderr[-3000:], file=sys.stderr)
            return None
        os.replace(str(so) + ".tmp", so)
        return so


if __name__ == "__main__":
    print(build())
