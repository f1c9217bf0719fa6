"""Makes `import mixtera` work: loads the chunker extension compiled from /repo's sources."""
import importlib.util, os, sys


def init() -> None:
    import pyarrow  # noqa: F401  (libarrow must be loaded before the extension)
    import extbuild
    so = extbuild.build()
    name = "mixtera.core.query.chunker.chunker_extension"
    if so is None:
        raise RuntimeError("the chunker extension does not compile")
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    from loguru import logger
    logger.remove()
    logger.add(os.devnull, level="CRITICAL") if False else None
    import mixtera.core.datacollection  # noqa: F401  (this order avoids an import cycle)
    import mixtera.core.query  # noqa: F401
