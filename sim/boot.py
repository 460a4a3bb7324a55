"""Bootstrap of a worker process: seams first, then the code under test."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("SIM_REPO_SRC", "/repo/src")
_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    from . import core
    core.install()
    from . import procs
    procs.install()
    from . import fs, net
    fs.install()
    net.install()
    # scratch home: nothing the code under test caches may leak in or out
    import tempfile
    scratch = os.environ.get("SIM_SCRATCH")
    if not scratch:
        raise core.HarnessError("SIM_SCRATCH is not set")
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    for k in ("CWL_SINGULARITY_CACHE", "XDG_CACHE_HOME", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        os.environ.pop(k, None)
    tempfile.tempdir = None
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.makedirs(os.environ["TMPDIR"], exist_ok=True)
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import logging
    logging.raiseExceptions = False
    import asyncio
    import concurrent.futures.thread  # noqa: F401
    import multiprocessing  # noqa: F401  (logging looks at it lazily)
    import cwl_utils
    if not os.path.abspath(cwl_utils.__file__).startswith(os.path.abspath(REPO_SRC) + os.sep):
        raise core.HarnessError("cwl_utils comes from %s" % cwl_utils.__file__)
    import cwl_utils.expression  # noqa: F401
    import cwl_utils.sandboxjs  # noqa: F401
    import cwl_utils.pack  # noqa: F401
    import cwl_utils.singularity  # noqa: F401
    import cwl_utils.image_puller  # noqa: F401
    import cwl_utils.utils  # noqa: F401
    import cwl_utils.parser.utils  # noqa: F401
    quiet_logging()


class _NullStream:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet_logging():
    """Log records are still created and formatted; they go nowhere (no I/O, no real locks)."""
    import logging
    logging.disable(logging.NOTSET)
    null = _NullStream()
    import _thread
    # no preemption inside logging: its caches would make runs depend on earlier ones
    logging._lock = _thread.RLock()

    def create_lock(self):
        self.lock = _thread.RLock()
    logging.Handler.createLock = create_lock
    seen = [logging.root] + [l for l in logging.root.manager.loggerDict.values() if isinstance(l, logging.Logger)]
    for lg in seen:
        for h in lg.handlers:
            h.lock = _thread.RLock()
            if isinstance(h, logging.StreamHandler):
                h.stream = null
    logging.lastResort = None
