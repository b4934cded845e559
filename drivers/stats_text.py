"""What is written, logged or printed."""
from drv import *
import contextlib, io

logging.disable(logging.NOTSET)
LOG = []


class H(logging.Handler):
    def emit(self, record):
        LOG.append(record.getMessage())


lg = logging.getLogger("eckity")
lg.setLevel(logging.INFO)
lg.propagate = False
lg.addHandler(H())


@contextlib.contextmanager
def captured():
    """everything written, whether logged or printed"""
    LOG.clear()
    s = io.StringIO()
    out = []
    with contextlib.redirect_stdout(s):
        yield out
    out += [x for m in LOG for x in m.split("\n")] + s.getvalue().split("\n")
    LOG.clear()
