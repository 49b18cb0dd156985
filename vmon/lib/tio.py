"""Small helpers around the public API of the code under test."""
import contextlib
import copy
import io
import logging

import numpy as np


def read_text(path):
    with open(path, "r", newline="") as f:
        return f.read()


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def contents(path):
    """Bytes of a file, without the comments of a FLAC3D grid (they give the time of day)."""
    b = read_bytes(path)
    if b.startswith(b"* FLAC3D"):
        b = b"\n".join(l for l in b.split(b"\n") if not l.startswith(b"*"))
    return b


def write_text(path, text, case=None):
    """Write a file as is; as another system would end its lines (now and then) when a case is given."""
    if case is not None and case.rng.random() < 0.08:
        text = text.replace("\n", "\r\n")
        case.count("crlf")
    with open(path, "w", newline="") as f:
        f.write(text)
    return path


def snapshot(x):
    """Deep, order-preserving, type-preserving image of nested data."""
    if isinstance(x, dict):
        return ("dict", [(repr(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)) and hasattr(x, "_fields"):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, list):
        return ("list", [snapshot(v) for v in x])
    if isinstance(x, tuple):
        return ("tuple", [snapshot(v) for v in x])
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndarray", "O", x.shape, [snapshot(v) for v in x.ravel()])
        return ("ndarray", x.dtype.str, x.shape, x.tobytes())
    if hasattr(x, "type") and hasattr(x, "data") and type(x).__name__ in ("Cells", "CellBlock"):
        return ("cells", x.type, snapshot(x.data))
    return (type(x).__name__, repr(x))


@contextlib.contextmanager
def captured_logs():
    """Records emitted on the root logger (and warnings) by the code under test."""
    records = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record)

    root = logging.getLogger()
    h = H()
    old = list(root.handlers)
    root.handlers[:] = [h]
    try:
        yield records
    finally:
        root.handlers[:] = old


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def clone(x):
    return copy.deepcopy(x)
