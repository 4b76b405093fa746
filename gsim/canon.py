"""Observable form of an answer, and equality on it."""
import datetime

import numpy as np

RTOL = 1e-9
ATOL = 1e-12


def canon(x, depth=0):
    if depth > 6:
        return ("deep",)
    if x is None:
        return ("none",)
    if isinstance(x, (bool, np.bool_)):
        return ("num", float(x))
    if x is np.ma.masked:
        return ("arr", (), np.array(np.nan), np.array(True))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ("num", float(x))
    if isinstance(x, datetime.datetime):
        return ("str", x.isoformat())
    if isinstance(x, (str, bytes)):
        return ("str", x if isinstance(x, str) else repr(x))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ("seq", [canon(v, depth + 1) for v in x.ravel().tolist()], tuple(x.shape))
    if isinstance(x, np.ndarray):
        m = np.array(np.ma.getmaskarray(x), dtype=bool, copy=True)
        if x.dtype.kind in "mM":
            v = np.array(np.ma.getdata(x)).astype("int64").astype("float64")
        elif x.dtype.kind in "biuf":
            v = np.array(np.ma.getdata(x), dtype=np.float64, copy=True)
        else:
            return ("str", repr(np.asarray(x).tolist()))
        v[m] = np.nan
        return ("arr", tuple(x.shape), v, m)
    if isinstance(x, dict):
        return ("map", [(str(k), canon(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))])
    if isinstance(x, (list, tuple)):
        return ("seq", [canon(v, depth + 1) for v in x], (len(x),))
    if isinstance(x, slice):
        return ("str", repr(x))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    return ("str", type(x).__name__)


def same(a, b):
    if a[0] != b[0]:
        # a scalar and a 0-d array say the same thing
        if {a[0], b[0]} == {"num", "arr"}:
            n, r = (a, b) if a[0] == "num" else (b, a)
            return r[1] == () and not r[3].any() and bool(np.isclose(n[1], float(r[2]), rtol=RTOL, atol=ATOL, equal_nan=True))
        return False
    k = a[0]
    if k == "num":
        return bool(np.isclose(a[1], b[1], rtol=RTOL, atol=ATOL, equal_nan=True))
    if k == "arr":
        if a[1] != b[1] or not np.array_equal(a[3], b[3]):
            return False
        return bool(np.allclose(a[2], b[2], rtol=RTOL, atol=ATOL, equal_nan=True))
    if k == "seq":
        return a[2] == b[2] and len(a[1]) == len(b[1]) and all(same(p, q) for p, q in zip(a[1], b[1]))
    if k == "map":
        return [p[0] for p in a[1]] == [q[0] for q in b[1]] and all(same(p[1], q[1]) for p, q in zip(a[1], b[1]))
    return a[1:] == b[1:]


def show(c, n=160):
    k = c[0]
    if k == "arr":
        v = np.where(c[3], np.nan, c[2])
        s = f"array{c[1]} {np.array2string(v.ravel()[:6], precision=9, separator=',')} masked={int(c[3].sum())}"
    elif k == "seq":
        s = "[" + ", ".join(show(x, 60) for x in c[1][:4]) + (", ..." if len(c[1]) > 4 else "") + "]"
    elif k == "map":
        s = "{" + ", ".join(f"{a}: {show(b, 50)}" for a, b in c[1][:5]) + "}"
    elif k == "exc":
        s = "raises " + c[1]
    else:
        s = str(c[1]) if len(c) > 1 else k
    return s if len(s) <= n else s[: n - 3] + "..."
