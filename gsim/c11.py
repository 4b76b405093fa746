"""C11: memory stays bounded however long the history of queries, loads and saves."""
import copy
import ctypes
import datetime as dt
import gc
import hashlib
import os
import sys
import tracemalloc
import warnings

import numpy as np

from . import boot, engine, files, store
from . import gen as G
from .query import ask as ask_world
from .trace import EXC, Interrupter, index
from .world import World

PLAN = {"quick": {"runs": 400, "budget": 240}, "thorough": {"runs": 40000, "budget": 3000, "shrink": 300}}
MUST = ("checked", "fault:interrupt", "probe:steps", "probe:cycles", "probe:assignments")
RULE = ("one evaluation = one history of ever new queries (or of objects loaded, asked and dropped, or of saves), with the process's memory measured "
        "after equal stretches of it; a stretch that grows is followed by histories ten and forty times as long, and only growth that goes on there is a "
        "violation; non-trivial = at least one step in the history was answered, not refused; distinct = (object, question, what varies, fault)")
MEASURE = "distinct (object kind, question, what varies between steps, fault)"
COMPONENTS = {"real": ["gridded", "CPython's allocator (blocks in use)", "glibc's heap (bytes in use)", "netCDF4/HDF5", "open file descriptors of the process"],
              "stub": ["interrupts and out-of-memory errors raised at a chosen line of gridded's code"]}
ASSUMPTIONS = ["memory is read after a full garbage collection: cycles that the collector frees are not growth",
               "a cache that holds fewer than 2000 entries per object counts as bounded",
               "no storage faults here: after one, HDF5 itself may keep memory and descriptors"]
GROW = 0.4          # Python blocks per step, and at least BLOCKS in a stretch: reading the counters leaves some 20 to 70 behind each time
BLOCKS = 90
BYTES = 64          # bytes of the C heap per step


class _Mall(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def heap():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = _Mall
    m = f()
    return m.uordblks + m.hblkhd


def measure():
    gc.collect()
    return sys.getallocatedblocks(), heap(), len(os.listdir("/proc/self/fd"))


# ---------------------------------------------------------------- cases
def gen(seed, i, tier):
    r = G.case_rng(seed, "C11", i)
    fault = None
    if r.random() < 0.35:
        fault = {"kind": r.choice(["interrupt", "interrupt", "memory", "io"]), "every": r.choice([2, 3, 5]), "op": r.random() < 0.2, "seed": r.randrange(10**6),
                 "same": r.random() < 0.7, "frac": round(r.random(), 6), "focus": r.choice(["line", "store"])}
    x = r.random()
    if x < 0.6:
        spec = G.gen_world(r)
        qg = G.QGen(r, spec, big=0.0, mutate=0.5)
        qs = [qg.draw() for _ in range(r.choice([1, 1, 2, 3]))]
        for q in qs:
            if "p" in q and "at" not in q["p"]:
                q["p"]["n"] = min(q["p"]["n"], 40)
        vary = r.choice([["p"], ["p", "t"], ["t"], ["p", "t", "o"], ["o"], ["p", "n"]])
        assign = r.choice([None, None, None, 1, 7]) if fault is None else None
        return {"kind": "world", "spec": spec, "qs": qs, "vary": vary, "fault": fault, "assign": assign, "n": 160}
    if x < 0.9:
        f = files.gen_file(r, static=0.3)
        ld = files.gen_load(r, f)
        mode = r.choice(["ask", "ask", "cycle", "cycle", "slice"])
        return {"kind": "file", "file": f, "ld": ld, "mode": mode, "fault": fault, "seed": r.randrange(10**6), "n": {"cycle": 20}.get(mode, 110)}
    kind = r.choice(["ud", "ud", "sg", "vd"])
    return {"kind": "save", "spec": store.GEN[kind](r, small=True), "how": r.choice(["ds", "ds", "ds3", "ds_nc", "grid", "grid_vars"]), "fault": fault, "n": 16}


# ---------------------------------------------------------------- the history
def variant(q, vary, k):
    q = copy.deepcopy(q)
    p = q.get("p")
    if p is not None:
        if "p" in vary:
            if "at" in p:
                p["at"] = [[c + 1e-6 * k if j == 0 else c for j, c in enumerate(row)] for row in p["at"]]
            else:
                p["seed"] = p.get("seed", 0) + 1000 * k
        if "n" in vary and "n" in p and p["n"] > 1:
            p["n"] = 1 + (p["n"] + k) % 37
    if "t" in vary and q.get("t"):
        q["t"] = (dt.datetime.fromisoformat(q["t"]) + dt.timedelta(seconds=3.7 * (k % 977), microseconds=k)).isoformat()
    if "o" in vary and q["q"] in ("var", "vvar", "varc", "vvarc"):
        o = q.setdefault("opts", {})
        o["extrapolate"] = bool(k % 2)
        o["unmask"] = bool(k // 2 % 2)
    if q["q"] == "uvar":
        a = (k * 7) % 1200
        q["opts"]["idx"] = {"range": [a, a + 1500, None]} if k % 2 else {"slice": [a, a + 9, 1 + k % 3]}
    return q


def slices(o):
    """Everything on a loaded object that can be indexed: (name, array-like)"""
    out = []
    for n in sorted(vars(o)):
        if n.startswith("_"):
            continue
        v = getattr(o, n, None)
        if hasattr(v, "__getitem__") and hasattr(v, "shape") and not isinstance(v, np.ndarray) and len(v.shape):
            out.append((n, v))
    return out


class NotLoadable(Exception):
    """a file gridded refuses: nothing to ask"""


class History:
    """Steps of a case, in this process."""

    def __init__(self, case, sc):
        self.c, self.sc = case, sc
        self.k = 0
        self.ok = self.bad = self.faults = 0
        self.classes = set()
        if case["kind"] == "world":
            self.w = World(case["spec"])
        elif case["kind"] == "file":
            files.prepare(case["file"], sc)
            if case["mode"] != "cycle":
                try:
                    self.o = files.load(case["file"], case["ld"], sc)
                except Exception as e:      # noqa: BLE001
                    raise NotLoadable(type(e).__name__) from None
                if case["mode"] == "slice":
                    self.sl = slices(self.o) + [(n, v) for x in ("data", "grid") for n, v in ([("data", getattr(self.o, x))] if x == "data" and getattr(self.o, x, None) is not None and hasattr(getattr(self.o, x), "shape") else slices(getattr(self.o, x)) if x == "grid" and hasattr(self.o, x) and getattr(self.o, x) is not None else [])]
        else:
            if case["spec"]["kind"] == "sg":
                store.sg_write(case["spec"], sc.path("src.nc"))
            self.o = store.build(case["spec"], sc.path("src.nc"))

    def assign(self):
        """A reassignment with what the object has: whatever was remembered for the old value may go."""
        w = self.w
        x = self.k % 3
        v = w.vars[self.k % len(w.vars)] if w.vars else None
        if x == 0 and v is not None and isinstance(v.data, np.ndarray):
            v.data = v.data.copy()
        elif x == 1:
            g = w.grids[self.k % len(w.grids)]
            if hasattr(g, "nodes") and hasattr(g, "_ind_memo_dict"):
                g.nodes = np.array(g.nodes)
            elif hasattr(g, "node_lon") and self.c["spec"]["grids"][self.k % len(w.grids)]["kind"] == "S":
                g.node_lon = np.ma.array(g.node_lon, copy=True)
        elif v is not None:
            v.time = v.time

    def once(self):
        c = self.c
        k = self.k
        if c["kind"] == "world":
            q = variant(c["qs"][k % len(c["qs"])], c["vary"], k)
            return ask_world(self.w, q)[0] != "exc"
        if c["kind"] == "file":
            r = np.random.default_rng([c["seed"], k])
            s = c["file"]
            if c["mode"] == "slice" and self.sl:
                n, v = self.sl[k % len(self.sl)]
                idx = tuple(slice(int(r.integers(0, m)), None, int(r.integers(1, 3))) for m in v.shape)
                v[idx]
                return True
            q = {"pts": np.round(r.uniform(-0.3, 4, (5, 3)), 4).tolist(), "when": float(r.uniform())}
            o = files.load(s, c["ld"], self.sc) if c["mode"] == "cycle" else self.o
            return any(a[0] != "exc" for a in files.ask(o, s, c["ld"], q).values())
        x = store.save(c["spec"], self.o, c["how"], self.sc.path("out.file"))
        if hasattr(x, "isopen") and x.isopen():
            x.close()
        return True

    def step(self):
        f = self.c["fault"]
        try:
            if self.c.get("assign") and self.k % self.c["assign"] == 0:
                self.assign()
            if f and self.k % f["every"] == 0:
                n = self.places()
                if n:
                    nth = 1 + (self.lines[int(f["frac"] * len(self.lines))] if f["same"] and self.lines else int(np.random.default_rng([f["seed"], self.k]).integers(n)))
                    it = Interrupter(nth, EXC[f["kind"]], f["op"])
                    try:
                        ok = it.run(self.once)
                    finally:
                        self.faults += it.fired is not None
                        it = None
                else:
                    ok = self.once()
            else:
                ok = self.once()
        except (Exception, EXC["interrupt"]) as e:
            ok = False
            self.classes.add(type(e).__name__)
        self.ok += bool(ok)
        self.bad += not ok
        self.k += 1

    def places(self):
        if not hasattr(self, "_places"):
            it = Interrupter(None, opcodes=self.c["fault"]["op"], trail=[])
            try:
                it.run(self.once)
            except Exception:       # noqa: BLE001
                pass
            self._places = it.n
            by = index(it.trail) if not self.c["fault"]["op"] else [0, [], [], []]
            self.lines = [ev[-1] for ev in (by[3] if self.c["fault"].get("focus") == "store" else None) or by[1]]     # the last time each line is reached
        return self._places

    def stretch(self, n):
        for _ in range(n):
            self.step()


def history(case, n, warm, parts=3, where=False):
    warnings.simplefilter("default")        # as for a user: Python remembers every text it has shown
    warnings.showwarning = lambda *a, **k: None
    sys.stdout = open(os.devnull, "w")
    with store.Scratch() as sc:
        try:
            h = History(case, sc)
        except NotLoadable:
            os.chdir("/")
            return None
        h.stretch(warm)
        if where:
            tracemalloc.start(6)
            a = None
        marks = [measure()]
        for p in range(parts):
            h.stretch(n)
            marks.append(measure())
            if where and p == 0:
                a = tracemalloc.take_snapshot()
        src = None
        if where:
            b = tracemalloc.take_snapshot()
            d = [x for x in b.compare_to(a, "lineno") if x.count_diff > 0 and (boot.REPO + os.sep) in x.traceback[0].filename]
            src = [f"{os.path.basename(x.traceback[0].filename)}:{x.traceback[0].lineno} +{x.count_diff} blocks" for x in d[:3]]
        out = {"marks": marks, "ok": h.ok, "bad": h.bad, "faults": h.faults, "where": src, "classes": sorted(h.classes)}
        os.chdir("/")
    return out


def growing(marks, n, libs):
    """what grew in every stretch: name of the measure and the least growth per step"""
    for j, (name, least) in enumerate((("Python blocks", GROW), ("C heap bytes", BYTES), ("open files", 0.02))):
        if j == 1 and libs:     # HDF5 keeps free lists of its own, which shrink and grow
            continue
        d = [(b[j] - a[j]) / n for a, b in zip(marks, marks[1:])]
        if min(d) >= least and (j or min(d) * n >= BLOCKS):
            return name, min(d)
    return None


def describe(case):
    if case["kind"] == "world":
        w = "+".join(sorted({q["q"] + (":" + case["spec"]["grids"][q["o"]]["kind"] if q["q"].startswith("g.") else "") for q in case["qs"]})) + " varying " + ",".join(case["vary"])
        return w + (" with reassignments" if case.get("assign") else "")
    if case["kind"] == "file":
        return f"{case['mode']} {case['file']['conv']} {case['ld']['how']}"
    return f"save {case['spec']['kind']} {case['how']}"


def run(case):
    st = {"checked": 1}
    n = case["n"]
    o = engine.must(engine.fork_call(lambda: history(case, n, n)))
    if o is None:
        return None, {"checked": 0, "probe:not_loadable": 1, "_digest": "not loadable"}
    g = growing(o["marks"], n, case["kind"] != "world")
    long = None
    if g:
        m = 4 * n if case["kind"] == "save" or case.get("mode") == "cycle" else 5 * n
        warm = 2 * m
        st["probe:long"] = 1
        long = engine.must(engine.fork_call(lambda: history(case, m, warm), timeout=300))
        g = growing(long["marks"], m, case["kind"] != "world")
        if g:       # what is collected once for every different thing (a line, an index) grows ever more slowly
            m *= 3
            warm = m
            long = engine.must(engine.fork_call(lambda: history(case, m, warm, parts=2), timeout=600))
            g = growing(long["marks"], m, case["kind"] != "world")
    what = describe(case)
    f = case["fault"]
    st["probe:steps"] = o["ok"] + o["bad"]
    st["probe:answered"] = o["ok"]
    if case["kind"] == "file" and case["mode"] == "cycle":
        st["probe:cycles"] = o["ok"] + o["bad"]
    if case.get("assign"):
        st["probe:assignments"] = (o["ok"] + o["bad"]) // case["assign"]
    if f:
        st["fault:" + f["kind"]] = o["faults"]
    sig = f"{what}|{f['kind'] if f else 'none'}"
    st["set:nontrivial"] = {sig} if o["ok"] else set()
    st["set:samples"] = {sig}
    st["_digest"] = hashlib.sha256(repr((sig, o["ok"], o["bad"], o["faults"], o["classes"], [m[2] - o["marks"][0][2] for m in o["marks"]])).encode()).hexdigest()[:16]
    if not g:
        return None, st
    src = engine.fork_call(lambda: history(case, n, 2 * n, where=True), timeout=300)
    src = src[1]["where"] if src[0] == "ok" else None
    total = len(long["marks"]) * m + warm
    return {"kind": f"grows:{case['kind']}:{g[0]}", "what": f"{what}{' with ' + f['kind'] if f else ''}: {g[0]} keep growing by {g[1]:.2f} per step after {warm} steps"
            f" (measured over {total} steps); allocated at {src}"}, st


def shrink(case):
    if case["fault"]:
        yield dict(case, fault=None)
    if case.get("assign"):
        yield dict(case, assign=None)
    if case["kind"] == "world":
        if len(case["qs"]) > 1:
            yield from engine.shrink_steps(case, "qs")
        for v in case["vary"]:
            if len(case["vary"]) > 1:
                yield dict(case, vary=[x for x in case["vary"] if x != v])
        for k, q in enumerate(case["qs"]):
            if q.get("opts"):
                for a in q["opts"]:
                    if a not in ("var", "slices", "idx", "grid", "location"):
                        yield dict(case, qs=case["qs"][:k] + [dict(q, opts={b: c for b, c in q["opts"].items() if b != a})] + case["qs"][k + 1:])
