"""C09: answers do not depend on the wall clock or the process; static data are constant in time."""
import copy
import ctypes
import datetime as dt
import hashlib
import os
import time
import warnings

import numpy as np

from . import engine, files, store, zygote
from . import gen as G
from .c07 import shim
from .canon import canon, same, show
from .query import ask as ask_world
from .world import time_list

PLAN = {"quick": {"runs": 1500, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:clock_jumps", "fault:hash_seed_1", "probe:clock_reads", "probe:twins",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one recorded answer (or one visible part of a loaded object) of a history, compared between two processes that differ in "
        "wall clock, time zone and hash seed; or one answer about static data compared with the answer at another query time, or with the answer "
        "of a time-dependent copy that holds the same field at two times; non-trivial = the clock was changed or jumped, or the hash seed differs, and "
        "the answer is not an exception; distinct = (kind of object, question, clock pattern, hash seed)")
MEASURE = "distinct (object kind, question, clock pattern, hash seed, time zone)"
COMPONENTS = {"real": ["gridded", "netCDF4/HDF5", "Python's hash randomisation (separate interpreters started with other seeds)"],
              "stub": ["the wall clock: clock_gettime(CLOCK_REALTIME), gettimeofday and time() answer from a simulated clock", "the time zone of the process"]}
ASSUMPTIONS = ["the date that is made up for data without one (Time() and Time.constant_time()) is itself not an answer: min_time and max_time of such an "
               "axis are not compared", "monotonic clocks are not simulated: nothing in gridded reads them"]

SEEDS = ("1", "2", "3", "5")      # besides "0", the seed of the reference; they order small sets of names differently
ZONES = ("UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "XYZ-13:45", "ABC11")
EPOCH = dt.datetime(1970, 1, 1)
STATIC_T = ["1850-01-01T00:00:00", "1969-12-31T23:59:59", "2019-12-31T23:00:00", "2020-01-01T00:00:00", "2020-01-01T05:00:00", "2031-06-01T12:00:00",
            "2500-01-01T00:00:00"]
GRID_DERIVED = {"UGrid": ("build_edges", "build_face_face_connectivity", "build_boundaries", "build_face_coordinates", "build_edge_coordinates",
                          "build_boundary_coordinates"),
                "SGrid": ("build_celltree",)}
SIMTIME = lambda s: f"{s.get('simyears', 0)} years of wall clock covered by jumps and settings"    # noqa: E731


def ns(iso):
    return int((dt.datetime.fromisoformat(iso) - EPOCH) / dt.timedelta(microseconds=1)) * 1000


# ---------------------------------------------------------------- cases
def gen_clock(r, times, n):
    """{'pattern', 'set': [[step, ns, advance per reading], ...]}"""
    pat = r.choice(["still", "data", "query", "past", "future", "jumps", "back", "fast"])
    base = {"still": "2024-06-01T10:00:00", "past": "1970-01-01T00:00:01", "future": r.choice(["2038-01-19T03:14:08", "2199-12-31T23:59:59"]),
            "jumps": "2021-03-04T05:06:07", "back": "2030-01-01T00:00:00", "fast": "1999-12-31T23:59:59"}.get(pat) or r.choice(times)
    out = [[0, ns(base), 0 if pat in ("still", "query", "data") else r.choice([0, 1000, 10 ** 9, 86400 * 10 ** 9])]]
    if pat == "fast":
        out[0][2] = 10 ** 9 * 3600
    if pat in ("jumps", "back"):
        k = out[0][1]
        for i in range(1, n):
            if r.random() < 0.5:
                k += r.choice([-1, 1] if pat == "jumps" else [-1]) * r.choice([1, 3600, 86400 * 400, 86400 * 4000]) * 10 ** 9
                out.append([i, max(k, 10 ** 9), r.choice([0, 10 ** 9])])
    return {"pattern": pat, "set": out}


def gen_configs(r, times, n):
    ref = {"hash": "0", "tz": "UTC", "clock": {"pattern": "ref", "set": [[0, ns("2020-01-01T12:00:00.25"), 0]]}}
    out = [ref]
    for h in r.sample(SEEDS, 2):
        out.append({"hash": h, "tz": r.choice(ZONES), "clock": gen_clock(r, times, n), "warm": r.random() < 0.3})
    return out


def gen(seed, i, tier):
    r = G.case_rng(seed, "C09", i)
    if r.random() < 0.55:
        f = files.gen_file(r, static=0.5)
        if f.get("hours") and r.random() < 0.3:
            f["hours"] = f["hours"][:1]
        if f["conv"] in files.WRITERS and r.random() < 0.5:
            f["decoys"] = True
        steps, slots = [], []
        n = r.choice([6, 10, 16]) if tier == "quick" else r.choice([10, 20, 40])
        while len(steps) < n:
            if not slots or r.random() < 0.3 and len(slots) < 4:
                ld = files.gen_load(r, f)
                slots.append(ld)
                steps.append({"op": "load", "ld": ld})
                continue
            k = r.randrange(len(slots))
            q = files.questions(f, slots[k], r, 1)[0]
            if r.random() < 0.1:
                q["none"] = True
            if is_static(f, slots[k]) and r.random() < 0.7:
                ts = r.sample(STATIC_T, 3)
                if r.random() < 0.4:        # the very time the data have
                    ts[r.randrange(3)] = files.when(f, {}, {"when": 0}).isoformat()
                steps.append({"op": "const", "slot": k, "q": q, "times": ts, "x": r.random() < 0.3})
            elif slots[k]["how"] in ("grid", "ugrid", "sgrid", "ds") and r.random() < 0.5:
                steps.append({"op": "derive", "slot": k, "what": r.random()})
            else:
                steps.append({"op": "ask", "slot": k, "q": q})
        times = [files.when(f, {}, {"when": x}).isoformat() for x in (0, 0.5, 1)] + STATIC_T[:5]
        return {"kind": "file", "file": f, "steps": steps, "configs": gen_configs(r, times, n)}
    spec = G.gen_world(r)
    for v in spec["vars"]:
        d = spec["depths"][v["depth"]] if v.get("depth") is not None else {}
        if d.get("time") is None and r.random() < 0.5 and not any(k in x["vars"] for x in spec["vvars"] for k in range(len(spec["vars"])) if spec["vars"][k] is v):
            v["time"] = None
        if v.get("time") is not None and spec["times"][v["time"]]["n"] == 1 and not v.get("static") and d and r.random() < 0.4:
            v["dfirst"] = True
    qg = G.QGen(r, spec, big=0.02, mutate=0.4)
    n = r.choice([6, 10, 16]) if tier == "quick" else r.choice([10, 20, 40])
    steps = []
    while len(steps) < n:
        x = r.random()
        if x < 0.15:
            steps.append({"op": "derive", "slot": r.randrange(len(spec["grids"])), "what": r.random()})
            continue
        q = qg.draw()
        if "t" in q and r.random() < 0.1:
            q = dict(q, t=None)
        if q["q"] in ("var", "varc", "vvar", "vvarc") and world_static(spec, q) and r.random() < 0.8:
            q = dict(q, opts={k: v for k, v in q.get("opts", {}).items() if k != "extrapolate"})
            ts = r.sample(STATIC_T, 3)
            own = [spec["vars"][i]["time"] for i in ([q["o"]] if q["q"] in ("var", "varc") else spec["vvars"][q["o"]]["vars"])]
            if own[0] is not None and r.random() < 0.5:     # the very time the data have
                ts[r.randrange(3)] = time_list(spec["times"][own[0]])[0].isoformat()
            steps.append({"op": "const", "q": q, "times": ts, "x": r.random() < 0.3})
        else:
            steps.append({"op": "ask", "q": q})
    ts = [q["q"]["t"] for q in steps if q["op"] == "ask" and q["q"].get("t")] + STATIC_T[:5]
    return {"kind": "world", "spec": spec, "steps": steps, "configs": gen_configs(r, ts, n)}


def moving_depth(s, v):
    return bool(v.get("z") and s.get("sigma") and s.get("zeta", True) and len(s.get("hours") or ()) > 1)


def is_static(s, ld):
    """no time, or a single one, in what is asked"""
    if ld["how"] == "var":
        vs = [ld["var"]]
    elif ld["how"] == "vec":
        vs = ld["vars"]
    else:
        return False
    vs = [v for v in s["vars"] if v["key"] in vs or ld.get("defaults") is not None]
    return not any((v.get("t") and len(s.get("hours") or ()) > 1) or moving_depth(s, v) for v in vs)


def world_static(spec, q):
    ids = [q["o"]] if q["q"] in ("var", "varc") else spec["vvars"][q["o"]]["vars"]
    for i in ids:
        v = spec["vars"][i]
        for t in (v.get("time"), spec["depths"][v["depth"]].get("time") if v.get("depth") is not None else None):
            if t is not None and spec["times"][t]["n"] > 1:
                return False
    return True


# ---------------------------------------------------------------- one execution
def set_clock(cfg, i):
    for step, t, adv in cfg["clock"]["set"]:
        if step == i:
            shim().gsim_clock_set(ctypes.c_longlong(t), ctypes.c_longlong(adv))
            return


def one(fn):
    try:
        return canon(fn())
    except Exception as e:      # noqa: BLE001
        return ("exc", type(e).__name__)


def twin(v):
    """a time-dependent copy: the same field at two times, far apart"""
    import gridded
    d = v.data[...] if not isinstance(v.data, np.ndarray) else v.data
    d = np.ma.asarray(d)
    if hasattr(v.data, "dimensions") and isinstance(v.grid, gridded.Grid_R) and d.shape[-1] == d.shape[-2]:
        raise LookupError("only the names of the dimensions say which is which")
    kw = {}
    for k in ("surface_boundary_condition", "bottom_boundary_condition"):
        if getattr(v, k, None):
            kw[k] = getattr(v, k)
    if v.dimension_ordering[:2] == ["depth", "time"]:
        d = np.ma.array(np.swapaxes(d, 0, 1))
    d = np.ma.concatenate([d, d]) if "time" in v.dimension_ordering else np.ma.stack([d, d])
    return gridded.Variable(name="twin", units=v.units, time=gridded.Time([dt.datetime(1700, 1, 1), dt.datetime(2700, 1, 1)]), data=d,
                            grid=v.grid, depth=v.depth, location=v.location, fill_value=v.fill_value, **kw)


def const_answers(o, ts, call):
    """(answers at the times, answers of time-dependent copies at those times or None)"""
    from gridded.variable import Variable, VectorVariable
    got = [one(lambda: call(o, t)) for t in ts]
    tw = None
    try:
        if isinstance(o, Variable):
            t2 = twin(o)
        elif isinstance(o, VectorVariable):
            t2 = VectorVariable(name="twin", units=o.units, variables=[twin(v) for v in o.variables])
        tw = [one(lambda: call(t2, t)) for t in ts]
    except Exception as e:      # noqa: BLE001
        tw = type(e).__name__
    return got, tw


def axis_answers(o, ts):
    """What the axes of a static object say of those times: index and weight, one list per axis and way of asking."""
    from gridded.variable import Variable
    vs = [o] if isinstance(o, Variable) else o.variables
    out = []
    for v in vs:
        if v.time is None or len(v.time) != 1:
            continue
        for m in ("index_of", "interp_alpha"):
            for x in (False, True):
                out.append([one(lambda: getattr(v.time, m)(t, x)) for t in ts])
    return out


def levels_answers(o, t, P, kw):
    """For static data on fixed levels: [(level, answer at points on the level, answer of that level's field alone)]"""
    import gridded
    from gridded.depth import L_Depth
    from gridded.variable import Variable, VectorVariable
    vs = [o] if isinstance(o, Variable) else o.variables
    if not all(isinstance(v.depth, L_Depth) and v.depth is vs[0].depth and v.dimension_ordering[0] == "depth"
               and v.data.shape[0] == v.depth.num_levels > 1 for v in vs) or P.shape[1] != 3:
        return []
    z = np.asarray(vs[0].depth.depth_levels[...], float)
    flat = []
    for k in range(len(z)):
        parts = []
        for v in vs:
            d = np.ma.array(v.data[k], copy=True)
            if v.dimension_ordering[1] == "time":
                d = d[0]
            if isinstance(v.grid, gridded.Grid_R) and d.shape[0] == d.shape[1]:
                return []
            parts.append(Variable(name="level", units=v.units, data=d, grid=v.grid, location=v.location, fill_value=v.fill_value))
        flat.append(parts[0] if isinstance(o, Variable) else VectorVariable(name="level", units=o.units, variables=parts))
    out = []
    for k in range(len(z)):
        Q = P.copy()
        Q[:, 2] = z[k]
        kw2 = {a: b for a, b in kw.items() if a != "unmask"}
        flat_a = one(lambda: flat[k].at(Q, t, **kw2))
        got = one(lambda: o.at(Q, t, surface_boundary_condition="extrapolate", bottom_boundary_condition="extrapolate", **{
            a: b for a, b in kw2.items() if not a.endswith("condition")}))
        masked = any(np.ma.is_masked(v.data[...]) for v in vs)
        out.append((k, got, flat_a, masked))
    return out


def level_ok(a, b, masked):
    """a: at a level of the column; b: the level alone; a masked value of a neighbouring level may hide the column's"""
    if a[0] == b[0] == "arr" and masked and a[1] == b[1]:
        m = a[3]
        return not (b[3] & ~m).any() and bool(np.allclose(a[2][~m], b[2][~m], rtol=1e-9, atol=1e-12))
    return same(a, b)


def derived(g, what):
    """{name: value} of the topology the grid can work out"""
    kind = "UGrid" if hasattr(g, "faces") and hasattr(g, "build_edges") else "SGrid" if hasattr(g, "node_lon") and hasattr(g, "build_celltree") else None
    if kind is None:
        return {}
    m = GRID_DERIVED[kind][int(what * len(GRID_DERIVED[kind]))]
    out = {m: one(lambda: getattr(g, m)() and None)}
    for k in ("edges", "face_face_connectivity", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates"):
        if hasattr(g, k):
            out[m + " " + k] = one(lambda: getattr(g, k))
    return out


def perform(case, cfg, where):
    """The history under one configuration; list of {name: canonical value} plus the checks made within it."""
    os.environ["TZ"] = cfg["tz"]
    time.tzset()
    warnings.simplefilter("ignore")
    set_clock(cfg, 0)
    from gridded.time import Time
    if cfg.get("warm"):         # something else was loaded earlier in this process
        Time.constant_time()
        Time()
    out = []
    if case["kind"] == "world":
        from .world import World
        w = World(case["spec"])
    else:
        sc = store.Scratch()
        sc.dir = where
        slots = []
    for i, st in enumerate(case["steps"]):
        if i:
            set_clock(cfg, i)
        rec = {}
        op = st["op"]
        if case["kind"] == "world":
            if op == "ask":
                rec["answer"] = ask_world(w, st["q"])
            elif op == "derive":
                rec = derived(w.grids[st["slot"]], st["what"])
            else:
                q = st["q"]
                o = (w.vars if q["q"] in ("var", "varc") else w.vvars)[q["o"]]
                from .query import points
                P = np.array(points(q["p"]), float)
                opts = dict(q.get("opts", {}))
                if st["x"]:
                    opts["extrapolate"] = True
                ts = [dt.datetime.fromisoformat(t) for t in st["times"]]
                rec["const"], rec["twin"] = const_answers(o, ts, lambda o, t: o.at(P, t, **opts))
                rec["axis"] = axis_answers(o, ts)
                if P.ndim == 2:
                    rec["levels"] = levels_answers(o, dt.datetime.fromisoformat(st["times"][0]), P, opts)
        else:
            s = case["file"]
            if op == "load":
                try:
                    x = files.load(s, st["ld"], sc)
                except Exception as e:      # noqa: BLE001
                    x = None
                    rec["load"] = ("exc", type(e).__name__)
                slots.append((st["ld"], x))
                if x is not None:
                    rec.update(files.snap(x))
                    if getattr(x, "variables", None) is not None:
                        rec["order of variables"] = canon([getattr(k, "name", k) for k in x.variables])
                    for k in ("attributes",):
                        if isinstance(getattr(x, k, None), dict):
                            rec["order of attributes"] = canon(list(x.attributes))
            elif st["slot"] >= len(slots) or slots[st["slot"]][1] is None:
                pass
            else:
                ld, x = slots[st["slot"]]
                if op == "ask":
                    rec = files.ask(x, s, ld, st["q"])
                elif op == "derive":
                    rec = derived(getattr(x, "grid", x), st["what"])
                else:
                    P = np.array(st["q"]["pts"], float)
                    kw = {"extrapolate": True} if st["x"] else {}
                    ts = [dt.datetime.fromisoformat(t) for t in st["times"]]
                    rec["const"], rec["twin"] = const_answers(x, ts, lambda o, t: o.at(P, t, **kw))
                    rec["axis"] = axis_answers(x, ts)
                    rec["levels"] = levels_answers(x, dt.datetime.fromisoformat(st["times"][0]), P, kw)
        out.append(rec)
    reads = shim().gsim_clock_reads()
    return out, reads


def label(case, st):
    if case["kind"] == "world":
        return st["q"]["q"] if "q" in st else "grid"
    return f"{case['file']['conv']}.{st['ld']['how'] if st['op'] == 'load' else case_ld(case, st)['how']}"


def case_ld(case, st):
    return [x["ld"] for x in case["steps"] if x["op"] == "load"][st["slot"]]


# ---------------------------------------------------------------- judging
def inside(case, i, st, rec, who):
    """constancy within one execution"""
    got, tw = rec["const"], rec["twin"]
    for t, a in zip(st["times"][1:], got[1:]):
        if not same(a, got[0]):
            return {"kind": f"static:{label(case, st)}", "step": i,
                    "what": f"step {i} ({who}): static data asked at {st['times'][0]} gave {show(got[0])} but at {t} {show(a)}"}
    for line in rec["axis"]:
        for t, a in zip(st["times"][1:], line[1:]):
            if not same(a, line[0]):
                return {"kind": f"axis:{label(case, st)}", "step": i,
                        "what": f"step {i} ({who}): the time axis of static data gave {show(line[0])} for {st['times'][0]} but {show(a)} for {t}"}
    if isinstance(tw, list):
        for t, a, b in zip(st["times"], got, tw):
            if not same(a, b):
                return {"kind": f"twin:{label(case, st)}", "step": i,
                        "what": f"step {i} ({who}): static data asked at {t} gave {show(a)}, the same field given at two times {show(b)}"}
    for k, a, b, masked in rec.get("levels", ()):
        if not level_ok(a, b, masked):
            return {"kind": f"level:{label(case, st)}", "step": i,
                    "what": f"step {i} ({who}): static data asked at depth level {k} gave {show(a)}, the field of that level alone gives {show(b)}"}
    return None


def run(case):
    st = {"checked": 0}
    nontriv, samples = set(), set()
    h = hashlib.sha256()
    with store.Scratch() as sc:
        if case["kind"] == "file":
            engine.must(engine.fork_call(lambda: files.prepare(case["file"], sc)))
        results = []
        for cfg in case["configs"]:
            res = zygote.get(cfg["hash"]).call("gsim.c09", "perform", case, cfg, sc.dir)
            results.append(res)
    v = None
    ref = results[0]
    if ref[0] != "ok":
        raise engine.Died(f"reference: {ref}")
    ref, _ = ref[1]
    for n, (cfg, res) in enumerate(zip(case["configs"], results)):
        who = f"hash seed {cfg['hash']}, zone {cfg['tz']}, clock {cfg['clock']['pattern']}"
        st["fault:clock_" + cfg["clock"]["pattern"]] = st.get("fault:clock_" + cfg["clock"]["pattern"], 0) + 1
        st["fault:hash_seed_" + cfg["hash"]] = st.get("fault:hash_seed_" + cfg["hash"], 0) + 1
        st["fault:clock_jumps"] = st.get("fault:clock_jumps", 0) + len(cfg["clock"]["set"]) - 1
        tt = [ns("2020-01-01T12:00:00")] + [x[1] for x in cfg["clock"]["set"]]
        st["simyears"] = st.get("simyears", 0) + sum(abs(a - b) for a, b in zip(tt, tt[1:])) // (365 * 86400 * 10 ** 9)
        if res[0] != "ok":
            if res[0] == "timeout":
                raise engine.Died("timeout")
            v = {"kind": "process", "step": 0, "what": f"the history failed ({str(res)[-300:]}) under {who}, it works in the reference"}
            break
        recs, reads = res[1]
        st["probe:clock_reads"] = st.get("probe:clock_reads", 0) + reads
        for i, (s, a, b) in enumerate(zip(case["steps"], ref, recs)):
            if "const" in b:
                st["checked"] += 2 * len(b["const"])
                st["probe:constancy"] = st.get("probe:constancy", 0) + 1
                st["checked"] += len(b.get("levels", ()))
                st["probe:levels"] = st.get("probe:levels", 0) + len(b.get("levels", ()))
                st["probe:twins"] = st.get("probe:twins", 0) + isinstance(b["twin"], list)
                v = inside(case, i, s, b, who)
                if v:
                    break
                flat = {"const": ("seq", b["const"], (len(b["const"]),)), "axis": ("seq", sum(b["axis"], []), ())}
                rflat = {"const": ("seq", a["const"], (len(a["const"]),)), "axis": ("seq", sum(a["axis"], []), ())}
            else:
                flat, rflat = b, a
            for k in sorted(set(flat) | set(rflat)):
                x, y = rflat.get(k), flat.get(k)
                st["checked"] += 1
                if n == 0:
                    h.update(show(y).encode())
                if x is None or y is None or not same(x, y):
                    v = {"kind": f"config:{s['op']}:{label(case, s)}", "step": i,
                         "what": f"step {i} ({s['op']} {label(case, s)}): {k} is {show(y) if y is not None else 'absent'} under {who}, "
                                 f"in the reference it is {show(x) if x is not None else 'absent'}"}
                    break
                if y[0] != "exc" and n:
                    nontriv.add(f"{label(case, s)}|{s['op']}|{k.split('.')[-1]}|{cfg['clock']['pattern']}|{cfg['hash']}|{cfg['tz'][:3]}")
            samples.add(f"{s['op']} {label(case, s)} under {who}")
            if v:
                break
        if v:
            break
    st["set:nontrivial"], st["set:samples"] = nontriv, set(sorted(samples)[:1])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    for i in range(len(case["configs"])):
        if i and len(case["configs"]) > 1:
            yield dict(case, configs=case["configs"][:i] + case["configs"][i + 1:])
    if case["kind"] == "world":
        yield from engine.shrink_steps(case, "steps")
    else:
        loads = [i for i, s in enumerate(case["steps"]) if s["op"] == "load"]
        for c in engine.shrink_steps({"steps": [s for s in case["steps"] if s["op"] != "load"]}, "steps"):
            yield dict(case, steps=[case["steps"][i] for i in loads] + c["steps"])
    for i, c in enumerate(case["configs"]):
        if i and (len(c["clock"]["set"]) > 1 or c.get("warm") or c["tz"] != "UTC"):
            d = copy.deepcopy(case)
            d["configs"][i]["clock"]["set"] = c["clock"]["set"][:1]
            d["configs"][i]["warm"] = False
            d["configs"][i]["tz"] = "UTC"
            yield d
