"""C10: time-axis shifts compose, reverse and fail cleanly; lookups agree with the current times."""
import bisect
import datetime as dt
import hashlib

import numpy as np

from . import engine
from . import gen as G
from .canon import canon, same, show

PLAN = {"quick": {"runs": 12000, "budget": 240}, "thorough": {"runs": 200000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "probe:tz", "probe:disp", "probe:data")      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = state of every axis after a step, or one lookup, compared with the reference model (a list of "
        "datetimes and an offset); non-trivial = after at least one accepted shift; distinct = (sequence of shift "
        "kinds so far on that axis, checked operation)")
MEASURE = "distinct (shift sequence, operation) pairs"
COMPONENTS = {"real": ["gridded.time", "gridded.variable (interpolation in time)", "netCDF4 (diskless files)"], "stub": ["none"]}
ASSUMPTIONS = ["changes fail by themselves (wrong type, overflow, second displacement); interrupts between two statements of "
               "a setter are not injected here", "offsets from None and to None do not shift (documented)"]

EPOCH = dt.datetime(2020, 1, 1)
BASES = [EPOCH, EPOCH, EPOCH, dt.datetime(9999, 12, 30, 20), dt.datetime(1, 1, 1, 5)]
TZS = [0, 1, -7, 5.5, -3.75, 12, 1 / 3, 0.1, -0.7]


# ---------------------------------------------------------------- cases
def gen(seed, i, tier):
    r = G.case_rng(seed, "C10", i)
    base = r.randrange(len(BASES))

    def new(n_axes):
        n = r.choice([1, 2, 3, 5, 8])
        d = {"op": "new", "base": base, "steps": [r.choice([1, 60, 3600, 5400, 0.25]) for _ in range(n - 1)],
             "form": r.choice(["list", "array", "tuple", "nc"] + ["axis"] * (2 if n_axes else 0)),
             "tz": r.choice([None, 0, 0, -7, 5.5])}
        if d["form"] == "axis":
            d["of"] = r.randrange(n_axes)
            if r.random() < 0.3:
                d["raw"] = True         # from its .data
        if d["form"] == "nc" and base > 2:
            d["form"] = "list"
        if r.random() < 0.2 and d["tz"] is not None:
            d["new_tz"] = r.choice(TZS)
        if r.random() < 0.15:
            d["disp"] = r.choice([1, -2.5, 30])
        if r.random() < 0.15 and base < 3:
            d["origin"] = r.choice([0, 86400, -3600, 0.5, -0.25, 3599.999999])
        return d
    steps = [new(0)]
    n_ax = 1
    n = r.choice([4, 8, 14, 25]) if tier == "quick" else r.choice([8, 20, 40, 80])
    while len(steps) < n:
        x = r.random()
        a = r.randrange(n_ax)
        if x < 0.08 and n_ax < 5:
            steps.append(new(n_ax))
            n_ax += 1
        elif x < 0.36:
            steps.append({"op": "tz", "a": a, "v": r.choice(TZS + [None, 0, 0])})
        elif x < 0.43:
            steps.append({"op": "disp", "a": a, "v": r.choice([1, -3, 0.5, 48]), "num": r.random() < 0.4})
        elif x < 0.60:
            steps.append({"op": "bad", "a": a, "how": r.choice(["tz_str", "tz_huge", "tz_edge", "tz_edge", "disp_str", "disp_edge",
                                                           "build_unsorted", "build_newtz", "build_type"])})
        elif x < 0.63:
            how = r.choice(["iadd", "iadd", "list", "array", "tuple", "axis", "axis_raw"])
            d = {"op": "data", "a": a, "how": how}
            if how == "iadd":
                d["v"] = r.choice([0.25, 1, 3600, -5400, 1e-6])
            elif how.startswith("axis"):
                d["of"] = r.randrange(n_ax)
            else:
                d.update(base=base, steps=[r.choice([1, 60, 3600, 0.5]) for _ in range(r.choice([0, 1, 2, 4, 7]))])
            steps.append(d)
        elif x < 0.66:
            steps.append({"op": "eq", "a": a, "b": r.randrange(n_ax)})
        elif x < 0.68:
            steps.append({"op": "scribble", "a": a})
        else:
            steps.append({"op": r.choice(["index_of", "interp_alpha", "time_in_bounds", "valid_time", "var", "var"]), "a": a,
                          "at": r.choice(["in", "in", "edge", "before", "after", "mid"]), "f": round(r.random(), 6),
                          "x": r.random() < 0.4})
    return {"steps": steps}


# ---------------------------------------------------------------- model
class Axis:
    def __init__(self, times, tz, disp=False):
        self.t, self.tz, self.disp = list(times), tz, disp
        self.hist = ""

    def shifted(self, d):
        return [x + d for x in self.t]      # may overflow: nothing is changed then

    def set_tz(self, v):
        if self.tz is not None and v is not None:
            self.t = self.shifted(dt.timedelta(hours=v) - dt.timedelta(hours=self.tz))
        self.tz = v


def base_times(s):
    t = [BASES[s["base"]]]
    for k in s["steps"]:
        t.append(t[-1] + dt.timedelta(seconds=k))
    return t


def model_new(axes, s):
    a = Axis(axes[s["of"]].t if s["form"] == "axis" else base_times(s), s["tz"])
    if s.get("origin") is not None:
        a.t = a.shifted(EPOCH + dt.timedelta(seconds=s["origin"]) - a.t[0])
    if s.get("new_tz") is not None:
        a.set_tz(s["new_tz"])
    if s.get("disp") is not None:
        a.t = a.shifted(dt.timedelta(hours=s["disp"]))
        a.disp = True
    return a


def probe_time(a, s):
    t0, t1 = a.t[0], a.t[-1]
    k = s["at"]
    if k == "edge":
        return a.t[int(s["f"] * len(a.t))]
    if k == "before":
        d, lim = dt.timedelta(seconds=1 + 7000 * s["f"]), dt.datetime.min
        return t0 - d if t0 - lim > d else t0
    if k == "after":
        d, lim = dt.timedelta(seconds=1 + 7000 * s["f"]), dt.datetime.max
        return t1 + d if lim - t1 > d else t1
    if k == "mid" and len(a.t) > 1:
        i = min(int(s["f"] * (len(a.t) - 1)), len(a.t) - 2)
        return a.t[i] + (a.t[i + 1] - a.t[i]) / 2
    return t0 + (t1 - t0) * s["f"]


def model_look(a, s, t):
    n = len(a.t)
    inb = a.t[0] <= t <= a.t[-1]
    op = s["op"]
    if op == "time_in_bounds":
        return canon(inb)
    if op == "valid_time":
        return canon(None) if inb else ("exc", "OutOfTimeRangeError")
    if not inb and not s["x"] and n > 1:
        return ("exc", "OutOfTimeRangeError")
    i = 0 if n == 1 else bisect.bisect_left(a.t, t)
    if op == "index_of":
        return canon(i)
    if i > n - 1:
        al = 1.0
    elif i == 0:
        al = 0.0
    else:
        al = (t - a.t[i - 1]).total_seconds() / (a.t[i] - a.t[i - 1]).total_seconds()
    if op == "interp_alpha":
        return canon(al)
    # the variable has value 10*k*k+k at time k
    val = [10.0 * k * k + k for k in range(n)]
    if i == 0:
        x = val[0]
    elif i > n - 1:
        x = val[-1]
    else:
        x = val[i - 1] + (val[i] - val[i - 1]) * al
    return canon(np.ma.array([[x]], mask=False))


# ---------------------------------------------------------------- the real thing
def real_new(axes, s):
    import gridded
    kw = {}
    if s.get("new_tz") is not None:
        kw["new_tz_offset"] = s["new_tz"]
    if s.get("disp") is not None:
        kw["displacement"] = dt.timedelta(hours=s["disp"])
    if s.get("origin") is not None:
        kw["origin"] = EPOCH + dt.timedelta(seconds=s["origin"])
    f = s["form"]
    if f == "axis":
        src = axes[s["of"]]
        return gridded.Time(src.data if s.get("raw") else src, tz_offset=s["tz"], **kw)
    t = base_times(s)
    if f == "nc":
        import netCDF4
        with netCDF4.Dataset("gsim_axis.nc", "w", diskless=True, persist=False) as ds:
            ds.createDimension("time", len(t))
            v = ds.createVariable("time", "f8", ("time",))
            v.units = "seconds since 2020-01-01 00:00:00"
            v[:] = [(x - EPOCH).total_seconds() for x in t]
            return gridded.Time.from_netCDF(dataset=ds, varname="time", tz_offset="naive" if s["tz"] is None else s["tz"], **kw)
    t = np.array(t) if f == "array" else tuple(t) if f == "tuple" else t
    return gridded.Time(t, tz_offset=s["tz"], **kw)


_grid = None


def real_var(t):
    import gridded
    global _grid
    if _grid is None:
        _grid = gridded.Grid_U(nodes=np.array([[0.0, 0], [4, 0], [0, 4], [4, 4]]), faces=np.array([[0, 1, 2], [1, 3, 2]]))
    n = len(t)
    data = np.array([[10.0 * k * k + k] * 4 for k in range(n)])
    return gridded.Variable(name="v", grid=_grid, data=data, time=t, location="node")


def bad(ax, a, s):
    """A change that cannot work. Returns a function, or None if it does not apply now."""
    import gridded
    how = s["how"]
    far = dt.datetime.max - a.t[-1]
    near = a.t[0] - dt.datetime.min
    if how.startswith("tz") and a.tz is None:
        return None
    if how == "tz_str":
        return lambda: setattr(ax, "tz_offset", "abc")
    if how == "tz_huge":
        return lambda: setattr(ax, "tz_offset", 1e12)
    if how in ("tz_edge", "disp_edge"):
        # moves some of the times past the end (or start) of the calendar, others not
        if len(a.t) < 2:
            return None
        if far < dt.timedelta(days=400):
            h = far.total_seconds() / 3600 + (a.t[-1] - a.t[0]).total_seconds() / 7200 + 1e-3
        elif near < dt.timedelta(days=400):
            h = -(near.total_seconds() / 3600 + (a.t[-1] - a.t[0]).total_seconds() / 7200 + 1e-3)
        else:
            return None
        if how == "tz_edge":
            return lambda: setattr(ax, "tz_offset", a.tz + h)
        return None if a.disp else lambda: setattr(ax, "displacement", dt.timedelta(hours=h))
    if how == "disp_str":
        return lambda: setattr(ax, "displacement", "abc")
    if how == "build_unsorted":
        if len(a.t) < 2:
            return None
        return lambda: gridded.Time(list(a.t)[::-1])
    if how == "build_newtz":
        return lambda: gridded.Time(ax, tz_offset=None, new_tz_offset=3)
    return lambda: gridded.Time([1.5, 2.5])


def perform(case):
    real, mod, out, vars_ = [], [], [], []
    shifts = []
    for s in case["steps"]:
        op = s["op"]
        rec = {"op": op}
        if op == "new":
            if s["form"] == "axis" and s["of"] >= len(real):
                continue
            want_exc = None
            try:
                m = model_new(mod, s)
            except (OverflowError, ValueError) as e:
                want_exc = type(e).__name__
            try:
                t = real_new(real, s)
                got_exc = None
            except Exception as e:      # noqa: BLE001
                got_exc = type(e).__name__
            if bool(want_exc) != bool(got_exc):
                rec["bad"] = f"building an axis ({s}) gave {got_exc or 'no error'}, expected {want_exc or 'none'}"
            if not want_exc and not got_exc:
                real.append(t)
                mod.append(m)
                vars_.append(real_var(t))
                shifts.append("n")
            elif not real:
                break
        elif s["a"] >= len(real):
            continue
        elif op in ("tz", "disp"):
            a, x = mod[s["a"]], real[s["a"]]
            save = (list(a.t), a.tz)
            want_exc = None
            try:
                if op == "tz":
                    a.set_tz(s["v"])
                elif a.disp:
                    want_exc = "AttributeError"
                else:
                    a.t = a.shifted(dt.timedelta(hours=s["v"]))
                    a.disp = True
            except OverflowError:
                want_exc = "OverflowError"
                a.t, a.tz = save
            try:
                if op == "tz":
                    x.tz_offset = s["v"]
                else:
                    x.displacement = s["v"] if s["num"] else dt.timedelta(hours=s["v"])
                got_exc = None
            except Exception as e:      # noqa: BLE001
                got_exc = type(e).__name__
            if bool(want_exc) != bool(got_exc):
                rec["bad"] = f"setting {op} to {s['v']} gave {got_exc or 'no error'}, expected {want_exc or 'none'}"
            rec["fault"] = "overflow_or_second_displacement" if want_exc else None
            shifts[s["a"]] += "x" if want_exc else op[0]
        elif op == "bad":
            f = bad(real[s["a"]], mod[s["a"]], s)
            if f is not None:
                try:
                    f()
                    rec["accepted"] = s["how"]
                except Exception:       # noqa: BLE001
                    rec["fault"] = s["how"]
                    shifts[s["a"]] += "x"
        elif op == "data":          # the times themselves are replaced; the offset that goes with them stays
            a, x = mod[s["a"]], real[s["a"]]
            how = s["how"]
            if how.startswith("axis") and s["of"] >= len(real):
                continue
            try:
                new = (a.shifted(dt.timedelta(seconds=s["v"])) if how == "iadd" else list(mod[s["of"]].t) if how.startswith("axis")
                       else base_times(s))
            except OverflowError:
                continue
            if how == "iadd":
                x.data += dt.timedelta(seconds=s["v"])
            elif how.startswith("axis"):
                x.data = real[s["of"]] if how == "axis" else real[s["of"]].data
            else:
                x.data = np.array(new) if how == "array" else tuple(new) if how == "tuple" else list(new)
            n = len(a.t)
            a.t = new
            if len(new) != n:       # (a variable's data have to fit its times)
                vars_[s["a"]] = real_var(x)
            shifts[s["a"]] += "="
        elif op == "eq":
            if s["b"] < len(real):
                p, q = mod[s["a"]], mod[s["b"]]
                w = p.t == q.t and p.tz == q.tz
                g = bool(real[s["a"]] == real[s["b"]])
                if w != g:
                    rec["bad"] = f"axes {s['a']} and {s['b']} compare {g}, expected {w}"
        elif op == "scribble":
            arr = real[s["a"]].get_time_array()
            arr[...] = EPOCH
        else:
            a, x = mod[s["a"]], real[s["a"]]
            t = probe_time(a, s)
            w = model_look(a, s, t)
            try:
                if op == "var":
                    g = canon(vars_[s["a"]].at(np.array([[1.0, 1.0]]), time=t, extrapolate=s["x"]))
                elif op in ("index_of", "interp_alpha"):
                    g = canon(getattr(x, op)(t, extrapolate=s["x"]))
                else:
                    g = canon(getattr(x, op)(t))
            except Exception as e:      # noqa: BLE001
                g = ("exc", type(e).__name__)
            if not ((w[0] == "exc" and g[0] == "exc") or same(g, w)):
                rec["bad"] = f"{op}({t}, extrapolate={s['x']}) on axis {s['a']} gave {show(g)}, expected {show(w)}"
            rec["look"] = show(g)
        rec["hist"] = [h for h in shifts]
        rec["accepted"] = rec.get("accepted")
        if not rec.get("bad") and not rec["accepted"]:
            for k, (a, x) in enumerate(zip(mod, real)):
                if list(x.data) != a.t or x.tz_offset != a.tz or len(x) != len(a.t) or x.min_time != a.t[0] or x.max_time != a.t[-1]:
                    d = x.data[0] - a.t[0] if len(x) else "?"
                    rec["bad"] = (f"after {op} {s.get('v', s.get('how', ''))} on axis {s.get('a')}, axis {k} starts at {x.data[0]} with offset "
                                  f"{x.tz_offset}; expected {a.t[0]} and {a.tz} (difference {d})")
                    break
        out.append(rec)
        if rec.get("bad") or rec["accepted"]:
            break
    return out


def run(case):
    st = {"checked": 0}
    got = engine.must(engine.fork_call(lambda: perform(case)))
    h = hashlib.sha256()
    nontriv, samples = set(), set()
    v = None
    for i, g in enumerate(got):
        st["checked"] += 1
        h.update(repr(sorted(g.items(), key=lambda kv: kv[0])).encode())
        st["probe:" + g["op"]] = st.get("probe:" + g["op"], 0) + 1
        if g.get("fault"):
            st["fault:" + g["fault"]] = st.get("fault:" + g["fault"], 0) + 1
        if g.get("accepted"):
            st["probe:bad_change_accepted"] = 1
            break
        if any(len(x) > 1 for x in g.get("hist", [])):
            nontriv.add("/".join(g["hist"]) + "|" + g["op"])
            samples.add("/".join(g["hist"]) + " then " + g["op"])
        if g.get("bad"):
            v = {"kind": f"time:{g['op']}", "step": i, "what": f"step {i}: {g['bad']}"}
            break
    st["set:nontrivial"], st["set:samples"] = nontriv, set(sorted(samples)[:1])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from engine.shrink_steps(case, "steps")
