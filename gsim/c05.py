"""C05: answers follow the current state after reassignment; rejected changes do nothing."""
import copy
import datetime as dt
import hashlib

import numpy as np

from . import engine
from . import gen as G
from .canon import canon, same, show
from .query import _arr, ask, state_of_time
from .world import World, depth_levels, r_arrays, time_list, u_arrays, var_array

PLAN = {"quick": {"runs": 4000, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "probe:set_data", "probe:set_time",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one query of a history with reassignments compared with the same query on an object freshly "
        "built with the state the model says it has; non-trivial = asked after at least one accepted or rejected "
        "change; distinct = (last change, query kind, options, was asked before the change)")
MEASURE = "distinct (change, query) pairs"
COMPONENTS = {"real": ["gridded (all)", "numpy", "scipy", "cell_tree2d", "fork for the oracle"],
              "stub": ["data source stand-ins for some variables"]}
ASSUMPTIONS = ["changes modelled: Variable.data, Variable.time, VectorVariable.time, Time.tz_offset, Time.displacement, "
               "Time.data, UGrid.nodes, UGrid.faces (replaced, scaled, removed), fill value, units, boundary conditions, surface and bathymetry data, L_Depth.depth_levels, ROMS_Depth.vtransform, depth boundary conditions, surface and bathymetry variables, VectorVariable.units, Variable.dimension_ordering (to what it was), Grid_R.node_lon/node_lat, Variable.grid, Variable.depth; replaced arrays keep the shapes the grid needs",
               "a change that should be rejected but is accepted ends the judging of that history"]


def gen(seed, i, tier):
    r = G.case_rng(seed, "C05", i)
    spec = G.gen_world(r, uvars=False, small=True, src=r.random() < 0.2, shared_time=False)
    for v in spec["vars"]:      # every time axis is an object the caller can reach
        v["tform"] = "obj"
        if v["time"] is not None and v.get("depth") is None and r.random() < 0.3:
            spec["times"].append({**spec["times"][v["time"]], "tz": r.choice([None, 0, 5])})
            v["time"] = len(spec["times"]) - 1
    for vv in spec["vvars"]:
        a, b = vv["vars"]
        spec["vars"][b]["time"] = spec["vars"][a]["time"]
    for k, v in enumerate(spec["vars"]):    # some do not say where on the grid their data are
        if r.random() < 0.2 and kind_of(spec, k) == "S":
            v["noloc"] = True
    spec0 = copy.deepcopy(spec)
    qg = G.QGen(r, spec, big=0.02, mutate=r.choice([0.2, 0.5]), deny=("tz_offset", "displacement", "eq"))
    n = r.choice([4, 7, 10, 15]) if tier == "quick" else r.choice([6, 12, 20, 35])
    steps = []
    while len(steps) < n:
        x = r.random()
        if steps and x < 0.35:
            c = change(r, spec) if r.random() < 0.72 else bad(r, spec)
            if c is None:
                continue
            steps.append(c)
            spec = apply_model(spec, c)
            qg.spec = spec
            if c.get("set") == "vunits":
                steps.append({"ask": {"q": "state", "of": ["vvar", c["o"]]}})
            old = [s["ask"] for s in steps if "ask" in s]
            if old:
                steps.append({"ask": copy.deepcopy(r.choice(old[-4:]))})
            k = c.get("set") or c["bad"]
            if r.random() < 0.5 and k in ("data", "time", "vtime", "nodes", "faces"):
                steps.append({"ask": {"q": "state", "of": [{"data": "var", "time": "var", "vtime": "vvar"}.get(k, "grid"), c["o"]]}})
            if c.get("set") in ("time", "vtime") and r.random() < 0.6:     # the caller shifts the new axis
                steps.append({"set": r.choice(["disp", "tdata", "shift"]), "o": len(spec["times"]) - 1, "tz": r.choice([2, -6]), "hours": r.choice([1, -5]),
                              "start": r.randrange(0, 86400), "step": r.choice([60, 3600])})
                spec = apply_model(spec, steps[-1])
                qg.spec = spec
                for k in [c["o"]] if c["set"] == "time" else spec["vvars"][c["o"]]["vars"]:
                    steps.append({"ask": {"q": "state", "of": ["var", k]}})
                if old:
                    steps.append({"ask": copy.deepcopy(r.choice(old[-4:]))})
        else:
            steps.append({"ask": qg.draw() if r.random() < 0.9 else about(r, spec)})
    return {"spec": spec0, "steps": steps}


def kind_of(spec, v):
    return spec["grids"][spec["vars"][v]["grid"]]["kind"]


def about(r, spec):
    k = r.choice(["var", "vvar", "grid"] if spec["vvars"] else ["var", "grid"])
    return {"q": "state", "of": [k, r.randrange(len(spec[k + "s"]))]}


# ---------------------------------------------------------------- changes and their model
def face_vars(spec, g):
    return any(v["grid"] == g and v["loc"] == "face" for v in spec["vars"])


def exchangeable(spec, i, v):
    """Whether the first dimension of a variable's data can be turned from times into levels, or the other way."""
    if any(i in vv["vars"] for vv in spec["vvars"]) or v["grid"] in spec.get("dsets", []) or v.get("noloc") or v.get("static"):
        return False
    if v.get("depth") is None:
        return v["time"] is not None and spec["times"][v["time"]]["n"] > 1
    d = spec["depths"][v["depth"]]
    return v["time"] is None and d["kind"] == "L" and not v.get("layers") and d["n"] > 1


def change(r, spec):
    kinds = ["data"] * 4 + ["shift"] * 3 + ["time", "time", "tdata", "tdata", "disp", "vattr"]
    ds = [i for i, d in enumerate(spec["depths"]) if d["kind"] != "L"]
    if ds:
        kinds += ["zeta", "bathymetry"]
    ls = [i for i, d in enumerate(spec["depths"]) if d["kind"] == "L"]
    if ls:
        kinds += ["levels", "vdepth"]
    ms = [i for i, d in enumerate(spec["depths"]) if d["kind"] == "ROMS"]
    if ms:
        kinds += ["vt"]
    rs = [i for i, g in enumerate(spec["grids"]) if g["kind"] == "R"]
    if rs:
        kinds += ["lonlat"] * 2
    free = [i for i, v in enumerate(spec["vars"]) if v["grid"] not in spec.get("dsets", []) and not v.get("noloc") and
            (v.get("depth") is None or spec["depths"][v["depth"]]["kind"] == "L")]
    if free:
        kinds += ["vgrid"]
    if spec["vvars"]:
        kinds += ["vtime"] * 3 + ["vunits"]
    if spec["depths"]:
        kinds += ["dbc"]
    kinds += ["order"] if r.random() < 0.3 else []
    ax = [i for i, v in enumerate(spec["vars"]) if exchangeable(spec, i, v)]
    if ax:
        kinds += ["axes"] * 2
    us = [i for i, g in enumerate(spec["grids"]) if g["kind"] == "U"]
    if us:
        kinds += ["nodes", "faces"] * 2
    k = r.choice(kinds)
    if k == "data":
        i = r.randrange(len(spec["vars"]))
        c = {"set": "data", "o": i, "seed": r.randrange(10**6)}
        if r.random() < 0.4:
            del c["seed"]
            c["mod"] = ["one", r.randrange(10**6), r.choice([1.0, -0.001])] if r.random() < 0.5 else ["all", r.choice([1e-6, 1e-3, -2.0])]
        if r.random() < 0.3:
            c["alias"] = True       # written into the array the variable has, which is then assigned again
        return c
    if k == "vattr":
        i = r.randrange(len(spec["vars"]))
        n = r.choice(["fill", "units", "surface_boundary_condition", "bottom_boundary_condition"])
        if spec["vars"][i].get("depth") is None and n.endswith("condition"):
            n = "fill"
        return {"set": k, "o": i, "name": n, "to": {"fill": r.choice([0, -5.5, 9]), "units": r.choice(["cm/s", "K"])}.get(n, r.choice(["mask", "extrapolate"]))}
    if k in ("zeta", "bathymetry"):
        return {"set": k, "o": r.choice(ds), "seed": r.randrange(1, 10**6), "whole": r.random() < 0.4}
    if k == "vunits":
        return {"set": k, "o": r.randrange(len(spec["vvars"])), "to": r.choice(["cm/s", "K"])}
    if k == "dbc":
        return {"set": k, "o": r.randrange(len(spec["depths"])), "name": r.choice(["sbc", "bbc"]), "to": r.choice(["mask", "extrapolate"])}
    if k == "order":
        return {"set": k, "o": r.randrange(len(spec["vars"]))}
    if k in ("levels", "lonlat", "vgrid"):
        return {"set": k, "o": r.choice({"levels": ls, "lonlat": rs, "vgrid": free}[k]), "seed": r.randrange(1, 10**6)}
    if k == "axes":
        return {"set": k, "o": r.choice(ax), "seed": r.randrange(1, 10**6)}
    if k == "vt":
        o = r.choice(ms)
        return {"set": k, "o": o, "to": 3 - spec["depths"][o].get("vt", 2)}
    if k == "vdepth":
        o = [i for i, v in enumerate(spec["vars"]) if v.get("depth") in ls]
        return {"set": k, "o": r.choice(o), "seed": r.randrange(1, 10**6)} if o else None
    if k in ("shift", "disp", "tdata"):
        o = r.randrange(len(spec["times"]))
        if k == "shift":
            return {"set": "shift", "o": o, "tz": r.choice([0, 1, -7, 5.5, -3, None])}
        if k == "disp":
            if spec["times"][o].get("disp"):
                return None
            return {"set": "disp", "o": o, "hours": r.choice([1, -5, 30])}
        if r.random() < 0.4:        # times += something
            return {"set": "tdata", "o": o, "by": r.choice([0.25, 1, 1800, -7200])}
        return {"set": "tdata", "o": o, "start": r.randrange(0, 86400), "step": r.choice([60, 1800, 3600])}
    if k in ("time", "vtime"):
        pool = range(len(spec["vvars"] if k == "vtime" else spec["vars"]))
        o = r.choice(list(pool))
        v = spec["vars"][spec["vvars"][o]["vars"][0]] if k == "vtime" else spec["vars"][o]
        if v["time"] is None:
            return None
        n = spec["times"][v["time"]]["n"]
        if r.random() < 0.3:        # another axis that says the same
            old = spec["times"][v["time"]]
            same = {a: old[a] for a in ("n", "start", "step", "steps") if a in old}
            return {"set": k, "o": o, "t": {**same, "tz": old.get("tz"), "form": "obj" if r.random() < 0.7 or old.get("tz") is not None else "list"}}
        return {"set": k, "o": o, "t": {"n": n, "start": r.randrange(0, 86400), "step": r.choice([60, 3600]), "tz": None,
                                          "form": r.choice(["obj", "list", "array"])}}
    o = r.choice(us)
    c = {"set": k, "o": o, "seed": r.randrange(1, 10**6)}
    if k == "nodes":
        c["scale"] = r.choice([0.2, 0.2, 0.2, 3e-6])
    if r.random() < 0.2:
        c["alias"] = True
    elif k == "faces" and r.random() < 0.2:
        c["del"] = True
    if k == "faces" and not face_vars(spec, o) and r.random() < 0.4:
        g = spec["grids"][o]
        tot = (g["nx"] - 1) * (g["ny"] - 1) * 2
        c["nfaces"] = r.randint(max(2, tot // 2), tot)
    return c


def bad(r, spec):
    kinds = ["data"] * 3 + ["time", "time", "tz", "disp", "loc"]
    if spec["vvars"]:
        kinds += ["vtime"] * 2
    us = [i for i, g in enumerate(spec["grids"]) if g["kind"] == "U"]
    if us:
        kinds += ["nodes", "faces"]
    k = r.choice(kinds)
    if k == "loc":
        return {"bad": k, "o": r.randrange(len(spec["vars"])), "how": "unknown"}
    if k in ("data", "time", "vtime"):
        o = r.randrange(len(spec["vvars"] if k == "vtime" else spec["vars"]))
        v = spec["vars"][spec["vvars"][o]["vars"][0]] if k == "vtime" else spec["vars"][o]
        if k == "data" and kind_of(spec, o) != "R" and r.random() < 0.3:
            return {"bad": k, "o": o, "how": "shape"}
        if v["time"] is None:
            return None
        n = spec["times"][v["time"]]["n"]
        if k == "data":
            return {"bad": k, "o": o, "how": "length"} if n > 1 else None
        return {"bad": k, "o": o, "how": r.choice(["length", "unsorted", "dup", "type", "strings", "read"] if n > 1 else
                                                       ["type", "strings", "length"])}
    if k == "tz":
        ok = [i for i, t in enumerate(spec["times"]) if t.get("tz") is not None]
        return {"bad": "tz", "o": r.choice(ok), "how": r.choice(["str", "huge"])} if ok else None
    if k == "disp":
        ok = [i for i, t in enumerate(spec["times"]) if t.get("disp")]
        if ok:
            return {"bad": "disp", "o": r.choice(ok), "how": "twice"}
        return {"bad": "disp", "o": r.randrange(len(spec["times"])), "how": "str"}
    return {"bad": k, "o": r.choice(us), "how": r.choice(["range", "neg"] if k == "faces" else ["strings", "ragged"])}


def apply_model(spec, c):
    """The specification of the world after change c."""
    if "set" not in c:
        return spec
    spec = copy.deepcopy(spec)
    k, o = c["set"], c["o"]
    if k == "data":
        v = spec["vars"][o]
        if "mod" in c:
            v["mods"] = v.get("mods", []) + [c["mod"]]
        else:
            v["seed"] = c["seed"]
            v.pop("mods", None)
    elif k == "vattr":
        spec["vars"][o][c["name"]] = c["to"]
    elif k in ("zeta", "bathymetry"):
        spec["depths"][o]["zseed" if k == "zeta" else "hseed"] = c["seed"]
    elif k == "dbc":
        spec["depths"][o][c["name"]] = c["to"]
    elif k == "vunits":
        spec["vvars"][o]["units"] = c["to"]
        for j in spec["vvars"][o]["vars"]:
            spec["vars"][j]["units"] = c["to"]
    elif k == "levels":
        spec["depths"][o]["seed"] = c["seed"]
    elif k == "vt":
        spec["depths"][o]["vt"] = c["to"]
    elif k == "lonlat":
        spec["grids"][o]["seed"] = c["seed"]
    elif k == "vdepth":
        spec["depths"].append({**spec["depths"][spec["vars"][o]["depth"]], "seed": c["seed"]})
        spec["vars"][o]["depth"] = len(spec["depths"]) - 1
    elif k == "vgrid":
        spec["grids"].append({**spec["grids"][spec["vars"][o]["grid"]], "seed": c["seed"]})
        spec["vars"][o]["grid"] = len(spec["grids"]) - 1
    elif k == "axes":
        v = spec["vars"][o]
        if v.get("depth") is None:
            spec["depths"].append({"kind": "L", "n": spec["times"][v["time"]]["n"], "seed": c["seed"]})
            v["time"], v["depth"] = None, len(spec["depths"]) - 1
        else:
            spec["times"].append({"n": spec["depths"][v["depth"]]["n"], "start": c["seed"] % 86400, "step": 3600, "tz": None, "form": "list"})
            v["time"], v["depth"] = len(spec["times"]) - 1, None
        v.pop("tform", None)
    elif k == "shift":
        t = spec["times"][o]
        if t.get("tz") is not None and c["tz"] is not None:
            t["start"] += (c["tz"] - t["tz"]) * 3600
        t["tz"] = c["tz"]
    elif k == "disp":
        spec["times"][o]["start"] += c["hours"] * 3600
        spec["times"][o]["disp"] = True
    elif k == "tdata":
        t = spec["times"][o]
        if "by" in c:
            t["start"] += c["by"]
        else:
            t["start"], t["step"] = c["start"], c["step"]
            t.pop("steps", None)
    elif k in ("time", "vtime"):
        spec["times"].append({**c["t"], "form": "list"})
        for j in (spec["vvars"][o]["vars"] if k == "vtime" else [o]):
            spec["vars"][j]["time"] = len(spec["times"]) - 1
    elif k == "nodes":
        spec["grids"][o]["nmod"] = c["seed"]
        spec["grids"][o]["nscale"] = c["scale"]
    elif k == "faces":
        spec["grids"][o]["fmod"] = c["seed"]
        spec["grids"][o]["one_based"] = False       # the new faces are given counting from zero
        spec["grids"][o].pop("nfaces", None)
        if c.get("nfaces"):
            spec["grids"][o]["nfaces"] = c["nfaces"]
    return spec


class FailingTimes:
    """A sequence of times that cannot be read."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __iter__(self):
        raise OSError("simulated read failure")

    def __getitem__(self, i):
        raise OSError("simulated read failure")

    def __array__(self, dtype=None, copy=None):
        raise OSError("simulated read failure")


def apply_real(w, spec, c, new):
    """The same change on the real objects (spec: before, new: after)."""
    import gridded
    from gridded.depth import L_Depth
    o = c["o"]
    if "set" in c:
        k = c["set"]
        if k == "data":
            a = var_array(new, new["vars"][o])
            d = w.vars[o].data
            if c.get("alias") and isinstance(d, np.ndarray) and d.flags.writeable:
                d[...] = a
                w.vars[o].data = d
            else:
                w.vars[o].data = w._wrap(a, new["vars"][o])
        elif k == "vattr":
            setattr(w.vars[o], "fill_value" if c["name"] == "fill" else c["name"], c["to"])
        elif k in ("zeta", "bathymetry"):
            x = World({**new, "vars": [], "vvars": [], "dsets": []}).aux[o][k]
            if c.get("whole"):      # another variable, on the grid and with the times of the one it replaces
                old = w.aux[o][k]
                w.aux[o][k] = gridded.Variable(name=k, grid=old.grid, data=x.data, time=old.time, location="node")
                setattr(w.depths[o], k, w.aux[o][k])
            else:
                w.aux[o][k].data = x.data
        elif k == "dbc":
            setattr(w.depths[o], {"sbc": "default_surface_boundary_condition", "bbc": "default_bottom_boundary_condition"}[c["name"]], c["to"])
        elif k == "vunits":
            w.vvars[o].units = c["to"]
        elif k == "order":
            w.vars[o].dimension_ordering = list(w.vars[o].dimension_ordering)
        elif k == "levels":
            w.depths[o].depth_levels = depth_levels(new["depths"][o])
        elif k == "vt":
            w.depths[o].vtransform = c["to"]
        elif k == "lonlat":
            w.grids[o].node_lon, w.grids[o].node_lat = r_arrays(new["grids"][o])
        elif k == "vdepth":
            w.depths.append(L_Depth(terms={"depth_levels": depth_levels(new["depths"][-1])}))
            w.aux.append({})
            w.vars[o].depth = w.depths[-1]
        elif k == "axes":
            if new["vars"][o]["depth"] is None:
                w.times.append(gridded.Time(time_list(new["times"][-1])))
                w.vars[o].depth = None
                w.vars[o].time = w.times[-1]
            else:
                w.depths.append(L_Depth(terms={"depth_levels": depth_levels(new["depths"][-1])}))
                w.aux.append({})
                w.vars[o].time = None
                w.vars[o].depth = w.depths[-1]
        elif k == "vgrid":
            w.grids.append(w.make_grid(new["grids"][-1], len(w.grids)))
            w.vars[o].grid = w.grids[-1]
        elif k == "shift":
            w.times[o].tz_offset = c["tz"]
        elif k == "disp":
            w.times[o].displacement = dt.timedelta(hours=c["hours"])
        elif k == "tdata":
            if "by" in c:
                w.times[o].data += dt.timedelta(seconds=c["by"])
            else:
                w.times[o].data = np.array(time_list(new["times"][o]))
        elif k in ("time", "vtime"):
            tl = time_list(c["t"])
            f = c["t"]["form"]
            t = gridded.Time(tl, tz_offset=c["t"].get("tz")) if f == "obj" else np.array(tl) if f == "array" else tl
            x = (w.vvars if k == "vtime" else w.vars)[o]
            x.time = t
            w.times.append(x.time)
        elif k == "nodes":
            a, n = u_arrays(new["grids"][o])[0], w.grids[o].nodes
            if c.get("alias") and isinstance(n, np.ndarray) and n.flags.writeable:
                n[...] = a
                a = n
            w.grids[o].nodes = a
        elif k == "faces":
            a, n = u_arrays(new["grids"][o])[1], w.grids[o].faces
            if c.get("alias") and isinstance(n, np.ndarray) and n.flags.writeable and n.shape == a.shape:
                n[...] = a
                a = n
            if c.get("del"):
                del w.grids[o].faces
            w.grids[o].faces = a
        return
    k, how = c["bad"], c["how"]
    if k == "data":
        a = var_array(spec, spec["vars"][o])
        if how == "shape":
            v = w.vars[o]
            was = v.location
            v.location = None       # to be told from the data, which fit nothing
            try:
                v.data = np.concatenate([a, a, a, a, a], axis=-1)
            finally:
                v.location = was
            return
        w.vars[o].data = np.ma.concatenate([a, a]) if np.ma.isMA(a) else np.concatenate([a, a])
    elif k in ("time", "vtime"):
        x = (w.vvars if k == "vtime" else w.vars)[o]
        v = spec["vars"][spec["vvars"][o]["vars"][0]] if k == "vtime" else spec["vars"][o]
        n = spec["times"][v["time"]]["n"]
        tl = time_list({"n": n + 3, "step": 3600})
        x.time = {"length": tl, "unsorted": tl[:n][::-1], "dup": [tl[0]] * n, "type": 5, "strings": ["a"] * n,
                  "read": FailingTimes(n)}[how]
    elif k == "loc":
        w.vars[o].location = "nowhere"
    elif k == "tz":
        w.times[o].tz_offset = {"str": "abc", "huge": 1e12}[how]
    elif k == "disp":
        w.times[o].displacement = dt.timedelta(hours=1) if how == "twice" else "abc"
    elif k == "nodes":
        w.grids[o].nodes = [["a", "b"]] * 4 if how == "strings" else [[1.0, 2.0], [3.0]]
    elif k == "faces":
        f = np.array(u_arrays(spec["grids"][o])[1])
        f[0, 0] = 10**6 if how == "range" else -5
        w.grids[o].faces = f


def shot(w):
    """Everything the objects of the world say about themselves."""
    out = {}
    for i, v in enumerate(w.vars):
        for a in ("units", "location", "fill_value", "surface_boundary_condition", "bottom_boundary_condition"):
            out[f"v{i}.{a}"] = canon(getattr(v, a))
        out[f"v{i}.data"] = canon(_arr(v.data))
        out[f"v{i}.time"] = canon(state_of_time(v.time))
    for i, v in enumerate(w.vvars):
        out[f"vector{i}.time"] = canon(state_of_time(v.time))
        out[f"vector{i}.units"] = canon(v.units)
    for i, t in enumerate(w.times):
        out[f"time{i}.data"] = canon(state_of_time(t))
        out[f"time{i}.tz_offset"] = canon(t.tz_offset)
        out[f"time{i}.displacement"] = canon(str(t.displacement))
    for i, g in enumerate(w.grids):
        for a in ("nodes", "faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity") \
                if w.spec["grids"][i]["kind"] == "U" else ("node_lon", "node_lat"):
            x = getattr(g, a)
            out[f"grid{i}.{a}"] = canon(None if x is None else np.array(x))
    return out


def perform(case):
    w = World(case["spec"])
    spec = case["spec"]
    out = []
    for s in case["steps"]:
        if "ask" in s:
            out.append(ask(w, s["ask"]))
            continue
        new = apply_model(spec, s)
        before = shot(w) if "bad" in s else None
        try:
            apply_real(w, spec, s, new)
            out.append("ok")
        except Exception as e:      # noqa: BLE001
            out.append(f"raised {type(e).__name__}")
            if before:
                after = shot(w)
                diff = [k for k in before if not same(before[k], after[k])]
                if diff:
                    out[-1] = ("changed", diff[0], show(before[diff[0]]), show(after[diff[0]]))
        w.spec = spec = new
    return out


def run(case):
    st = {"checked": 0}
    got = engine.must(engine.fork_call(lambda: perform(case)))
    # group the queries by the model state they are asked in
    spec = case["spec"]
    groups, cur = [], []
    for i, s in enumerate(case["steps"]):
        if "ask" in s:
            cur.append((i, s["ask"]))
        elif "set" in s:
            groups.append((spec, cur))
            spec, cur = apply_model(spec, s), []
    groups.append((spec, cur))
    want = {}
    for sp, qs in groups:
        if qs:
            for (i, _), a in zip(qs, engine.pristine_answers(sp, [q for _, q in qs])):
                want[i] = a
    h = hashlib.sha256()
    nontriv, samples = set(), set()
    last, seen, v = None, set(), None
    for i, (s, g) in enumerate(zip(case["steps"], got)):
        if "ask" not in s:
            k = s.get("set") or "bad_" + s["bad"] + "_" + s["how"]
            h.update(str(g).encode())
            if "set" in s:
                if g != "ok":
                    v = {"kind": f"refused:{k}", "step": i, "what": f"step {i}: a valid change of {k}#{s['o']} {g}"}
                    break
                st["probe:set_" + k] = st.get("probe:set_" + k, 0) + 1
            else:
                if isinstance(g, tuple):
                    v = {"kind": f"rejected:{k}", "step": i, "what": f"step {i}: the rejected change {k}#{s['o']} left {g[1]} at {g[3]}; it was {g[2]}"}
                    break
                if g == "ok":
                    st["probe:bad_change_accepted"] = st.get("probe:bad_change_accepted", 0) + 1
                    st["set:accepted"] = {k}
                    break
                st["fault:" + k] = st.get("fault:" + k, 0) + 1
            last = k
            continue
        q = s["ask"]
        st["checked"] += 1
        t = f"{q['q']}#{q.get('o', 0)}"
        h.update(show(g).encode())
        if last:
            nontriv.add(f"{last}|{q['q']}|{engine.key(q.get('opts', {}))}|{engine.key(q) in seen}")
            samples.add(f"{last} then {t}" + (" (asked before)" if engine.key(q) in seen else ""))
        seen.add(engine.key(q))
        if not same(g, want[i]):
            v = {"kind": f"stale:{q['q']}", "step": i, "query": q, "last_change": last,
                 "what": f"step {i}: {t} gave {show(g)} after {last}; an object built with this state gives {show(want[i])}"}
            break
    st["set:nontrivial"], st["set:samples"] = nontriv, set(sorted(samples)[:2])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from engine.shrink_steps(case, "steps")
    for i, s in enumerate(case["steps"]):
        if "ask" in s and s["ask"].get("p", {}).get("n", 0) > 2:
            c = dict(case)
            c["steps"] = list(case["steps"])
            q = copy.deepcopy(s["ask"])
            q["p"]["n"] = max(1, q["p"]["n"] // 2)
            c["steps"][i] = {"ask": q}
            yield c
