"""Seeded generation of worlds and queries (swarm style: every run draws its own mix)."""
import copy
import datetime as dt
import hashlib
import random

from .world import depth_levels, grid_extent, r_arrays, s_arrays, time_list, u_arrays


def case_rng(*key):
    h = hashlib.sha256("|".join(map(str, key)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))


def gen_world(r, theme=None, depth_ok=True, src=False, small=False, uvars=True, shared_time=True):
    theme = theme or r.choice(["U", "U", "S", "S", "R", "mix"])
    spec = {"grids": [], "times": [], "depths": [], "vars": [], "vvars": [], "uvars": []}
    kinds = {"U": ["U"], "S": ["S"], "R": ["R"], "mix": r.sample(["U", "S", "R"], 2)}[theme]
    nt = r.choice([1, 2, 3, 4])
    tz = r.choice([None, 0, 0, -7])
    spec["times"].append({"n": nt, "start": r.randrange(0, 86400), "step": r.choice([1, 60, 3600, 7200]), "tz": tz,
                          "form": r.choice(["list", "array", "tuple"])})
    if nt > 2 and r.random() < 0.4:
        spec["times"][0]["steps"] = [r.choice([30, 600, 3600]) for _ in range(nt - 1)]
    if r.random() < 0.35:
        # same length, other times: answers must not be mixed up
        s = dict(spec["times"][0])
        s["start"] = s["start"] + r.choice([1, 1800, 86400])
        spec["times"].append(s)
    elif shared_time and r.random() < 0.3:
        s = dict(spec["times"][0])
        s.update(form="share", of=0)
        spec["times"].append(s)
    lim = (3, 5) if small else (3, 7)
    for k in kinds:
        nx, ny = r.randint(*lim), r.randint(*lim)
        if k == "R" and nx == ny:
            nx += 1
        g = {"kind": k, "nx": nx, "ny": ny, "seed": r.randrange(10**6)}
        if k == "U":
            g["one_based"] = r.random() < 0.3
            g["jitter"] = r.choice([0.0, 0.15, 0.25])
            g["split"] = r.random() < 0.2
            g["topo"] = r.random() < 0.2
        if k == "S":
            g["pad"] = r.choice(["both", "both", "none"])
            g["mask"] = r.random() < 0.5
            g["ma"] = r.random() < 0.3
            g["expl_pad"] = r.random() < 0.5
            if r.random() < 0.25:
                g["mib"] = r.choice(["mask", "mirror"])
        spec["grids"].append(g)
        if r.random() < 0.4:
            g2 = dict(g)
            if k == "S" and r.random() < 0.5:
                g2["shift"] = [r.choice([0.25, -0.25, 1.0]), r.choice([0.0, 0.4])]
            elif k == "S" and r.random() < 0.4:
                g2["mask"] = not g["mask"]
            else:
                g2["seed"] = r.randrange(10**6)
            spec["grids"].append(g2)
    # depth systems
    if depth_ok and r.random() < 0.65:
        for _ in range(r.choice([1, 1, 2])):
            gi = r.randrange(len(spec["grids"]))
            gk = spec["grids"][gi]["kind"]
            kind = r.choice({"U": ["L", "FVCOM"], "S": ["L", "ROMS"], "R": ["L"]}[gk])
            d = {"kind": kind, "n": r.choice([2, 3, 4, 5]), "seed": r.randrange(10**6)}
            if kind == "L":
                d["asc"] = r.random() < 0.6
            else:
                d["grid"] = gi
                d["n"] = max(3, d["n"])
                d["time"] = r.choice([0, 0, None])
                if kind == "ROMS":
                    d["vt"] = r.choice([1, 2, 2])
                d["src"] = src and r.random() < 0.5
            spec["depths"].append(d)
    nv = r.choice([1, 2, 2, 3, 4])
    for _ in range(nv):
        spec["vars"].append(gen_var(r, spec, src))
    # vector variables: same grid and time, node or u/v pairs
    if r.random() < 0.6:
        base = r.randrange(len(spec["vars"]))
        b = spec["vars"][base]
        t = copy.deepcopy(b)
        t["seed"] = r.randrange(10**6)
        gs = spec["grids"][b["grid"]]
        if gs["kind"] == "S" and gs.get("pad", "both") == "both" and r.random() < 0.5:
            b["loc"], t["loc"] = "edge1", "edge2"
        spec["vars"].append(t)
        spec["vvars"].append({"vars": [base, len(spec["vars"]) - 1]})
        if r.random() < 0.4:
            spec["vvars"].append({"vars": [len(spec["vars"]) - 1, base]})
    if uvars and r.random() < 0.12:
        spec["uvars"].append({"n": 3000, "seed": r.randrange(10**6), "multi": r.random() < 0.4, "src": r.random() < 0.6})
    if r.random() < 0.4:        # elsewhere on the globe, or in metres
        off = r.choice([[-170.0, 40.0], [178.5, -20.0], [-2.0, -2.0], [356.0, 10.0], [250.0, 60.0], [512000.0, 4100000.0]])
        for g in spec["grids"]:
            g["off"] = list(off)
        if r.random() < 0.1:
            del spec["grids"][-1]["off"]
    for v in spec["vars"]:
        if r.random() < 0.12:
            v["dtype"] = r.choice(["float32", "int16", ">f4", ">f8"])
    if nt == 1:         # the data of a single time may come without a time dimension
        for v in spec["vars"]:
            if v.get("time") is not None and r.random() < 0.4:
                v["static"] = True
    if r.random() < 0.3:
        spec["dsets"] = [r.randrange(len(spec["grids"]))]
    return spec


def gen_var(r, spec, src=False):
    gi = r.randrange(len(spec["grids"]))
    gs = spec["grids"][gi]
    k = gs["kind"]
    if k == "U":
        loc = r.choice(["node", "node", "face"])
    elif k == "R":
        loc = "node"
    else:
        loc = r.choice(["node", "center", "edge1", "edge2"] if gs.get("pad", "both") == "both" else ["node", "center"])
    v = {"grid": gi, "loc": loc, "seed": r.randrange(10**6), "time": r.choice([0, 0, 0, None]),
         "masked": r.random() < 0.25, "fill": r.choice([0, -999.0, 7]), "units": r.choice(["m/s", None, "degC"])}
    if v["time"] == 0 and len(spec["times"]) > 1 and r.random() < 0.5:
        v["time"] = 1
    if k == "R":
        v["masked"] = v["masked"] and r.random() < 0.5
    if k == "U" and not v["masked"]:
        v["ma"] = r.random() < 0.3
    v["tform"] = r.choice(["obj", "obj", "list", "array"])
    ok = [i for i, d in enumerate(spec["depths"]) if d["kind"] == "L" or d["grid"] == gi]
    if ok and r.random() < 0.7:
        v["depth"] = r.choice(ok)
        d = spec["depths"][v["depth"]]
        v["layers"] = d["n"] > 2 and r.random() < 0.2
        if v["time"] is not None and v["time"] != d.get("time", v["time"]):
            v["time"] = d["time"]
        if r.random() < 0.3:
            v["surface_boundary_condition"] = r.choice(["mask", "extrapolate"])
            v["bottom_boundary_condition"] = r.choice(["mask", "extrapolate"])
    if src and r.random() < 0.8:
        v["src"] = True
    v["attrs"] = r.random() < 0.3
    return v


VARM = ("interpolate_var_to_points", "get_variable_by_index", "get_variable_at_index")


class QGen:
    """Draws queries; often a near copy of an earlier one."""

    def __init__(self, r, spec, big=0.05, mutate=0.6, kinds=None, deny=()):
        self.r, self.spec, self.pool, self.big, self.mutate, self.deny = r, spec, [], big, mutate, deny
        self.kinds = kinds

    # -- parts
    def box(self, gi):
        gs = self.spec["grids"][gi]
        ex, ey = grid_extent(gs)
        r = self.r
        ox, oy = gs.get("off", [0.0, 0.0])
        m = r.choice([0.0, 0.0, 0.6, 0.6, 3.0])
        if r.random() < 0.05:
            b = [ex + 5, ex + 6, ey + 5, ey + 6, -1, 25]
        elif r.random() < 0.5:
            b = [0.6, ex - 0.6, 0.6, ey - 0.6, 0.2, 7]
        else:
            b = [-m, ex + m, -m, ey + m, -2, 25]
        if ox and r.random() < 0.12:
            ox += r.choice([360.0, -360.0])
        return [b[0] + ox, b[1] + ox, b[2] + oy, b[3] + oy, b[4], b[5]]

    def pts(self, gi, dim):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 8, 8, 20])
        if r.random() < self.big:
            n = r.choice([1200, 2500])
        p = {"n": n, "seed": r.randrange(10**6), "dim": dim, "box": self.box(gi)}
        if r.random() < 0.15:       # a few special coordinates
            p["put"] = []
            for _ in range(r.choice([1, 1, 3])):
                row = r.randrange(n)
                if dim == 3 and r.random() < 0.6:
                    lv = [float(x) for d in self.spec["depths"] if d["kind"] == "L" for x in depth_levels(d)] or [1.0]
                    p["put"].append([row, 2, r.choice([0.0, 0.0, -0.0, 1e-7, 1e-12, -1e-9, 1e9, r.choice(lv), r.choice(lv) + 1e-8])])
                else:
                    x, y = self.corner(gi)
                    p["put"] += [[row, 0, x], [row, 1, y]]
        return p

    def corner(self, gi):
        """The place of a node of the grid, or right beside it."""
        r, gs = self.r, self.spec["grids"][gi]
        if gs["kind"] == "U":
            x, y = r.choice(u_arrays(gs)[0].tolist())
        elif gs["kind"] == "R":
            x, y = [float(r.choice(a.tolist())) for a in r_arrays(gs)]
        else:
            d = s_arrays(gs)
            k = r.randrange(d["node_lon"].size)
            x, y = float(d["node_lon"].flat[k]), float(d["node_lat"].flat[k])
        return x + r.choice([0, 0, 1e-9, -1e-9]), y

    def time(self, ti):
        r = self.r
        if ti is None:
            return r.choice([None, "2020-01-01T00:00:00", "1990-06-01T12:00:00", "2050-01-01T00:00:00.000001"])
        tl = time_list(self.spec["times"][ti])
        k = r.random()
        if k < 0.2:
            t = r.choice(tl)
        elif k < 0.8:
            span = (tl[-1] - tl[0])
            t = tl[0] + span * r.random()
            if r.random() < 0.5:
                t = t.replace(microsecond=0)
                t = max(t, tl[0])
        else:
            t = r.choice([tl[0] - dt.timedelta(seconds=r.choice([1, 3600])), tl[-1] + dt.timedelta(seconds=r.choice([1, 5000]))])
        return t.isoformat()

    def opts(self, depth):
        r = self.r
        o = {}
        if r.random() < 0.35:
            o["extrapolate"] = r.random() < 0.75
        if r.random() < 0.25:
            o["unmask"] = r.random() < 0.8
        if r.random() < 0.1:
            o["units"] = r.choice(["m/s", "knots"])
        if depth and r.random() < 0.4:
            o[r.choice(["surface_boundary_condition", "bottom_boundary_condition"])] = r.choice(["mask", "extrapolate"])
        return o

    def kinds_available(self):
        sp = self.spec
        k = ["var"] * 6
        if sp["vvars"]:
            k += ["vvar"] * 4
        k += ["grid"] * 3
        if sp["times"]:
            k += ["time"]
        if sp["depths"]:
            k += ["depth"] * 2
        if sp.get("uvars"):
            k += ["uvar"] * 3
        if "attr" not in self.deny:
            k += ["attr"]
        if self.kinds:
            k = [x for x in k if x in self.kinds] or ["var"]
        return k

    def fresh(self):
        r, sp = self.r, self.spec
        k = r.choice(self.kinds_available())
        if k == "var":
            i = r.randrange(len(sp["vars"]))
            v = sp["vars"][i]
            d = v.get("depth") is not None
            if r.random() < 0.03:
                return {"q": "regrid", "o": i, "to": r.choice([v["grid"], r.randrange(len(sp["grids"]))])}
            dim = 3 if (d and r.random() < 0.95) or r.random() < 0.3 else 2
            q = {"q": "var", "o": i, "p": self.pts(v["grid"], dim), "t": self.time(v["time"]), "opts": self.opts(d)}
            if dim == 2 and r.random() < 0.1:
                q["q"] = "varc"
            q["p"]["form"] = r.choice(["nd"] * 8 + ["list", "F", "view", "tuple"])
            return q
        if k == "vvar":
            i = r.randrange(len(sp["vvars"]))
            v = sp["vars"][sp["vvars"][i]["vars"][0]]
            d = v.get("depth") is not None
            dim = 3 if (d and r.random() < 0.95) or r.random() < 0.3 else 2
            q = {"q": "vvar", "o": i, "p": self.pts(v["grid"], dim), "t": self.time(v["time"]), "opts": self.opts(d)}
            if dim == 2 and r.random() < 0.1:
                q["q"] = "vvarc"
            q["p"]["form"] = r.choice(["nd"] * 8 + ["list", "F", "view"])
            return q
        if k == "time":
            i = r.randrange(len(sp["times"]))
            m = r.choice(["index_of", "interp_alpha", "time_in_bounds", "valid_time", "data", "min_time", "max_time"])
            q = {"q": "t." + m, "o": i, "t": self.time(i)}
            if m in ("index_of", "interp_alpha") and r.random() < 0.4:
                q["opts"] = {"extrapolate": True}
            return q
        if k == "attr":
            if r.random() < 0.12:
                from .query import FNS
                return {"q": "fn", "name": r.choice(FNS), "seed": r.randrange(10 ** 6), "p": self.pts(0, r.choice([2, 2, 3])), "t": self.time(None)}
            return self.attr()
        if k == "depth":
            i = r.randrange(len(sp["depths"]))
            d = sp["depths"][i]
            gi = d.get("grid", 0)
            m = r.choice(["interpolation_alphas"] * 3 + (["get_depth_profile", "get_s_coordinate", "zeta", "bathymetry"] if d["kind"] != "L" else ["surface_index"]))
            q = {"q": m if m in ("zeta", "bathymetry") else "d." + m, "o": i, "p": self.pts(gi, 3), "t": self.time(d.get("time"))}
            if m == "surface_index":
                del q["p"]
            q["opts"] = {}
            if m == "interpolation_alphas":
                q["opts"] = {a: b for a, b in self.opts(True).items() if a not in ("unmask", "units")}
                if r.random() < 0.1:
                    q["opts"]["on"] = r.choice(["layers", "one"] if d["kind"] != "L" else ["levels", "one"])
            elif m in ("get_depth_profile", "get_s_coordinate"):
                if r.random() < 0.5:
                    q["opts"]["on"] = r.choice(["levels", "layers"])
            elif m in ("zeta", "bathymetry"):
                q["opts"] = {a: b for a, b in self.opts(False).items()}
            return q
        if k == "uvar":
            i = r.randrange(len(sp["uvars"]))
            a = r.randrange(0, 50)
            idx = r.choice([{"range": [a, a + 1500, None]}, {"range": [a, a + 1500, [r.randrange(100, 1400), r.randrange(2900)]]},
                            {"slice": [a, a + 9, r.choice([1, 2])]}, {"range": [a, a + 6, None]}])
            return {"q": "uvar", "o": i, "opts": {"idx": idx}}
        return self.fresh_grid()

    def attr(self):
        """Anything else an object can be asked."""
        from .query import ATTRS
        r, sp = self.r, self.spec
        have = [k for k in ("var", "vvar", "time", "depth", "dset") if sp.get(k + "s")] + ["grid", "time"]
        k = r.choice(have)
        i = r.randrange(len(sp[k + "s"])) if k != "dset" else 0
        if k == "grid":
            k += sp["grids"][i]["kind"]
        return {"q": "attr", "of": [k, i, r.choice([n for n in ATTRS[k] if n not in self.deny])]}

    def fresh_grid(self):
        r, sp = self.r, self.spec
        i = r.randrange(len(sp["grids"]))
        gs = sp["grids"][i]
        p = self.pts(i, 2)
        f = r.choice(["nd"] * 5 + ["list", "one", "one_list", "view"])
        vs = [j for j, v in enumerate(sp["vars"]) if v["grid"] == i and v.get("depth") is None and not v.get("src")]
        if gs["kind"] == "U":
            m = r.choice(["locate_faces"] * 4 + ["locate_nodes", "interpolation_alphas", "interpolate_var_to_points"])
            if m == "interpolate_var_to_points" and not vs:
                m = "locate_faces"
            q = {"q": "g." + m, "o": i, "p": p, "opts": {}}
            if m == "locate_faces":
                p["n"] = min(p["n"], 60)
                p["form"] = f
                if r.random() < 0.4:
                    q["opts"]["method"] = r.choice(["celltree", "simple", "bogus"] if r.random() < 0.2 else ["celltree", "simple"])
                if r.random() < 0.15:
                    q["opts"]["_memo"] = False
            elif m == "locate_nodes":
                p["form"] = f
        elif gs["kind"] == "R":
            m = "interpolate_var_to_points" if vs and r.random() < 0.4 else "locate_faces"
            q = {"q": "g." + m, "o": i, "p": p, "opts": {}}
            if m == "locate_faces":
                p["form"] = f
        else:
            m = r.choice(["locate_faces"] * 4 + ["index_of", "locate_nearest", "geo_to_logical", "interpolate_var_to_points",
                                               "get_efficient_slice", "nearest_var_to_points", "get_variable_by_index", "get_variable_at_index"])
            if m in (*VARM, "nearest_var_to_points") and not vs:
                m = "locate_faces"
            q = {"q": "g." + m, "o": i, "p": p, "opts": {}}
            o = q["opts"]
            if m in ("locate_faces", "index_of"):
                p["form"] = f
                if r.random() < 0.6:
                    o["_memo"] = True
                if r.random() < 0.5:
                    o["use_mask"] = r.random() < 0.5
            elif m == "locate_nearest":
                o["grid"] = r.choice(["node", "center", "edge1", "edge2"])
                p["form"] = r.choice(["nd", "list"])
                if r.random() < 0.4:
                    o["_memo"] = True
            elif m == "geo_to_logical":
                ox, oy = gs.get("off", [0.0, 0.0])
                p["box"] = [0.6 + ox, gs["nx"] - 1.6 + ox, 0.6 + oy, gs["ny"] - 1.6 + oy, 0, 1]
                if r.random() < 0.6:
                    o["_memo"] = True
            elif m == "get_efficient_slice":
                o["location"] = r.choice(["node", "center", "edge1", "edge2"])
                if r.random() < 0.4:
                    o["_memo"] = True
        if m in (*VARM, "nearest_var_to_points"):
            j = r.choice(vs)
            v = sp["vars"][j]
            q["opts"]["var"] = j
            if v.get("time") is not None:
                q["opts"]["slices"] = [r.randrange(sp["times"][v["time"]]["n"])]
            elif gs["kind"] == "S":
                q["opts"]["slices"] = []
            if m == "interpolate_var_to_points":
                q["opts"]["location"] = v["loc"]
                if gs["kind"] == "S" and r.random() < 0.3:
                    q["opts"]["unmask"] = True
                if gs["kind"] == "S" and r.random() < 0.4:
                    q["opts"]["_memo"] = True
                if gs["kind"] == "R":
                    q["opts"].pop("location")
                    if r.random() < 0.5:
                        q["opts"]["method"] = r.choice(["linear", "nearest"])
                if gs["kind"] == "U" and v["loc"] == "face":
                    pass
        return q

    def mutated(self, q):
        r, sp = self.r, self.spec
        q = copy.deepcopy(q)
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.random()
            if "p" in q and k < 0.34 and "at" not in q["p"]:
                p = q["p"]
                m = r.random()
                n = p["n"]
                if m < 0.5:
                    # touch a single coordinate of one row (middle rows of big arrays included)
                    row = r.choice([0, n // 2, n - 1, r.randrange(n)])
                    p.setdefault("edits", []).append([row, r.choice([0, 1, p["dim"] - 1]), r.choice([1e-7, 0.13, -0.4, 1.0])])
                elif m < 0.62:
                    p["perm"] = not p.get("perm", False)
                elif m < 0.74 and p["dim"] == 3:
                    p["z0"] = not p.get("z0", False)
                elif m < 0.82:
                    p["form"] = r.choice(["nd", "list", "F", "view", "one", "one_list"] if q["q"].startswith("g.locate") else ["nd", "list", "F", "view"])
                    if q["q"] in ("varc", "vvarc", "zeta", "bathymetry") or q["q"].startswith("d.") or "interp" in q["q"] or "geo" in q["q"]:
                        p["form"] = "nd"
                elif m < 0.9 and q["q"] in ("var", "vvar"):
                    # same numbers, other shape: (n,3) as (3n/2,2)
                    p["dim"] = 5 - p["dim"]
                else:
                    p["seed"] += 1
            elif "t" in q and q["t"] is not None and k < 0.6:
                t = dt.datetime.fromisoformat(q["t"])
                q["t"] = (t + r.choice([dt.timedelta(microseconds=1), dt.timedelta(microseconds=-250000),
                                        dt.timedelta(milliseconds=400), dt.timedelta(seconds=1),
                                        dt.timedelta(minutes=7), dt.timedelta(hours=-1)])).isoformat()
            elif k < 0.85:
                o = q.setdefault("opts", {})
                if q["q"] in ("var", "vvar", "varc", "vvarc"):
                    c = r.choice(["extrapolate", "unmask", "surface_boundary_condition", "bottom_boundary_condition"])
                    if c in ("extrapolate", "unmask"):
                        o[c] = not o.get(c, False)
                    else:
                        dep = sp["vars"][q["o"]] if q["q"].startswith("var") else sp["vars"][sp["vvars"][q["o"]]["vars"][0]]
                        if dep.get("depth") is not None:
                            o[c] = r.choice(["mask", "extrapolate"])
                        else:
                            o["extrapolate"] = not o.get("extrapolate", False)
                elif q["q"] in ("t.index_of", "t.interp_alpha", "zeta", "bathymetry"):
                    o["extrapolate"] = not o.get("extrapolate", False)
                elif q["q"] in ("d.get_depth_profile", "d.get_s_coordinate"):
                    o["on"] = r.choice(["levels", "layers"])
                elif q["q"] == "d.interpolation_alphas":
                    c = r.choice(["surface_boundary_condition", "bottom_boundary_condition"])
                    o[c] = r.choice(["mask", "extrapolate"])
                elif q["q"] in ("g.locate_faces", "g.index_of"):
                    gk = sp["grids"][q["o"]]["kind"]
                    if gk == "U":
                        o["method"] = r.choice(["celltree", "simple"])
                    elif gk == "S":
                        o["use_mask"] = not o.get("use_mask", True)
                elif q["q"] == "g.locate_nearest":
                    o["grid"] = r.choice(["node", "center", "edge1", "edge2"])
            else:
                # the same question to another object of the same sort
                lst = {"var": "vars", "varc": "vars", "vvar": "vvars", "vvarc": "vvars"}.get(q["q"])
                if lst is None and q["q"].startswith("g."):
                    if not q["q"].endswith("to_points"):
                        same = [i for i, g in enumerate(sp["grids"]) if g["kind"] == sp["grids"][q["o"]]["kind"]]
                        q["o"] = r.choice(same)
                elif lst is None and q["q"].startswith("t."):
                    q["o"] = r.randrange(len(sp["times"]))
                elif lst:
                    q["o"] = r.randrange(len(sp[lst]))
        return q

    def draw(self):
        r = self.r
        x = r.random()
        if self.pool and x < 0.25:
            q = copy.deepcopy(r.choice(self.pool[-10:] if r.random() < 0.7 else self.pool))
        elif self.pool and x < 0.25 + self.mutate * 0.75:
            q = self.mutated(r.choice(self.pool[-6:] if r.random() < 0.7 else self.pool))
        else:
            q = self.fresh()
        self.pool.append(q)
        return q

    def axis(self, q):
        """The time axis behind a question, if it has one."""
        sp, o = self.spec, q.get("o", 0)
        k = q["q"]
        if k.startswith("t."):
            return o
        if k in ("var", "varc"):
            return sp["vars"][o]["time"]
        if k in ("vvar", "vvarc"):
            return sp["vars"][sp["vvars"][o]["vars"][0]]["time"]
        if k.startswith("d.") or k in ("zeta", "bathymetry"):
            return sp["depths"][o].get("time")
        return None

    def twin(self, q):
        """The same question with one thing quite different: another time, or other points."""
        r = self.r
        q = copy.deepcopy(q)
        a = self.axis(q)
        if q.get("t") is not None and a is not None and (r.random() < 0.5 or "p" not in q):
            q["t"] = self.time(a)
        elif "p" in q and "at" not in q["p"]:
            q["p"]["seed"] = r.randrange(10**6)
        else:
            q = self.mutated(q)
        return q

    def action(self):
        """Something that builds internal structures without asking anything."""
        r = self.r
        i = r.randrange(len(self.spec["grids"]))
        k = self.spec["grids"][i]["kind"]
        if k == "U":
            m = r.choice(["build_celltree", "build_edges", "build_face_face_connectivity", "build_boundaries", "get_lines",
                          "build_face_coordinates", "build_edge_coordinates", "build_boundary_coordinates", "build_face_edge_connectivity"])
        elif k == "S":
            m = "build_kdtree"      # build_celltree() decides which mask later calls use: a change, not a query
        else:
            return None
        return {"act": m, "o": i}
