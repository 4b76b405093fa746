"""A world: grids, time axes, depth systems and variables built from a JSON specification.

The same specification always builds the same objects (all numbers come from seeded generators).
"""
import datetime as dt

import numpy as np

from . import boot

EPOCH = dt.datetime(2020, 1, 1)


class Source:
    """Stand-in for a netCDF variable: array-like, read lazily, may fail on the n-th access."""

    def __init__(self, arr, ctl):
        self._arr = arr
        self._ctl = ctl
        self.dtype = arr.dtype
        self.shape = arr.shape
        self.ndim = arr.ndim

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, item):
        self._ctl.access()
        return np.ma.array(self._arr[item], copy=True) if np.ma.isMA(self._arr) else np.array(self._arr[item])

    def __array__(self, dtype=None, copy=None):
        self._ctl.access()
        return np.array(self._arr, dtype=dtype)


class SourceCtl:
    def __init__(self):
        self.n = 0          # accesses since armed
        self.at = None      # fail on this access (1-based)
        self.exc = OSError
        self.sticky = False
        self.fired = 0
        self.total = 0

    def arm(self, at, exc=OSError, sticky=False):
        self.n, self.at, self.exc, self.sticky, self.fired = 0, at, exc, sticky, 0

    def disarm(self):
        self.at = None

    def access(self):
        self.total += 1
        if self.at is None:
            return
        self.n += 1
        if self.n == self.at or (self.sticky and self.n > self.at):
            self.fired += 1
            raise self.exc("simulated read failure")


class Inputs(list):
    """(label, object) pairs the caller handed in, each with a copy taken before it was handed in."""

    def __init__(self):
        super().__init__()
        self.snaps = []

    def append(self, item):
        super().append(item)
        self.snaps.append(freeze(item[1]))

    def __iadd__(self, items):
        for i in items:
            self.append(i)
        return self

    def changed(self, skip=()):
        """Labels of inputs that no longer are what they were."""
        return [lab for (lab, o), sn in zip(self, self.snaps) if lab not in skip and not unchanged(o, sn)]


def freeze(o):
    if np.ma.isMA(o):
        return ("ma", o.shape, np.array(o.data, copy=True), np.array(np.ma.getmaskarray(o)), o.mask is np.ma.nomask)
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, o.dtype, o.strides, o.copy())
    if isinstance(o, dict):
        return ("dict", [(k, freeze(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("seq", type(o).__name__, [freeze(v) for v in o])
    if isinstance(o, (int, float, str, bytes, bool, type(None), dt.datetime, dt.timedelta, np.generic)):
        return ("val", o)
    return ("id", id(o))


def _eq(a, b):
    if a.dtype == object or b.dtype == object:
        return a.shape == b.shape and all(x == y for x, y in zip(a.ravel(), b.ravel()))
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def unchanged(o, sn):
    k = sn[0]
    if k == "ma":
        return np.ma.isMA(o) and o.shape == sn[1] and _eq(o.data, sn[2]) and _eq(np.ma.getmaskarray(o), sn[3])
    if k == "nd":
        return isinstance(o, np.ndarray) and o.shape == sn[1] and o.dtype == sn[2] and _eq(o, sn[4])
    if k == "dict":
        return isinstance(o, dict) and [x for x, _ in sn[1]] == list(o) and all(unchanged(o[x], y) for x, y in sn[1])
    if k == "seq":
        return type(o).__name__ == sn[1] and len(o) == len(sn[2]) and all(unchanged(x, y) for x, y in zip(o, sn[2]))
    if k == "val":
        return type(o) is type(sn[1]) and (o == sn[1] or o != o)
    return id(o) == sn[1]


def rng(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


# ---------------------------------------------------------------- raw arrays
def u_arrays(s):
    """nodes (N,2), faces (M,3) of a jittered, triangulated lattice."""
    nx, ny = s["nx"], s["ny"]
    r = rng("u", s["seed"], nx, ny)
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    jit = s.get("jitter", 0.2)
    x = x + r.uniform(-jit, jit, x.shape)
    y = y + r.uniform(-jit, jit, y.shape)
    nodes = np.column_stack((x.ravel(), y.ravel()))
    if s.get("dup"):  # two seeds sharing the geometry's digits but shifted a little
        nodes = nodes + s["dup"]
    faces = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            if r.integers(2):
                faces += [(a, b, c), (a, c, d)]
            else:
                faces += [(a, b, d), (b, c, d)]
    faces = np.array(faces, dtype=np.int32)
    p = r.permutation(len(nodes))
    inv = np.empty_like(p)
    inv[p] = np.arange(len(p))
    nodes = nodes[p]
    faces = inv[faces].astype(np.int32)
    faces = faces[r.permutation(len(faces))]
    if s.get("fmod"):   # replaced faces: same count, other order and corners
        q = rng("fmod", s["fmod"])
        faces = np.roll(faces[q.permutation(len(faces))], 1, axis=1)
    if s.get("nmod"):   # replaced nodes
        a = s.get("nscale", 0.2)
        nodes = nodes + rng("nmod", s["nmod"]).uniform(-a, a, nodes.shape)
    nodes = nodes + s.get("off", [0.0, 0.0])
    nf = s.get("nfaces")
    if nf:
        faces = faces[:nf]
    return nodes, faces


def s_arrays(s):
    nx, ny = s["nx"], s["ny"]
    r = rng("s", s["seed"], nx, ny)
    a, b = r.uniform(0.05, 0.25, 2)
    sx, sy = np.add(s.get("shift", [0, 0]), s.get("off", [0, 0]))

    def coords(X, Y):
        return X + a * np.sin(Y * 0.7) + sx, Y + b * np.sin(X * 0.6) + 0.03 * X + sy

    X, Y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    d = {}
    d["node_lon"], d["node_lat"] = coords(X, Y)
    pad = s.get("pad", "both")
    if pad == "both":  # ROMS style: rho points all around
        Xc, Yc = np.meshgrid(np.arange(nx + 1) - 0.5, np.arange(ny + 1) - 0.5)
        Xu, Yu = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny + 1) - 0.5)
        Xv, Yv = np.meshgrid(np.arange(nx + 1) - 0.5, np.arange(ny, dtype=float))
        d["edge1_lon"], d["edge1_lat"] = coords(Xu, Yu)
        d["edge2_lon"], d["edge2_lat"] = coords(Xv, Yv)
        d["center_lon"], d["center_lat"] = coords(Xc, Yc)
    elif pad == "none":
        Xc, Yc = np.meshgrid(np.arange(nx - 1) + 0.5, np.arange(ny - 1) + 0.5)
        d["center_lon"], d["center_lat"] = coords(Xc, Yc)
    if s.get("mask") and "center_lon" in d:
        m = r.uniform(size=d["center_lon"].shape) < 0.2
        m.ravel()[r.integers(m.size)] = True
        if pad == "both":
            m[1, 1] = False
            m[2, 1] = True
        else:
            m[0, 0] = False
            m[1, 0] = True
        d["center_mask"] = m
    return d


def r_arrays(s):
    r = rng("r", s["seed"])
    lon = np.cumsum(r.uniform(0.6, 1.4, s["nx"])) - 1.0
    lat = np.cumsum(r.uniform(0.6, 1.4, s["ny"])) - 1.0
    ox, oy = s.get("off", [0.0, 0.0])
    lon, lat = lon + ox, lat + oy
    return lon, lat


def grid_extent(s):
    return (s["nx"] - 1, s["ny"] - 1)


def loc_shape(gs, loc):
    nx, ny = gs["nx"], gs["ny"]
    if gs["kind"] == "U":
        if loc == "node":
            return (nx * ny,)
        if loc == "face":
            return (gs.get("nfaces") or (nx - 1) * (ny - 1) * 2,)
        raise ValueError(loc)
    if gs["kind"] == "R":
        return (ny, nx)
    if loc == "node":
        return (ny, nx)
    if loc == "center":
        return (ny + 1, nx + 1) if gs.get("pad", "both") == "both" else (ny - 1, nx - 1)
    if loc == "edge1":
        return (ny + 1, nx)
    if loc == "edge2":
        return (ny, nx + 1)
    raise ValueError(loc)


def time_list(s):
    start = EPOCH + dt.timedelta(seconds=s.get("start", 0))
    steps = s.get("steps") or [s.get("step", 3600)] * (s["n"] - 1)
    out = [start]
    for k in steps[: s["n"] - 1]:
        out.append(out[-1] + dt.timedelta(seconds=k))
    return out


def depth_levels(s):
    lv = np.concatenate(([0.0], np.cumsum(rng("z", s["seed"]).uniform(2, 6, s["n"] - 1))))
    return lv if s.get("asc", True) else lv[::-1].copy()


def var_array(spec, vs):
    gs = spec["grids"][vs["grid"]]
    shp = loc_shape(gs, vs["loc"])
    if vs.get("depth") is not None:
        ds = spec["depths"][vs["depth"]]
        n = ds["n"]
        if vs.get("layers"):
            n -= 1
        shp = (n,) + shp
    if vs.get("time") is not None and not vs.get("static"):
        shp = (spec["times"][vs["time"]]["n"],) + shp
    r = rng("v", vs["seed"])
    arr = r.uniform(-5, 5, shp)
    for m in vs.get("mods", ()):        # small changes to it
        if m[0] == "one":
            arr.flat[m[1] % arr.size] += m[2]
        else:
            arr *= 1 + m[1]
    if vs.get("dtype"):
        arr = arr.astype(vs["dtype"])
    if vs.get("masked"):
        arr = np.ma.array(arr, mask=r.uniform(size=shp) < 0.08)
    elif vs.get("ma"):
        arr = np.ma.array(arr, mask=np.zeros(shp, bool))
    return arr


# ---------------------------------------------------------------- objects
class World:
    def __init__(self, spec):
        boot.load()
        import gridded
        from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
        self.spec = spec
        self.ctl = SourceCtl()
        self.inputs = Inputs()
        self.grids, self.times, self.depths, self.vars, self.vvars, self.uvars = [], [], [], [], [], []
        for i, s in enumerate(spec.get("times", [])):
            self.times.append(self.make_time(s, i))
        for i, s in enumerate(spec["grids"]):
            self.grids.append(self.make_grid(s, i))
        self.aux = []
        for i, s in enumerate(spec.get("depths", [])):
            if s["kind"] == "L":
                terms = {"depth_levels": depth_levels(s)}
                self.inputs.append((f"depth{i}.terms", terms))
                bc = {a: b for a, b in (("default_surface_boundary_condition", s.get("sbc")), ("default_bottom_boundary_conditon", s.get("bbc"))) if b}
                self.depths.append(L_Depth(terms=terms, **bc))
                self.aux.append({})
                continue
            bc = {a: b for a, b in (("surface_boundary_condition", s.get("sbc")), ("bottom_boundary_condition", s.get("bbc"))) if b}
            g = self.grids[s["grid"]]
            gs = spec["grids"][s["grid"]]
            t = self.times[s["time"]] if s.get("time") is not None else None
            r = rng("sd", s["seed"])
            shp = loc_shape(gs, "node")
            h = np.ma.array(r.uniform(8, 20, shp), mask=np.zeros(shp, bool))
            if s.get("hseed"):
                h[...] = rng("h", s["hseed"]).uniform(8, 20, shp)
            bathy = gridded.Variable(name="bathymetry", grid=g, data=h, location="node")
            if t is not None:
                nt = spec["times"][s["time"]]["n"]
                z = np.ma.array(r.uniform(-0.8, 0.8, (nt,) + shp), mask=np.zeros((nt,) + shp, bool))
                zeta = gridded.Variable(name="zeta", grid=g, data=self._wrap(z, s), time=t, location="node")
            else:
                z = np.ma.array(r.uniform(-0.8, 0.8, shp), mask=np.zeros(shp, bool))
                zeta = gridded.Variable(name="zeta", grid=g, data=self._wrap(z, s), location="node")
            if s.get("zseed"):
                z[...] = rng("z", s["zseed"]).uniform(-0.8, 0.8, z.shape)
            self.inputs.append((f"depth{i}.bathymetry", h))
            self.inputs.append((f"depth{i}.zeta", z))
            n = s["n"]
            if s["kind"] == "ROMS":
                sw = np.linspace(-1, 0, n)
                sr = (sw[:-1] + sw[1:]) / 2
                terms = {"Cs_r": np.sinh(sr) / np.sinh(1), "Cs_w": np.sinh(sw) / np.sinh(1), "s_rho": sr, "s_w": sw,
                         "hc": 3.0}
                d = ROMS_Depth(time=t, grid=g, bathymetry=bathy, zeta=zeta, terms=terms, vtransform=s.get("vt", 2), **bc)
            else:
                lev = -np.sort(r.uniform(0, 1, (n, shp[0])), axis=0)
                lev[0] = 0.0
                lev[-1] = -1.0
                lay = (lev[:-1] + lev[1:]) / 2
                terms = {"siglev": lev, "siglay": lay}
                d = FVCOM_Depth(time=t, grid=g, bathymetry=bathy, zeta=zeta, terms=terms, **bc)
            self.inputs.append((f"depth{i}.terms", terms))
            self.depths.append(d)
            self.aux.append({"zeta": zeta, "bathymetry": bathy})
        for i, s in enumerate(spec["vars"]):
            self.vars.append(self.make_var(s, i))
        for i, s in enumerate(spec.get("vvars", [])):
            kw = {}
            if s.get("time") is not None:
                kw["time"] = self.times[s["time"]]
            vs = [self.vars[j] for j in s["vars"]]
            self.inputs.append((f"vvar{i}.variables", vs))
            self.vvars.append(gridded.VectorVariable(name=f"vv{i}", units=s.get("units", "m/s"), variables=vs, **kw))
        from gridded.pyugrid.uvar import UVar, UMVar
        for i, s in enumerate(spec.get("uvars", [])):
            n = s["n"]
            if s.get("multi"):
                parts = [UVar(f"c{k}", "node", data=self._wrap(rng("uv", s["seed"], k).uniform(-5, 5, n), s)) for k in range(2)]
                self.uvars.append(UMVar(f"um{i}", "node", parts))
            else:
                arr = rng("uv", s["seed"]).uniform(-5, 5, n)
                self.inputs.append((f"uvar{i}.data", arr))
                self.uvars.append(UVar(f"uv{i}", "node", data=self._wrap(arr, s)))

        self.dsets = []
        for i in spec.get("dsets", []):
            vs = {v.name: v for v, s in zip(self.vars, spec["vars"]) if s["grid"] == i}
            at = {"title": f"data of grid {i}", "n": i}
            self.inputs += [(f"dset{i}.variables", vs), (f"dset{i}.attributes", at)]
            self.dsets.append(gridded.Dataset(grid=self.grids[i], variables=vs, attributes=at))

    def _wrap(self, arr, s):
        return Source(arr, self.ctl) if s.get("src") else arr

    def make_time(self, s, i):
        import gridded
        tl = time_list(s)
        form = s.get("form", "list")
        if form == "array":
            tl = np.array(tl)
        elif form == "share":      # built from another axis of the world
            tl = self.times[s["of"]]
        elif form == "tuple":
            tl = tuple(tl)
        if form != "share":
            self.inputs.append((f"time{i}", tl))
        kw = {}
        if s.get("tz") is not None:
            kw["tz_offset"] = s["tz"]
        return gridded.Time(tl, **kw)

    def make_grid(self, s, i):
        import gridded
        if s["kind"] == "U":
            nodes, faces = u_arrays(s)
            if s.get("one_based"):
                faces = faces + 1
            kw = {}
            if s.get("split"):
                lon, lat = nodes[:, 0].copy(), nodes[:, 1].copy()
                self.inputs += [(f"grid{i}.node_lon", lon), (f"grid{i}.node_lat", lat), (f"grid{i}.faces", faces)]
                return gridded.Grid_U(node_lon=lon, node_lat=lat, faces=faces)
            if s.get("topo"):
                kw["grid_topology"] = {"topology_dimension": np.int32(2), "x": "mesh"}
                self.inputs.append((f"grid{i}.grid_topology", kw["grid_topology"]))
            if s.get("aslist"):
                nodes, faces = nodes.tolist(), faces.tolist()
            self.inputs += [(f"grid{i}.nodes", nodes), (f"grid{i}.faces", faces)]
            return gridded.Grid_U(nodes=nodes, faces=faces, **kw)
        if s["kind"] == "R":
            lon, lat = r_arrays(s)
            self.inputs += [(f"grid{i}.node_lon", lon), (f"grid{i}.node_lat", lat)]
            return gridded.Grid_R(node_lon=lon, node_lat=lat)
        d = s_arrays(s)
        if s.get("ma"):
            for k in ("node_lon", "node_lat"):
                d[k] = np.ma.array(d[k], mask=False)
        kw = dict(d)
        for k, v in d.items():
            self.inputs.append((f"grid{i}.{k}", v))
        if s.get("expl_pad"):
            kw["face_padding"] = ("both", "both") if s.get("pad", "both") == "both" else ("none", "none")
        if s.get("mib"):
            kw["masked_interpolant_behavior"] = s["mib"]
        return gridded.Grid_S(**kw)

    def make_var(self, s, i):
        import gridded
        arr = var_array(self.spec, s)
        self.inputs.append((f"var{i}.data", arr))
        kw = dict(name=f"v{i}", units=s.get("units", "m/s"), grid=self.grids[s["grid"]], data=self._wrap(arr, s),
                  location=None if s.get("noloc") else s["loc"], fill_value=s.get("fill", 0))
        if s.get("time") is not None:
            t = self.times[s["time"]]
            if s.get("tform") == "list":
                t = time_list(self.spec["times"][s["time"]])
                self.inputs.append((f"var{i}.time", t))
            elif s.get("tform") == "array":
                t = np.array(time_list(self.spec["times"][s["time"]]))
                self.inputs.append((f"var{i}.time", t))
            kw["time"] = t
        if s.get("depth") is not None:
            kw["depth"] = self.depths[s["depth"]]
        if s.get("attrs"):
            kw["attributes"] = {"long_name": f"variable {i}", "k": 3}
            self.inputs.append((f"var{i}.attributes", kw["attributes"]))
        for k in ("surface_boundary_condition", "bottom_boundary_condition"):
            if s.get(k):
                kw[k] = s[k]
        if s.get("dfirst"):     # levels before times
            kw["data"] = self._wrap(np.ma.copy(np.swapaxes(arr, 0, 1)) if isinstance(arr, np.ma.MaskedArray) else np.swapaxes(arr, 0, 1).copy(), s)
            v = gridded.Variable(**kw)
            v.dimension_ordering = ["depth", "time"] + list(v.dimension_ordering[2:])
            return v
        return gridded.Variable(**kw)
