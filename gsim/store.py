"""Things that are saved and loaded: seeded specifications, models of what a file has to give back, file writers."""
import os
import shutil
import tempfile

import numpy as np

from .canon import canon, same, show
from .world import rng, s_arrays, u_arrays

PARTS = ("faces", "edges", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates")
SIDE = {"node": "nodes", "face": "faces", "edge": "edges", "boundary": "boundaries"}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="gsim.", dir=os.environ.get("TMPDIR") or "/tmp")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)


# ---------------------------------------------------------------- unstructured datasets
def lattice_edges(faces):
    e = {}
    for f in np.ma.filled(np.ma.asarray(faces), -1).tolist():
        f = [p for p in f if p >= 0]
        for a, b in zip(f, f[1:] + f[:1]):
            k = (min(a, b), max(a, b))
            e[k] = e.get(k, 0) + 1
    return e


def ud_arrays(s):
    """The caller's arrays of an unstructured dataset (None for parts it does not have)."""
    nodes, tris = u_arrays({"nx": s["nx"], "ny": s["ny"], "seed": s["seed"], "jitter": 0.2, "nmod": s.get("nmod")})
    r = rng("ud", s["seed"], s.get("poly"))
    poly = s.get("poly", "tri")
    if poly == "tri":
        faces = tris
    else:
        nx, ny = s["nx"], s["ny"]
        faces = np.array([(j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i)
                          for j in range(ny - 1) for i in range(nx - 1)], dtype=np.int32)
        nodes = nodes[np.lexsort((nodes[:, 0], np.round(nodes[:, 1])))]
        if poly == "mixed":
            faces = np.ma.array(faces)
            for k in range(len(faces)):
                if r.random() < 0.5:
                    faces[k, 3] = np.ma.masked
    if s.get("nfaces"):
        faces = faces[:s["nfaces"]]
    every = lattice_edges(faces)
    edges = np.array(sorted(every), dtype=np.int32)
    edges = edges[r.permutation(len(edges))]
    bnd = np.array(sorted(k for k, n in every.items() if n == 1), dtype=np.int32)
    if s.get("turn"):       # some are given from the higher to the lower node
        for x in (edges, bnd):
            k = r.random(len(x)) < 0.5
            x[k] = x[k][:, ::-1]
        bnd = bnd[r.permutation(len(bnd))]
    off = np.array(s.get("off", [0.0, 0.0]))
    a = {"nodes": (nodes + off).astype(s.get("ndt", "f8")), "faces": faces}
    a["edges"] = edges[:s["nedges"]] if s.get("nedges") else edges
    a["boundaries"] = bnd[:s["nbounds"]] if s.get("nbounds") else bnd
    for k in ("face", "edge", "boundary"):
        n = len(a[SIDE[k]])
        a[k + "_coordinates"] = r.uniform(-5, 5, (n, 2)) + off
    for k in PARTS:
        if k not in s["parts"]:
            a[k] = None
    return a


def var_data(s, v, arrays):
    r = rng("vd", s["seed"], v["key"], v.get("dmod", 0))
    n = len(arrays[SIDE[v["loc"]]])
    t = v.get("dtype", "f8")
    if t in ("f8", "f4", ">f4"):
        d = np.round(r.uniform(-100, 100, n) * 4) / 4
        if v.get("big"):
            d = d * 10.0 ** r.integers(-30, 30, n)
        if v.get("nan") and n:
            d[r.integers(n)] = np.nan
        d = d.astype(t)
    elif t == "i8":
        d = r.integers(-2 ** 52, 2 ** 52, n)
    else:
        lo, hi = {"i1": (-100, 100), "u1": (0, 200), "i2": (-3000, 3000), "i4": (-2 ** 30, 2 ** 30)}[t]
        d = r.integers(lo, hi, n).astype(t)
    if v.get("masked"):
        m = r.uniform(size=n) < 0.3
        d = np.ma.array(d, mask=m)
    return d


def attr_value(x):
    """JSON form -> attribute value"""
    if isinstance(x, dict):
        return np.array(x["array"], dtype=x["dtype"])
    return x


def ud_build(s):
    from gridded import Dataset
    from gridded.grids import Grid_U
    from gridded.variable import Variable
    a = ud_arrays(s)
    g = Grid_U(mesh_name=s["mesh"], **a)
    for k in s.get("links", ()):        # not saved (yet), but no reason for a save to fail or to lose the rest
        try:
            getattr(g, f"build_{k}_connectivity")()
        except Exception:       # noqa: BLE001 -- not for faces of mixed sizes
            pass
    vs = {}
    for v in s["vars"]:
        vs[v["key"]] = Variable(name=v.get("name", v["key"]), data=var_data(s, v, a), location=v["loc"], units=v.get("units"),
                                attributes={k: attr_value(x) for k, x in v.get("attrs", {}).items()},
                                grid=g if v.get("ongrid") else None)
    return Dataset(grid=g, variables=vs, attributes={k: attr_value(x) for k, x in s.get("attrs", {}).items()})


def ud_expected(s, with_vars=True):
    a = ud_arrays(s)
    out = {"mesh": canon(s["mesh"]), "nodes": canon(a["nodes"])}
    for k in PARTS:
        out[k] = canon(a[k])
    if with_vars:
        out["variables"] = canon(sorted(v["key"] for v in s["vars"]))
        for v in s["vars"]:
            k = "variable " + v["key"]
            out[k + " values"] = canon(var_data(s, v, a))
            out[k + " location"] = canon(v["loc"])
            at = {n: attr_value(x) for n, x in v.get("attrs", {}).items()}
            out[k + " units"] = canon(v.get("units") or at.get("units"))
            for n, x in at.items():
                out[k + " attribute " + n] = canon(x)
        for n, x in s.get("attrs", {}).items():
            out["global attribute " + n] = canon(attr_value(x))
    return out


def grid_state(g):
    out = {"mesh": canon(g.mesh_name), "nodes": canon(g.nodes)}
    for k in PARTS:
        out[k] = canon(getattr(g, k))
    return out


def ds_state(ds):
    out = grid_state(ds.grid)
    out["variables"] = canon(sorted(ds.variables))
    for key, v in ds.variables.items():
        k = "variable " + key
        out[k + " values"] = canon(v.data[:])
        out[k + " location"] = canon(v.location)
        out[k + " units"] = canon(v.units)
        for n, x in v.attributes.items():
            out[k + " attribute " + n] = canon(x)
    for n, x in ds.attributes.items():
        out["global attribute " + n] = canon(x)
    return out


# ---------------------------------------------------------------- structured grids
PADS = {"both": ("both", "both"), "none": ("none", "none"), "low": ("low", "low"), "high": ("high", "high"), "mixed": ("both", "none")}


def sg_write(s, path):
    """A file following the SGRID convention, written with netCDF4 alone."""
    import netCDF4
    r = rng("sg", s["seed"])
    nx, ny = s["nx"], s["ny"]
    px, py = PADS[s["pad"]]
    extra = {"both": 1, "none": -1, "low": 0, "high": 0}
    cx, cy = nx + extra[px], ny + extra[py]
    with netCDF4.Dataset(path, "w") as d:
        dims = {"ny": ny, "nx": nx, "cy": cy, "cx": cx, "z": 3, "zw": 4}
        if s.get("edges"):
            dims.update({"uy": cy, "ux": nx, "vy": ny, "vx": cx})
        for n, k in dims.items():
            d.createDimension(n, k)
        if s.get("time"):
            d.createDimension("time", None if s["time"] == "unlimited" else 2)
        t = d.createVariable("grid", "i4")
        t.cf_role = "grid_topology"
        t.topology_dimension = 2
        t.node_dimensions = "nx ny"
        t.face_dimensions = f"cx: nx (padding: {px}) cy: ny (padding: {py})"
        if s.get("vertical"):
            t.vertical_dimensions = "z: zw (padding: none)"
        sets = {"n": ("ny", "nx"), "c": ("cy", "cx")}
        if s.get("edges"):
            t.edge1_dimensions = f"ux: nx uy: ny (padding: {py})"
            t.edge2_dimensions = f"vx: nx (padding: {px}) vy: ny"
            sets.update({"u": ("uy", "ux"), "v": ("vy", "vx")})
        names = {"n": "node_coordinates", "c": "face_coordinates", "u": "edge1_coordinates", "v": "edge2_coordinates"}
        for k, dm in sets.items():
            setattr(t, names[k], f"lon_{k} lat_{k}")
            for ax in ("lon", "lat"):
                v = d.createVariable(f"{ax}_{k}", s.get("ndt", "f8"), dm)
                v[:] = r.uniform(-50, 50, v.shape) + s.get("off", [0.0, 0.0])[ax == "lat"]
            if s.get("masks") and k in s["masks"]:
                m = d.createVariable("mask_" + k, s.get("mdt", "f8"), dm)
                m[:] = r.integers(0, 2, m.shape)
                m.flag_values = np.array([0, 1], dtype=m.dtype)
                m.flag_meanings = "land water"
        if s.get("angle"):
            v = d.createVariable("angle", "f8", ("cy", "cx"))
            v[:] = r.uniform(-1, 1, v.shape)
        if s.get("field"):
            v = d.createVariable("u", "f4", ("uy", "ux") if s.get("edges") else ("cy", "cx"))
            v.grid = "grid"
            v.location = "edge1" if s.get("edges") else "face"
            v.standard_name = "sea_water_x_velocity"
            v[:] = 1.5
        for k, f in enumerate(s.get("fields", [])):
            dm = sets[f["on"]] if f["on"] in sets else sets["c"]
            dm = (("time",) if s.get("time") and f.get("time") else ()) + (("z",) if f.get("z") else ()) + dm
            v = d.createVariable(f"f{k}", f.get("dtype", "f4"), dm)
            if f.get("grid"):
                v.grid = "grid"
            if f.get("std"):
                v.standard_name = f["std"]
            if f.get("coords"):
                v.coordinates = f"lon_{f['on'] if f['on'] in sets else 'c'} lat_{f['on'] if f['on'] in sets else 'c'}"
            if f.get("axes"):
                v.axes = f["axes"]


SG_ATTRS = ("node_lon", "node_lat", "center_lon", "center_lat", "edge1_lon", "edge1_lat", "edge2_lon", "edge2_lat",
            "node_mask", "center_mask", "edge1_mask", "edge2_mask", "node_dimensions", "face_dimensions", "edge1_dimensions",
            "edge2_dimensions", "vertical_dimensions", "node_coordinates", "face_coordinates", "edge1_coordinates",
            "edge2_coordinates", "face_padding", "edge1_padding", "edge2_padding", "vertical_padding", "angles")


SG_VAR = ("standard_name", "coordinates", "dimensions", "dtype", "grid", "x_axis", "y_axis", "z_axis", "vector_axis", "center_axis",
          "node_axis", "center_slicing", "variable")


def sg_state(g):
    out = {"dimensions": canon(sorted([n, k] for n, k in g.dimensions)), "grid variables": canon(sorted(g.grid_variables)),
           "variables": canon(sorted(g.variables))}
    for k in SG_ATTRS:
        try:
            x = getattr(g, k)
        except Exception as e:      # noqa: BLE001
            out[k] = ("exc", type(e).__name__)
            continue
        if k.endswith("_mask") and hasattr(x, "ncattrs"):
            out[k + " attributes"] = canon({n: x.getncattr(n) for n in x.ncattrs()})
        if hasattr(x, "shape"):
            x = x[:]
        out[k] = canon(x)
    for n in g.variables:
        x = getattr(g, n)
        out["variable " + n] = canon([str(getattr(x, a, None)) for a in SG_VAR])
    return out


# ---------------------------------------------------------------- verdat
VUNITS = {"m": "meters", "meter": "meters", "METERS": "meters", "feet": "feet", "ft": "feet", "foot": "feet"}


def vd_arrays(s):
    nx, ny = s["nx"], s["ny"]
    r = rng("vd", s["seed"], nx, ny)
    x, y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    nodes = np.column_stack(((x + r.uniform(-.2, .2, x.shape)).ravel() * s["scale"] + s["off"][0],
                             (y + r.uniform(-.2, .2, y.shape)).ravel() * s["scale"] + s["off"][1]))
    faces = []
    for j in range(ny - 1):
        for i in range(nx - 1):
            if s.get("hole") and i % 2 == 1 and j % 2 == 1 and 1 <= i < nx - 2 and 1 <= j < ny - 2 and (s["hole"] == 2 or (i == 1 and j == 1)):
                if not (i > 1 or j > 1) or (i % 4 == 1 and j % 4 == 1):
                    continue
            a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
            faces += [(a, b, c), (a, c, d)]
    p = r.permutation(len(nodes))
    inv = np.empty_like(p)
    inv[p] = np.arange(len(p))
    nodes, faces = nodes[p], inv[np.array(faces)]
    segs = np.array(sorted(k for k, n in lattice_edges(faces).items() if n == 1))
    if s["bounds"] == "shuffled":
        segs = segs[r.permutation(len(segs))]
        flip = r.integers(0, 2, len(segs)).astype(bool)
        segs[flip] = segs[flip][:, ::-1]
    depth = np.round(r.uniform(-s["dmax"], s["dmax"], len(nodes)), 4)
    return nodes, faces, segs, depth.astype(s.get("ddt", "f8"))


def vd_build(s):
    from gridded import Dataset
    from gridded.grids import Grid_U
    from gridded.variable import Variable
    nodes, faces, segs, depth = vd_arrays(s)
    g = Grid_U(nodes=nodes, faces=faces, boundaries=None if s["bounds"] == "build" else segs)
    vs = {}
    if s["var"] is not None:
        vs[s["var"]] = Variable(name=s["var"], data=depth, location="node", units=s["units"])
    return Dataset(grid=g, variables=vs)


def vd_difference(s, ds):
    """None if ds, as loaded, has the points, depths, units and closed boundaries of the specification."""
    nodes, faces, segs, depth = vd_arrays(s)
    if s["var"] is None:
        depth = np.ones(len(nodes))
    got = np.asarray(ds.grid.nodes, dtype=float)
    if got.shape != nodes.shape:
        return f"{got.shape[0]} points, expected {len(nodes)}"
    where = []
    for p in got:
        k = int(np.argmin(np.abs(nodes - p).max(axis=1)))
        if np.abs(nodes[k] - p).max() > 5.2e-7:
            return f"point {p.tolist()} is none of the points saved"
        where.append(k)
    if len(set(where)) != len(where):
        return "a point came back twice"
    d = np.asarray(ds.variables["depth"].data, dtype=float)
    if d.shape != (len(nodes),) or np.abs(d - depth.astype(float)[where]).max() > 5.2e-4:
        return "other depths"
    u = ds.variables["depth"].units
    want = VUNITS[s["units"]] if s["var"] is not None else ""
    if (u or "") != want:
        return f"units {u!r}, expected {want!r}"
    b = ds.grid.boundaries
    b = [] if b is None else np.asarray(b).tolist()
    bs = sorted(tuple(sorted((where[p], where[q]))) for p, q in b)
    want = sorted(tuple(sorted(x)) for x in segs.tolist())
    if bs != want:
        return f"{len(bs)} boundary segments, expected {len(want)} (or other ones): missing {sorted(set(want) - set(bs))[:3]}, extra {sorted(set(bs) - set(want))[:3]}"
    return None


# ---------------------------------------------------------------- one interface
def build(s, src=None):
    if s["kind"] == "ud":
        return ud_build(s)
    if s["kind"] == "vd":
        return vd_build(s)
    from gridded.pysgrid.sgrid import load_grid
    return load_grid(src)


def save(s, obj, how, path):
    """What is returned has to be kept by the caller as long as it wants (an open file, perhaps)."""
    if s["kind"] == "vd":
        from gridded.io.verdat import save_verdat
        return save_verdat(obj, path, depth_var=s["var"])
    if s["kind"] == "sg":
        return obj.save_as_netcdf(path)
    if how == "ds":
        return obj.save(path)
    if how == "ds3":
        return obj.save(path, format="netcdf3")
    if how == "ds_nc":
        import netCDF4
        return obj.save(netCDF4.Dataset(path, "w"))
    if how == "grid":
        return obj.grid.save_as_netcdf(path)
    if how == "grid_vars":
        return obj.grid.save(path, variables=obj.variables)
    raise ValueError(how)


def identical(a, b):
    """Like canon.same, but stored values have to come back to the last bit."""
    if a[0] == b[0] == "arr":
        return a[1] == b[1] and np.array_equal(a[3], b[3]) and np.array_equal(a[2], b[2], equal_nan=True)
    if a[0] == b[0] == "num":
        return a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])
    return same(a, b)


def compare(want, got, extra_ok=" attribute "):
    """First field in which the loaded state is not what it should be, or None."""
    for k in sorted(want):
        if k not in got:
            return f"{k} is missing"
        if not identical(want[k], got[k]):
            return f"{k} is {show(got[k])}, expected {show(want[k])}"
    for k in got:
        if k not in want and extra_ok not in k:
            return f"{k} was not expected: {show(got[k])}"
    return None


def verify(s, how, path, loader="ds", want_sg=None):
    """None, or how the file at path differs from what was saved there (runs in a process of its own)."""
    try:
        if s["kind"] == "vd":
            from gridded.io.verdat import load_verdat
            return vd_difference(s, load_verdat(path))
        if s["kind"] == "sg":
            from gridded.pysgrid.sgrid import load_grid
            return compare(want_sg, sg_state(load_grid(path)))
        with_vars = how in ("ds", "ds3", "ds_nc", "grid_vars")
        want = ud_expected(s, with_vars)
        if how == "grid_vars":
            want = {k: x for k, x in want.items() if not k.startswith("global")}
        if loader == "ds":
            from gridded import Dataset
            got = ds_state(Dataset.from_netCDF(path))
            if not with_vars:
                want["variables"] = canon([])
            return compare(want, got)
        want = {k: x for k, x in want.items() if not k.startswith(("variable", "global"))}
        if loader == "ugrid":
            from gridded.pyugrid.ugrid import UGrid
            g = UGrid.from_ncfile(path, mesh_name=s["mesh"])
        else:
            from gridded.grids import Grid
            g = Grid.from_netCDF(path)
        return compare(want, grid_state(g))
    except Exception as e:      # noqa: BLE001
        return f"it cannot be loaded: {type(e).__name__}: {str(e)[:200]}"


# ---------------------------------------------------------------- generation
KEYS = ["depth", "u", "v", "sst", "data", "of", "2D", "bnd_cond", "zeta", "h", "Topology", "water_u"]
TEXT = ["m", "sea floor depth", "a,b; c", "", "größe °C", "node", "0 1 2"]


def gen_attrs(r, n):
    out = {}
    for _ in range(n):
        k = r.choice(["standard_name", "positive", "comment", "flag_meanings", "valid_min", "flag_values", "note", "coverage", "history"])
        out[k] = {"standard_name": r.choice(["sea_floor_depth_below_geoid", "eastward_sea_water_velocity"]), "positive": "down",
                  "valid_min": r.choice([-1e300, -9.0e40]),
                  "flag_values": {"array": [0, 1, 2], "dtype": r.choice(["i1", "i4", "f8"])},
                  "coverage": r.choice([5, 0.5, -3])}.get(k, r.choice(TEXT))
    return out


def gen_ud(r, small=False):
    poly = r.choice(["tri", "tri", "quad", "mixed"])
    s = {"kind": "ud", "nx": r.randint(2, 4 if small else 6), "ny": r.randint(2, 4 if small else 6), "seed": r.randrange(10 ** 6), "poly": poly,
         "mesh": r.choice(["mesh", "Mesh2", "m", "fvcom_mesh", "adcirc"]), "ndt": r.choice(["f8", "f8", "f4"])}
    if s["nx"] * s["ny"] < 6:
        s["nx"] = 3
    # structured choice of optional parts
    parts = []
    if r.random() < 0.85:
        parts.append("faces")
    for k in ("edges", "boundaries"):
        if r.random() < 0.5:
            parts.append(k)
    if not parts and r.random() < 0.5:
        parts.append("edges")
    for k in ("face", "edge", "boundary"):
        if SIDE[k] in parts and r.random() < 0.4:
            parts.append(k + "_coordinates")
    s["parts"] = parts
    if r.random() < 0.35:
        s["nfaces"] = r.choice([1, 2, 3, 3, 4])
    if r.random() < 0.2:
        s["nedges"] = r.choice([1, 2, 3])
    if r.random() < 0.2:
        s["nbounds"] = r.choice([1, 2, 3])
    if "faces" in parts and r.random() < 0.3:
        s["links"] = ["face_face"] if "edges" not in parts or r.random() < 0.5 else ["face_edge"]
    locs = ["node"] + [k for k in ("face", "edge", "boundary") if SIDE[k] in parts]
    s["vars"] = [gen_uvar(r, k, locs) for k in r.sample(KEYS, r.choice([0, 1, 1, 2, 3]))]
    s["off"] = gen_off(r)
    s["turn"] = r.random() < 0.4
    s["attrs"] = gen_attrs(r, r.choice([0, 0, 1, 3]))
    if r.random() < 0.5:
        s["attrs"]["title"] = r.choice(["a title", "Modèle"])
    return s


def gen_off(r):
    """Where on the earth (or in which projection) it lies."""
    return r.choice([[0.0, 0.0]] * 3 + [[185.0, -40.0], [357.0, 84.0], [179.0, 10.0], [-178.0, 5.0], [500000.0, 4.2e6]])


def gen_uvar(r, key, locs):
    v = {"key": key, "loc": r.choice(locs), "dtype": r.choice(["f8", "f8", "f8", "f4", "i4", "i2", "i8", "i1", "u1", ">f4"])}
    if r.random() < 0.2:
        v["name"] = r.choice(["Water depth", "a/b", "mesh", "u velocity", key + "_2"])
    v["units"] = r.choice([None, "m", "m/s", "degrees_C"])
    v["attrs"] = gen_attrs(r, r.choice([0, 0, 1, 2, 4]))
    if r.random() < 0.15:
        v["attrs"]["long_name"] = "Long name of " + key
    if v["units"] is None and r.random() < 0.4:
        v["attrs"]["units"] = "feet"
    fl = v["dtype"] in ("f8", "f4")
    if v["dtype"] not in ("f8", "f4", ">f4"):
        v["attrs"].pop("valid_min", None)
    if fl and r.random() < 0.2:
        v["nan"] = True
    if fl and r.random() < 0.15:
        v["big"] = v["dtype"] == "f8"
    if v["dtype"] in ("f8", "f4", "i4") and r.random() < 0.25:
        v["masked"] = True
    if r.random() < 0.15 and v["dtype"] in ("f8", "f4", "i4", "i2"):
        v["attrs"]["_FillValue"] = {"array": -9999, "dtype": v["dtype"]}
    if r.random() < 0.15 and not v.get("big") and v["dtype"] in ("f8", "i2", "i4") and not v.get("masked"):
        v["attrs"].pop("valid_min", None)
        v["attrs"].pop("_FillValue", None)
        v["attrs"]["scale_factor"] = 0.25
        v.pop("nan", None)      # netCDF4 itself turns NaN into missing when it packs
        if v["dtype"] == "i4":
            v["dtype"] = "i2"
        if r.random() < 0.5:
            v["attrs"]["add_offset"] = 4.0
    v["ongrid"] = r.random() < 0.5
    return v


def gen_sg(r, small=False):
    s = {"kind": "sg", "nx": r.randint(3, 5), "ny": r.randint(3, 5), "seed": r.randrange(10 ** 6), "pad": r.choice(list(PADS)),
         "edges": r.random() < 0.5, "vertical": r.random() < 0.5, "angle": r.random() < 0.4, "field": r.random() < 0.5,
         "ndt": r.choice(["f8", "f8", "f4"]), "mdt": r.choice(["f8", "i1", "i4"]), "time": r.choice([None, None, "fixed"])}
    s["masks"] = "".join(k for k in ("n", "c") + (("u", "v") if s["edges"] else ()) if r.random() < 0.4)
    s["off"] = gen_off(r)
    s["fields"] = [{"on": r.choice("ncuv"), "std": r.choice([None, "sea_water_x_velocity", "sea_water_y_velocity", "sea_surface_height", "upward_x_velocity"]),
                    "grid": r.random() < 0.6, "coords": r.random() < 0.5, "time": not small and r.random() < 0.5, "z": r.random() < 0.4,
                    "dtype": r.choice(["f4", "f8", "i2"]),
                    "axes": r.choice([None, None, "X: nx", "X: nx Y: ny", "X: nx Y: ny Z: z"])} for _ in range(r.choice([0, 1, 2, 3]))]
    return s


def gen_vd(r, small=False):
    return {"kind": "vd", "nx": r.randint(2, 6), "ny": r.randint(2, 6), "seed": r.randrange(10 ** 6), "scale": r.choice([1.0, 0.01, 0.001]),
            "off": r.choice([[0.0, 0.0], [-124.5, 47.25], [170.0, -60.0]]), "hole": r.choice([0, 0, 1, 2]),
            "bounds": r.choice(["build", "sorted", "shuffled"]), "dmax": r.choice([10.0, 5000.0, 123456.0]),
            "ddt": r.choice(["f8", "f8", "f4"]), "units": r.choice(sorted(VUNITS)), "var": r.choice(["depth", "depth", "depth", "z", None])}


GEN = {"ud": gen_ud, "sg": gen_sg, "vd": gen_vd}
