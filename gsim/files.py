"""Model output files of the supported conventions, ways of loading them, and what a loaded object shows."""
import datetime as dt

import numpy as np

from .canon import canon
from .store import lattice_edges, sg_state, sg_write, vd_build
from .world import r_arrays, rng, s_arrays, u_arrays

T0 = dt.datetime(2020, 1, 1)
FORMATS = ("NETCDF4", "NETCDF4", "NETCDF4", "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET")


# ---------------------------------------------------------------- writing
def _dim(d, name, n):
    if name not in d.dimensions:
        d.createDimension(name, n)


def put(d, name, dims, data, s=None, **attrs):
    kw = {}
    if s and s.get("zip") and s["fmt"].startswith("NETCDF4") and dims:
        kw = {"zlib": True, "complevel": 1}
    if "_FillValue" in attrs:
        kw["fill_value"] = attrs.pop("_FillValue")
    data = np.ma.asanyarray(data)
    if s and s["fmt"].startswith("NETCDF3") and data.dtype == np.int64:
        data = data.astype("i4")
    v = d.createVariable(name, data.dtype, dims, **kw)
    for k, x in attrs.items():
        v.setncattr(k, x)
    v[...] = data
    return v


def times_of(s):
    """hours since T0"""
    return np.array(s["hours"], dtype=float) if s.get("hours") else None


def write_time(d, s, part=None):
    h = times_of(s)
    if h is None:
        return
    sel = slice(None) if part is None else part
    d.createDimension(s["tdim"], None if s.get("unlimited") else len(h[sel]))
    scale = {"hours": 1.0, "seconds": 3600.0, "days": 1 / 24.0}[s["tunit"]]
    epoch = s.get("epoch", "2020-01-01 00:00:00")
    off = (T0 - dt.datetime.fromisoformat(epoch)).total_seconds() / 3600
    put(d, s["tdim"], (s["tdim"],), (h[sel] + off) * scale, s, units=f"{s['tunit']} since {epoch}{s.get('tz', '')}", standard_name="time")


def field(s, key, shape):
    a = rng("field", s["seed"], key).uniform(-5, 5, shape)
    return np.round(a, 6)


def vdims(s, v, sdims, n):
    """(dimension names, full shape) of a field"""
    dims, shp = tuple(sdims), tuple(n)
    if v.get("z"):
        z = s["zdims"][v["z"]]
        dims, shp = (z[0],) + dims, (z[1],) + shp
    if v.get("t") and s.get("hours"):
        dims, shp = (s["tdim"],) + dims, (len(s["hours"]),) + shp
    return dims, shp


def put_field(d, s, v, sdims, n, part, **attrs):
    dims, shp = vdims(s, v, sdims, n)
    a = field(s, v["key"], shp)
    if v.get("t") and s.get("hours") and part is not None:
        a = a[part]
    if v.get("units"):
        attrs["units"] = v["units"]
    if v.get("long"):
        attrs["long_name"] = v["long"]
    if v.get("masked"):
        a = np.ma.array(a, mask=rng("mask", s["seed"], v["key"]).uniform(size=a.shape) < 0.1)
        attrs["_FillValue"] = -9999.0
    a = a.astype(v.get("dtype", "f8"))
    if "_FillValue" in attrs:
        attrs["_FillValue"] = a.dtype.type(-9999.0)
    put(d, v["key"], dims, a, s, **attrs)


def write(s, path, part=None, only=None):
    """only: None, 'grid' (no fields) or 'data' (no grid)"""
    if s["conv"] == "verdat":
        from gridded.io import save_verdat
        save_verdat(vd_build(s["vd"]), path, depth_var=s["vd"]["var"])
        return
    if s["conv"] == "sg":
        sg_write(s["sg"], path)
        return
    import netCDF4
    with netCDF4.Dataset(path, "w", format=s["fmt"]) as d:
        d.title = "model output"
        if s.get("grid_type"):
            d.grid_type = s["grid_type"]
        WRITERS[s["conv"]](d, s, part, only)
        if s.get("decoys") and only != "data":
            decoys(d, s)
        if s.get("padding"):     # many attributes: HDF5 keeps them away from the header and reads them when they are asked for
            for v in list(d.variables.values()) + [d]:
                for k in range(s["padding"]):
                    v.setncattr(f"extra_{k}", "x" * (5 + 40 * (k % 3)))


def decoys(d, s):
    """Other variables that could be taken for the coordinates: which one is used may not depend on chance."""
    pairs = {"fvcom": ("lon", "lat", "longitude", "latitude"), "rgrid": ("lon", "lat", "longitude", "latitude"), "curv": ("lon", "lat", "longitude", "latitude"),
             "sgrid": ("lon_n", "lat_n", "lon_n_other", "lat_n_other"), "roms": ("lon_psi", "lat_psi", "longitude", "latitude"),
             "ugrid": ("node_lon", "node_lat", "longitude", "latitude")}[s["conv"]]
    for a, b in zip(pairs[:2], pairs[2:]):
        v = d[a]
        put(d, b, v.dimensions, v[...] + 0.25, s, **{k: v.getncattr(k) for k in ("units", "standard_name") if k in v.ncattrs()})
    if s["conv"] == "sgrid":
        d["grid"].delncattr("node_coordinates")
    if s["conv"] == "fvcom":
        v = d["nv"]
        put(d, "tris", v.dimensions, v[...][:, ::-1], s)


def w_ugrid(d, s, part, only):
    nodes, faces = u_arrays(s)
    _dim(d, "node", len(nodes))
    _dim(d, "nele", len(faces))
    n = {"node": ("node", len(nodes)), "face": ("nele", len(faces))}
    edges = np.array(sorted(lattice_edges(faces)), dtype="i4")
    if s.get("edges"):
        _dim(d, "edge", len(edges))
        n["edge"] = ("edge", len(edges))
    write_time(d, s, part)
    if only != "data":
        _dim(d, "three", 3)
        _dim(d, "two", 2)
        m = d.createVariable("mesh", "i4")
        m.cf_role = "mesh_topology"
        m.topology_dimension = np.int32(2)
        m.node_coordinates = "node_lon node_lat"
        m.face_node_connectivity = "mesh_face_nodes"
        m.long_name = "Topology of the mesh"
        if s.get("face_dimension"):
            m.face_dimension = "nele"
        ll = {"lon": ("longitude", "degrees_east"), "lat": ("latitude", "degrees_north")}
        base = s.get("base", 0)
        fv = put(d, "mesh_face_nodes", ("nele", "three"), faces.astype("i4") + base, s, cf_role="face_node_connectivity")
        if s.get("start_index", True):
            fv.start_index = np.int32(base)
        for k, ax in enumerate(("lon", "lat")):
            put(d, "node_" + ax, ("node",), nodes[:, k], s, standard_name=ll[ax][0], units=ll[ax][1])
        if s.get("edges"):
            m.edge_node_connectivity = "mesh_edge_nodes"
            put(d, "mesh_edge_nodes", ("edge", "two"), edges + base, s, start_index=np.int32(base))
        if s.get("face_coords"):
            m.face_coordinates = "face_lon face_lat"
            c = nodes[faces].mean(axis=1)
            for k, ax in enumerate(("lon", "lat")):
                at = {"units": ll[ax][1]}
                if s["face_coords"] == "std":
                    at["standard_name"] = ll[ax][0]
                put(d, "face_" + ax, ("nele",), c[:, k], s, **at)
        if s.get("bnd"):
            b = np.array(sorted(k for k, x in lattice_edges(faces).items() if x == 1), dtype="i4")
            _dim(d, "nbnd", len(b))
            m.boundary_node_connectivity = "mesh_bnd"
            put(d, "mesh_bnd", ("nbnd", "two"), b + base, s, start_index=np.int32(base))
    if only != "grid":
        write_depth(d, s)
        for v in s["vars"]:
            loc = n.get(v["loc"], n["node"])
            put_field(d, s, v, loc[:1], loc[1:], part, location=v["loc"], mesh="mesh", **({"time": s["tdim"]} if s.get("hours") and s.get("tattr") else {}))


def write_depth(d, s):
    if s.get("levels"):
        z = s["levels"]
        _dim(d, "depth", len(z))
        put(d, "depth", ("depth",), np.array(z, float), s, units="m", positive="down")


def w_fvcom(d, s, part, only):
    nodes, faces = u_arrays(s)
    _dim(d, "node", len(nodes))
    _dim(d, "nele", len(faces))
    n = {"node": ("node", len(nodes)), "face": ("nele", len(faces))}
    write_time(d, s, part)
    if only != "data":
        _dim(d, "three", 3)
        put(d, "lon", ("node",), nodes[:, 0], s, units="degrees_east", standard_name="longitude")
        put(d, "lat", ("node",), nodes[:, 1], s, units="degrees_north", standard_name="latitude")
        put(d, "nv", ("three", "nele"), faces.T.astype("i4") + 1, s)
    if s.get("sigma") and only != "grid":
        put(d, "h", ("node",), 5 + np.abs(field(s, "h", len(nodes))), s, units="m", standard_name="sea_floor_depth_below_geoid", grid="Bathymetry_Mesh")
        nlev = s["sigma"]
        _dim(d, "siglev", nlev)
        _dim(d, "siglay", nlev - 1)
        lev = np.linspace(0, -1, nlev)[:, None] * np.ones(len(nodes))
        put(d, "siglev", ("siglev", "node"), lev, s, long_name="Sigma Levels")
        put(d, "siglay", ("siglay", "node"), (lev[1:] + lev[:-1]) / 2, s, long_name="Sigma Layers")
        if s.get("zeta", True):
            put_field(d, s, {"key": "zeta", "t": True, "units": "m"}, ("node",), (len(nodes),), part, standard_name="sea_surface_height_above_geoid", location="node")
    if only != "grid":
        for v in s["vars"]:
            loc = n[v["loc"]]
            put_field(d, s, v, loc[:1], loc[1:], part, **({"location": v["loc"]} if s.get("locattr") else {}))


def w_roms(d, s, part, only):
    a = s_arrays(s)
    ny, nx = a["node_lon"].shape
    sizes = {"rho": (ny + 1, nx + 1), "psi": (ny, nx), "u": (ny + 1, nx), "v": (ny, nx + 1)}
    key = {"rho": "center", "psi": "node", "u": "edge1", "v": "edge2"}
    n = {}
    for k, (p, q) in sizes.items():
        _dim(d, "eta_" + k, p)
        _dim(d, "xi_" + k, q)
        n[key[k]] = (("eta_" + k, "xi_" + k), (p, q))
    write_time(d, s, part)
    if only != "data":
        for k in sizes:
            for ax in ("lon", "lat"):
                put(d, f"{ax}_{k}", n[key[k]][0], a[f"{key[k]}_{ax}"], s, units="degree_" + ("east" if ax == "lon" else "north"),
                    long_name=f"{ax} of {k.upper()}-points")
            if k in s.get("masks", ()):
                m = np.ones(n[key[k]][1])
                if k == "rho":
                    m[rng("m", s["seed"]).integers(0, ny + 1, 2), rng("m2", s["seed"]).integers(0, nx + 1, 2)] = 0
                put(d, "mask_" + k, n[key[k]][0], m, s, long_name="mask on " + k.upper() + "-points", flag_values=np.array([0.0, 1.0]), flag_meanings="land water")
        if s.get("angle"):
            put(d, "angle", n["center"][0], field(s, "angle", n["center"][1]) / 5, s, units="radians")
    if s.get("sigma") and only != "grid":
        nw = s["sigma"]
        _dim(d, "s_rho", nw - 1)
        _dim(d, "s_w", nw)
        sw = np.linspace(-1, 0, nw)
        sr = (sw[1:] + sw[:-1]) / 2
        put(d, "s_rho", ("s_rho",), sr, s, long_name="S-coordinate at RHO-points")
        put(d, "s_w", ("s_w",), sw, s, long_name="S-coordinate at W-points")
        put(d, "Cs_r", ("s_rho",), sr ** 3, s)
        put(d, "Cs_w", ("s_w",), sw ** 3, s)
        put(d, "hc", (), np.array(3.0), s, units="m", long_name="S-coordinate parameter, critical depth")
        put(d, "h", n["center"][0], 10 + field(s, "h", n["center"][1]), s, units="m", long_name="bathymetry at RHO-points")
        if s.get("zeta", True):
            put_field(d, s, {"key": "zeta", "t": True, "units": "m"}, *n["center"], part, long_name="free-surface")
    if only != "grid":
        for v in s["vars"]:
            put_field(d, s, v, *n[v["loc"]], part, **({"location": v["loc"]} if s.get("locattr") else {}))


def w_rgrid(d, s, part, only):
    lon, lat = r_arrays(s)
    _dim(d, "lon", len(lon))
    _dim(d, "lat", len(lat))
    write_time(d, s, part)
    if only != "data":
        put(d, "lon", ("lon",), lon, s, units="degrees_east", standard_name="longitude")
        put(d, "lat", ("lat",), lat, s, units="degrees_north", standard_name="latitude")
    if only != "grid":
        write_depth(d, s)
        for v in s["vars"]:
            put_field(d, s, v, ("lat", "lon"), (len(lat), len(lon)), part)


def w_sgrid(d, s, part, only):
    a = s_arrays(s)
    ny, nx = a["node_lon"].shape
    cy, cx = a["center_lon"].shape
    n = {"node": (("jn", "in"), (ny, nx)), "center": (("jc", "ic"), (cy, cx))}
    for (p, q), (k, m) in n.values():
        _dim(d, p, k)
        _dim(d, q, m)
    write_time(d, s, part)
    if only != "data":
        pad = s["pad"]
        t = d.createVariable("grid", "i4")
        t.cf_role = "grid_topology"
        t.topology_dimension = np.int32(2)
        t.node_dimensions = "in jn"
        t.face_dimensions = f"ic: in (padding: {pad}) jc: jn (padding: {pad})"
        t.node_coordinates = "lon_n lat_n"
        if s.get("face_coords", True):
            t.face_coordinates = "lon_c lat_c"
        for k, (dm, _) in n.items():
            for ax in ("lon", "lat"):
                put(d, f"{ax}_{k[0]}", dm, a[f"{k}_{ax}"], s, units="degrees_" + ("east" if ax == "lon" else "north"),
                    standard_name="longitude" if ax == "lon" else "latitude")
        if s.get("masks"):
            put(d, "mask_c", n["center"][0], np.ones((cy, cx)), s, flag_values=np.array([0.0, 1.0]), flag_meanings="land water")
        if s.get("angle"):
            put(d, "angle", n["center"][0], field(s, "angle", (cy, cx)) / 5, s)
    if only != "grid":
        write_depth(d, s)
        for v in s["vars"]:
            put_field(d, s, v, *n[v["loc"]], part, grid="grid", location={"center": "face"}.get(v["loc"], v["loc"]), **({"standard_name": v["std"]} if v.get("std") else {}))


def w_curv(d, s, part, only):
    """a curvilinear grid that says so in grid_type, and has a variable whose name other conventions use for connectivity"""
    a = s_arrays(s)
    ny, nx = a["node_lon"].shape
    _dim(d, "y", ny)
    _dim(d, "x", nx)
    write_time(d, s, part)
    if only != "data":
        for ax in ("lon", "lat"):
            put(d, ax, ("y", "x"), a["node_" + ax], s, units="degrees_" + ("east" if ax == "lon" else "north"))
    if s.get("ele"):
        put(d, "ele", ("y", "x"), np.abs(field(s, "ele", (ny, nx)) * 0.5).astype("i4"), s, units="m", long_name="elevation")
    if only != "grid":
        write_depth(d, s)
        for v in s["vars"]:
            put_field(d, s, v, ("y", "x"), (ny, nx), part)


WRITERS = {"curv": w_curv, "ugrid": w_ugrid, "fvcom": w_fvcom, "roms": w_roms, "rgrid": w_rgrid, "sgrid": w_sgrid}


# ---------------------------------------------------------------- generation
def gen_file(r, convs=("ugrid", "fvcom", "roms", "rgrid", "sgrid", "curv", "sg", "verdat"), static=0.25):
    conv = r.choice(convs)
    s = {"conv": conv, "seed": r.randrange(10 ** 6), "nx": r.randint(3, 5), "ny": r.randint(3, 5), "fmt": r.choice(FORMATS)}
    if conv == "verdat":
        from .store import gen_vd
        s["vd"] = gen_vd(r, small=True)
        if r.random() < 0.4:
            s["vd"]["nx"], s["vd"]["ny"] = 15, r.choice([13, 20])
        return s
    if conv == "sg":
        from .store import gen_sg
        s["sg"] = gen_sg(r, small=True)
        return s
    s["zip"] = r.random() < 0.2
    s["padding"] = r.choice([0, 12, 30])
    if r.random() >= static:
        k = r.choice([1, 2, 3, 4])
        h, out = r.choice([0.0, 6.0, 1000.0]), []
        for _ in range(k):
            out.append(h)
            h += r.choice([0.5, 1.0, 1.0, 3.0, 24.0])
        s["hours"] = out
        s["tdim"] = "ocean_time" if conv == "roms" else "time"
        s["tunit"] = r.choice(["hours", "seconds", "days"])
        if s["tunit"] != "days" and r.random() < 0.3:
            s["epoch"] = r.choice(["1970-01-01 00:00:00", "1858-11-17 00:00:00", "2020-01-01 06:00:00"])
        s["tz"] = r.choice(["", "", " +00:00", " -05:00", "+05:30", "Z"])
        s["unlimited"] = r.random() < 0.6
        s["tattr"] = r.random() < 0.3
    s["zdims"] = {}
    if conv in ("ugrid", "rgrid", "sgrid", "curv") and r.random() < 0.5:
        n = r.choice([2, 3, 5])
        z = [0.0]
        for _ in range(n - 1):
            z.append(z[-1] + r.choice([1.0, 2.5, 10.0]))
        if r.random() < 0.3:
            z[0] = 0.5
        if r.random() < 0.3:
            z = z[::-1]
        s["levels"] = z
        s["zdims"]["L"] = ["depth", n]
    if conv in ("fvcom", "roms") and r.random() < 0.5:
        s["sigma"] = r.choice([3, 4])
        s["zeta"] = r.random() < 0.8 and bool(s.get("hours"))
        lay, lev = ("siglay", "siglev") if conv == "fvcom" else ("s_rho", "s_w")
        s["zdims"] = {"lay": [lay, s["sigma"] - 1], "lev": [lev, s["sigma"]]}
    if conv == "sgrid":
        s["pad"] = r.choice(["both", "none"])
        s["masks"] = r.random() < 0.3
        s["angle"] = r.random() < 0.5
        s["face_coords"] = True
    if conv == "roms":
        s["pad"] = "both"
        s["masks"] = ["rho"] + [k for k in ("psi", "u", "v") if r.random() < 0.4] if r.random() < 0.5 else []
        s["angle"] = r.random() < 0.4
        s["locattr"] = r.random() < 0.2
    if conv == "ugrid":
        s["base"] = r.choice([0, 0, 1])
        s["start_index"] = r.random() < 0.7
        s["face_dimension"] = r.random() < 0.3
        s["edges"] = r.random() < 0.3
        s["bnd"] = r.random() < 0.3
        s["face_coords"] = r.choice([None, "std", "units"])
    if conv == "fvcom":
        s["locattr"] = r.random() < 0.7
    if conv == "curv":
        s["grid_type"] = r.choice(["curvilinear", "sgrid", "roms"])
        s["ele"] = r.random() < 0.7
    elif r.random() < 0.15 and conv != "sgrid":
        s["grid_type"] = {"ugrid": "ugrid", "fvcom": "ugrid", "roms": "sgrid", "rgrid": "rgrid"}[conv]
    locs = {"ugrid": ["node", "face"], "fvcom": ["node", "face"], "roms": ["center", "center", "node", "edge1", "edge2"], "rgrid": ["node"], "curv": ["node"],
            "sgrid": ["node", "center"]}[conv]
    s["vars"] = []
    for k in ["u", "v", "temp", "salt", "wind_u"][:r.choice([2, 2, 3, 4])]:
        v = {"key": k, "loc": r.choice(locs), "t": bool(s.get("hours")) and r.random() < 0.9,
             "units": r.choice(["m/s", "deg C", None]), "long": r.choice([None, k + " of the model"])}
        if s["zdims"] and r.random() < 0.6:
            v["z"] = r.choice(sorted(s["zdims"]))
        if r.random() < 0.2:
            v["masked"] = True
        if r.random() < 0.3:
            v["dtype"] = "f4"
        s["vars"].append(v)
    if s["vars"][1]["key"] == "v":
        if r.random() < 0.7:
            s["vars"][1].update({k: s["vars"][0].get(k) for k in ("loc", "t", "z", "units")})
        if conv == "roms" and s["vars"][0]["loc"].startswith("edge"):
            s["vars"][0]["loc"], s["vars"][1]["loc"] = "edge1", "edge2"
    return s


def loaders(s):
    """the ways this file can be loaded: list of load specs"""
    if s["conv"] == "verdat":
        return [{"how": "verdat"}]
    if s["conv"] == "sg":
        return [{"how": "ds"}, {"how": "grid"}, {"how": "sgrid"}]
    out = [{"how": "ds"}, {"how": "grid"}]
    if s["conv"] == "ugrid":
        out.append({"how": "ugrid"})
    if s["conv"] == "sgrid":
        out.append({"how": "sgrid"})
    for v in s["vars"]:
        out.append({"how": "var", "var": v["key"]})
    if len(s["vars"]) > 1:
        out.append({"how": "vec", "vars": [s["vars"][0]["key"], s["vars"][1]["key"]]})
    if s.get("hours"):
        out.append({"how": "time", "var": s["vars"][0]["key"]})
        out.append({"how": "timevar"})
    if s.get("levels") or s.get("sigma"):
        out.append({"how": "depth"})
        out.append({"how": "depth"})
    return out


def gen_load(r, s):
    ld = dict(r.choice(loaders(s)))
    if ld["how"] in ("var", "vec"):
        if r.random() < 0.2:
            ld["split"] = True
        elif s.get("hours") and len(s["hours"]) > 1 and s["fmt"] != "NETCDF4" and s["conv"] not in ("sgrid", "ugrid") and r.random() < 0.5:
            ld["parts"] = True
        if r.random() < 0.2:
            ld["all"] = True
        if r.random() < 0.2:
            ld["shift"] = r.choice([-3600, 86400])
        if r.random() < 0.2:
            ld["open"] = True
        if r.random() < 0.3 and not ld.get("parts"):
            ld["defaults"] = r.randrange(10 ** 6)
    return ld


def user_class(s, ld):
    """A user's class that lists, in order of preference, the names its data may have."""
    import random
    from gridded.variable import Variable, VectorVariable
    r = random.Random(ld["defaults"])
    keys = [v["key"] for v in s["vars"]]
    longs = [v["long"] for v in s["vars"] if v.get("long")]
    comps = ["u", "v"] if ld["how"] == "vec" else ["x"]
    names, std = {}, {}
    for c in comps:
        names[c] = std[c] = []
        if len(longs) > 1 and r.random() < 0.7 or longs and r.random() < 0.3:
            std[c] = ["not_there"] + r.sample(longs, r.randint(1, len(longs)))
        else:
            names[c] = r.sample(keys, r.randint(1, len(keys))) + ["not_there"]
    if ld["how"] == "vec":
        return type("UserVector", (VectorVariable,), {"default_names": names, "cf_names": std, "comp_order": comps})
    return type("UserVariable", (Variable,), {"default_names": names["x"], "cf_names": std["x"]})


def prepare(s, sc, name="f"):
    """Write everything the load specs may need; returns nothing (paths are derived from the name)."""
    write(s, sc.path(name + ".nc"))
    if s["conv"] in WRITERS:
        write(s, sc.path(name + ".grid"), only="grid")
        write(s, sc.path(name + ".data"), only="data")
        if s.get("hours") and len(s["hours"]) > 1 and s["fmt"] != "NETCDF4":
            s2 = dict(s, unlimited=True)
            k = max(1, len(s["hours"]) // 2)
            write(s2, sc.path(name + ".p0"), part=slice(0, k))
            write(s2, sc.path(name + ".p1"), part=slice(k, None))


# ---------------------------------------------------------------- loading
def load(s, ld, sc, name="f"):
    import gridded
    from gridded.depth import Depth
    from gridded.grids import Grid
    from gridded.time import Time
    from gridded.variable import Variable, VectorVariable
    p = sc.path(name + ".nc")
    how = ld["how"]
    if how == "verdat":
        from gridded.io import load_verdat
        return load_verdat(p)
    if how == "ds":
        return gridded.Dataset.from_netCDF(p)
    if how == "grid":
        return Grid.from_netCDF(p)
    if how == "ugrid":
        from gridded.pyugrid.ugrid import UGrid
        return UGrid.from_ncfile(p)
    if how == "sgrid":
        from gridded.pysgrid.sgrid import load_grid
        return load_grid(p)
    if how == "time":
        return Time.from_netCDF(p, datavar=ld["var"])
    if how == "timevar":
        return Time.from_netCDF(p, varname=s["tdim"])
    if how == "depth":
        return Depth.from_netCDF(p)
    kw = {}
    if ld.get("all"):
        kw["load_all"] = True
    if ld.get("shift"):
        kw["displacement"] = dt.timedelta(seconds=ld["shift"])
    if ld.get("split"):
        kw.update(data_file=sc.path(name + ".data"), grid_file=sc.path(name + ".grid"))
    elif ld.get("parts"):
        kw.update(filename=[sc.path(name + ".p0"), sc.path(name + ".p1")])
    elif ld.get("open"):
        import netCDF4
        kw.update(dataset=netCDF4.Dataset(p))
    else:
        kw["filename"] = p
    if ld.get("defaults") is not None:
        return user_class(s, ld).from_netCDF(name="thing", **kw)
    if how == "var":
        return Variable.from_netCDF(varname=ld["var"], name="thing", **kw)
    return VectorVariable.from_netCDF(varnames=list(ld["vars"]), name="thing", **kw)


# ---------------------------------------------------------------- what is loaded
G_ATTRS = ("mesh_name", "nodes", "faces", "edges", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates", "node_lon", "node_lat",
           "center_lon", "center_lat", "edge1_lon", "edge1_lat", "edge2_lon", "edge2_lat", "node_mask", "center_mask", "edge1_mask", "edge2_mask",
           "face_padding", "edge1_padding", "edge2_padding", "angles", "dimensions", "node_dimensions", "node_coordinates")
D_ATTRS = ("surface_index", "bottom_index", "num_levels", "num_layers", "depth_levels", "Cs_r", "Cs_w", "s_rho", "s_w", "hc", "siglay", "siglev", "vtransform")


def value(x):
    if x is None or isinstance(x, (str, bytes, int, float)):
        return canon(x)
    if hasattr(x, "ncattrs") and hasattr(x, "shape"):
        return canon({"values": np.ma.asarray(x[...]), "attributes": {n: x.getncattr(n) for n in x.ncattrs()}})
    if hasattr(x, "shape") and not isinstance(x, np.ndarray):
        return canon(np.ma.asarray(x[...]))
    return canon(x)


def get(o, k):
    try:
        return value(getattr(o, k))
    except AttributeError:
        return ("none",)
    except Exception as e:      # noqa: BLE001
        return ("exc", type(e).__name__)


def grid_snap(g):
    out = {k: get(g, k) for k in G_ATTRS}
    out["type"] = canon(type(g).__name__)
    gt = getattr(g, "grid_topology", None)
    out["topology"] = canon({k: str(v) for k, v in gt.items() if isinstance(v, str)} if isinstance(gt, dict) else None)
    return out


def snap(o, seen=None, depth=0):
    """name -> canonical value of everything a user can see on a loaded object"""
    from gridded.depth import DepthBase
    from gridded.time import Time
    from gridded.variable import Variable, VectorVariable
    import gridded
    out = {}

    def sub(name, x, fn=snap):
        if x is None:
            out[name] = ("none",)
        else:
            for k, v in (fn(x) if fn is grid_snap else fn(x, depth=depth + 1)).items():
                out[name + "." + k] = v
    if isinstance(o, gridded.Dataset):
        sub("grid", o.grid, grid_snap)
        out["variables"] = canon(sorted(o.variables))
        for k in sorted(o.variables):
            sub("variable " + k, o.variables[k])
        out["attributes"] = canon(dict(o.attributes))
    elif isinstance(o, Variable):
        for k in ("units", "location", "fill_value", "attributes", "varname"):
            out[k] = get(o, k)
        out["data"] = get(o, "data")
        sub("time", o.time)
        if depth < 3:
            sub("depth", o.depth)
        if depth == 0:
            sub("grid", o.grid, grid_snap)
    elif isinstance(o, VectorVariable):
        out["units"] = get(o, "units")
        out["n"] = canon(len(o.variables))
        for i, v in enumerate(o.variables):
            sub(str(i), v)
        sub("time", o.time)
        sub("depth", o.depth)
        sub("grid", o.grid, grid_snap)
    elif isinstance(o, Time):
        for k in ("tz_offset", "tz_offset_name"):
            out[k] = get(o, k)
        # a time axis made up for static data says nothing about when
        out["data"] = get(o, "data") if len(o.data) > 1 or not getattr(o, "filename", None) is None else canon(len(o.data))
    elif isinstance(o, DepthBase):
        out["type"] = canon(type(o).__name__)
        for k in D_ATTRS:
            out[k] = get(o, k)
        for k in ("bathymetry", "zeta"):
            if depth < 3 and getattr(o, k, None) is not None:
                sub(k, getattr(o, k))
        if getattr(o, "grid", None) is not None and depth == 0:
            sub("grid", o.grid, grid_snap)
    else:
        return grid_snap(o)
    return out


def questions(s, ld, r, n=3):
    """Queries to a loaded object, by seed: list of {pts, t}"""
    out = []
    for _ in range(n):
        pts = [[round(r.uniform(-0.3, s.get("nx", 4) - 0.7), 3), round(r.uniform(-0.3, s.get("ny", 4) - 0.7), 3), round(r.choice([0.0, r.uniform(0, 8), r.uniform(0, 3)]), 3)]
               for _ in range(r.choice([1, 3, 6]))]
        out.append({"pts": pts, "when": round(r.choice([0, 1, r.random(), r.random()]), 3)})
    return out


def when(s, ld, q):
    h = s.get("hours")
    if not h:
        return T0 + dt.timedelta(days=400 * q["when"])
    t = h[0] + (h[-1] - h[0]) * q["when"]
    tz = {" -05:00": 0, "+05:30": 0}.get(s.get("tz"), 0)
    return T0 + dt.timedelta(hours=t + tz, seconds=ld.get("shift", 0))


def ask(o, s, ld, q):
    from gridded.depth import DepthBase
    from gridded.time import Time
    from gridded.variable import Variable, VectorVariable
    import gridded
    pts = np.array(q["pts"], float)
    t = None if q.get("none") else when(s, ld, q)

    def one(fn):
        try:
            return canon(fn())
        except Exception as e:      # noqa: BLE001
            return ("exc", type(e).__name__)
    if isinstance(o, gridded.Dataset):
        out = {"locate": one(lambda: o.grid.locate_faces(pts[:, :2]))}
        for k in sorted(o.variables):
            out[k] = one(lambda: o.variables[k].at(pts, t))
        return out
    if isinstance(o, (Variable, VectorVariable)):
        return {"at": one(lambda: o.at(pts, t)), "ext": one(lambda: o.at(pts, t if t is None else t + dt.timedelta(days=3), extrapolate=True))}
    if isinstance(o, Time):
        return {"index": one(lambda: o.index_of(t)), "alpha": one(lambda: o.interp_alpha(t))}
    if isinstance(o, DepthBase):
        return {"alphas": one(lambda: o.interpolation_alphas(pts, t, data_shape=(o.num_levels,)))}
    return {"locate": one(lambda: o.locate_faces(pts[:, :2]))}
