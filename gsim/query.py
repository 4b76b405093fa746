"""Queries on a world: point arrays from compact specifications, dispatch, and observation."""
import datetime as dt
import re

import numpy as np

from .canon import canon
from .world import rng


def points(p):
    """p = {n, seed, dim, box:[x0,x1,y0,y1,z0,z1], edits:[[row,col,delta]], perm, form}"""
    if "at" in p:
        a = np.array(p["at"], dtype=np.float64)
    else:
        b = p["box"]
        r = rng("p", p["seed"], p["n"])
        u = r.uniform(0, 1, (p["n"], 3))
        a = np.column_stack((b[0] + (b[1] - b[0]) * u[:, 0], b[2] + (b[3] - b[2]) * u[:, 1],
                             b[4] + (b[5] - b[4]) * u[:, 2]))
        if p.get("z0"):
            a[:, 2] = 0.0
        a = a[:, : p["dim"]]
    for row, col, value in p.get("put", []):
        if a.shape[0] and col < a.shape[1]:
            a[row % a.shape[0], col] = value
    for row, col, delta in p.get("edits", []):
        if a.shape[0]:
            a[row % a.shape[0], col % a.shape[1]] += delta
    if p.get("perm"):
        a = a[::-1].copy()
    if p.get("int"):
        a = np.round(a)
    f = p.get("form", "nd")
    if f == "list":
        return a.tolist()
    if f == "tuple":
        return tuple(tuple(r) for r in a.tolist())
    if f == "one":                 # a single point, shape (dim,)
        return a[0].copy()
    if f == "one_list":
        return a[0].tolist()
    if f == "F":
        return np.asfortranarray(a)
    if f == "T":
        return a.T.copy()
    if f == "f4":
        return a.astype(np.float32)
    if f == "i8":
        return np.round(a).astype(np.int64)
    if f == "view":                # a non-contiguous view of a bigger array
        big = np.empty((a.shape[0] * 2, a.shape[1]))
        big[::2] = a
        big[1::2] = 99.0
        return big[::2]
    if f == "flat":                # (1, n, dim)
        return a.reshape(1, *a.shape)
    return a


def when(s):
    return None if s is None else dt.datetime.fromisoformat(s)


def resolve(w, q):
    """The bound callable and its arguments for query q on world w."""
    k = q["q"]
    o = q.get("o", 0)
    opts = dict(q.get("opts", {}))
    P = points(q["p"]) if "p" in q else None
    t = when(q.get("t"))
    if k == "var":
        return w.vars[o].at, _pargs(P, opts), dict(time=t, **opts)
    if k == "varc":        # query by columns
        P = np.asarray(P)
        return w.vars[o].at, (), dict(lons=P[:, 0].copy(), lats=P[:, 1].copy(), time=t, **opts)
    if k == "vvar":
        return w.vvars[o].at, _pargs(P, opts), dict(time=t, **opts)
    if k == "vvarc":
        P = np.asarray(P)
        return w.vvars[o].at, (), dict(lons=P[:, 0].tolist(), lats=P[:, 1].tolist(), time=t, **opts)
    if k == "fn":
        return helper(q["name"], q["seed"], P, t)
    if k == "regrid":       # the variable on another grid, or its own
        from gridded.utilities import regrid_variable
        return (lambda: regrid_variable(w.grids[q["to"]], w.vars[o]).data), (), {}
    if k in ("zeta", "bathymetry"):
        return w.aux[o][k].at, (P,), dict(time=t, **opts)
    if k.startswith("g."):
        g = w.grids[o]
        m = k[2:]
        if m in ("get_variable_by_index", "get_variable_at_index"):
            data = w.vars[opts["var"]].data
            for n in opts.get("slices", ()):
                data = data[n]
            data = np.ma.array(data[:], copy=True) if np.ma.isMA(data) else np.array(data[:], copy=True)
            return getattr(g, m), (data, np.ma.array(g.locate_faces(P), copy=True)), {}
        if opts.pop("with_indices", None):      # the caller passes the cell indices along
            opts["indices"] = np.ma.array(g.locate_faces(P), copy=True)
            if w.spec["grids"][o]["kind"] == "U":
                opts["indices"] = np.array(opts["indices"])
        if m in ("interpolate_var_to_points", "nearest_var_to_points"):
            v = opts.pop("var")
            sl = opts.pop("slices", None)
            if sl is not None:
                opts["slices"] = tuple(sl)
            data = w.vars[v].data
            return getattr(g, m), (P, data), opts
        if P is None:
            return getattr(g, m), (), opts
        return getattr(g, m), (P,), opts
    if k.startswith("t."):
        ti = w.times[o]
        m = k[2:]
        if m in ("min_time", "max_time", "data", "tz_offset", "len"):
            return (lambda: len(ti) if m == "len" else np.array(getattr(ti, m), copy=True)
                    if m == "data" else getattr(ti, m)), (), {}
        return getattr(ti, m), (t,), opts
    if k.startswith("d."):
        d = w.depths[o]
        m = k[2:]
        on = opts.pop("on", None)       # levels, layers or not said
        shape = {"levels": (d.num_levels,), "layers": (getattr(d, "num_layers", 0),), "one": (1,)}.get(on)
        if m == "interpolation_alphas":
            return d.interpolation_alphas, (P, t, shape or (d.num_levels,)), opts
        if m in ("get_s_coordinate", "get_depth_profile"):
            if shape:
                opts["data_shape"] = shape
            return getattr(d, m), (P, t), opts
        if m == "surface_index":
            return (lambda: (d.surface_index, d.bottom_index, d.num_levels)), (), {}
    if k == "uvar":
        idx = opts["idx"]
        u = w.uvars[o]
        if "range" in idx:
            a, b, c = idx["range"]
            item = np.arange(a, b)
            if c is not None:
                item[c[0] % len(item)] = c[1]
        elif "slice" in idx:
            item = slice(*idx["slice"])
        else:
            item = idx["int"]
        return u.__getitem__, (item,), {}
    if k == "state":
        return (lambda: state(w, *q["of"])), (), {}
    if k == "attr":
        return (lambda: said(attr(w, *q["of"]))), (), {}
    if k == "get":
        return (lambda: [getattr(w.vars[o], a) for a in ("units", "location", "data_shape")]), (), {}
    raise ValueError(k)


FNS = ("vector_sum", "rotate_vectors", "avg_to_cell_center", "calculate_angle_from_true_east", "points_in_polys", "pair_arrays",
       "order_boundary_segments", "point_in_tri", "gen_celltree_mask_from_center_mask", "constant", "constant")


def helper(name, seed, P, t):
    """Functions that belong to no object, and the variable that is the same everywhere."""
    r = rng("fn", seed)
    m, n = int(r.integers(2, 6)), int(r.integers(2, 6))
    a, b, c = r.normal(size=(3, m, n))
    if r.random() < 0.3:
        a = np.ma.array(a, mask=r.random((m, n)) < 0.2)
    if name in ("vector_sum", "rotate_vectors", "avg_to_cell_center"):
        from gridded.pysgrid import processing_2d as M
        args = {"vector_sum": (a, b), "rotate_vectors": (a, b, c), "avg_to_cell_center": (a, int(r.integers(2)))}[name]
        return getattr(M, name), args, {}
    if name == "order_boundary_segments":
        from gridded.io.verdat import order_boundary_segments
        s = np.array([(k, (k + 1) % m) for k in range(m)] + [(20 + k, 20 + (k + 1) % n) for k in range(n)])
        return order_boundary_segments, (s[r.permutation(len(s))],), {}
    if name == "point_in_tri":
        from gridded.pyugrid.util import point_in_tri
        return point_in_tri, (np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]) + a.flat[0], r.uniform(0, 1, 2) + a.flat[0]), {"return_weights": bool(r.integers(2))}
    if name == "gen_celltree_mask_from_center_mask":
        from gridded.utilities import gen_celltree_mask_from_center_mask
        return gen_celltree_mask_from_center_mask, (r.integers(0, 2, (m + 2, n + 2)), np.s_[1:-1, 1:-1]), {}
    if name == "constant":
        from gridded.variable import Variable
        return Variable.constant(float(c.flat[0])).at, (P,), {"time": t}
    from gridded.pysgrid import utils as M
    if name == "points_in_polys":
        o = r.uniform(-1, 1, (n, 2))
        quads = o[:, None, :] + np.array([[0, 0], [1, 0], [1, 1], [0, 1]])
        args = (r.uniform(-1, 2, (n, 2)), quads) if r.random() < 0.5 else (r.uniform(-1, 2, (n, 2)), quads[:, :, 0].copy(), quads[:, :, 1].copy())
        return M.points_in_polys, args, {}
    if name == "pair_arrays":
        return M.pair_arrays, (np.asarray(b), c), {}
    pos = np.stack((10 + b, 40 + c), axis=-1)
    return M.calculate_angle_from_true_east, (pos[:, :-1], pos[:, 1:]), {}


# what else can be asked of an object; answers that are arrays are new ones the caller may write into
ATTRS = {"var": ["units", "location", "data_shape", "is_data_on_nodes", "dimension_ordering", "info", "grid_shape", "str"],
         "vvar": ["units", "location", "data_shape", "is_data_on_nodes", "varnames", "str"],
         "time": ["get_time_array", "get_time_array", "info", "len", "iter", "tz_offset", "displacement", "min_time", "max_time", "eq"],
         "gridU": ["info", "num_vertices", "infer"],
         "gridS": ["info", "infer", "nodes", "centers", "all_padding", "non_grid_variables", "eq"],
         "gridR": ["nodes", "centers", "center_lon", "center_lat"],
         "depth": ["num_levels", "num_layers", "surface_index", "bottom_index"],
         "dset": ["names", "by_attr", "info", "str", "item"]}


def said(x):
    """Addresses, and what has been worked out so far, are no answers."""
    return re.sub(r"0x[0-9a-f]+|\s*Number of .*", "", x) if isinstance(x, str) else x


def attr(w, kind, i, name):
    if kind.startswith("grid"):
        g = w.grids[i]
        if name == "infer":
            return [g.infer_location(v.data) for v in w.vars]
        if name == "eq":
            return [bool(g == h) for h in w.grids if type(h) is type(g)]
        r = getattr(g, name)
        return r() if name == "all_padding" else r
    o = getattr(w, kind + "s")[i]
    if name == "str":
        return str(o)
    if kind == "time":
        if name == "len":
            return len(o)
        if name == "iter":
            return list(o)
        if name == "get_time_array":
            return o.get_time_array()
        if name == "eq":
            return [bool(o == t) for t in w.times]
        if name in ("tz_offset", "displacement"):
            return str(getattr(o, name))
    if kind == "dset":
        if name == "names":
            return list(o.variables)
        if name == "by_attr":
            return [v.name for v in o.get_variables_by_attribute("k", 3)]
        if name == "item":
            return [(o[k].name, o[k].units, o[k].data.shape) for k in o.variables]
    return getattr(o, name)


def _arr(x):
    return None if x is None else np.ma.array(x[:], copy=True) if np.ma.isMA(x[:]) else np.array(x[:], copy=True)


def state(w, kind, i):
    """What an object says about itself."""
    if kind == "var":
        v = w.vars[i]
        return [_arr(v.data), v.units, None if v.time is None else np.array(v.time.data, copy=True)]
    if kind == "vvar":
        v = w.vvars[i]
        return [[state_of_time(x.time) for x in v.variables], [_arr(x.data) for x in v.variables], v.units, [x.units for x in v.variables]]
    if kind == "grid":
        g = w.grids[i]
        if w.spec["grids"][i]["kind"] == "U":
            return [_arr(g.nodes), _arr(g.faces)]
        return [_arr(g.node_lon), _arr(g.node_lat)]
    raise ValueError(kind)


def state_of_time(t):
    return None if t is None else np.array(t.data, copy=True)


def _pargs(P, opts):
    return (P,)


# grid actions that return nothing but may build internal structures
ACTIONS = ("build_celltree", "build_edges", "build_face_face_connectivity", "build_boundaries", "get_lines",
           "build_kdtree", "build_face_coordinates", "build_edge_coordinates", "build_boundary_coordinates",
           "build_face_edge_connectivity")


def ask(w, q):
    """Run q; the answer in observable form, an exception as its class."""
    try:
        f, a, kw = resolve(w, q)
        return canon(f(*a, **kw))
    except Exception as e:   # noqa: BLE001
        return ("exc", type(e).__name__)


def ask_raw(w, q):
    f, a, kw = resolve(w, q)
    return f(*a, **kw), a, kw
