"""C04: callers' arrays and the library's state never leak into each other."""
import datetime as dt
import hashlib

import numpy as np

from . import engine
from . import gen as G
from .canon import canon, same, show
from .query import resolve
from .world import World, freeze, loc_shape, rng, time_list, u_arrays, unchanged

PLAN = {"quick": {"runs": 4800, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:caller_write", "probe:write_ret",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one query compared with the same query on a pristine world, or one set of caller inputs and "
        "arguments compared with copies taken before the call; non-trivial = asked after a caller write; distinct = "
        "(kind of write, object asked before, object asked after, options)")
MEASURE = "distinct (caller write, query) pairs"
COMPONENTS = {"real": ["gridded (all)", "numpy", "scipy", "cell_tree2d", "fork for the oracle"],
              "stub": ["none (the hostile caller is the simulator)"]}
ASSUMPTIONS = ["data, node and attribute objects handed to constructors are shared by design: the caller does not write "
               "into those; it writes into returned arrays, point arrays, time lists/arrays and time axes",
               "a returned array that is read-only counts as protected"]

WRITES = ["ret", "ret", "ret", "mask", "pts", "pts", "times", "shift"]


def gen(seed, i, tier):
    r = G.case_rng(seed, "C04", i)
    spec = G.gen_world(r, uvars=False, small=True)
    if r.random() < 0.5 and len(spec["times"]) == 1:
        spec["times"].append({**spec["times"][0], "form": "share", "of": 0})
        for v in spec["vars"]:
            if v["time"] == 0 and v.get("depth") is None and r.random() < 0.4:
                v["time"] = 1
    for g in spec["grids"]:
        if g["kind"] == "U":
            g["full"] = r.random() < 0.5
    qg = G.QGen(r, spec, big=0.02, mutate=r.choice([0.2, 0.5]))
    n = r.choice([3, 5, 8, 12]) if tier == "quick" else r.choice([5, 10, 20, 30])
    steps = []
    while len(steps) < n:
        x = r.random()
        if x < 0.05:
            steps.append({"build": r.choice(list(BUILDS)), "seed": r.randrange(10**6)})
            continue
        q = qg.draw()
        idx_ok = ("g.interpolation_alphas", "g.geo_to_logical")
        if q["q"] in idx_ok and r.random() < 0.5:
            q["opts"]["with_indices"] = True
        if q["q"] == "g.interpolate_var_to_points" and spec["grids"][q["o"]]["kind"] == "S" and r.random() < 0.4:
            q["opts"]["with_indices"] = True
        s = {"ask": q}
        k = r.random()
        if k < 0.7:
            s["then"] = [r.choice(WRITES) for _ in range(r.choice([1, 1, 2]))]
        steps.append(s)
        if k < 0.7 and r.random() < 0.7:
            steps.append({"ask": q})
            if r.random() < 0.5:
                steps[-1]["then"] = ["ret"]
                steps.append({"ask": q})
    return {"spec": spec, "steps": steps}


# ---------------------------------------------------------------- the hostile caller
def arrays_in(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from arrays_in(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from arrays_in(y)


def scribble(a):
    """Overwrite values of a, if the library lets us."""
    if a.size and a.dtype.kind == "O" and isinstance(a.flat[0], dt.datetime) and a.flags.writeable:
        a += dt.timedelta(hours=7)
        return 1
    if a.dtype.kind not in "fiub" or a.size == 0:
        return 0
    try:
        d = a.data if np.ma.isMA(a) else a
        if a.dtype.kind == "b":
            d[...] = ~np.asarray(d)
        elif a.dtype.kind == "f":
            d[...] = -777.25
        else:
            d[...] = 1
        return 1
    except (ValueError, RuntimeError):
        return 0


def scribble_mask(a):
    if not np.ma.isMA(a) or a.size == 0:
        return 0
    n = 0
    try:
        if a.mask is not np.ma.nomask:
            a._mask[...] = ~a._mask
            n = 1
    except (ValueError, RuntimeError):
        pass
    try:
        a[(0,) * a.ndim] = np.ma.masked
        n = 1
    except (ValueError, RuntimeError, TypeError, np.ma.MaskError):
        pass
    return n


def taint(spec, k):
    """Queries that a shift of axis k is meant to change."""
    def hit(q):
        o = q.get("o", 0)
        if q["q"] == "attr":
            return q["of"][0] in ("time", "vvar")
        if q["q"].startswith("t."):
            return o == k
        if q["q"] in ("zeta", "bathymetry") or q["q"].startswith("d."):
            return spec["depths"][o].get("time") == k
        vs = [o] if q["q"] in ("var", "varc") else spec["vvars"][o]["vars"] if q["q"] in ("vvar", "vvarc") else []
        for j in vs:
            v = spec["vars"][j]
            if v["time"] == k and v.get("tform", "obj") == "obj":
                return True
            if v.get("depth") is not None and spec["depths"][v["depth"]].get("time") == k:
                return True
        return False
    return hit


# objects built in the middle of a history, from arrays the caller keeps
def _b_dataset(sd):
    import gridded
    nodes, faces = u_arrays({"nx": 4, "ny": 3, "seed": sd})
    at = {"title": "x", "n": 3}
    g = gridded.Grid_U(nodes=nodes, faces=faces)
    v = gridded.Variable(name="a", grid=g, data=np.arange(12.0), location="node", attributes={"q": 1})
    vs = {"a": v}
    return [("attributes", at), ("variables", vs), ("nodes", nodes), ("faces", faces)], \
        lambda: gridded.Dataset(grid=g, variables=vs, attributes=at)


def _b_ugrid(sd):
    import gridded
    r = rng("b", sd)
    nodes, faces = u_arrays({"nx": 4, "ny": 4, "seed": sd})
    if r.integers(2):
        faces = faces + 1
    base = gridded.Grid_U(nodes=nodes.copy(), faces=faces - faces.min())
    base.build_edges()
    base.build_boundaries()
    ed, bd = np.array(base.edges), np.array(base.boundaries)
    fc, ec, bc = r.uniform(size=(len(faces), 2)), r.uniform(size=(len(ed), 2)), r.uniform(size=(len(bd), 2))
    ff = np.array(base.build_face_face_connectivity() or base.face_face_connectivity)
    ins = dict(nodes=nodes, faces=faces, edges=ed, boundaries=bd, face_coordinates=fc, edge_coordinates=ec,
               boundary_coordinates=bc, face_face_connectivity=ff)
    if r.integers(2):
        ins = {k: v.tolist() for k, v in ins.items()}
    return list(ins.items()), lambda: [gridded.Grid_U(**ins), gridded.Grid_U(**ins)]


def _b_time(sd):
    import gridded
    r = rng("b", sd)
    tl = time_list({"n": int(r.integers(1, 5)), "step": 3600})
    if r.integers(2):
        tl = np.array(tl)

    def go():
        a = gridded.Time(tl, tz_offset=None if r.integers(2) else 3, displacement=dt.timedelta(hours=int(r.integers(-2, 3))))
        b = gridded.Time(a)
        b.tz_offset = -5
        c = gridded.Time(tl, origin=dt.datetime(2000, 1, 1))
        return a, b, c
    return [("times", tl)], go


def _b_var(sd):
    import gridded
    r = rng("b", sd)
    nodes, faces = u_arrays({"nx": 4, "ny": 3, "seed": sd})
    g = gridded.Grid_U(nodes=nodes, faces=faces)
    tl = time_list({"n": 3, "step": 3600})
    d = r.uniform(size=(3, 12))
    at = {"units": "m", "long_name": "x"}
    vs = None

    def go():
        a = gridded.Variable(name="a", grid=g, data=d, time=tl, attributes=at, location="node")
        b = gridded.Variable(name="b", grid=g, data=d, time=tl, attributes=at, location="node")
        b.time.tz_offset = -4
        b.attributes["more"] = 1
        a.at(np.array([[1.0, 1.0]]), tl[0])
        return a, b, gridded.VectorVariable(name="v", variables=[a, b])
    return [("data", d), ("times", tl), ("nodes", nodes), ("faces", faces)], go


def _b_sgrid(sd):
    import gridded
    from .world import s_arrays
    r = rng("b", sd)
    a = s_arrays({"nx": 5, "ny": 4, "seed": sd, "mask": True, "pad": "both" if r.integers(2) else "none"})
    a["node_mask"] = np.zeros(loc_shape({"nx": 5, "ny": 4, "kind": "S"}, "node"), bool)
    if r.integers(2):
        a = {k: (np.ma.array(v, mask=False) if v.dtype.kind == "f" else v) for k, v in a.items()}

    def go():
        g = gridded.Grid_S(**a)
        g.build_celltree(use_mask=bool(r.integers(2)))
        g.locate_faces(np.array([[1.1, 1.2], [2.5, 1.5]]))
        return g
    return list(a.items()), go


def _b_depth(sd):
    from gridded.depth import L_Depth
    r = rng("b", sd)
    t = {"depth_levels": np.cumsum(r.uniform(1, 3, 4))}
    if r.integers(2):
        t["depth_levels"] = t["depth_levels"][::-1]

    def go():
        d = L_Depth(terms=t)
        p = np.array([[0.0, 0, 2.0], [0, 0, 30.0]])
        d.interpolation_alphas(p, None, (4,))
        return d
    return [("terms", t)], go


BUILDS = {"dataset": _b_dataset, "ugrid": _b_ugrid, "time": _b_time, "var": _b_var, "sgrid": _b_sgrid, "depth": _b_depth}


# ---------------------------------------------------------------- the history
def perform(case):
    w = World(case["spec"])
    out = []
    ch = w.inputs.changed()
    out.append(("inputs", ch))
    written = set()
    held = []
    for s in case["steps"]:
        if "build" in s:
            ins, go = BUILDS[s["build"]](s["seed"])
            snaps = [(lab, o, freeze(o)) for lab, o in ins]
            try:
                held.append(go())
                ok = None
            except Exception as e:      # noqa: BLE001
                ok = type(e).__name__
            out.append(("build", s["build"], [lab for lab, o, sn in snaps if not unchanged(o, sn)], ok))
            continue
        try:
            f, a, kw = resolve(w, s["ask"])
            args = [(f"arg{i}", x, freeze(x)) for i, x in enumerate(a) if isinstance(x, (np.ndarray, list, tuple))]
            args += [(k, x, freeze(x)) for k, x in kw.items() if isinstance(x, (np.ndarray, list, tuple))]
        except Exception as e:          # noqa: BLE001
            out.append(("ask", ("exc", type(e).__name__), [], [], []))
            continue
        try:
            ret = f(*a, **kw)
            ans = canon(ret)
        except Exception as e:          # noqa: BLE001
            ret, ans = None, ("exc", type(e).__name__)
        # `variable` arguments (data of the variables) are checked as inputs
        bad_args = [lab for lab, o, sn in args if not unchanged(o, sn)]
        bad_in = w.inputs.changed(skip=written)
        done = []
        for t in s.get("then", []):
            done.append((t, write(w, t, ret, args, written, case["spec"])))
        held.append(ret)
        out.append(("ask", ans, bad_args, bad_in, done))
    return out


def write(w, t, ret, args, written, spec):
    n = 0
    if t == "ret":
        for x in arrays_in(ret):
            n += scribble(x)
        if isinstance(ret, list):
            ret.append("more")
            n += 1
    elif t == "mask":
        for x in arrays_in(ret):
            n += scribble_mask(x)
    elif t == "pts":
        data = [id(v.data) for v in w.vars]
        for _, o, _ in args:
            if isinstance(o, np.ndarray) and id(o) not in data:
                n += scribble(o)
            elif isinstance(o, list):
                if o and isinstance(o[0], float):
                    o[0] = 1e6
                    n += 1
                elif o and isinstance(o[0], list):
                    o[0][0] = 1e6
                    o.append([9.0] * len(o[0]))
                    n += 1
    elif t == "times":
        for lab, o in w.inputs:
            if (lab.startswith("time") or lab.endswith(".time")) and lab not in written:
                if isinstance(o, np.ndarray):
                    o += dt.timedelta(hours=50)
                elif isinstance(o, list):
                    for i in range(len(o)):
                        o[i] = o[i] + dt.timedelta(days=3)
                    o.append(o[-1])
                else:
                    continue
                written.add(lab)
                n += 1
    elif t == "shift":
        k = len(w.times) - 1
        if k > 0:
            off = w.times[k].tz_offset
            w.times[k].tz_offset = (off or 0) + 2
            n = 1
    return n


def run(case):
    st = {"checked": 0, "fault:caller_write": 0}
    got = engine.must(engine.fork_call(lambda: perform(case)))
    asks = [s["ask"] for s in case["steps"] if "ask" in s]
    want = iter(engine.pristine_answers(case["spec"], asks))
    h = hashlib.sha256()
    nontriv, samples = set(), set()
    st["set:nontrivial"], st["set:samples"] = nontriv, samples
    first = got[0]
    st["checked"] += 1
    if first[1]:
        return {"kind": "input:build", "what": f"building the objects changed the caller's {first[1]}"}, st
    k = len(case["spec"]["times"]) - 1
    hit = taint(case["spec"], k)
    shifted = False
    last = None
    v = None
    for i, (s, g) in enumerate(zip(case["steps"], got[1:])):
        st["checked"] += 1
        if g[0] == "build":
            st["probe:builds"] = st.get("probe:builds", 0) + 1
            if g[3]:
                st["probe:build_raised"] = st.get("probe:build_raised", 0) + 1
            if g[2]:
                v = {"kind": f"input:{g[1]}", "step": i, "what": f"step {i}: building {g[1]} changed the caller's {g[2]}"}
                break
            continue
        q = s["ask"]
        w = next(want)
        _, ans, bad_args, bad_in, done = g
        h.update(show(ans).encode())
        tag = f"{q['q']}#{q.get('o', 0)}"
        if bad_args:
            v = {"kind": f"arg:{q['q']}", "step": i, "query": q, "what": f"step {i}: {tag} changed its argument {bad_args}"}
            break
        if bad_in:
            v = {"kind": f"input:{q['q']}", "step": i, "query": q, "what": f"step {i}: {tag} changed the caller's {bad_in}"}
            break
        if not (shifted and hit(q)) and not same(ans, w):
            v = {"kind": f"leak:{q['q']}", "step": i, "query": q,
                 "what": f"step {i}: {tag} gave {show(ans)} after the caller wrote into {last}; it should give {show(w)}"}
            break
        if last:
            nontriv.add(f"{last}|{q['q']}|{engine.key(q.get('opts', {}))}")
        for t, n in done:
            if n:
                st["fault:caller_write"] += 1
                st["probe:write_" + t] = st.get("probe:write_" + t, 0) + 1
                last = f"{t} of {q['q']}"
                samples.add(f"{t} after {tag}")
                shifted |= t == "shift"
    st["set:samples"] = set(sorted(samples)[:2])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from engine.shrink_steps(case, "steps")
    for i, s in enumerate(case["steps"]):
        if s.get("then"):
            c = dict(case)
            c["steps"] = list(case["steps"])
            c["steps"][i] = {k: x for k, x in s.items() if k != "then"}
            yield c
