"""C06: a completed save is complete: it survives a crash and loads back equal."""
import hashlib
import json
import os
import signal

from . import engine, store
from . import gen as G

PLAN = {"quick": {"runs": 6000, "budget": 240}, "thorough": {"runs": 120000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:kill_at_return",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one file whose last save had returned when the saving process was killed, loaded by another "
        "process and compared with the model; non-trivial = the file was written over an older one, by a later save of "
        "the history, or has optional parts; distinct = (kind, way of saving, optional parts, what was at the path before)")
MEASURE = "distinct (kind of object, way of saving, optional parts present, prior content of the path, position in the history)"
COMPONENTS = {"real": ["gridded save and load code", "netCDF4/HDF5", "numpy", "the kernel's files", "SIGKILL of the saving process"],
              "stub": ["the source files of structured grids are written by the simulator with netCDF4"]}
ASSUMPTIONS = ["the crash is a process kill at the return of a save (the operating system survives), as stated by the property",
               "attribute values are the ones netCDF can represent; a units attribute and Variable.units do not contradict each other"]
PRIOR = ["none", "none", "garbage", "empty", "old", "longer"]


def gen(seed, i, tier):
    r = G.case_rng(seed, "C06", i)
    kind = r.choice(["ud", "ud", "ud", "ud", "sg", "vd"])
    nobj = r.choice([1, 1, 1, 2])
    objs = [store.GEN[kind](r) for _ in range(nobj)]
    steps = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        o = r.randrange(nobj)
        if k < 0.7 or not steps:
            steps.append({"op": "save", "obj": o, "how": r.choice(["ds", "ds", "ds", "ds3", "ds_nc", "grid", "grid_vars"]),
                          "to": r.randrange(2), "keep": r.random() < 0.3})
        elif k < 0.85 and kind != "vd":
            src = r.choice([s["to"] for s in steps if "to" in s])
            steps.append({"op": "resave", "from": src, "to": 1 - src, "how": r.choice(["ds", "grid_vars"]), "keep": r.random() < 0.3})
        elif kind == "ud":
            steps.append({"op": "change", "obj": o, "what": r.choice(["nodes", "data", "attr"]), "n": r.randrange(1, 100)})
    if not any(s["op"] == "save" for s in steps[-1:]):
        steps.append({"op": "save", "obj": r.randrange(nobj), "how": "ds", "to": r.randrange(2), "keep": False})
    if kind == "ud" and r.random() < 0.3:   # the saver may still hold the open file that grid.save() returned
        steps[-1].update(how="grid_vars", keep=True)
    case = {"kind": kind, "objs": objs, "prior": [r.choice(PRIOR), r.choice(PRIOR)], "steps": steps,
            "loader": r.choice(["ds", "ds", "ds", "ugrid", "grid"])}
    x = r.random()
    if kind == "ud" and x < 0.06:       # more nodes than one byte (or two) can count
        s = r.choice(objs)
        s["nx"], s["ny"] = r.choice([(257, 256), (256, 256), (182, 181), (182, 181)] if x < 0.006 else [(16, 16), (16, 16), (17, 16), (13, 10)])
        for k in ("nfaces", "nedges", "nbounds"):
            s.pop(k, None)
        if s["nx"] > 17:
            s.pop("links", None)
            s["poly"] = "tri" if s["poly"] == "mixed" else s["poly"]
    return case


def make_prior(kind, what, path):
    if what == "none":
        return
    if what == "empty":
        b = b""
    elif what == "garbage":
        b = b"not a data file\n" * 20
    elif what == "longer":
        b = b"DOGS METERS\n" + b"".join(b"%4d, %10.6f, %10.6f, %8.3f\n" % (i, i, i, i) for i in range(1, 20000))
    else:
        import netCDF4
        with netCDF4.Dataset(path, "w") as d:
            d.title = "old"
            d.createDimension("mesh_num_node", 5)
            d.createVariable("mesh", "i4").cf_role = "mesh_topology"
            d.createVariable("old", "f8", ("mesh_num_node",))[:] = 1
        return
    with open(path, "wb") as f:
        f.write(b)


def changed(spec, s):
    spec = json.loads(json.dumps(spec))
    if s["what"] == "nodes":
        spec["nmod"] = s["n"]
    elif s["what"] == "data":
        for v in spec["vars"]:
            v["dmod"] = s["n"]
    else:
        for v in spec["vars"]:
            v["attrs"]["changed"] = s["n"]
        spec["attrs"]["changed"] = s["n"]
    return spec


def apply_change(spec, obj, s):
    new = changed(spec, s)
    if s["what"] == "nodes":
        obj.grid.nodes = store.ud_arrays(new)["nodes"]
    elif s["what"] == "data":
        a = store.ud_arrays(new)
        for v in new["vars"]:
            obj.variables[v["key"]].data = store.var_data(new, v, a)
    else:
        for v in obj.variables.values():
            v.attributes["changed"] = s["n"]
        obj.attributes["changed"] = s["n"]
    return new


def saver(case, sc, journal):
    """Runs the history; kills itself right after the last save."""
    specs = list(case["objs"])
    src = [sc.path(f"src{k}.nc") for k in range(len(specs))]
    fd = os.open(journal, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    try:
        objs = [store.build(s, p) for s, p in zip(specs, src)]
    except Exception as e:      # noqa: BLE001
        os.write(fd, json.dumps({"n": -1, "out": f"unbuilt {type(e).__name__}: {str(e)[:150]}"}).encode())
        os.kill(os.getpid(), signal.SIGKILL)
    if case["kind"] == "sg":
        want = [store.sg_state(o) for o in objs]
        import pickle
        with open(sc.path("want.pickle"), "wb") as f:
            pickle.dump(want, f)
    kept, held = [], set()
    state = {}          # path index -> (spec, how, obj index)
    for n, s in enumerate(case["steps"]):
        if s["op"] == "change":
            specs[s["obj"]] = apply_change(specs[s["obj"]], objs[s["obj"]], s)
            continue
        path = sc.path(f"file{s['to']}")
        rec = {"n": n, "to": s["to"], "held": s["to"] in held}
        try:
            if s["op"] == "save":
                state.pop(s["to"], None)
                x = store.save(specs[s["obj"]], objs[s["obj"]], s["how"], path)
                state[s["to"]] = (specs[s["obj"]], s["how"], s["obj"])
            else:
                if s["from"] not in state:
                    continue
                sp, how, k = state[s["from"]]
                held.add(s["from"])     # a loaded object keeps its file open
                if case["kind"] == "sg":
                    o = store.build(sp, sc.path(f"file{s['from']}"))
                else:
                    from gridded import Dataset
                    o = Dataset.from_netCDF(sc.path(f"file{s['from']}"))
                kept.append(o)
                state.pop(s["to"], None)
                x = store.save(sp, o, s["how"], path)
                # without the attributes of the file: a grid saved on its own has no variables, a grid_vars save no attributes
                both = how if how == "grid" else ("grid_vars" if "grid_vars" in (how, s["how"]) else "ds")
                state[s["to"]] = (sp, both, k)
            if s.get("keep"):
                kept.append(x)
                held.add(s["to"])
            elif hasattr(x, "isopen") and x.isopen():
                x.close()       # grid.save() hands the open file to its caller
            rec["out"] = "returned"
            rec["spec"], rec["how"], rec["k"] = state[s["to"]]
        except Exception as e:      # noqa: BLE001
            rec["out"] = "raised " + type(e).__name__ + ": " + str(e)[:150]
        os.write(fd, (json.dumps(rec) + "\n").encode())
        if n == len(case["steps"]) - 1:
            os.kill(os.getpid(), signal.SIGKILL)
        x = None
    os.kill(os.getpid(), signal.SIGKILL)


def run(case):
    st = {"checked": 0, "fault:kill_at_return": 1}
    with store.Scratch() as sc:
        for k, s in enumerate(case["objs"]):
            if s["kind"] == "sg":
                store.sg_write(s, sc.path(f"src{k}.nc"))
        for k, p in enumerate(case["prior"]):
            make_prior(case["kind"], p, sc.path(f"file{k}"))
        journal = sc.path("journal")
        res = engine.fork_call(lambda: saver(case, sc, journal))
        if res != ("died", signal.SIGKILL):
            raise engine.Died(f"the saver ended with {res}")
        recs = [json.loads(x) for x in open(journal)] if os.path.exists(journal) else []
        want_sg = None
        if recs and recs[0]["n"] < 0:       # nothing of this kind that was saved could ever be loaded
            return {"kind": f"unloadable:{case['kind']}", "what": f"a valid {case['kind']} object cannot be made: {recs[0]['out']}"}, st
        if case["kind"] == "sg":
            import pickle
            want_sg = pickle.load(open(sc.path("want.pickle"), "rb"))
        last = {}
        for r in recs:
            st["probe:" + r["out"].split(":")[0].replace(" ", "_")] = st.get("probe:" + r["out"].split(":")[0].replace(" ", "_"), 0) + 1
            last[r["to"]] = r
        v = None
        nontriv, samples = set(), set()
        h = hashlib.sha256(repr([(r["n"], r["out"].split(":")[0]) for r in recs]).encode())
        for r in recs:
            if r["out"] != "returned" and not r["held"] and not v:
                # nothing stands in the way of this save: nobody holds the file open
                v = {"kind": f"save_fails:{case['kind']}", "what": f"step {r['n']}: saving a valid {case['kind']} object fails: {r['out']}"}
        for to, r in sorted(last.items()):
            if r["out"] != "returned" or v:
                continue
            st["checked"] += 1
            path = sc.path(f"file{to}")
            loader = case["loader"]
            bad = engine.fork_call(lambda: store.verify(r["spec"], r["how"], path, loader, want_sg[r["k"]] if want_sg else None))
            bad = bad[1] if bad[0] == "ok" else f"loading it ends the process ({bad[0]})"
            h.update(repr(bad).encode())
            sig = f"{case['kind']}|{r['how']}|{','.join(r['spec'].get('parts', []))}|{case['prior'][to]}|{min(r['n'], 3)}"
            if r["n"] or case["prior"][to] != "none" or r["spec"].get("parts"):
                nontriv.add(sig)
                samples.add(sig)
            if bad:
                what = "".join(c for c in bad.split(" is ")[0] if not c.isdigit())[:40]
                v = {"kind": f"lost:{case['kind']}:{what}", "what": f"step {r['n']} saved ({r['how']}) and returned, then the process was "
                     f"killed; loaded again ({loader}): {bad}"}
                break
    st["set:nontrivial"], st["set:samples"] = nontriv, set(sorted(samples)[:1])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from (c for c in engine.shrink_steps(case, "steps") if c["steps"])
    if case["prior"] != ["none", "none"]:
        yield dict(case, prior=["none", "none"])
    for k, s in enumerate(case["objs"]):
        def put(n):
            return dict(case, objs=case["objs"][:k] + [n] + case["objs"][k + 1:])
        for f in ("vars", "parts"):
            for j in range(len(s.get(f, []))):
                n = dict(s)
                n[f] = s[f][:j] + s[f][j + 1:]
                if f == "parts" and any(store.SIDE[v["loc"]] == s[f][j] for v in s["vars"]):
                    continue
                if f == "parts" and any(q.startswith(s[f][j][:4]) and q != s[f][j] for q in n["parts"]):
                    continue
                yield put(n)
        if s.get("attrs"):
            yield put(dict(s, attrs={}))
        for j, v in enumerate(s.get("vars", [])):
            for a in v.get("attrs", {}):
                w = dict(v, attrs={x: y for x, y in v["attrs"].items() if x != a})
                yield put(dict(s, vars=s["vars"][:j] + [w] + s["vars"][j + 1:]))
        for f in ("nx", "ny"):
            if s[f] > 6:
                yield put(dict(s, **{f: 5}))
                yield put(dict(s, **{f: s[f] // 2}))
            if s[f] > 3:
                yield put(dict(s, **{f: s[f] - 1}))
