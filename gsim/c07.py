"""C07: a save that storage fails never looks successful and damages nothing in memory."""
import ctypes
import gc
import hashlib
import os

from . import engine, nclib, store
from . import gen as G
from .c06 import make_prior
from .trace import EXC, Interrupter

PLAN = {"quick": {"runs": 6000, "budget": 240}, "thorough": {"runs": 100000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:eio", "fault:enospc", "fault:interrupt", "fault:kill_after", "fault:torn", "fault:lib",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one save during which a fault fired, judged on its outcome, on the file it left, on the object in "
        "memory and on the save repeated afterwards; non-trivial = the fault fired; distinct = (kind of object, way of "
        "saving, fault, position)")
MEASURE = "distinct (kind, way of saving, fault action, system call kind and index or code position)"
COMPONENTS = {"real": ["gridded save and load code", "netCDF4/HDF5", "Python file objects", "the kernel's files"],
              "stub": ["the disk: write, truncate, open and fsync calls on the scratch directory go through a shim that can fail, "
                       "cut or tear the n-th one, or kill the process around it",
                       "the netCDF library: calls that create, write, describe, read, flush or close go through a subclass whose n-th call can fail",
                       "interrupts and out-of-memory errors raised at the n-th line of gridded's code"]}
ASSUMPTIONS = ["a process that dies inside HDF5 after a storage fault counts as reported (the save did not return)",
               "after a storage fault the save is repeated in a new process, because HDF5 itself may keep the file locked in the old one; "
               "after an interrupt it is repeated in the same process",
               "an interrupt on the one line between opening the file and the try that closes it may leave the handle to the garbage "
               "collector: reported only if the file stays held after a collection, or is left held at 3 of 6 places spread over the save"]
W, R_, T, SY, OW, OR = 1, 2, 4, 8, 16, 32
ACT = {"eio": 1, "enospc": 2, "short": 3, "torn": 4, "kill_before": 5, "kill_half": 6, "kill_after": 7, "eintr": 8, "bad": 9}


def shim():
    lib = ctypes.CDLL(None)
    lib.gsim_fired.restype = lib.gsim_seen.restype = ctypes.c_long
    lib.gsim_bad.argtypes = [ctypes.c_longlong, ctypes.c_longlong, ctypes.c_int]
    lib.gsim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    return lib


def gen(seed, i, tier):
    r = G.case_rng(seed, "C07", i)
    kind = r.choice(["ud", "ud", "ud", "sg", "vd", "vd"])
    s = store.GEN[kind](r, small=True)
    if kind == "vd" and r.random() < 0.5:
        s["nx"], s["ny"] = 15, r.choice([13, 20, 28])     # more than one buffer full
    f = {"kind": r.choice(["io", "io", "io", "interrupt", "memory", "lib"]), "frac": round(r.random(), 6)}
    if f["kind"] == "lib" and kind == "vd":
        f["kind"] = r.choice(["io", "interrupt"])
    if f["kind"] == "io":
        f["act"] = r.choice(["eio", "eio", "enospc", "enospc", "torn", "torn", "short", "eintr", "kill_before", "kill_half", "kill_after"])
        f["calls"] = r.choice([W, W, W, W | T, W | T | OW, T, SY, OW])
        f["sticky"] = f["act"] in ("eio", "enospc") and r.random() < 0.5
        if r.random() < 0.2:
            f["frac"] = 0.9999       # the last calls of a save are the ones that are easily not waited for
    elif f["kind"] == "lib":
        f["calls"] = r.choice([["create"], ["data"], ["attr"], ["close"], ["sync", "close"], ["create", "data", "attr", "sync", "close"], list(nclib.KINDS)])
        f["sticky"] = r.random() < 0.25
    else:
        f["op"] = r.random() < 0.3
    return {"spec": s, "how": r.choice(["ds", "ds", "ds3", "ds_nc", "grid", "grid_vars"]), "fault": f,
            "prior": r.choice(["none", "none", "garbage", "old", "longer"]), "before": r.random() < 0.3,
            "loader": r.choice(["ds", "ds", "ugrid"])}


def finish(x):
    if hasattr(x, "isopen") and x.isopen():
        x.close()


def state_of(s, o):
    return store.sg_state(o) if s["kind"] == "sg" else store.ds_state(o)


def arm(sc, f, nth):
    shim().gsim_arm((sc.dir + "/out").encode(), f["calls"], nth, ACT[f["act"]], int(f["sticky"]))


def count(case, sc):
    """How many places there are for the fault: system calls or lines."""
    s, f = case["spec"], case["fault"]

    def go():
        if f["kind"] == "lib":
            nclib.install()
        o = store.build(s, sc.path("src.nc"))
        p = sc.path("out.count")
        if f["kind"] == "io":
            shim().gsim_arm((sc.dir + "/out").encode(), f["calls"], -1, 0, 0)
            store.save(s, o, case["how"], p)
            n = shim().gsim_seen()
            shim().gsim_disarm()
            return n
        if f["kind"] == "lib":
            nclib.ctl.arm(f["calls"], None)
            finish(store.save(s, o, case["how"], p))
            return nclib.ctl.seen
        it = Interrupter(None, opcodes=f["op"])
        it.run(lambda: store.save(s, o, case["how"], p))
        return it.n
    res = engine.fork_call(go)
    if os.path.exists(sc.path("out.count")):
        os.unlink(sc.path("out.count"))
    return engine.must(res)


def attempt(case, sc, n):
    s, f = case["spec"], case["fault"]
    path = sc.path("out.file")
    if f["kind"] == "lib":
        nclib.install()
    o = store.build(s, sc.path("src.nc"))
    if case["before"]:
        finish(store.save(s, o, case["how"], path))
    before = state_of(s, o)
    nth = min(int(f["frac"] * n), n - 1)
    out = {"nth": nth}
    lib = shim()
    x = None
    if f["kind"] == "io":
        arm(sc, f, nth)
        try:
            x = store.save(s, o, case["how"], path)
            out["out"] = "returned"
        except BaseException as e:      # noqa: BLE001
            out["out"] = "raised"
            out["exc"] = type(e).__name__
        out["fired"] = lib.gsim_fired()
        lib.gsim_disarm()
    elif f["kind"] == "lib":
        nclib.ctl.arm(f["calls"], nth, f["sticky"])
        try:
            x = store.save(s, o, case["how"], path)
            finish(x)       # the caller closes what grid.save() hands over
            out["out"] = "returned"
        except BaseException as e:      # noqa: BLE001
            out["out"] = "raised"
            out["exc"] = type(e).__name__
        out["where"] = nclib.ctl.fired
        out["fired"] = 1 if out["where"] else 0
        nclib.ctl.disarm()
        e = None
    else:
        it = Interrupter(1 + nth, EXC[f["kind"]], f["op"])
        try:
            x = it.run(lambda: store.save(s, o, case["how"], path))
            out["out"] = "returned"
        except BaseException as e:      # noqa: BLE001
            out["out"] = "raised"
            out["exc"] = type(e).__name__
        out["fired"] = 1 if it.fired else 0
        out["where"] = it.fired
        it = None
    if x is not None and f["kind"] != "io":
        finish(x)
    after = state_of(s, o)
    if s["kind"] == "vd" and s["bounds"] == "build":
        after.pop("boundaries"), before.pop("boundaries")
    out["memory"] = store.compare(before, after, extra_ok="\0")
    if f["kind"] != "io" and out["out"] == "raised":
        try:
            finish(store.save(s, o, case["how"], path))
            out["again"] = "returned"
        except BaseException as e:      # noqa: BLE001
            out["again"] = f"raised {type(e).__name__}: {str(e)[:100]}"
            out["held"] = isinstance(e, PermissionError)
        if out.get("held"):
            e = None
            gc.collect()
            try:
                finish(store.save(s, o, case["how"], path))
                out["again_gc"] = "returned"
            except BaseException as e:      # noqa: BLE001
                out["again_gc"] = "raised"
    if x is not None:
        os._exit_value = x      # keep it open until the process ends, as a caller may
    return out


def always_held(case, sc, n):
    """Is the file left open wherever the save is interrupted, rather than at one or two unlucky lines?"""
    held = 0
    for frac in (0.35, 0.45, 0.55, 0.65, 0.75, 0.85):
        r = engine.fork_call(lambda: attempt(dict(case, fault=dict(case["fault"], frac=frac)), sc, n))
        held += r[0] == "ok" and bool(r[1].get("held"))
    return held >= 3


def check_file(case, sc, want_sg):
    bad = engine.fork_call(lambda: store.verify(case["spec"], case["how"], sc.path("out.file"), case["loader"], want_sg))
    return bad[1] if bad[0] == "ok" else f"loading it ends the process ({bad[0]})"


def run(case):
    st = {"checked": 0}
    s, f = case["spec"], case["fault"]
    v = None
    with store.Scratch() as sc:
        want_sg = None
        if s["kind"] == "sg":
            store.sg_write(s, sc.path("src.nc"))
            want_sg = engine.must(engine.fork_call(lambda: store.sg_state(store.build(s, sc.path("src.nc")))))
        make_prior(s["kind"], case["prior"], sc.path("out.file"))
        n = count(case, sc)
        if n == 0:
            st["probe:no_such_call"] = 1
            return None, st
        res = engine.fork_call(lambda: attempt(case, sc, n))
        name = f["kind"] if f["kind"] != "io" else f["act"] + ("_sticky" if f["sticky"] else "")
        died = res[0] != "ok"
        if res[0] == "err":
            raise engine.Died(res[1])
        if died and f["kind"] != "io":
            v = {"kind": "died", "what": f"a save interrupted by {f['kind']} ended the process ({res})"}
        o = {"out": "died", "fired": 1, "nth": min(int(f["frac"] * n), n - 1)} if died else res[1]
        if not o["fired"]:
            st["probe:fault_not_reached"] = 1
        else:
            st["fault:" + name] = 1
            st["checked"] += 1
        st["probe:" + o["out"]] = 1
        place = o.get("where") or f"call {o['nth']} of {n} (calls {f.get('calls')})"
        text = f"saving a {s['kind']} object ({case['how']}) with {name} at {place}"
        h = hashlib.sha256(repr((o["out"], o["fired"], o["nth"], n)).encode())
        if not v and o.get("memory"):
            v = {"kind": f"memory:{s['kind']}", "what": f"{text}: the object in memory changed: {o['memory']}"}
        if not v and o["out"] == "returned":
            bad = check_file(case, sc, want_sg)
            if bad:
                v = {"kind": f"silent:{s['kind']}", "what": f"{text}: it returned as if all were well, but the file: {bad}"}
        elif not v:
            if "again" in o:
                if o.get("again_gc") == "returned" and not always_held(case, sc, n):
                    # between opening the file and the `try` that closes it there is a line on which Python offers no protection
                    st["probe:handle_left_to_gc"] = 1
                elif o["again"] != "returned":
                    v = {"kind": f"again_fails:{s['kind']}", "what": f"{text}: saving again to the same path {o['again']}"}
            else:
                def again():
                    ob = store.build(s, sc.path("src.nc"))
                    finish(store.save(s, ob, case["how"], sc.path("out.file")))
                a = engine.fork_call(again)
                if a[0] != "ok":
                    v = {"kind": f"again_fails:{s['kind']}", "what": f"{text}: saving again to the same path in a new process fails: {str(a[1])[-200:]}"}
            if not v:
                bad = check_file(case, sc, want_sg)
                if bad:
                    v = {"kind": f"again:{s['kind']}", "what": f"{text}: then saved again to the same path, but the file: {bad}"}
    if o["fired"]:
        sig = f"{s['kind']}|{case['how']}|{name}|{o.get('where') or str(f.get('calls')) + '@' + str(o['nth'])}"
        st["set:nontrivial"] = {sig}
        st["set:samples"] = {f"{sig} -> {o['out']} {o.get('exc', '')}"}
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    from .c06 import shrink as s6
    if case["prior"] != "none":
        yield dict(case, prior="none")
    if case["before"]:
        yield dict(case, before=False)
    for c in s6({"objs": [case["spec"]], "prior": ["none", "none"], "steps": [{}]}):
        if c["steps"]:
            yield dict(case, spec=c["objs"][0])
    if case["fault"].get("op"):
        yield dict(case, fault=dict(case["fault"], op=False))
