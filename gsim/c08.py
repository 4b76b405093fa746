"""C08: loading is all-or-nothing under read faults and interrupts."""
import ctypes
import gc
import hashlib
import os
import warnings

from . import engine, files, nclib, store
from . import gen as G
from .c07 import ACT, finish, shim
from .canon import same, show
from .trace import EXC, Interrupter, choose, index, know_guarded

PLAN = {"quick": {"runs": 1500, "budget": 240}, "thorough": {"runs": 80000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:eio", "fault:bad", "fault:cut", "fault:interrupt", "fault:memory", "fault:lib",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one load of a history, compared with an undisturbed load of the same file by another process (or found to have "
        "raised although nothing disturbed it); non-trivial = a fault fired during that load, or an earlier load of the history had failed; "
        "distinct = (convention, loader, fault, place)")
MEASURE = "distinct (file convention, loader, fault kind, code position or system call index)"
COMPONENTS = {"real": ["gridded loaders", "netCDF4/HDF5", "Python file objects", "the kernel's files"],
              "stub": ["the disk: reads and opens in the scratch directory go through a shim that fails or shortens the n-th one",
                       "the netCDF library: the n-th read of a variable fails",
                       "interrupts and out-of-memory errors raised at the n-th line (or bytecode) of gridded's code",
                       "the files are written by the simulator with netCDF4, verdat files by save_verdat and then cut by the simulator"]}
ASSUMPTIONS = ["a load that dies inside HDF5 after a storage fault counts as reported",
               "after a storage fault the following loads are made by a new process, because HDF5 itself may keep damaged state in the old one; "
               "after an interrupt they are made by the same process"]
RD, OPENR = 2, 32


def gen(seed, i, tier):
    r = G.case_rng(seed, "C08", i)
    f = files.gen_file(r)
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        ld = files.gen_load(r, f)
        q = files.questions(f, ld, r, 2)
        k = r.random()
        for _ in range(r.choice([6, 10, 14, 20])):
            st = {"load": ld, "q": q}
            if f["conv"] == "verdat" and k < 0.4:
                st["fault"] = {"kind": "cut", "frac": round(r.random(), 6)}
            elif k < (0.75 if f["conv"] == "verdat" else 0.35):
                st["fault"] = {"kind": "io", "act": r.choice(["eio", "eio", "eio", "short", "eintr"]), "calls": r.choice([RD, RD, RD, RD | OPENR, OPENR]),
                               "frac": round(r.random(), 6), "sticky": r.random() < 0.3}
                if st["fault"]["act"] != "eio":
                    st["fault"]["sticky"] = False
                if st["fault"]["act"] == "short" and f["fmt"].startswith("NETCDF3"):
                    st["fault"]["act"] = "eio"      # netCDF-C itself takes a short read of a classic file for its end
                st["fault"]["late"] = r.random() < 0.75      # after the file has been opened
                if r.random() < (0.6 if f["conv"] == "verdat" else 0.2):      # a stretch of the file cannot be read
                    st["fault"].update(act="bad", calls=RD, sticky=False, late=False, at=r.choice(["any", "line", "points", "tail"]),
                                       len=r.choice([1, 16, 512, 1 << 40]))
            elif f["conv"] != "verdat" and k < 0.5:
                st["fault"] = {"kind": "lib", "frac": round(r.random(), 6), "sticky": r.random() < 0.25}
            else:
                st["fault"] = {"kind": r.choice(["interrupt", "memory", "memory"]), "frac": round(r.random(), 6), "op": r.random() < 0.1,
                               "focus": r.choice(["any", "line", "line", "try", "try"]), "again": round(r.random(), 3)}
            st["keep"] = r.random() < 0.3
            steps.append(st)
            if st["fault"]["kind"] != "io" and r.random() < 0.2:      # the next load of the same file is to work
                steps.append({"load": ld, "q": q, "fault": None, "keep": r.random() < 0.5})
    if r.random() < 0.4 and any(st["fault"] and st["fault"]["kind"] in ("interrupt", "memory", "lib") for st in steps):
        # the fault hits the first load of a process, then the file is loaded undisturbed (this way or another)
        other = [(st["load"], st["q"]) for st in steps]
        out = []
        for st in steps:
            if st["fault"] and st["fault"]["kind"] not in ("io", "cut"):
                ld, q = (st["load"], st["q"]) if r.random() < 0.7 else r.choice(other)
                out += [st, {"load": ld, "q": q, "fault": None, "keep": False}]
        return {"file": f, "steps": out, "fresh": True}
    if r.random() < 0.5:
        r.shuffle(steps)
    return {"file": f, "steps": steps}


def look(case, o, st):
    s, ld = case["file"], st["load"]
    out = files.snap(o)
    for n, q in enumerate(st["q"]):
        for k, a in files.ask(o, s, ld, q).items():
            out[f"answer {n} {k}"] = a
    return out


def quiet():
    warnings.simplefilter("ignore")
    import sys
    sys.stdout = open(os.devnull, "w")


def differ(want, got):
    """None, or the first thing that differs"""
    for k in sorted(set(want) | set(got)):
        a, b = want.get(k), got.get(k)
        if a is None or b is None or not same(a, b):
            return f"{k} is {show(b) if b is not None else 'absent'}, undisturbed it is {show(a) if a is not None else 'absent'}"
    return None


def reference(case, st, sc):
    """(state, places for a fault) of an undisturbed load"""
    s, ld = case["file"], st["load"]

    def go():
        quiet()
        calls = {}
        for c in sorted({x["fault"]["calls"] for x in case["steps"] if x["load"] == ld and x["fault"] and x["fault"]["kind"] == "io"}):
            def n(c=c):
                shim().gsim_arm((sc.dir + "/f.").encode(), c, -1, 0, 0)
                files.load(s, ld, sc)
                k = shim().gsim_seen()
                shim().gsim_disarm()
                return k

            def n0(c=c):
                import netCDF4
                shim().gsim_arm((sc.dir + "/f.").encode(), c, -1, 0, 0)
                netCDF4.Dataset(sc.path("f.nc"))
                k = shim().gsim_seen()
                shim().gsim_disarm()
                return k
            calls[c] = (0 if s["conv"] == "verdat" else engine.must(engine.fork_call(n0)), engine.must(engine.fork_call(n)))
        places = {}
        for op in sorted({x["fault"]["op"] for x in case["steps"] if x["load"] == ld and x["fault"] and x["fault"]["kind"] in ("interrupt", "memory")}):
            def n(op=op):
                trail = []
                Interrupter(None, opcodes=op, trail=trail).run(lambda: files.load(s, ld, sc))
                return index(trail)
            places[op] = engine.must(engine.fork_call(n))

        def lib():
            nclib.install().arm(["read"], None)
            files.load(s, ld, sc)
            return nclib.ctl.seen
        reads = engine.must(engine.fork_call(lib)) if any(x["fault"] and x["fault"]["kind"] == "lib" for x in case["steps"]) else 0
        return look(case, files.load(s, ld, sc), st), calls, places, reads
    return engine.fork_call(go)


def cut_points(path):
    """Bytes of a verdat file after which its list of points begins and ends."""
    b = open(path, "rb").read()
    a = b.index(b"\n") + 1
    pos = a
    for line in b[a:].splitlines(keepends=True):
        if [float(x) for x in line.split(b",")] == [0.0] * 4:
            return a, pos, b
        pos += len(line)
    raise engine.Died("no end of points")


def bad_place(s, f, path):
    """Where the stretch that cannot be read begins and ends."""
    n = os.path.getsize(path)
    at = int(f["frac"] * n)
    if s["conv"] == "verdat":
        a, b, whole = cut_points(path)
        ends = [k + 1 for k, c in enumerate(whole) if c == 10]
        if f["at"] == "line":
            at = ends[int(f["frac"] * len(ends))]
        elif f["at"] == "points":
            at = min(e for e in ends if e > b)
        elif f["at"] == "tail":
            at = b + int(f["frac"] * (n - b))
    return min(at, n - 1), at + f["len"]


def attempt(case, sc, start, refs):
    """Run steps from `start` on, in this process; stops after a storage fault. -> list of outcomes"""
    quiet()
    outs = []
    kept = []
    s = case["file"]
    for i in range(start, len(case["steps"])):
        st = case["steps"][i]
        f, ld = st["fault"], st["load"]
        ref = refs[i]
        if ref is None:
            outs.append(None)
            continue
        want, calls, places, reads = ref
        out = {"i": i, "fired": 0, "where": None}
        x = None
        it = None
        try:
            if f is None:
                x = files.load(s, ld, sc)
            elif f["kind"] == "io":
                n0, n = calls[f["calls"]]
                nth = min(int(f["frac"] * n), n - 1)
                if f["late"] and n > n0:
                    nth = min(n0 + int(f["frac"] * (n - n0)), n - 1)
                out["where"] = f"{'read' if f['calls'] == RD else 'call'} {nth} of {n}"
                if f["act"] == "bad":
                    at, to = bad_place(s, f, sc.path("f.nc"))
                    out["where"] = f"byte {at} of {os.path.getsize(sc.path('f.nc'))}"
                    shim().gsim_bad(at, to, int(not s.get("fmt", "").startswith("NETCDF3")))
                shim().gsim_arm((sc.dir + "/f.").encode(), f["calls"], nth if n else -1, ACT[f["act"]], int(f["sticky"]))
                try:
                    x = files.load(s, ld, sc)
                finally:
                    out["fired"] = shim().gsim_fired()
                    shim().gsim_disarm()
            elif f["kind"] == "lib":
                nclib.install().arm(["read"], min(int(f["frac"] * reads), reads - 1) if reads else None, f["sticky"])
                try:
                    x = files.load(s, ld, sc)
                finally:
                    out["where"], out["fired"] = nclib.ctl.fired, int(bool(nclib.ctl.fired))
                    nclib.ctl.disarm()
            elif f["kind"] == "cut":
                a, b, whole = cut_points(sc.path("f.nc"))
                at = a + int(f["frac"] * (b - a))
                out["where"] = "inside the first line of points" if b"\n" not in whole[a:at] else ("at the end of a line" if whole[at - 1:at] == b"\n" else "inside a line")
                out["at"] = at
                out["fired"] = 1
                with open(sc.path("cut.nc"), "wb") as fh:
                    fh.write(whole[:at])
                x = files.load(s, ld, sc, "cut")
                out["must_raise"] = True
            else:
                it = Interrupter(1 + choose(places[f["op"]], "any" if f["op"] else f["focus"], f["frac"], f["again"]), EXC[f["kind"]], f["op"])
                try:
                    x = it.run(lambda: files.load(s, ld, sc))
                finally:
                    out["fired"] = 1 if it.fired else 0
                    out["where"] = it.fired
            out["out"] = "returned"
        except BaseException as e:      # noqa: BLE001
            out["out"] = "raised"
            out["exc"] = f"{type(e).__name__}: {str(e)[:120]}"
        if x is not None:
            try:
                out["bad"] = differ(want, look(case, x, st))
            except Exception as e:      # noqa: BLE001
                out["bad"] = f"looking at it raises {type(e).__name__}: {str(e)[:120]}"
        it = None
        if x is not None and st["keep"]:
            kept.append((i, x))
        else:
            x = None
            gc.collect()
        outs.append(out)
        if f and f["kind"] == "io" and out["fired"] and f["act"] not in ("short", "eintr") or f is None and case.get("fresh"):
            break
    # what was loaded before stays what it was
    for i, x in kept:
        try:
            bad = differ(refs[i][0], look(case, x, case["steps"][i]))
        except Exception as e:      # noqa: BLE001
            bad = f"looking at it raises {type(e).__name__}"
        io = any(o and o.get("fired") and case["steps"][o["i"]]["fault"]["kind"] == "io" for o in outs)
        if bad and not io:
            outs.append({"i": i, "later": bad})
    return outs


def run(case):
    st = {"checked": 0}
    v = None
    know_guarded()
    s = case["file"]
    h = hashlib.sha256()
    sigs, samples = set(), set()
    with store.Scratch() as sc:
        files.prepare(s, sc)
        refs = []
        cache = {}
        for step in case["steps"]:
            k = engine.key([step["load"], step["q"]])
            if k not in cache:
                cache[k] = reference(case, step, sc)
            ref = cache[k]
            if ref[0] == "ok":
                refs.append(ref[1])
            else:
                refs.append(None)
                st["probe:not_loadable"] = st.get("probe:not_loadable", 0) + 1
                st["_note"] = str(ref[1])[-300:]
        outs = []
        start = 0
        while start < len(case["steps"]) and not v:
            res = engine.fork_call(lambda: attempt(case, sc, start, refs))
            if res[0] == "ok":
                got = res[1]
            elif res[0] == "err":
                raise engine.Died(res[1])
            else:
                f = case["steps"][start]["fault"]
                if not (f and f["kind"] == "io"):
                    nio = [k for k, x in enumerate(case["steps"][start:]) if x["fault"] and x["fault"]["kind"] == "io"]
                    if not nio:
                        v = {"kind": "died", "what": f"a history of loads of a {s['conv']} file ended the process ({res[0]} {res[1]})"}
                    break
                got = [{"i": start, "out": "died", "fired": 1, "where": "storage fault", "exc": str(res)}]
            n = sum(1 for o in got if o is None or "out" in o)
            start += max(n, 1)
            outs += got
            h.update(repr([(o or {}).get("out") for o in got]).encode())
        failed = False
        for o in outs:
            if v:
                break
            if o is None:
                continue
            step = case["steps"][o["i"]]
            text = f"loading a {s['conv']} file ({step['load']})"
            if "later" in o:
                v = {"kind": f"later:{s['conv']}", "what": f"{text}: after the following loads of the history, {o['later']}"}
                break
            f = step["fault"]
            name = "none" if f is None else f["kind"] if f["kind"] != "io" else f["act"] + ("_sticky" if f["sticky"] else "")
            if o["fired"]:
                st["fault:" + name] = st.get("fault:" + name, 0) + 1
            elif f is not None:
                st["probe:fault_not_reached"] = st.get("probe:fault_not_reached", 0) + 1
            st["checked"] += 1
            st["probe:" + o["out"]] = st.get("probe:" + o["out"], 0) + 1
            if o["fired"] or failed:
                sig = f"{s['conv']}|{step['load']['how']}|{name}|{o['where']}"
                sigs.add(sig)
                samples.add(f"{sig} -> {o['out']} {o.get('exc', '')}"[:200])
            if o.get("must_raise"):
                v = {"kind": "cut_accepted", "what": f"{text}: cut off after byte {o['at']}, inside its list of points ({o['where']}), it was accepted"}
            elif o["out"] == "raised" and not o["fired"]:
                v = {"kind": f"next_fails:{s['conv']}", "what": f"{text} undisturbed {'after a failed load ' if failed else ''}raises {o['exc']}"}
            elif o["out"] == "raised" and name in ("short", "eintr"):
                st["probe:raised_on_" + name] = st.get("probe:raised_on_" + name, 0) + 1
            elif o.get("bad"):
                w = f" with {name} at {o['where']}" if o["fired"] else (" after a failed load" if failed else "")
                v = {"kind": f"{'silent' if o['fired'] else 'next'}:{s['conv']}:{step['load']['how']}:{(o['where'] or '') if name in EXC else name}", "what": f"{text}{w} returned, but {o['bad']}"}
            failed = failed or o["out"] != "returned"
    st["set:nontrivial"] = sigs
    st["set:samples"] = samples
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    if len(case["steps"]) > 1:
        yield from engine.shrink_steps(case, "steps")
    f = case["file"]
    if "vars" in f:
        used = {k for st in case["steps"] for k in [st["load"].get("var")] + st["load"].get("vars", [])}
        for k in range(len(f["vars"])):
            if f["vars"][k]["key"] not in used and len(f["vars"]) > 1:
                yield dict(case, file=dict(f, vars=f["vars"][:k] + f["vars"][k + 1:]))
    for k, x in (("zip", False), ("edges", False), ("bnd", False), ("face_coords", None if f["conv"] == "ugrid" else True), ("masks", []), ("fmt", "NETCDF4"), ("tz", ""), ("angle", False)):
        if f.get(k) and f[k] != x:
            yield dict(case, file=dict(f, **{k: x}))
    for n, st in enumerate(case["steps"]):
        if st["q"]:
            yield dict(case, steps=case["steps"][:n] + [dict(st, q=[])] + case["steps"][n + 1:])
        for k in ("all", "shift", "open", "split", "parts"):
            if st["load"].get(k):
                ld = {a: b for a, b in st["load"].items() if a != k}
                yield dict(case, steps=case["steps"][:n] + [dict(st, load=ld)] + case["steps"][n + 1:])
