"""C02: a failed or interrupted query raises and leaves no trace."""
import hashlib

from . import engine
from . import gen as G
from .canon import canon, same, show
from .query import ask, resolve
from .trace import EXC, Interrupter, choose, index
from .world import World

PLAN = {"quick": {"runs": 3000, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:interrupt", "fault:io", "fault:memory", "fault:read",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one query of a history with injected failures compared with the same query on a pristine "
        "world, or one failed query required to raise; non-trivial = asked after at least one fired fault; distinct = "
        "(fault kind, code position of the fault, object kind asked)")
MEASURE = "distinct code positions (file:function:line) at which a failure was injected, per fault kind"
COMPONENTS = {"real": ["gridded (all)", "numpy", "scipy", "cell_tree2d", "fork for the oracle"],
              "stub": ["data source: array-like stand-in for a netCDF variable that can fail the n-th read",
                       "interrupt delivery: sys.settrace raises at the n-th line or bytecode of gridded code"]}
ASSUMPTIONS = ["interrupts are delivered between bytecodes of gridded's own code (as CPython delivers signals), not "
               "inside C extensions", "a query during which the fault fired must raise; which exception is not judged"]


def gen(seed, i, tier):
    r = G.case_rng(seed, "C02", i)
    mix = r.choice([["interrupt"], ["memory"], ["read"], ["interrupt", "read"], ["interrupt", "memory", "read", "io"]])
    spec = G.gen_world(r, src="read" in mix, uvars=False, small=True)
    srcs = [k for k, v in enumerate(spec["vars"]) if v.get("src")]
    qg = G.QGen(r, spec, big=0.02, mutate=0.5)
    n = r.choice([3, 5, 8, 12])
    steps = []
    # a fault on the very first query of an object finds caches half built: start with one often
    for _ in range(n):
        q = qg.draw()
        if r.random() < 0.5:
            f = {"kind": r.choice(mix)}
            if f["kind"] == "read":
                for _ in range(12):     # one that reads: a new question to a variable with a file-like source
                    q = qg.fresh() if q["q"] not in ("var", "vvar") or r.random() < 0.6 else qg.mutated(q)
                    o = [q["o"]] if q["q"] == "var" else spec["vvars"][q["o"]]["vars"] if q["q"] == "vvar" else []
                    if any(k in srcs for k in o):
                        break
                qg.pool.append(q)
                f["nth"] = r.choice([1, 1, 2, 3, 4, 6])
                f["sticky"] = r.random() < 0.3
            else:
                f["frac"] = round(r.random(), 6)
                f["op"] = r.random() < 0.3
                f["focus"] = "any" if f["op"] else r.choice(["any", "line", "store", "store", "try"])
                f["again"] = round(r.random(), 6)
            steps.append({"ask": q, "fault": f})
            if r.random() < 0.6:
                steps.append({"ask": q})
            if r.random() < 0.4:
                steps.append({"ask": qg.mutated(q)})
        else:
            steps.append({"ask": q})
    return {"spec": spec, "steps": steps}


def faulted(w, q, f, count):
    """('raised', class, where) | ('returned', answer, where) | ('unfired', answer-or-exc)"""
    if f["kind"] == "read":
        w.ctl.arm(f["nth"], OSError, f["sticky"])
        where = lambda: f"read{f['nth']}" if w.ctl.fired else None      # noqa: E731
        runner = lambda fn: fn()                                          # noqa: E731
    else:
        places = count(w, q, f["op"])
        if places[0] == 0:
            return ("unfired", ask(w, q))
        it = Interrupter(1 + choose(places, f["focus"], f["frac"], f["again"]), EXC[f["kind"]], f["op"])
        where = lambda: it.fired                                          # noqa: E731
        runner = it.run
    try:
        fn, a, kw = resolve(w, q)
    except Exception as e:      # noqa: BLE001
        w.ctl.disarm()
        return ("unfired", ("exc", type(e).__name__))
    try:
        ans = canon(runner(lambda: fn(*a, **kw)))
    except BaseException as e:  # noqa: BLE001
        out = ("raised", type(e).__name__, where()) if where() else ("unfired", ("exc", type(e).__name__))
    else:
        out = ("returned", ans, where()) if where() else ("unfired", ans)
    w.ctl.disarm()
    return out


def count_events(w, q, op):
    def go():
        trail = []
        it = Interrupter(None, opcodes=op, trail=None if op else trail)
        try:
            fn, a, kw = resolve(w, q)
            it.run(lambda: fn(*a, **kw))
        except Exception:       # noqa: BLE001
            pass
        return (it.n, [], [], []) if op else index(trail)
    return engine.must(engine.fork_call(go))


def perform(case):
    w = World(case["spec"])
    out = []
    for s in case["steps"]:
        if "fault" in s:
            out.append(faulted(w, s["ask"], s["fault"], count_events))
        else:
            out.append(ask(w, s["ask"]))
    return out


def run(case):
    st = {"checked": 0}
    got = engine.must(engine.fork_call(lambda: perform(case)))
    want = engine.pristine_answers(case["spec"], [s["ask"] for s in case["steps"]])
    pos, nontriv, samples = set(), set(), set()
    v = None
    h = hashlib.sha256()
    last = None
    for i, (s, g, w) in enumerate(zip(case["steps"], got, want)):
        q = s["ask"]
        t = f"{q['q']}#{q.get('o', 0)}"
        st["checked"] += 1
        if "fault" in s:
            k = s["fault"]["kind"]
            h.update(repr(g[0]).encode())
            if g[0] == "unfired":
                st["probe:fault_not_reached"] = st.get("probe:fault_not_reached", 0) + 1
                g = g[1]
            else:
                st["fault:" + k] = st.get("fault:" + k, 0) + 1
                last = (k, g[2])
                pos.add(f"{k} {g[2]}")
                samples.add(f"{k} at {g[2]} during {t}")
                if g[0] == "returned":
                    v = {"kind": f"swallowed:{q['q']}", "step": i, "query": q, "fault": s["fault"],
                         "what": f"step {i}: {t} hit an injected {k} failure at {g[2]} but returned {show(g[1])}"}
                    break
                continue
        h.update(show(g).encode())
        if last:
            nontriv.add(f"{last[0]}|{last[1]}|{q['q']}")
        if not same(g, w):
            v = {"kind": f"trace:{q['q']}", "step": i, "query": q,
                 "what": f"step {i}: after an injected {last[0] if last else 'nothing'} failure at "
                         f"{last[1] if last else '-'}, {t} gave {show(g)}, undisturbed it gives {show(w)}"}
            break
    st["set:positions"] = pos
    st["set:nontrivial"] = nontriv
    st["set:samples"] = set(sorted(samples)[:1])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from engine.shrink_steps(case, "steps")
    from .c01 import _with  # noqa: F401
    for i, s in enumerate(case["steps"]):
        p = s["ask"].get("p")
        if p and p.get("n", 0) > 3:
            c = dict(case)
            c["steps"] = list(case["steps"])
            c["steps"][i] = {**s, "ask": {**s["ask"], "p": {**p, "n": max(1, p["n"] // 2)}}}
            yield c
