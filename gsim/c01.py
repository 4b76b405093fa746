"""C01: history independence of query answers."""
import hashlib
import json

from . import engine
from . import gen as G
from .canon import same, show
from .query import ask
from .world import World

PLAN = {"quick": {"runs": 3200, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "probe:repeat",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one query of a simulated history compared with the same query asked first on a pristine "
        "world; a history is non-trivial if at least one earlier step touched the queried object; distinct = digest "
        "of (query, steps before it on the same object)")
COMPONENTS = {"real": ["gridded (all)", "numpy", "scipy", "cell_tree2d", "fork/process isolation for the oracle"],
              "stub": ["none (in-memory data)"]}
ASSUMPTIONS = ["worlds are small (grids up to 8x7, up to 4 times, 5 levels); big point arrays up to 2500 rows",
               "answers are compared to relative 1e-9; dtype and writability are not compared"]


def gen_case(prop, seed, i, tier, **kw):
    r = G.case_rng(seed, prop, i)
    spec = G.gen_world(r, **kw)
    qg = G.QGen(r, spec, big=0.06, mutate=r.choice([0.3, 0.7, 0.9]))
    n = r.choice([4, 8, 14, 22]) if tier == "quick" else r.choice([4, 10, 20, 35, 60])
    steps = []
    pat = r.random()
    while len(steps) < n:
        if r.random() < 0.08:
            a = qg.action()
            if a:
                steps.append(a)
            continue
        steps.append({"ask": qg.draw()})
        if pat < 0.3 and r.random() < 0.3:
            # A, then enough others to overflow a cache, then A again
            a = steps[-1]
            for _ in range(r.randint(5, 10)):
                steps.append({"ask": qg.mutated(a["ask"])})
            steps.append(a)
    return {"spec": spec, "steps": steps}


def gen(seed, i, tier):
    return gen_case("C01", seed, i, tier)


def perform(case):
    """The history, in one process."""
    w = World(case["spec"])
    out = []
    for s in case["steps"]:
        if "ask" in s:
            out.append(ask(w, s["ask"]))
        else:
            try:
                getattr(w.grids[s["o"]], s["act"])()
            except Exception as e:  # noqa: BLE001
                out.append(("act", type(e).__name__))
            else:
                out.append(("act", "ok"))
    return out


def tag(s):
    return f"{s['ask']['q']}#{s['ask'].get('o', 0)}" if "ask" in s else f"act:{s['act']}#{s['o']}"


def run(case):
    st = {"checked": 0, "probe:exceptions": 0, "probe:repeat": 0}
    got = engine.must(engine.fork_call(lambda: perform(case)))
    asks = [(i, s["ask"]) for i, s in enumerate(case["steps"]) if "ask" in s]
    want = engine.pristine_answers(case["spec"], [q for _, q in asks])
    seen, nontriv, samples = {}, set(), set()
    v = None
    h = hashlib.sha256()
    for (i, q), w in zip(asks, want):
        g = got[i]
        st["checked"] += 1
        st["probe:exceptions"] += w[0] == "exc"
        t = tag({"ask": q})
        hist = seen.setdefault(t, [])
        if hist:
            nontriv.add(hashlib.sha1((engine.key(q) + "|".join(hist)).encode()).hexdigest()[:12])
        st["probe:repeat"] += engine.key(q) in hist
        hist.append(engine.key(q))
        samples.add(f"{t} opts={json.dumps(q.get('opts', {}), sort_keys=True)}")
        h.update(show(g).encode())
        if not same(g, w):
            v = {"kind": f"history:{q['q']}", "step": i, "query": q,
                 "what": f"step {i}: {t} gave {show(g)} but as the first query on a fresh object it gives {show(w)}"}
            break
    st["set:nontrivial"] = nontriv
    st["set:samples"] = set(list(sorted(samples))[:2])
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def shrink(case):
    yield from engine.shrink_steps(case, "steps")
    for i, s in enumerate(case["steps"]):
        if "ask" in s and "p" in s["ask"]:
            p = s["ask"]["p"]
            if p.get("n", 0) > 3:
                yield _with(case, i, p={**p, "n": max(1, p["n"] // 2)})
        if "ask" in s and s["ask"].get("opts"):
            for k in s["ask"]["opts"]:
                if k in ("var", "slices", "idx", "grid", "location"):
                    continue
                yield _with(case, i, opts={a: b for a, b in s["ask"]["opts"].items() if a != k})


def _with(case, i, **kw):
    c = dict(case)
    c["steps"] = list(case["steps"])
    c["steps"][i] = {"ask": {**case["steps"][i]["ask"], **kw}}
    return c
