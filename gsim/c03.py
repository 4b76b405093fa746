"""C03: concurrent queries on shared in-memory objects are serially equivalent and finish."""
import copy
import hashlib

from . import engine
from . import gen as G
from . import sched
from .canon import same, show
from .query import ask
from .world import World

PLAN = {"quick": {"runs": 900, "budget": 240}, "thorough": {"runs": 60000, "budget": 3000, "shrink": 200}}
MUST = ("checked", "fault:thread_switch",)      # a quick or thorough run that saw none of these decided nothing
RULE = ("one evaluation = one query of one thread compared with the same query asked alone on a pristine world; "
        "non-trivial = the schedule really switched threads inside a query; distinct = (code positions of the "
        "switches, in order) of a run")
MEASURE = "distinct interleavings: ordered list of (thread, code position) of the switches that took place"
COMPONENTS = {"real": ["gridded (all)", "numpy", "scipy", "cell_tree2d", "CPython threads"],
              "stub": ["thread scheduler (one baton, switches between bytecodes of gridded code)",
                       "threading.Lock/RLock created by gridded code (simulated, deadlocks detected)"]}
ASSUMPTIONS = ["a switch happens between two bytecodes of gridded's own code; calls into numpy/scipy/cell_tree2d are atomic",
               "data are in memory (netCDF4/HDF5 handles are documented not thread safe)"]


CLASSES = ["any", "store", "pstore", "pstore", "branch", "pbranch", "pbranch", "call"]


def pick(qg):
    """A query that some cache will remember."""
    for _ in range(20):
        q = qg.fresh()
        if "p" in q and q["q"] not in ("varc", "vvarc"):
            if q["q"] in ("g.locate_faces", "g.index_of", "g.geo_to_logical"):
                q["opts"]["_memo"] = True
            return q
    return q


def variants(r, q, n):
    out = []
    for _ in range(n):
        v = copy.deepcopy(q)
        if "p" in v:
            v["p"]["seed"] = r.randrange(10**6)
        out.append(v)
    return out


def gen(seed, i, tier):
    r = G.case_rng(seed, "C03", i)
    spec = G.gen_world(r, uvars=False, small=True)
    qg = G.QGen(r, spec, big=0.01, mutate=0.6)
    nthr = r.choice([2, 2, 2, 2, 3, 3, 4]) if r.random() > 0.02 else 9
    nq = r.choice([1, 1, 2, 3])
    style = r.choice(["same", "same", "near", "twin", "twin", "free", "evict", "evict"])
    warm = [qg.draw() for _ in range(r.choice([0, 0, 0, 1, 3]))]
    base = [qg.draw() for _ in range(nq)]
    solo = False
    if style == "evict":
        # a cache filled to the brim; one thread asks for an old entry while others push it out
        q0 = pick(qg)
        solo = r.random() < 0.6
        if solo:
            nthr = 2
            warm = [q0]
            progs = [[copy.deepcopy(q0)], variants(r, q0, 10)]
        else:
            warm = variants(r, q0, r.randint(3, 9))
            warm.insert(r.choice([0, 0, 1, len(warm)]), q0)
            progs = [[copy.deepcopy(q0)] if r.random() < 0.4 else variants(r, q0, r.randint(1, 6)) for j in range(nthr)]
    else:
        progs = []
        for k in range(nthr):
            if style == "same":
                p = copy.deepcopy(base)
            elif style == "twin":
                p = [qg.twin(q) for q in base]
            elif style == "near":
                p = [copy.deepcopy(q) if r.random() < 0.4 else qg.mutated(q) for q in base]
            else:
                p = [qg.draw() for _ in range(nq)]
            progs.append(p)
    if nthr == 9:       # a storm: every thread adds an entry to a full cache
        q0 = pick(qg)
        warm, progs = variants(r, q0, 9), [variants(r, q0, 1) for _ in range(nthr)]
    scheds = []
    nsch = 24 if solo else 10
    for j in range(nsch):
        first, last, ys = 0 if solo else r.randrange(nthr), {}, []
        cur = first
        for n in range(1 if solo else r.choice([1, 1, 2, 2, 3, 5, 8])):
            to = r.choice([k for k in range(nthr) if k != cur])
            f = last.get(cur, 0.0)
            f = f + (1 - f) * r.random() * r.choice([1.0, 1.0, 0.3]) if n else (j + r.random()) / nsch
            last[cur] = f
            ys.append([cur, r.choice(CLASSES[1:] if solo else CLASSES), round(f, 6), to])
            cur = to
        if nthr == 9:       # everybody stops at the same place, then everybody goes on
            a = [r.choice(CLASSES[1:]), round(1 - r.random() * r.choice([1, 0.3, 0.1, 0.05]), 6)]
            d = r.randint(1, 25)
            ys = [y for k in range(nthr) for y in ([k, *a, (k + 1) % nthr], [k, "+", d, (k + 1) % nthr])]
        scheds.append({"first": first, "yields": ys})
    return {"spec": spec, "warm": warm, "progs": progs, "schedules": scheds}


def measure(w, progs):
    """Events of each program when run alone on a copy (a fork) of the warmed-up world."""
    out = []
    for p in progs:
        def go(p=p):
            c = sched.Counter()
            for q in p:
                c.run(lambda: ask(w, q))
            return {"any": c.n, "store": list(c.stores.values()), "call": list(c.calls.values()),
                    "branch": list(c.branches.values())}
        out.append(engine.must(engine.fork_call(go)))
    return out


def perform(case):
    """Every schedule of the case, each in its own copy (a fork) of the warmed-up world."""
    w = World(case["spec"])
    for q in case["warm"]:
        ask(w, q)
    ms = measure(w, case["progs"])
    out = []
    for sc in case["schedules"]:
        out.append(engine.fork_call(lambda: one(w, case["progs"], sc, ms), timeout=90))
    return out


def one(w, progs, sc, ms):
    ys = [{} for _ in progs]
    for k, cls, frac, to in sc["yields"]:
        if k >= len(ms):
            continue
        n = ms[k]["any"]
        places = ms[k].get(cls.removeprefix("p")) if cls != "any" else None
        if cls == "+":      # so many events after this thread's previous switch
            e = max(ys[k], default=0) + int(frac)
        elif places and cls[0] == "p":      # every place in the code alike, however often it is passed
            x = frac * len(places)
            at = places[min(len(places) - 1, int(x))]
            e = at[min(len(at) - 1, int(x % 1 * len(at)))]
        elif places:
            pool = sorted(n for at in places for n in at)
            e = pool[min(len(pool) - 1, int(frac * len(pool)))]
        else:
            e = 1 + int(frac * n)
        ys[k][e] = to
    total = sum(m["any"] for m in ms)

    def prog(p):
        return lambda: [ask(w, q) for q in p]
    s = sched.Scheduler([prog(p) for p in progs], ys, cap=40 * total + 200000)
    ok = s.run(first=sc["first"] % len(progs))
    return s.results, s.switches, ok, repr(s.dead) if s.dead else None


def run(case):
    sched.watch(None)       # instrument once, before the processes of this case are forked
    allres = engine.must(engine.fork_call(lambda: perform(case)))
    want = engine.pristine_answers(case["spec"], [q for p in case["progs"] for q in p])
    st = {"checked": 0, "fault:thread_switch": 0, "probe:schedules": 0, "probe:schedules_with_switch": 0}
    inters, positions, samples = set(), set(), set()
    st["set:interleavings"] = st["set:nontrivial"] = inters
    st["set:switch_positions"] = positions
    st["set:samples"] = samples
    h = hashlib.sha256()
    v = None
    for i, res in enumerate(allres):
        v = judge(case, i, res, want, st, inters, positions, samples, h)
        if v is not None:
            v["schedule"] = i
            break
    st["_digest"] = h.hexdigest()[:16]
    return v, st


def judge(case, i, res, want, st, inters, positions, samples, h):
    st["probe:schedules"] += 1
    if res[0] == "died":
        return {"kind": "crash", "what": f"the process died with status {res[1]} under schedule {i}"}
    results, switches, ok, dead = engine.must(res)
    inter = "|".join(f"{a}@{w}" for a, _, _, w in switches)
    if switches:
        inters.add(hashlib.sha1((engine.key(case["progs"]) + inter).encode()).hexdigest()[:14])
        st["probe:schedules_with_switch"] += 1
        if len(inter) < 200:
            samples.add(inter)
    positions |= {w for _, _, _, w in switches}
    st["fault:thread_switch"] += len(switches)
    h.update(inter.encode())
    if not ok:
        raise engine.Died("the simulation did not end (a thread waits outside the simulator)")
    if dead:
        return {"kind": "stuck", "what": f"{dead}; switches {switches[-6:]}"}
    it = iter(want)
    for k, p in enumerate(case["progs"]):
        r = results[k]
        if r is None or (isinstance(r, tuple) and r and r[0] == "stopped"):
            return {"kind": "stopped", "what": f"thread {k} ended with {r}; switches {switches}"}
        for j, q in enumerate(p):
            w = next(it)
            st["checked"] += 1
            h.update(show(r[j]).encode())
            if not same(r[j], w):
                return {"kind": f"race:{q['q']}", "thread": k, "query": q, "switches": switches[:12],
                        "what": f"thread {k} query {j} {q['q']}#{q.get('o', 0)} gave {show(r[j])}, alone it gives {show(w)}"}
    return None


def shrink(case):
    if len(case["schedules"]) > 1:
        for sc in case["schedules"]:
            yield {**case, "schedules": [sc]}
        return
    sc = case["schedules"][0]
    for c in engine.shrink_steps(sc, "yields"):
        yield {**case, "schedules": [c]}
    yield from engine.shrink_steps(case, "warm")
    if len(case["progs"]) > 2:
        for k in range(len(case["progs"])):
            c = dict(case)
            c["progs"] = case["progs"][:k] + case["progs"][k + 1:]
            ys = [[a - (a > k), b, f, t - (t > k)] for a, b, f, t in sc["yields"] if a != k]
            c["schedules"] = [{"first": sc["first"] % len(c["progs"]), "yields": ys}]
            yield c
    for k, p in enumerate(case["progs"]):
        if len(p) > 1:
            for j in range(len(p)):
                c = dict(case)
                c["progs"] = list(case["progs"])
                c["progs"][k] = p[:j] + p[j + 1:]
                yield c
