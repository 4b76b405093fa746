"""Seeded search: forks, workers, minimisation, replay and evidence."""
import collections
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import boot

RUN_TIMEOUT = 150


class Died(Exception):
    pass


# ---------------------------------------------------------------- processes
def _write_all(fd, b):
    v = memoryview(b)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def quiet_fds():
    dn = os.open(os.devnull, os.O_RDWR)
    for f in (0, 1, 2):
        os.dup2(dn, f)
    if dn > 2:
        os.close(dn)


def fork_call(fn, timeout=RUN_TIMEOUT, quiet=True):
    """fn() in a forked process: ('ok', value) | ('err', text) | ('died', status) | ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            if quiet:
                quiet_fds()
            try:
                out = ("ok", fn())
            except BaseException:   # noqa: BLE001
                out = ("err", traceback.format_exc())
            try:
                b = pickle.dumps(out)
            except Exception:       # noqa: BLE001
                b = pickle.dumps(("err", traceback.format_exc()))
            _write_all(w, b)
        except BaseException:       # noqa: BLE001
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        return ("timeout", None)
    _, st = os.waitpid(pid, 0)
    if buf:
        try:
            return pickle.loads(bytes(buf))
        except Exception:           # noqa: BLE001
            pass
    return ("died", st)


def must(res):
    """Result of harness code that has to work."""
    if res[0] == "ok":
        return res[1]
    raise Died(f"{res[0]}: {res[1]}")


# ---------------------------------------------------------------- oracle
def key(q):
    return json.dumps(q, sort_keys=True)


def pristine_answers(spec, qs, ask=None, build=None):
    """Each query asked as the very first one of a freshly built world, each in its own process."""
    from .query import ask as ask0
    from .world import World
    ask = ask or ask0
    build = build or World
    uniq = {}
    for q in qs:
        uniq.setdefault(key(q), q)

    def go():
        w = build(spec)
        out = {}
        for k, q in uniq.items():
            out[k] = must(fork_call(lambda: ask(w, q)))
        return out

    res = must(fork_call(go))
    return [res[key(q)] for q in qs]


# ---------------------------------------------------------------- workers
def _send(fd, obj):
    b = pickle.dumps(obj)
    _write_all(fd, struct.pack("<I", len(b)) + b)


class Reader:
    def __init__(self, fd):
        self.fd, self.buf = fd, bytearray()

    def feed(self):
        chunk = os.read(self.fd, 1 << 16)
        if not chunk:
            return None
        self.buf += chunk
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(bytes(self.buf[4:4 + n])))
            del self.buf[:4 + n]
        return out


def run_one(mod, case):
    """(violation or None, stats). Harness trouble counts as an 'invalid' run, never as a violation."""
    try:
        v, st = mod.run(case)
    except Died as e:
        return None, {"harness_error": 1, "_note": str(e)[-1500:]}
    return v, st


def worker(mod, seed, tier, idxs, fd, deadline):
    for i in idxs:
        if time.monotonic() > deadline:
            break
        try:
            case = mod.gen(seed, i, tier)
            v, st = run_one(mod, case)
            if v is not None:       # a violation has to repeat from its seed to be reported
                v2, _ = run_one(mod, case)
                if v2 is None or v2.get("kind") != v.get("kind"):
                    st["unrepeatable"] = 1
                    st["_note"] = "not repeated: " + str(v.get("what"))
                    v = None
        except BaseException:       # noqa: BLE001
            v, st = None, {"harness_error": 1, "_note": traceback.format_exc()[-1500:]}
            case = None
        _send(fd, (i, case if v else None, v, st))
    _send(fd, None)


def explore(mod, seed, tier, nruns, jobs, budget, first=0, log=None, stop=True):
    """Run cases first..first+nruns-1 over `jobs` processes."""
    deadline = time.monotonic() + budget
    pids, readers = [], {}
    sys.stdout.flush()
    for wk in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr in readers:
                    os.close(rr)
                worker(mod, seed, tier, range(first + wk, first + nruns, jobs), w, deadline)
            except BaseException:   # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        pids.append(pid)
        readers[r] = Reader(r)
    stats = collections.Counter()
    sets = collections.defaultdict(set)
    notes, found = [], []
    done = 0
    digests = {}
    live = dict(readers)
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            msgs = live[fd].feed()
            if msgs is None:
                os.close(fd)
                del live[fd]
                continue
            for m in msgs:
                if m is None:
                    continue
                i, case, v, st = m
                done += 1
                for k, x in st.items():
                    if k == "_note":
                        notes.append((i, x))
                    elif k == "_digest":
                        digests[i] = x
                    elif k.startswith("set:"):
                        sets[k[4:]] |= set(x)
                    else:
                        stats[k] += x
                if v is not None:
                    found.append((i, case, v))
        if found and stop:
            break
        if time.monotonic() > deadline + RUN_TIMEOUT + 60:
            break
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for fd in live:
        os.close(fd)
    found.sort(key=lambda f: f[0])
    return dict(done=done, stats=stats, sets=sets, notes=notes, found=found, digests=digests)


# ---------------------------------------------------------------- minimisation
def shrink_steps(case, field):
    """ddmin-like candidates: drop halves, quarters, ..., single steps of case[field]."""
    steps = case[field]
    n = len(steps)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            c = dict(case)
            c[field] = steps[:a] + steps[a + size:]
            yield c
        size //= 2


def minimise(mod, case, v, budget=120):
    end = time.monotonic() + budget
    tried = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for c in mod.shrink(case):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                v2, _ = run_one(mod, c)
            except Exception:       # noqa: BLE001
                continue
            if v2 is not None and v2.get("kind") == v.get("kind"):
                case, v = c, v2
                improved = True
                break
    return case, v, tried


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(boot.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = json.loads(line[len("known:"):])
                if d["property"] == prop:
                    out.append(d)
    return out


# ---------------------------------------------------------------- command line
def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--digest", action="store_true", help="print one digest per run (determinism proof)")
    ap.add_argument("--survey", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args(argv)
    boot.load()
    mod = importlib.import_module(f"gsim.{a.prop.lower()}")
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        case = json.load(open(a.replay))["case"]
        v, st = run_one(mod, case)
        if v is None:
            print(f"replay of {a.replay}: no violation", st.get("_note", ""))
            return 0
        print(json.dumps(v, indent=1, default=str))
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    plan = mod.PLAN[tier]
    nruns = a.runs or plan["runs"]
    budget = a.budget or plan["budget"]
    t0 = time.monotonic()
    print(f"gsim {a.prop} tier={tier} VERIF_SEED={seed} runs={nruns} jobs={jobs}", flush=True)
    res = explore(mod, seed, tier, nruns, jobs, budget, first=a.first, stop=not a.survey)
    wall = time.monotonic() - t0
    if a.digest:
        for i in sorted(res["digests"]):
            print("digest", i, res["digests"][i])
    known = known_findings(a.prop)
    viol = []
    for i, case, v in res["found"]:
        if any(k["key"] == v.get("key") for k in known):
            res["stats"]["known_finding"] += 1
            continue
        viol.append((i, case, v))
    if a.survey:
        for i, case, v in viol:
            print("FOUND", i, json.dumps(v, default=str)[:600])
    replay_path = None
    if viol and not a.survey:
        i, case, v = viol[0]
        if not a.no_minimise:
            case, v, tried = minimise(mod, case, v, budget=plan.get("shrink", 60))
            v["minimised_with"] = tried
        os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(boot.VERIF, "replays", f"{a.prop}-s{seed}-r{i}.json")
        with open(replay_path, "w") as f:
            json.dump({"property": a.prop, "seed": seed, "run": i, "violation": v, "case": case}, f, indent=1, default=str)
    if not a.survey:
        write_evidence(mod, a.prop, tier, seed, res, wall, viol, jobs)
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    s = res["stats"]
    print(f"{res['done']} runs in {wall:.1f} s; " + ", ".join(f"{k}={s[k]}" for k in sorted(s)), flush=True)
    for i, n in res["notes"][:2]:
        print(f"note: run {i} gave no verdict: {n.strip().splitlines()[-1] if n.strip() else ''}")
        if os.environ.get("GSIM_DEBUG") or a.survey:
            print(n)
    if viol and not a.survey:
        print(json.dumps(viol[0][2] if a.no_minimise else v, indent=1, default=str))
        print(f"VIOLATION property={a.prop} replay={replay_path}", flush=True)
        return 1
    if s.get("harness_error", 0) > res["done"] / 2 and not viol:
        print("no verdict: most runs could not be judged")
        return 2
    blind = [k for k in getattr(mod, "MUST", ()) if not s.get(k) and not a.runs and not viol]
    if blind:
        print(f"no verdict: the simulator did not inject or reach {', '.join(blind)}")
        return 2
    return 1 if viol and a.survey else 0


def write_evidence(mod, prop, tier, seed, res, wall, viol, jobs):
    s = res["stats"]
    cov = {
        "evaluations": int(s.get("checked", 0)),
        "distinct_nontrivial": int(len(res["sets"].get("nontrivial", ()))) or int(s.get("nontrivial", 0)),
        "rule": mod.RULE,
        "samples": sorted(res["sets"].get("samples", ()))[:12],
        "simulated_runs": res["done"],
        "runs_per_hour": round(res["done"] / max(wall, 1e-9) * 3600),
        "seeds": {"VERIF_SEED": seed, "runs": res["done"], "one_seed_per_run": "sha256(VERIF_SEED, property, run index)"},
        "simulated_time": mod.SIMTIME(s) if hasattr(mod, "SIMTIME") else "no simulated clock in this property",
        "faults_injected": {k[6:]: int(v) for k, v in sorted(s.items()) if k.startswith("fault:")},
        "probes": {k[6:]: int(v) for k, v in sorted(s.items()) if k.startswith("probe:")},
        "distinct_states": {k: len(v) for k, v in sorted(res["sets"].items()) if k not in ("samples",)},
        "distinct_measure": getattr(mod, "MEASURE", mod.RULE),
        "runs_without_verdict": int(s.get("harness_error", 0)),
        "components": mod.COMPONENTS,
        "jobs": jobs,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": [{"run": i, "violation": json.loads(json.dumps(v, default=str))} for i, _, v in viol[:5]],
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(boot.VERIF, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(boot.VERIF, "evidence", f"{prop}.json"))
