"""Exhaustive-exploration engine shared by all checks.

A check module (checks/cNN.py) provides
    ID, LEVEL, RULE                         descriptive constants
    shards(tier)  -> [(name, params), ...]  a finite partition of the space, simplest first
    explore(params, ctx)                    enumerates one shard completely, calling ctx.run(case)
    check_case(case, ctx) -> None | str     decides ONE case on the real code (None = property holds)
A case is a JSON-encodable value (ints, floats, strings, lists, dicts); it is all that is needed to
replay a violation.  No randomness anywhere: the space is enumerated, in a fixed order, completely.

Every shard runs in a process of its own, forked from a parent that has imported but never called the
library, so what a shard observes does not depend on scheduling or on other shards.
"""
import importlib, json, multiprocessing, os, resource, signal, sys, time, traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_S = 60          # CPU seconds one case may take before it counts as non-terminating
GAP_CPU_S = 200          # the same for what happens between two cases


class NonTermination(BaseException):
    pass


def _alarm(signum, frame):
    raise NonTermination()


def setup_imports():
    sys.dont_write_bytecode = True
    for p in (ROOT, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    # REPO first so that "import PathLib" can only be the working tree
    import PathLib
    got = os.path.realpath(PathLib.__file__)
    want = os.path.realpath(os.path.join(REPO, "PathLib", "__init__.py"))
    if got != want:
        raise SystemExit(f"imported {got}, wanted {want}")


class Found(Exception):
    def __init__(self, case, msg, index):
        self.case, self.msg, self.index = case, msg, index


class Ctx:
    """Collects coverage and decides cases. One per shard."""

    def __init__(self, mod, known=(), stop_at=None):
        self.mod = mod
        self.known = {k["key"]: k for k in known}
        self.known_hits = []
        self.evals = 0
        self.keys = set()
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.stop_at = stop_at
        self._nt = False

    # -- called by check_case ------------------------------------------------------------
    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def nontriv(self):
        self._nt = True

    # -- called by explore ---------------------------------------------------------------
    def run(self, case):
        """Decide one case; raise Found on a violation that is not a listed known finding."""
        self.evals += 1
        self._nt = False
        msg = decide(self.mod, case, self)
        k = key(case)
        if self._nt:
            h = hash(k)
            if h not in self.keys:
                self.keys.add(h)
                self.nontrivial += 1
                if len(self.samples) < 2:
                    self.samples.append(case)
        if msg is not None:
            if k in self.known:
                self.known_hits.append(k)
            else:
                raise Found(case, msg, self.evals)
        if self.stop_at is not None and self.evals >= self.stop_at:
            raise StopIteration


def key(case):
    return json.dumps(case, sort_keys=True, default=str)


def decide(mod, case, ctx):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    try:
        return mod.check_case(case, ctx)
    except NonTermination:
        return "no answer: the case was still running after its CPU limit (non-termination)"
    except Found:
        raise
    except (Exception, RecursionError, MemoryError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        return f"raised {type(e).__name__}: {e} at {where}"
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, GAP_CPU_S)       # for what the enumeration itself asks of the library before the next case


def in_library(e):
    lib = os.path.join(os.path.realpath(REPO), "PathLib") + os.sep
    return any(os.path.realpath(f.filename).startswith(lib) for f in traceback.extract_tb(e.__traceback__))


class NullCtx(Ctx):
    pass


def run_shard(mod, params, known, conn):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    ctx = Ctx(mod, known)
    res = {"violation": None, "error": None}
    t0 = time.process_time()
    try:
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, GAP_CPU_S)
        mod.explore(params, ctx)
    except Found as f:
        res["violation"] = {"case": f.case, "msg": f.msg, "index": f.index}
    except BaseException as e:
        if in_library(e):        # the library failed where the enumeration needs it to work
            res["violation"] = {"case": None, "msg": "while enumerating: " + traceback.format_exc()[-800:], "index": ctx.evals}
        else:
            res["error"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    res.update(cost=getattr(ctx, "cost", None), evals=ctx.evals, nontrivial=ctx.nontrivial, states=ctx.states, transitions=ctx.transitions,
               traces=ctx.traces, outcomes=dict(ctx.outcomes), samples=ctx.samples, known=ctx.known_hits,
               cpu=time.process_time() - t0)
    conn.send(res)
    conn.close()


def load_known(pid):
    """known_findings.txt: lines 'finding: property=ID case=<json> :: text' / 'fixed: property=ID commit text'."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith(f"finding: property={pid} case="):
                body, text = line.split(" case=", 1)[1].rstrip("\n").split(" :: ", 1)
                out.append({"key": key(json.loads(body)), "text": text})
    return out


def jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def run_check(mod, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(mod.ID)
    shards = list(mod.shards(tier))
    mp = multiprocessing.get_context("fork")
    pending = list(range(len(shards)))
    running, results, stop_after = {}, {}, None
    maxj = jobs()
    while pending or running:
        while pending and len(running) < maxj and (stop_after is None or pending[0] < stop_after):
            i = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=run_shard, args=(mod, shards[i][1], known, w), daemon=False)
            p.start()
            w.close()
            running[i] = (p, r)
        if stop_after is not None:
            pending = [i for i in pending if i < stop_after]
            for i in [i for i in running if i > stop_after]:
                p, r = running.pop(i)
                p.kill(); p.join(); r.close()
        if not running:
            continue
        ready = multiprocessing.connection.wait([r for _, r in running.values()], timeout=5)
        for i in list(running):
            p, r = running[i]
            if r in ready:
                try:
                    res = r.recv()
                except EOFError:
                    p.join()
                    res = {"violation": None, "error": f"shard process died with status {p.exitcode}", "evals": 0,
                           "nontrivial": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": {}, "samples": [],
                           "known": [], "cpu": 0}
                p.join()
                r.close()
                del running[i]
                results[i] = res
                if res["violation"] or res["error"]:
                    stop_after = i if stop_after is None else min(stop_after, i)
    tot = Counter()
    outcomes, samples, knownhits = Counter(), [], []
    for i in sorted(results):
        r = results[i]
        for k in ("evals", "nontrivial", "states", "transitions", "traces", "cpu"):
            tot[k] += r[k]
        outcomes.update(r["outcomes"])
        for s in r["samples"]:
            samples.append({"shard": shards[i][0], "case": s})
        knownhits += r["known"]
    step = max(1, len(samples) // 6)
    samples = samples[::step][:6]
    viol = err = None
    if stop_after is not None:
        if results[stop_after]["error"]:
            err = results[stop_after]["error"]
        else:
            viol = results[stop_after]["violation"]
    cov = {"evaluations": tot["evals"], "distinct_nontrivial": tot["nontrivial"], "rule": mod.RULE,
           "samples": json.loads(json.dumps(samples, default=str)), "exhaustive": viol is None and err is None,
           "shards": len(results), "shards_planned": len(shards),
           "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:400]), "cpu_s": round(tot["cpu"], 1)}
    if mod.LEVEL == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{mod.ID}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['text']}" + ("" if k["key"] in knownhits else " (not reached in this run)"))
    if err:
        print(err)
        print(f"ERROR property={mod.ID}: the check itself failed in shard {shards[stop_after][0]}")
        return 2
    if viol:
        path = write_replay(mod, tier, shards[stop_after], viol)
        print(f"violation in shard {shards[stop_after][0]}: {viol['msg']}")
        print(f"case: {key(viol['case'])[:600]}")
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print(f"{mod.ID} {tier}: property held; {tot['evals']} cases ({tot['nontrivial']} distinct non-trivial)"
          + (f", {tot['states']} states, {tot['transitions']} transitions" if mod.LEVEL == "model_checking" else "")
          + f" in {len(results)} shards, {ev['wall_s']} s wall, {cov['cpu_s']} s cpu")
    return 0


def write_replay(mod, tier, shard, viol):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.ID}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"check": mod.ID, "tier": tier, "shard": shard[0], "params": shard[1], "index": viol["index"],
                   "case": viol["case"], "observed": viol["msg"]}, f, indent=1, default=str)
        f.write("\n")
    return path


def load_check(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def replay(path):
    """Re-decide the recorded case alone in this fresh process; if it does not fail alone (a violation that needs
    the history of its shard), re-run the shard up to and including it."""
    rec = json.load(open(path, encoding="utf-8"))
    mod = load_check(rec["check"])
    msg = decide(mod, rec["case"], Ctx(mod)) if rec["case"] is not None else None
    if msg is None:
        print("not violated by the case alone; replaying the history of its shard ...")
        params = dict(mod.shards(rec["tier"])).get(rec["shard"])
        ctx = Ctx(mod, stop_at=rec["index"] if rec["case"] is not None else None)
        try:
            mod.explore(params, ctx)
        except Found as f:
            msg = f.msg
        except StopIteration:
            pass
        except Exception as e:
            if not in_library(e):
                raise
            msg = traceback.format_exc()[-800:]
    if msg is None:
        print(f"property={rec['check']}: the recorded case now holds")
        return 0
    print(f"case: {key(rec['case'])}")
    print(f"observed: {msg}")
    print(f"VIOLATION property={rec['check']} replay={path}")
    return 1
