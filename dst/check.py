"""check.py Cxx [--tier quick|thorough] [--replay FILE] ...

Explores one property: seeded cases on simulated worlds, eight worker processes.
Exit 0: held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 2: the check itself could not give an answer.
"""
import argparse
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CASE_LIMIT = 100.          # seconds one case may take before it counts as stuck


def worker_env(hashseed=None):
    e = dict(os.environ)
    for k in ("TF_DETERMINISTIC_OPS", "PYTHONPATH"):
        e.pop(k, None)
    e.setdefault("PYTHONHASHSEED", "0")
    if hashseed is not None:
        e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["TF_USE_LEGACY_KERAS"] = "1"
    e["TF_CPP_MIN_LOG_LEVEL"] = "3"
    e["CUDA_VISIBLE_DEVICES"] = ""
    e["TF_ENABLE_ONEDNN_OPTS"] = "0"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "TF_NUM_INTRAOP_THREADS",
              "TF_NUM_INTEROP_THREADS"):
        e[k] = "1"
    e["MPLBACKEND"] = "Agg"
    return e


def spawn(*args, **kw):
    return subprocess.Popen(
        [sys.executable, "-m", "dst.worker"] + [str(a) for a in args],
        cwd=VERIF, env=worker_env(kw.get("hashseed")), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=kw.get("stderr", subprocess.DEVNULL), text=True, bufsize=1)


class Patience(object):
    """How long a process had what it needs: computing, or asleep although nothing keeps it from going on.

    Time in which it waits for a processor (or is stopped) does not count, so that a busy machine makes no
    case look stuck.
    """

    def __init__(self, proc):
        self.pid = proc.pid
        self.reset()

    def reset(self):
        self.spent, self.seen, self.cpu = 0., time.monotonic(), self._cpu()[0]

    def _cpu(self):
        waiting = False
        try:
            tasks = ["/proc/%d/task/%s/stat" % (self.pid, t) for t in os.listdir("/proc/%d/task" % self.pid)]
            with open("/proc/%d/stat" % self.pid) as f:
                fields = f.read().rsplit(")", 1)[1].split()
        except OSError:
            return 0., False
        ticks = int(fields[11]) + int(fields[12])
        for task in tasks:
            try:
                with open(task) as f:
                    waiting = waiting or f.read().rsplit(")", 1)[1].split()[0] in "RDTt"
            except OSError:
                pass
        return ticks / float(os.sysconf("SC_CLK_TCK")), waiting

    def tick(self):
        now = time.monotonic()
        if now - self.seen < 0.5:
            return self.spent
        cpu, waiting = self._cpu()
        passed, used = now - self.seen, max(0., cpu - self.cpu)
        self.spent += min(used, passed) if waiting else min(passed, 5.)
        self.seen, self.cpu = now, cpu
        return self.spent


class Worker(object):
    def __init__(self, n, prop, seed, events, keep=False, hashseed=None):
        self.n = n
        self.events = events
        args = ["run", prop, "--seed", seed] + (["--keep-cases"] if keep else [])
        self.proc = spawn(*args, hashseed=hashseed)
        self.patience = Patience(self.proc)
        self.case = None
        self.cases = 0
        self.outstanding = []
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        try:
            for line in self.proc.stdout:
                try:
                    self.events.put((self, json.loads(line)))
                except ValueError:
                    pass
        finally:
            self.events.put((self, {"ev": "eof"}))

    def send(self, indices):
        self.outstanding = list(indices)
        self.patience.reset()
        try:
            self.proc.stdin.write(json.dumps(indices) + "\n")
            self.proc.stdin.flush()
        except OSError:
            pass

    def quit(self):
        try:
            self.proc.stdin.write("quit\n")
            self.proc.stdin.flush()
        except (OSError, ValueError):
            pass

    def kill(self):
        try:
            self.proc.kill()
        except OSError:
            pass


def simple(mode, prop, path, timeout, *more, **kw):
    """Runs a worker in a one-shot mode; returns its events, True if it timed out."""
    proc = spawn(mode, prop, "--file", path, *more, **kw)
    events, timed_out, over = [], [], threading.Event()

    def watch():
        patience = Patience(proc)
        while not over.wait(1.):
            if patience.tick() > timeout:
                timed_out.append(True)
                return proc.kill()

    threading.Thread(target=watch, daemon=True).start()
    try:
        for line in proc.stdout:
            try:
                events.append(json.loads(line))
            except ValueError:
                pass
        proc.wait()
    finally:
        over.set()
    return events, bool(timed_out)


def confirm_stuck(prop, seed, index):
    """Runs one case alone: True if it still does not finish."""
    events = queue.Queue()
    w = Worker(0, prop, seed, events, keep=True)
    w.send([index])
    while True:
        try:
            _, ev = events.get(timeout=1.)
        except queue.Empty:
            if w.patience.tick() > CASE_LIMIT + 30:
                w.kill()
                return True, None
            continue
        if ev["ev"] in ("done", "error", "eof"):
            w.kill()
            return False, ev


class Explorer(object):
    def __init__(self, prop, seed, cases, tier, workers, wall, keep=False, first=0,
                 hashseed=None):
        self.prop, self.seed, self.cases, self.tier = prop, seed, cases, tier
        self.n_workers, self.wall = workers, wall
        self.spec = None
        self.keep = keep
        self.first = first
        self.hashseed = hashseed        # a second run in other processes, in reverse order
        self.results = {}
        self.violation = None
        self.known_hits = {}
        self.errors = []
        self.stuck = []
        self.pending = []
        self.completed = True

    def learn(self, spec):
        self.spec = spec
        self.chunk, self.recycle = spec["chunk"], spec["recycle"]
        self.cases = self.cases or spec[self.tier]
        self.pending = list(range(self.first, self.first + self.cases))
        if self.hashseed is None:
            self.pending.reverse()

    def take(self):
        out = []
        while self.pending and len(out) < self.chunk:
            out.append(self.pending.pop())
        return out

    def run(self):
        t0 = time.monotonic()
        events = queue.Queue()
        workers = [Worker(n, self.prop, self.seed, events, self.keep, self.hashseed)
                   for n in range(min(self.n_workers, self.cases or self.n_workers))]
        live = set(workers)
        stop = False
        crashes = 0
        while live:
            now = time.monotonic()
            if now - t0 > self.wall and not stop:
                stop = True
                self.completed = not self.pending
                self.pending = []
            for w in list(live):
                limit = CASE_LIMIT if w.case is not None else 300.
                if w.outstanding and w.patience.tick() > limit:
                    w.kill()
                    live.discard(w)
                    if w.case is not None:
                        self.stuck.append(w.case)
                        w.outstanding = [i for i in w.outstanding if i != w.case]
                    self.pending.extend(reversed(w.outstanding))
                    w.outstanding = []
                    if len(self.stuck) >= 2 or stop:
                        self.pending, stop = [], True
                    elif self.pending:
                        nw = Worker(w.n, self.prop, self.seed, events, self.keep, self.hashseed)
                        live.add(nw)
            try:
                w, ev = events.get(timeout=1.0)
            except queue.Empty:
                continue
            if w not in live:
                continue
            kind = ev["ev"]
            if kind in ("ready", "idle"):
                if self.spec is None:
                    self.learn(ev["spec"])
                w.outstanding, w.case = [], None
                if kind == "idle" and w.cases >= self.recycle and self.pending:
                    w.quit()
                    live.discard(w)
                    w = Worker(w.n, self.prop, self.seed, events, self.keep, self.hashseed)
                    live.add(w)
                    continue
                indices = self.take()
                if indices:
                    w.send(indices)
                else:
                    w.quit()
                    live.discard(w)
            elif kind == "start":
                w.case = ev["i"]
                w.patience.reset()
            elif kind == "done":
                w.cases += 1
                w.case = None
                w.patience.reset()
                w.outstanding = [i for i in w.outstanding if i != ev["i"]]
                self.results[ev["i"]] = ev
                if ev["kind"] is not None:
                    if ev.get("known"):
                        self.known_hits[ev["known"]] = self.known_hits.get(ev["known"], 0) + 1
                    elif self.violation is None or ev["i"] < self.violation["i"]:
                        self.violation = ev
                        stop = True
                        self.pending = []
                        for other in list(live):
                            other.kill()
                        live.clear()
            elif kind == "error":
                self.errors.append((w.case, ev["text"]))
                live.discard(w)
                w.kill()
                self.pending = []
                stop = True
            elif kind == "eof":
                live.discard(w)
                rest = w.outstanding
                if rest:
                    # the process died under a case (out of memory, crash below Python)
                    crashes += 1
                    if crashes > 2:
                        self.errors.append((w.case, "worker process died"))
                        self.pending = []
                    else:
                        self.pending.extend(reversed(rest))
                        live.add(Worker(w.n, self.prop, self.seed, events, self.keep, self.hashseed))
        for w in workers:
            w.quit()
        return self


OTHER_HASHSEED = 4242


def disagree(a, b):
    """Where two processes' results of one case differ, or None."""
    if a is None or b is None:
        return None if a is b else "only one process has a result"
    if len(a["values"]) != len(b["values"]):
        return "%d and %d values" % (len(a["values"]), len(b["values"]))
    rtol = a["rtol"]
    for k, (u, v) in enumerate(zip(a["values"], b["values"])):
        if u is None or v is None:
            if u is not v:
                return "value %d: %r and %r" % (k, u, v)
        elif abs(u - v) > rtol * (max(abs(u), abs(v)) + 1e-3):
            return "value %d: %r and %r" % (k, u, v)
    return None


def twin(ex, n):
    """The first cases once more in other processes, with another hash seed and order."""
    other = Explorer(ex.prop, ex.seed, min(n, ex.cases), ex.tier, ex.n_workers, ex.wall, keep=True,
                     first=ex.first, hashseed=OTHER_HASHSEED).run()
    compared = 0
    for i in sorted(other.results):
        mine = ex.results.get(i)
        if mine is None:
            continue
        theirs = other.results[i]
        how = disagree(mine.get("portable"), theirs.get("portable"))
        compared += mine.get("portable") is not None
        if theirs["kind"] is None and how is None:
            continue
        if ex.violation is None:
            ex.violation = {"i": i, "kind": "processes_disagree", "case": theirs["case"],
                            "digest": theirs["digest"],
                            "detail": {"difference": how or theirs["kind"],
                                       "hash_seeds": [0, OTHER_HASHSEED]}}
    ex.errors += other.errors
    return compared


def replay_processes(prop, path):
    """One case in two processes with different hash seeds: how they differ, or None."""
    outs = []
    for hashseed in (0, OTHER_HASHSEED):
        events, _ = simple("replay", prop, path, CASE_LIMIT, hashseed=hashseed)
        outs.append([e for e in events if e["ev"] == "replayed"])
    if not outs[0] or not outs[1]:
        return "no answer"
    a, b = outs[0][0], outs[1][0]
    if a["kind"] != b["kind"]:
        return "%s and %s" % (a["kind"], b["kind"])
    return disagree(a["portable"], b["portable"])


def merge(into, other):
    for k, v in other.items():
        into[k] = into.get(k, 0) + v


def evidence(prop_id, tier, seed, ex, wall, spec, violations, extra=None):
    faults, probes, total, shapes = {}, {}, {}, {}
    orders, digests = set(), set()
    sim = 0.
    nontrivial = set()
    for r in ex.results.values():
        merge(faults, r["faults"])
        merge(probes, r["probes"])
        merge(total, r["total"])
        merge(shapes, {r["shape"]: 1})
        orders.update(r["orders"])
        digests.add(r["digest"])
        sim += r["sim_s"]
        if r["nontrivial"]:
            nontrivial.add(r["digest"])
    n = len(ex.results)
    samples = [ex.results[i].get("case") or spec["sample_cases"].get(i)
               for i in sorted(ex.results)[:1]]
    coverage = {
        "evaluations": n,
        "distinct_nontrivial": len(nontrivial),
        "rule": spec["rule"],
        "samples": [s for s in samples if s] or [spec["sample"]],
        "runs_per_hour": round(3600. * n / max(wall, 1e-9)),
        "simulated_session_runs_per_hour": round(3600. * total.get("session_runs", 0) / max(wall, 1e-9)),
        "seeds": {"verif_seed": seed, "case_indices": [ex.first, ex.first + ex.cases - 1],
                  "one_seed_per_case": True},
        "simulated_seconds": round(sim, 3),
        "faults_injected": dict(sorted(faults.items())),
        "rare_conditions_reached": dict(sorted(probes.items())),
        "distinct_operation_orders": len(orders),
        "distinct_executions_by_digest": len(digests),
        "totals": total,
        "case_kinds": dict(sorted(shapes.items(), key=lambda kv: -kv[1])[:40]),
        "all_planned_cases_ran": bool(ex.completed and n == ex.cases),
        "planned_cases": ex.cases,
        "components_real": spec["real"],
        "components_stubbed": spec["stubs"],
        "known_findings_hit": ex.known_hits,
    }
    coverage.update(extra or {})
    doc = {"property": prop_id, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": coverage, "assumptions": spec["assumptions"],
           "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop_id + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)
    return path


STUBS = [
    "tensorflow session executor, variable store and random kernels: simulated "
    "(dst/executor.py), the seeded scheduler picks every operation",
    "time.time/monotonic/perf_counter/sleep, datetime.now: simulated clock",
    "threading.Lock/RLock made by pysgmcmc: a thread that waits hands over to the scheduler",
    "tensorflow.contrib (absent here): variance_scaling_initializer stand-in",
    "pymc3 (absent here): MultiTrace stand-in",
    "operating system entropy behind unseeded generators (numpy, os.urandom): simulated",
    "arspy 0.4: runs with a numpy proxy that still has np.int",
]
ASSUMPTIONS = [
    "TensorFlow's own CPU kernels for stateless operations are trusted.",
    "The simulated executor allows exactly the operation orders that the graph's data "
    "and control edges allow, with reads of a variable seeing either the old or the new "
    "buffer as TensorFlow's reference variables do; compared with a real session by "
    "dst/selftest.py.",
    "Seeded search samples schedules and fault sequences; it does not enumerate them.",
]


def complete(spec):
    spec["stubs"] = STUBS
    spec["assumptions"] = ASSUMPTIONS + spec["assumptions"]
    spec["sample_cases"] = {}
    return spec


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def report(prop_id, seed, found, budget):
    """Minimise, write the replay file, replay it in a fresh process."""
    name = "%s-seed%s-case%s.json" % (prop_id, seed, found["i"])
    path = os.path.join(VERIF, "replays", name)
    doc = {"property": prop_id, "seed": seed, "index": found["i"], "kind": found["kind"],
           "detail": found["detail"], "case": found["case"], "digest": found.get("digest"),
           "minimised": False}
    write_json(path, doc)
    if found["kind"] == "processes_disagree":
        doc["replay_confirmed"] = replay_processes(prop_id, path) is not None
        write_json(path, doc)
        return path, doc
    if found["kind"] != "no_progress" and budget > 0:
        events, _ = simple("minimise", prop_id, path, budget + CASE_LIMIT, "--budget", budget)
        last = None
        for ev in events:
            if ev["ev"] == "smaller":
                last = ev["case"]
            if ev["ev"] == "minimal" and ev["kind"] == found["kind"]:
                original = doc["case"]
                doc.update(case=ev["case"], detail=ev["detail"], digest=ev["digest"],
                           minimised=True, candidates_tried=ev["tried"],
                           trace=ev["trace"], original_case=original)
                write_json(path, doc)
                last = None
        if last is not None:
            doc.update(original_case=doc["case"], case=last, minimised="partly", digest=None)
            write_json(path, doc)
    if found["kind"] != "no_progress":
        events, _ = simple("replay", prop_id, path, CASE_LIMIT)
        ok = [e for e in events if e["ev"] == "replayed" and e["kind"] == doc["kind"] and
              doc["digest"] in (None, e["digest"])]
        if not ok and doc.get("original_case"):
            doc.update(case=doc.pop("original_case"), minimised=False, digest=found["digest"])
            events, _ = simple("replay", prop_id, path, CASE_LIMIT)
            ok = [e for e in events if e["ev"] == "replayed" and e["kind"] == doc["kind"]]
        doc["replay_confirmed"] = bool(ok)
        write_json(path, doc)
    return path, doc


def describe(doc):
    lines = ["  kind: %s" % doc["kind"]]
    for k, v in (doc.get("detail") or {}).items():
        lines.append("  %s: %s" % (k, str(v)[:300]))
    return "\n".join(lines)


def do_replay(prop_id, path):
    with open(path) as f:
        doc = json.load(f)
    if doc["kind"] == "no_progress":
        stuck, _ = simple("replay", prop_id, path, CASE_LIMIT)[1], None
        print("replay: %s" % ("stuck again" if stuck else "finished"))
        if stuck:
            print("VIOLATION property=%s replay=%s" % (prop_id, path))
        return 1 if stuck else 0
    if doc["kind"] == "processes_disagree":
        how = replay_processes(prop_id, path)
        if how is None:
            print("replay of %s: both processes agree" % path)
            return 0
        print("replay: two processes disagree: %s" % how)
        print("VIOLATION property=%s replay=%s" % (prop_id, path))
        return 1
    events, _ = simple("replay", prop_id, path, CASE_LIMIT * 2)
    for ev in events:
        if ev["ev"] == "error":
            print(ev["text"])
            return 2
        if ev["ev"] == "replayed":
            if ev["kind"] is None:
                print("replay of %s: the property holds" % path)
                return 0
            print("replay: kind=%s digest=%s (%s)" % (
                ev["kind"], ev["digest"],
                "as recorded" if ev["digest"] == doc.get("digest") and
                ev["kind"] == doc["kind"] else "differs from the record"))
            print(describe(ev))
            print("VIOLATION property=%s replay=%s" % (prop_id, path))
            return 1
    print("replay gave no answer")
    return 2


def main():
    global SEED
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--replay")
    p.add_argument("--cases", type=int)
    p.add_argument("--first", type=int, default=0)
    p.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--wall", type=float)
    p.add_argument("--budget", type=float)
    p.add_argument("--dump")
    p.add_argument("--scratch-evidence", action="store_true", help="leave evidence/ alone")
    args = p.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    SEED = int(os.environ.get("VERIF_SEED") or 1)
    if args.replay:
        return do_replay(args.prop, args.replay)
    t0 = time.monotonic()
    wall = args.wall or (240. if tier == "quick" else 3300.)
    budget = args.budget if args.budget is not None else (90. if tier == "quick" else 300.)
    print("property %s, tier %s, VERIF_SEED=%d, %d workers" % (
        args.prop, tier, SEED, args.workers))
    sys.stdout.flush()
    ex = Explorer(args.prop, SEED, args.cases, tier, args.workers, wall,
                  first=args.first, keep=bool(args.dump)).run()
    if ex.spec is None:
        print("no worker came up:\n%s" % "\n".join(t for _, t in ex.errors))
        return 2
    spec = complete(ex.spec)
    for index in sorted(ex.stuck)[:1]:
        if ex.violation is None:
            still, ev = confirm_stuck(args.prop, SEED, index)
            if still:
                code = ("import json,sys\nfrom dst import env; env.setup()\n"
                        "from dst.worker import prop_by_id, gen_case\n"
                        "print('CASE'+json.dumps(gen_case(prop_by_id(sys.argv[1]),"
                        "int(sys.argv[2]),int(sys.argv[3]))))")
                out = subprocess.run([sys.executable, "-c", code, args.prop, str(SEED), str(index)],
                                     cwd=VERIF, env=worker_env(), stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True).stdout
                case = [json.loads(l[4:]) for l in out.splitlines() if l.startswith("CASE")][0]
                ex.violation = {"i": index, "kind": "no_progress", "case": case,
                                "detail": {"note": "the case does not finish (%d s)" % CASE_LIMIT}}
            else:
                print("note: case %d was slow, but finished when run alone" % index)
    more = {}
    if ex.violation is None and not ex.errors and spec["twins"][tier] and not args.dump:
        more["cases_repeated_in_other_processes"] = twin(ex, spec["twins"][tier])
    wall_s = time.monotonic() - t0
    if args.dump:
        with open(args.dump, "w") as f:
            for i in sorted(ex.results):
                f.write(json.dumps(ex.results[i], sort_keys=True) + "\n")
    if not args.scratch_evidence:
        evidence(args.prop, tier, SEED, ex, wall_s, spec,
                 1 if ex.violation else 0, more)
    for known in sorted(ex.known_hits):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, known))
    if ex.violation is not None:
        path, doc = report(args.prop, SEED, ex.violation, budget)
        print(describe(doc))
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    if ex.errors:
        index, text = ex.errors[0]
        print("the check failed at case %s:\n%s" % (index, text))
        return 2
    if not ex.results:
        print("no case completed")
        return 2
    nt = sum(1 for r in ex.results.values() if r["nontrivial"])
    print("held on %d cases (%d non-trivial) in %.1f s%s" % (
        len(ex.results), nt, wall_s, "" if len(ex.results) == ex.cases else
        " (planned %d)" % ex.cases))
    return 0


SEED = 1
if __name__ == "__main__":
    sys.exit(main())
