"""Evaluates cases in this process; driven by check.py over stdin/stdout lines."""
import argparse
import json
import os
import sys
import time

_real_time = time.monotonic

from . import env                                    # noqa: E402


def prop_by_id(pid):
    from .props import registry
    return registry()[pid]()


_loaded = []
_since = [0]


def preload():
    """All of pysgmcmc, once: what a case does must not depend on what was imported before it
    (and a module imported by a thread that is preempted holds the import lock)."""
    if _loaded:
        return
    _loaded.append(True)
    import gc
    import importlib
    import pkgutil
    import pysgmcmc
    for info in pkgutil.walk_packages(pysgmcmc.__path__, "pysgmcmc.", onerror=lambda name: None):
        if ".tests" in info.name:
            continue
        try:
            importlib.import_module(info.name)
        except Exception:       # a case that needs it will tell
            pass
    gc.collect()
    gc.freeze()


def run_case(prop, case, record_devs=False, trace=False):
    """One evaluation; everything it returns is a function of case and code."""
    from .chain import Violation
    from .ctx import Ctx
    from .executor import HarnessError
    from .props.base import innermost
    import gc
    preload()
    ctx = Ctx(case, record_devs=record_devs)
    ctx.trace = trace
    out = {"kind": None, "detail": None}
    # finalisers run between cases, not whenever the process happens to collect
    _since[0] += 1
    if _since[0] >= 8:
        _since[0] = 0
        gc.collect()
    gc.disable()
    try:
        prop.run(case, ctx)
    except Violation as violation:
        out["kind"], out["detail"] = violation.kind, jsonable(violation.detail)
    except HarnessError:
        raise
    except Exception as error:
        # a fault the property did not inject: legal use that fails in pysgmcmc breaks whatever
        # the property promises of it; an error of the check itself stays one
        where = innermost(error)
        if where is None or isinstance(error, MemoryError):
            raise
        out["kind"] = "unexpected_%s_in_%s" % (type(error).__name__, where)
        out["detail"] = {"error": str(error)[:400]}
    finally:
        ctx.close()
    out["digest"] = ctx.digest()
    out["ctx"] = ctx
    return out


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return str(x)


def gen_case(prop, seed, index):
    from .world import Prng
    rng = Prng("case", seed, prop.id, index)
    case = jsonable(prop.gen(rng, index))
    # a case is exactly what its JSON text says
    return json.loads(json.dumps(case))


def emit(obj):
    sys.stdout.write(json.dumps(obj) + "\n")
    sys.stdout.flush()


def known_for(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        "known", "findings.json")
    try:
        with open(path) as f:
            entries = json.load(f)["findings"]
    except (OSError, ValueError, KeyError):
        return []
    return [e for e in entries if e["property"] == pid and e.get("status") == "open"]


def is_known(entries, case, kind, detail):
    """An open finding matches by violation kind and by listed case/detail values."""
    def lookup(obj, path):
        for part in path.split("."):
            if isinstance(obj, list):
                obj = obj[int(part)] if part.isdigit() and int(part) < len(obj) else None
            elif isinstance(obj, dict):
                obj = obj.get(part)
            else:
                return None
        return obj
    for e in entries:
        m = e["match"]
        if m["kind"] != kind:
            continue
        if all(lookup(case, p) == v for p, v in m.get("case", {}).items()) and \
                all(lookup(detail, p) == v for p, v in m.get("detail", {}).items()):
            return e["id"]
    return None


def do_run(args):
    prop = prop_by_id(args.prop)
    known = known_for(args.prop)
    emit({"ev": "ready", "spec": {
        "rule": prop.rule, "quick": prop.quick, "thorough": prop.thorough,
        "real": prop.real, "sample": gen_case(prop, args.seed, 0), "chunk": prop.chunk,
        "recycle": prop.recycle, "assumptions": list(prop.assumptions),
        "twins": dict(zip(("quick", "thorough"), prop.twins))}})
    for line in sys.stdin:
        line = line.strip()
        if not line or line == "quit":
            break
        for index in json.loads(line):
            emit({"ev": "start", "i": index})
            t0 = _real_time()
            case = gen_case(prop, args.seed, index)
            out = run_case(prop, case)
            ctx = out.pop("ctx")
            summary = ctx.summary()
            rec = {"ev": "done", "i": index, "digest": out["digest"], "kind": out["kind"],
                   "detail": out["detail"], "wall": round(_real_time() - t0, 4),
                   "nontrivial": bool(prop.nontrivial(case, summary)),
                   "faults": summary["faults"], "probes": summary["probes"],
                   "orders": [h.hex()[:12] for h in summary["orders"]],
                   "total": summary["total"], "sim_s": summary["sim_s"],
                   "shape": prop.shape(case), "portable": ctx.portable}
            if out["kind"] is not None:
                rec["known"] = is_known(known, case, out["kind"], out["detail"])
            if args.keep_cases or out["kind"] is not None:
                rec["case"] = case
            emit(rec)
            del ctx, out
        emit({"ev": "idle"})


def do_minimise(args):
    """Greedy delta debugging of one failing case, same violation kind."""
    prop = prop_by_id(args.prop)
    with open(args.file) as f:
        data = json.load(f)
    case, kind = data["case"], data["kind"]
    deadline = _real_time() + args.budget
    tried = [0]

    def fails(candidate):
        tried[0] += 1
        try:
            candidate = json.loads(json.dumps(jsonable(candidate)))
            out = run_case(prop, candidate)
        except Exception:       # a nonsensical candidate
            return False
        return out["kind"] == kind

    def greedy(case, candidates):
        progress = True
        while progress and _real_time() < deadline:
            progress = False
            for cand in candidates(case):
                if _real_time() >= deadline:
                    break
                if fails(cand):
                    case = json.loads(json.dumps(jsonable(cand)))
                    emit({"ev": "smaller", "case": case})
                    progress = True
                    break
        return case

    case = greedy(case, prop.shrink)
    # spell the schedule out, then shorten it
    out = run_case(prop, case, record_devs=True)
    explicit = prop.explicit(case, out["ctx"])
    if explicit is not None and fails(explicit):
        case = json.loads(json.dumps(jsonable(explicit)))
        emit({"ev": "smaller", "case": case})
        case = greedy(case, prop.shrink)
    out = run_case(prop, case, trace=True)
    emit({"ev": "minimal", "case": case, "kind": out["kind"], "detail": out["detail"],
          "digest": out["digest"], "tried": tried[0],
          "trace": [w.trace[-400:] for w in out["ctx"].worlds]})


def do_replay(args):
    prop = prop_by_id(args.prop)
    with open(args.file) as f:
        data = json.load(f)
    out = run_case(prop, data["case"], trace=True)
    emit({"ev": "replayed", "kind": out["kind"], "detail": out["detail"],
          "digest": out["digest"], "portable": out["ctx"].portable, "trace": [w.trace[-400:] for w in out["ctx"].worlds]})


def main():
    p = argparse.ArgumentParser()
    p.add_argument("mode", choices=("run", "minimise", "replay"))
    p.add_argument("prop")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--file")
    p.add_argument("--budget", type=float, default=100.)
    p.add_argument("--keep-cases", action="store_true")
    args = p.parse_args()
    out = os.fdopen(os.dup(1), "w")
    # nothing but our protocol on stdout, whatever the code under test prints
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.stdout = out
    env.setup()
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    try:
        {"run": do_run, "minimise": do_minimise, "replay": do_replay}[args.mode](args)
    except BaseException:
        import traceback
        emit({"ev": "error", "text": traceback.format_exc()[-4000:]})
        out.flush()
        os._exit(3)
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
