"""C21: chains advanced concurrently do not influence each other."""
import numpy as np

from .. import env
from ..chain import Violation, gen_cfg, gen_fault
from ..executor import SimSession
from ..world import gen_policy
from .base import Prop, build, drop_chunks, shrink_cfg, shrink_policy
from .order import RTOL, differ

tf = env.setup()


class C21(Prop):
    id = "C21"
    rule = ("two or three chains of any samplers advanced by threads that are preempted at graph "
            "operations and source lines, or by one client in a random order, in graphs of their own or "
            "in one graph and session, later chains possibly built while earlier ones run, client faults "
            "in some; each chain's samples, costs and parameters must be those it produces alone. "
            "Non-trivial: at least two chains made steps and control switched between them.")
    quick, thorough = 180, 5000

    def gen(self, rng, index):
        chains = []
        for _ in range(rng.choice((2, 2, 2, 3))):
            cfg = gen_cfg(rng, seeded=True, inits=("before", "after", "uninit", "restore", "mixed"))
            n = rng.randint(2, 9)
            ops = []
            for _ in range(n):
                op = {}
                if rng.chance(0.12):
                    fault = gen_fault(rng, "data" in cfg, interrupts=False)
                    if fault["kind"] in ("batch", "next", "pre", "post"):
                        # what these leave behind does not depend on the schedule
                        op["fault"] = fault
                if rng.chance(0.08):
                    op["temp"] = rng.choice((2.0, 0.5, 0.0))
                ops.append(op)
            chains.append({"cfg": cfg, "ops": ops})
        if rng.chance(0.35):
            # alike in everything but the starting point: what is shared shows
            chains[1]["cfg"] = dict(chains[0]["cfg"], params=[
                dict(p, init=[v + 0.5 for v in p["init"]]) for p in chains[0]["cfg"]["params"]])
        shared = rng.chance(0.4)
        threads = rng.chance(0.65)
        order = []
        for k, c in enumerate(chains):
            order += [k] * (len(c["ops"]) + 1)
        return {"chains": chains, "shared": shared, "threads": threads,
                "build_inside": not threads or not shared and rng.chance(0.5),
                "order": rng.shuffle(order),
                "baton": {"seed": rng.below(1 << 30), "p_op": rng.choice((0.005, 0.02, 0.1)),
                          "p_line": rng.choice((0.0, 0.02, 0.1)), "p_call": 0.7} if threads else None,
                "policy": gen_policy(rng), "wseed": rng.below(1 << 30)}

    def shape(self, case):
        return "%s/%s/%s" % ("threads" if case["threads"] else "turns",
                             "one graph" if case["shared"] else "own graphs",
                             "+".join(c["cfg"]["sampler"] for c in case["chains"]))

    def run(self, case, ctx):
        n = len(case["chains"])
        world = ctx.world(case["policy"], baton=case["baton"])
        chains, got = [None] * n, [[] for _ in range(n)]
        kw = {}
        if case["shared"]:
            graph = tf.Graph()
            session = SimSession(world, graph=graph)
            ctx.on_close(session.close)
            kw = {"graph": graph, "session": session}

        def make(k):
            if chains[k] is None:
                chains[k] = build(world, case["chains"][k]["cfg"], prefix="c%d_" % k, **kw)
                ctx.on_close(chains[k].close)

        def one(k, op):
            self._record(chains[k], chains[k].step(op), got[k])

        if not case["build_inside"]:
            for k in range(n):
                make(k)
        if case["threads"]:
            def body(k):
                def run():
                    make(k)
                    for op in case["chains"][k]["ops"]:
                        world.baton.point("call")
                        one(k, op)
                return run
            tasks = world.baton.run([("chain%d" % k, body(k)) for k in range(n)],
                                    line_trace=world.baton.p["line"] > 0 or case["baton"].get("line", False))
            for t in tasks:
                if t.error is not None:
                    raise t.error
        else:
            todo = [list(c["ops"]) for c in case["chains"]]
            for k in case["order"]:
                if k >= n:
                    continue
                if chains[k] is None:
                    make(k)
                elif todo[k]:
                    one(k, todo[k].pop(0))
        for k, c in enumerate(case["chains"]):
            alone = ctx.world({"kind": "fifo"}, primary=False)
            chain = build(alone, c["cfg"], prefix="c%d_" % k)
            solo = []
            try:
                for op in c["ops"][:chains[k].attempts if chains[k] else 0]:
                    self._record(chain, chain.step(op), solo)
            finally:
                chain.close()
            bad = differ(got[k], solo, RTOL[c["cfg"]["dtype"]])
            if bad:
                raise Violation("chain_differs_from_the_chain_alone", chain=k, **bad)
        if sum(1 for c in chains if c is not None and c.count) >= 2:
            ctx.probe("concurrent_chains", n)

    def _record(self, chain, rec, out):
        if rec is None:
            return
        if rec["ok"]:
            out.append((rec["sample"], rec["cost"], rec["theta1"]))
        else:
            out.append(([], np.zeros(0), rec["theta1"]))

    def nontrivial(self, case, summary):
        return summary["probes"].get("concurrent_chains", 0) >= 2 and \
            (not case["threads"] or summary["total"]["thread_switches"] > 0)

    def shrink(self, case):
        n = len(case["chains"])
        if n > 2:
            for k in range(n):
                yield dict(case, chains=case["chains"][:k] + case["chains"][k + 1:],
                           order=[o - (o > k) for o in case["order"] if o != k])
        if case["threads"] and not (case["baton"] or {}).get("kind") == "explicit":
            yield dict(case, threads=False, baton=None, build_inside=True)
        for k, c in enumerate(case["chains"]):
            for ops in drop_chunks(c["ops"]):
                chains = list(case["chains"])
                chains[k] = dict(c, ops=ops)
                yield dict(case, chains=chains)
        if not case["threads"]:
            for order in drop_chunks(case["order"]):
                yield dict(case, order=order)
        if case["shared"]:
            yield dict(case, shared=False)
        for k, c in enumerate(case["chains"]):
            for cfg in shrink_cfg(c["cfg"]):
                chains = list(case["chains"])
                chains[k] = dict(c, cfg=cfg)
                yield dict(case, chains=chains)
        for c in shrink_policy(case):
            yield c
        baton = case["baton"]
        if baton and baton.get("kind") == "explicit":
            devs = sorted(baton["devs"].items(), key=lambda kv: int(kv[0]))
            for rest in drop_chunks(devs):
                yield dict(case, baton=dict(baton, devs=dict(rest)))

    def explicit(self, case, ctx):
        out = Prop.explicit(self, case, ctx)
        if out is not None and out.get("baton"):
            out["baton"]["line"] = case["baton"].get("p_line", 0) > 0
        return out
