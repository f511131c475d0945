"""C01, C09, C10: execution order, seeds and noise."""
import copy
import os
import random

import numpy as np

from .. import env
from ..chain import Violation, gen_cfg, gen_noise, Chain, SAMPLERS
from ..world import gen_policy, Prng
from .base import ChainProp, Prop, build, shrink_cfg, shrink_ops, shrink_policy

tf = env.setup()


def history(chain, ops, ctx):
    """The client's view: every sample, cost and the parameters left behind."""
    out = []
    for op in ops:
        rec = chain.step(op)
        if rec is None:
            break
        out.append((rec["sample"], rec["cost"], rec["theta1"]))
        if any(not np.all(np.isfinite(t)) or np.max(np.abs(t), initial=0.) > 1e8
               for t in rec["theta1"]):
            ctx.probe("left_domain")
            break
    return out


def differ(a, b, rtol):
    """First difference between two histories, or None."""
    for k, (x, y) in enumerate(zip(a, b)):
        for name, u, v in zip(("sample", "cost", "parameters"), x, y):
            u = [np.asarray(u)] if name == "cost" else u
            v = [np.asarray(v)] if name == "cost" else v
            if len(u) != len(v):
                return {"step": k + 1, "what": name, "note": "number of values differs"}
            for i, (p, q) in enumerate(zip(u, v)):
                p, q = np.asarray(p, dtype=np.float64), np.asarray(q, dtype=np.float64)
                if p.shape != q.shape:
                    return {"step": k + 1, "what": name, "param": i, "note": "shapes differ"}
                if not np.all(np.isfinite(p)) or not np.all(np.isfinite(q)):
                    if not np.array_equal(np.isfinite(p), np.isfinite(q)):
                        return {"step": k + 1, "what": name, "param": i,
                                "first": p.tolist(), "second": q.tolist()}
                    continue
                scale = np.maximum(np.abs(p), np.abs(q)) + 1e-3
                if np.any(np.abs(p - q) > rtol * scale):
                    return {"step": k + 1, "what": name, "param": i,
                            "first": p.tolist(), "second": q.tolist()}
    if len(a) != len(b):
        return {"note": "one run stopped earlier", "first": len(a), "second": len(b)}
    return None


RTOL = {"float64": 1e-9, "float32": 2e-4}


class C01(ChainProp):
    id = "C01"
    rule = ("one chain of any sampler (seeded or not, with or without batches and feeds) is run in "
            "graph order and again under another operation order, with equal random numbers; every "
            "sample, cost and parameter value must agree. Non-trivial: at least 2 steps and at least "
            "one scheduling decision with several ready operations.")
    feed_rate = 0.1
    quick, thorough = 400, 8000
    rel_float32 = True
    long_share = 0.03

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        if rng.chance(0.7):
            # noise drawn by the chain's own random operations
            case["ops"] = [{k: v for k, v in op.items() if k != "z"} for op in case["ops"]]
        while case["policy"]["kind"] == "fifo":
            case["policy"] = gen_policy(rng)
        return case

    def run(self, case, ctx):
        first = ctx.world({"kind": "fifo"}, primary=False)
        a = build(first, case["cfg"])
        try:
            ha = history(a, case["ops"], ctx)
        finally:
            a.close()
        second = ctx.world(case["policy"])
        b = build(second, case["cfg"])
        try:
            hb = history(b, case["ops"], ctx)
        finally:
            b.close()
        bad = differ(ha, hb, RTOL[case["cfg"]["dtype"]])
        if bad:
            raise Violation("result_depends_on_operation_order", **bad)

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 4 and summary["total"]["branching"] > 0


class C09(ChainProp):
    id = "C09"
    rule = ("two chains with the same seed, target, start and batches in two fresh graphs, with "
            "different operation orders, clocks, entropy, global random state and other random "
            "operations and samplers around; all samples and costs must agree. Some cases are repeated in "
            "processes with another hash seed and must agree, too. Non-trivial: at least 2 steps each.")
    quick, thorough = 400, 8000
    twins = (120, 2000)
    rel_float32 = True
    long_share = 0.03
    cfg_kwargs = {"seeded": True, "inits": ("before", "after", "uninit", "restore", "mixed")}

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        case["ops"] = [{} for _ in case["ops"]]
        case["other"] = {"entropy": rng.below(1 << 30), "clock": rng.choice((0., -1e6, 3e8)),
                         "np_seed": rng.below(1 << 31), "pollute": rng.below(4),
                         "drain": rng.below(50), "policy": gen_policy(rng)}
        return case

    def _pollute(self, world, graph, how, rng):
        """Things an unrelated part of the program does in the same graph."""
        if how == 0:
            return
        with graph.as_default():
            if how == 1:
                for _ in range(rng.randint(1, 4)):
                    tf.random_normal([2], name="elsewhere")
            elif how == 2:
                tf.Variable(tf.random_uniform([3]), name="elsewhere", trainable=False)
                tf.random_normal([1], seed=rng.below(1000), name="elsewhere2")
            else:
                for _ in range(rng.randint(1, 7)):
                    tf.constant(1.0, name="elsewhere")

    def run(self, case, ctx):
        one = ctx.world({"kind": "fifo"}, primary=False)
        a = build(one, case["cfg"])
        try:
            ha = history(a, case["ops"], ctx)
        finally:
            a.close()
        other = case["other"]
        two = ctx.world(case["policy"], entropy=other["entropy"])
        env.CLOCK.jump(other["clock"])
        ctx.fault("clock_jump")
        ctx.fault("global_random_state_changed")
        np.random.seed(other["np_seed"] % 2 ** 31)
        random.seed(other["np_seed"])
        graph = tf.Graph()
        self._pollute(two, graph, other["pollute"], Prng("pollute", case["wseed"]))
        b = build(two, case["cfg"], graph=graph)
        try:
            hb = []
            for k, op in enumerate(case["ops"]):
                # somebody else uses the process-wide generators meanwhile
                if other["drain"]:
                    np.random.normal(size=1 + (k * 7) % other["drain"])
                    random.random()
                hb += history(b, [op], ctx)
                if len(hb) >= len(ha):
                    break
        finally:
            b.close()
        ctx.notes["history"] = repr([[np.asarray(v).tolist() for v in h[0]] for h in ha])
        ctx.same_everywhere([v for h in ha for v in h[0] + [h[1]]], RTOL[case["cfg"]["dtype"]])
        bad = differ(ha, hb, RTOL[case["cfg"]["dtype"]])
        if bad:
            raise Violation("same_seed_different_chain", **bad)

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 4


# -- C24 ------------------------------------------------------------------------------

class C24(ChainProp):
    id = "C24"
    rule = ("one chain constructed directly and one obtained by name with the same arguments (some left to "
            "their defaults), equal random numbers, different operation orders; all samples, costs and "
            "parameters must agree. A call with an unknown or without a required argument is rejected and "
            "leaves the graph as it was. Non-trivial: at least 2 steps of each chain.")
    feed_rate = 0.1
    fault_rate = 0.1
    quick, thorough = 400, 8000
    rel_float32 = True

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        case["cfg"].pop("via", None)
        case["cfg"]["argument_order"] = rng.below(1 << 16)
        if case["cfg"]["seed"] is not None and rng.chance(0.5):
            for op in case["ops"]:
                op.pop("z", None)       # what the seed stands for
        for op in case["ops"]:
            f = op.get("fault")
            if f and f["kind"] == "line":
                del op["fault"]         # where a line is differs between the two
            elif f and f["kind"] in ("mid", "post"):
                f["kind"] = "pre"       # how much of the step was done depends on the order
        case["reject"] = rng.choice(("unknown", "unknown", "missing", None))
        return case

    def run(self, case, ctx):
        hs = []
        for k, via in enumerate((None, "get_sampler")):
            world = ctx.world({"kind": "fifo"}, primary=False) if k == 0 else ctx.world(case["policy"])
            chain = build(world, dict(case["cfg"], via=via))
            try:
                hs.append(self.walk(chain, case["ops"], ctx))
                if via and case["reject"]:
                    self.reject(case["reject"], chain, ctx)
            finally:
                chain.close()
        bad = differ(hs[0], hs[1], RTOL[case["cfg"]["dtype"]])
        if bad:
            raise Violation("sampler_by_name_walks_another_chain", **bad)

    def walk(self, chain, ops, ctx):
        out = []
        for op in ops:
            rec = chain.step(op)
            if rec is None:
                break
            out.append((rec["sample"], rec["cost"], rec["theta1"]) if rec["ok"] else
                       ([], np.zeros(0), rec["theta1"]))
            if any(not np.all(np.isfinite(t)) or np.max(np.abs(t), initial=0.) > 1e8
                   for t in rec["theta1"]):
                ctx.probe("left_domain")
                break
        return out

    def reject(self, how, chain, ctx):
        from pysgmcmc.sampling import Sampler
        from ..chain import enum_member
        kwargs = {"cost_fun": lambda p: tf.constant(0.), "session": chain.session}
        if how == "unknown":
            kwargs["particles" if chain.name == "SVGD" else "params"] = chain.params
            kwargs["no_such_argument"] = 1
        before = len(chain.graph.get_operations())
        values = chain.peek()
        with chain.graph.as_default():
            try:
                Sampler.get_sampler(enum_member(chain.name), **kwargs)
            except ValueError:
                ctx.probe("rejections")
            except Exception as error:
                raise Violation("illegal_arguments_fail_otherwise", how=how,
                                error="%s: %s" % (type(error).__name__, str(error)[:200]))
            else:
                raise Violation("illegal_arguments_are_accepted", how=how)
        if len(chain.graph.get_operations()) != before:
            raise Violation("rejected_call_changed_the_graph", how=how)
        chain._same(values, chain.peek(), "rejected_call_changed_parameters")

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 4


# -- C10 ------------------------------------------------------------------------------

class C10(Prop):
    id = "C10"
    rule = ("one or two chains (same or different graph, same target, seeded alike, differently or not "
            "at all) of a noisy sampler; the standard normal draw of every coordinate and step is "
            "recovered by inverting the reference update; no draw may be reused across coordinates, "
            "parameters, steps or independent chains, and pooled mean, variance and kurtosis must be "
            "those of a standard normal (8 sigma or wider). Non-trivial: at least 60 recovered draws.")
    quick, thorough = 200, 4500

    def gen(self, rng, index):
        cfg = gen_cfg(rng, samplers=("SGHMC", "SGHMC", "SGLD", "SGLD", "REL"), dtype="float64",
                      batched=False, no_burn_in=0., schedule_kinds=("const", "constant", "list", "default"),
                      inits=("before", "after", "uninit"))
        long_run = rng.chance(0.12)
        if long_run:
            cfg["params"] = [dict(p, shape=[2] if cfg["sampler"] != "REL" else [1],
                                  init=(p["init"] * 2 + [0.5, 0.5])[:2 if cfg["sampler"] != "REL" else 1])
                             for p in cfg["params"][:2]]
            steps = 300
        else:
            steps = rng.randint(12, 26)
        if len(cfg["params"]) == 1 and rng.chance(0.7):
            cfg["params"] = cfg["params"] * rng.randint(2, 3)
        cfg["target"] = {"kind": rng.choice(("quad", "mlp")), "seed": cfg["target"]["seed"]}
        seeds = rng.choice((("none", "none"), ("a", "b"), ("a", "none"), ("a",), ("none",), ("a", "a")))
        a = rng.choice((0, 1, 42, rng.below(1 << 31) - 1))
        a = abs(a)
        b = rng.choice((a + 1, 0, 7, rng.below(1 << 30)))
        if b == a:
            b = a + 1
        if index % 100 == 3:
            # a marathon of one chain
            cfg["params"] = [dict(p, shape=p["shape"][:1] and [1], init=p["init"][:1]) for p in cfg["params"][:1]]
            cfg["stepsize"] = {"kind": "const", "values": [0.01]}
            cfg["target"]["kind"], seeds, steps = "quad", seeds[:1], 1100
        cfgs = []
        for s in seeds:
            cfgs.append(dict(cfg, seed={"none": None, "a": a, "b": b}[s]))
        return {"cfgs": cfgs, "steps": steps, "same_graph": rng.chance(0.5) and len(cfgs) == 2,
                "policy": gen_policy(rng), "wseed": rng.below(1 << 30)}

    def shape(self, case):
        return "%s/%d chains/%s" % (case["cfgs"][0]["sampler"], len(case["cfgs"]),
                                    "same graph" if case["same_graph"] else "own graphs")

    def run(self, case, ctx):
        world = ctx.world(case["policy"])
        chains = []
        session = None
        try:
            for k, cfg in enumerate(case["cfgs"]):
                kw = {}
                if case["same_graph"]:
                    if session is None:
                        from ..executor import SimSession
                        graph = tf.Graph()
                        session = SimSession(world, graph=graph)
                        ctx.on_close(session.close)
                    kw = {"graph": graph, "session": session, "prefix": "c%d_" % k}
                chains.append(build(world, cfg, **kw))
            draws = [[] for _ in chains]
            for _ in range(case["steps"]):
                for k, chain in enumerate(chains):
                    if not chain.dead:
                        self._step(chain, draws[k])
        finally:
            for chain in chains:
                chain.close()
        self._judge(case, draws, ctx)

    def _step(self, chain, draws):
        burn_in = chain.count < chain.effective.get("burn_in_steps", 0)
        rec = chain.step({})
        theta0, theta1 = rec["theta0"], rec["theta1"]
        eps = rec["eps"] if chain.own_schedule else chain.schedule.value
        if eps is None:
            chain.dead = True
            return
        _, grads = chain._grads(theta0, None, None)
        if chain.dead:
            return
        zs = []
        model = chain.model
        for i in range(len(chain.sizes)):
            state = model.hyps[i][0]
            if chain.name == "REL":
                if state["p"] is None:
                    _, new = model._advance(state, theta0[i], grads[i], eps, 0., burn_in, theta1[i])
                    model.hyps[i] = [new]
                    zs.append(None)
                    continue
                move = float(theta1[i][0] - theta0[i][0])
                if abs(move) > 0.999999 * eps * model.cfg["speed_of_light"]:
                    chain.dead = True       # too close to the speed of light to invert
                    return
                p = model._momentum(move, eps)
                v = model._velocity(state["p"], eps)
                mean = state["p"] - eps * float(grads[i][0]) - model.cfg["D"] * v
                sigma = float(model.sigma(state, grads[i], eps, burn_in)[0])
                zs.append(np.array([(p - mean) / sigma]))
                model.hyps[i] = [dict(state, p=p)]
                continue
            base, _ = model._advance(state, theta0[i], grads[i], eps, 0., burn_in, None)
            sigma = np.broadcast_to(model.sigma(state, grads[i], eps, burn_in), base.shape)
            z = (theta1[i] - base) / sigma
            # only where the parameter's rounding does not drown the noise
            if np.any(np.maximum(np.abs(theta1[i]), 1e-30) * 1e-15 > 1e-7 * sigma):
                chain.dead = True
                return
            _, new = model._advance(state, theta0[i], grads[i], eps, z, burn_in, None)
            if burn_in:
                new = dict(new, seen=new.get("minv"))
            model.hyps[i] = [new]
            zs.append(z)
        draws.append(zs)

    def _judge(self, case, draws, ctx):
        # series[k][c] = draws of coordinate c of chain k over time
        series = []
        for rows in draws:
            rows = [r for r in rows if all(z is not None for z in r)]
            flat = [np.concatenate([np.ravel(z) for z in r]) for r in rows]
            series.append(np.array(flat).T if flat else np.zeros((0, 0)))
        pool = np.concatenate([s.ravel() for s in series]) if series else np.zeros(0)
        ctx.probe("draws_recovered", int(pool.size))
        ctx.notes["draws"] = [float("%.9g" % v) for v in pool[:50]]
        if pool.size and not np.all(np.isfinite(pool)):
            raise Violation("noise_is_not_finite")
        alike = len(case["cfgs"]) == 2 and case["cfgs"][0]["seed"] is not None and \
            case["cfgs"][0]["seed"] == case["cfgs"][1]["seed"]
        rows = []
        for k, s in enumerate(series):
            if alike and k == 1:
                continue
            for c in range(s.shape[0]):
                rows.append((k, c, s[c]))
        tol = 1e-4
        for x in range(len(rows)):
            for y in range(x, len(rows)):
                a, b = rows[x][2], rows[y][2]
                for lag in (0, 1, 2, 3):
                    if x == y and lag == 0:
                        continue
                    for u, v in ((a, b), (b, a)) if lag and x != y else ((a, b),):
                        n = min(len(u), len(v) - lag)
                        if n < 4:
                            continue
                        for sign in (1., -1.):
                            hits = np.abs(u[:n] - sign * v[lag:lag + n]) < tol
                            # independent draws agree this closely with p ~ 6e-5
                            if int(np.sum(hits)) >= 4:
                                raise Violation(
                                    "noise_is_reused", first={"chain": rows[x][0], "coordinate": rows[x][1]},
                                    second={"chain": rows[y][0], "coordinate": rows[y][1]},
                                    lag=lag, sign=sign, equal=int(np.sum(hits)), of=int(n))
                if x != y:
                    n = min(len(a), len(b))
                    if n >= 100:
                        r = float(np.corrcoef(a[:n], b[:n])[0, 1])
                        if abs(r) > 8. / np.sqrt(n):
                            raise Violation("noise_is_correlated", first=list(rows[x][:2]),
                                            second=list(rows[y][:2]), correlation=r, n=n)
        mine = np.concatenate([r[2] for r in rows]) if rows else np.zeros(0)
        n = mine.size
        # at whatever distance: of n draws n^2 / 1e8 pairs agree to 1e-8 by chance
        ordered = np.sort(np.abs(mine))
        equal = int(np.sum(np.diff(ordered) < 1e-8))
        if equal >= 4 + n * n / 1e7:
            raise Violation("noise_is_reused", equal=equal, of=n)
        if n >= 60:
            ctx.probe("moment_tests")
            mean, var = float(np.mean(mine)), float(np.mean(mine ** 2))
            if abs(mean) > 8. / np.sqrt(n):
                raise Violation("noise_has_wrong_mean", mean=mean, n=n)
            if var > 1. + 8. * np.sqrt(2. / n) + 40. / n or var < 1. - min(0.9, 8. * np.sqrt(2. / n)):
                raise Violation("noise_has_wrong_variance", variance=var, n=n)
        if n >= 1100:
            kurt = float(np.mean(mine ** 4)) / var ** 2
            if kurt < 3. - 8. * np.sqrt(24. / n) or kurt > 3. + 20. * np.sqrt(24. / n):
                raise Violation("noise_is_not_normal", kurtosis=kurt, n=n)

    def nontrivial(self, case, summary):
        return summary["probes"].get("draws_recovered", 0) >= 60

    def shrink(self, case):
        if len(case["cfgs"]) > 1:
            for cfg in case["cfgs"]:
                yield dict(case, cfgs=[cfg], same_graph=False)
        for steps in (case["steps"] // 2, case["steps"] - 1):
            if steps >= 5:
                yield dict(case, steps=steps)
        if case["same_graph"]:
            yield dict(case, same_graph=False)
        for cfg in shrink_cfg(case["cfgs"][0]):
            yield dict(case, cfgs=[dict(cfg, seed=c["seed"]) for c in case["cfgs"]])
        for c in shrink_policy(case):
            yield c
