"""C28: Bayesian neural networks that share a graph, a session or a process."""
import numpy as np

from .. import env
from ..chain import Violation, gen_cfg, SESSION_EXC
from ..executor import SimSession, HarnessError
from ..world import gen_policy
from .base import Prop, build, drop_chunks, shrink_cfg, shrink_policy
from .bnn import Training, gen_setup, train_or_violate, close_to
from .order import RTOL, differ

tf = env.setup()


def small_setup(rng):
    s = gen_setup(rng, big=0.)
    s["seed"] = rng.choice((0, 1, rng.below(1 << 20)))
    s["burn_in_steps"], s["sample_steps"] = rng.choice((1, 2, 3)), rng.choice((1, 1, 2))
    s["n_nets"] = rng.choice((1, 2, 3))
    s["n_iters"] = s["burn_in_steps"] + 2 + s["n_nets"] * s["sample_steps"] + rng.choice((0, 4))
    s["n"] = rng.choice((2, 5, 20, 21))
    if s["n"] < 3:
        s["normalize_input"], s["scales"][0] = False, 1.
    return s


def unchanged(a, b):
    """ Bitwise, for a diverged network is full of NaNs. """
    return a.shape == b.shape and a.tobytes() == b.tobytes()


class C28(Prop):
    id = "C28"
    rule = ("two or three BNNs (and chains) in one graph and session trained, used and failing in a random "
            "order, or in graphs of their own trained by preempted threads; whatever one does, variables, "
            "nets, predictions and arrays of the others stay as they are, and the nets each collects are those "
            "it collects alone. Non-trivial: at least two networks trained.")
    quick, thorough = 110, 2500
    chunk, recycle = 5, 60

    def gen(self, rng, index):
        nets = [small_setup(rng) for _ in range(rng.choice((2, 2, 2, 3)))]
        if rng.chance(0.4):
            # alike in everything but the data
            nets[1] = dict(nets[0], data_seed=nets[1]["data_seed"])
        threads = rng.chance(0.4)
        case = {"nets": nets, "threads": threads, "policy": gen_policy(rng), "wseed": rng.below(1 << 30)}
        if threads:
            case["baton"] = {"seed": rng.below(1 << 30), "p_op": rng.choice((0.005, 0.02, 0.1)),
                             "p_line": rng.choice((0.0, 0.02, 0.1)), "p_call": 0.7}
            return case
        case["chains"] = [gen_cfg(rng, seeded=True, inits=("before", "after", "uninit", "mixed"))
                          for _ in range(rng.choice((0, 0, 1)))]
        ops = [["train", k, 0] for k in range(len(nets))]
        ops += [["step", rng.below(4), 0] for _ in range(rng.randint(2, 6))] if case["chains"] else []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(("predict", "predict", "individual", "fail_training", "fail_predict"))
            ops.append([op, rng.below(len(nets)), rng.below(1 << 20)])
        case["ops"] = rng.shuffle(ops)
        return case

    def shape(self, case):
        return "%s/%s" % ("threads" if case["threads"] else "turns",
                          "+".join(sorted(s["method"] for s in case["nets"])))

    def run(self, case, ctx):
        world = ctx.world(case["policy"], baton=case.get("baton"))
        if case["threads"]:
            results = self.by_threads(world, case, ctx)
        else:
            results = self.by_turns(world, case, ctx)
        for k, result in enumerate(results):
            if result is None:
                continue
            alone = ctx.world({"kind": "fifo"}, primary=False)
            t = Training(alone, case["nets"][k])
            try:
                train_or_violate(t)
                self.compare(k, result, self.outcome(t), t)
            finally:
                t.close()
        if sum(1 for r in results if r is not None) >= 2:
            ctx.probe("networks_trained_side_by_side", len(results))

    def outcome(self, t):
        return [[v.copy() for v in s] for s in t.samples()], [np.array(p) for p in t.predict()]

    def compare(self, k, got, want, t):
        rtol = 1e-8 if t.setup["dtype"] == "float64" else 1e-3
        (nets, prediction), (nets2, prediction2) = got, want
        if len(nets) != len(nets2):
            raise Violation("network_collects_other_nets_than_alone", network=k, nets=len(nets),
                            alone=len(nets2))
        for i, (a, b) in enumerate(zip(nets, nets2)):
            if len(a) != len(b):
                raise Violation("network_has_other_parameters_than_alone", network=k, parameters=len(a),
                                alone=len(b))
            for u, v in zip(a, b):
                if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e6:
                    return
                if not close_to(u, v, rtol, rtol * 0.01):
                    raise Violation("network_collects_other_nets_than_alone", network=k, net=i,
                                    got=u.tolist(), alone=v.tolist())
        for u, v in zip(prediction, prediction2):
            if not close_to(u, v, rtol * 100, rtol):
                raise Violation("network_predicts_otherwise_than_alone", network=k, got=u.tolist(),
                                alone=v.tolist())

    # -- each in a graph and thread of its own -----------------------------
    def by_threads(self, world, case, ctx):
        n = len(case["nets"])
        out = [None] * n

        def body(k):
            def run():
                t = Training(world, case["nets"][k])
                ctx.on_close(t.close)
                world.baton.point("call")
                train_or_violate(t)
                world.baton.point("call")
                out[k] = self.outcome(t)
            return run
        tasks = world.baton.run([("net%d" % k, body(k)) for k in range(n)],
                                line_trace=world.baton.p["line"] > 0 or case["baton"].get("line", False))
        for t in tasks:
            if t.error is not None:
                if isinstance(t.error, (Violation, HarnessError)):
                    raise t.error
                raise Violation("training_beside_others_failed",
                                error="%s: %s" % (type(t.error).__name__, str(t.error)[:300]))
        return out

    # -- all in one graph and session --------------------------------------
    def by_turns(self, world, case, ctx):
        graph = tf.Graph()
        session = SimSession(world, graph=graph)
        ctx.on_close(session.close)
        n = len(case["nets"])
        nets, chains = [None] * n, [None] * len(case["chains"])
        state = {"owner": {}, "outcome": [None] * n}
        steps = [[] for _ in chains]

        def own(who, known):
            for op in graph.get_operations():
                if op.type == "VariableV2" and op.name not in known:
                    state["owner"][op.name] = who

        def variables():
            return {k: np.array(v.buf) for k, v in session.backend.vars.items() if v.buf is not None}

        def arrays():
            return [[a.copy() for a in (t.x, t.y, t.x_test)] if t else None for t in nets]

        def collected():
            return [[[v.copy() for v in s] for s in t.samples()] if t else None for t in nets]

        for op, k, arg in case["ops"]:
            who = ("chain", k % len(chains)) if op == "step" else ("net", k)
            known = {o.name for o in graph.get_operations()}
            before, arrays_before, nets_before = variables(), arrays(), collected()
            if op == "step":
                self.step(world, case, k % len(chains), chains, steps, graph, session)
            else:
                if nets[k] is None:
                    nets[k] = Training(world, case["nets"][k], graph=graph, session=session)
                    arrays_before[k] = arrays()[k]
                getattr(self, "do_" + op)(world, nets[k], k, arg, state, ctx)
            own(who, known)
            after = variables()
            for name, value in before.items():
                mine = state["owner"].get(name) == who and op in ("step", "train", "fail_training")
                if not mine and not (name in after and unchanged(value, after[name])):
                    raise Violation("foreign_variable_changed", by=[op, k], variable=name,
                                    owner=list(state["owner"].get(name, ())), before=value.tolist(),
                                    after=after[name].tolist() if name in after else None)
            for i, (a, b) in enumerate(zip(arrays_before, arrays())):
                if a is not None and any(not unchanged(u, v) for u, v in zip(a, b)):
                    raise Violation("callers_arrays_changed", by=[op, k], network=i)
            for i, (a, b) in enumerate(zip(nets_before, collected())):
                if a is None or i == k and op in ("train", "fail_training"):
                    continue
                if len(a) != len(b) or any(not unchanged(u, v) for p, q in zip(a, b)
                                           for u, v in zip(p, q)):
                    raise Violation("nets_of_another_network_changed", by=[op, k], network=i)
        for k, t in enumerate(nets):
            if t is not None and state["outcome"][k] is not None:
                if t.bnn.is_trained:
                    again = self.outcome(t)
                    self.compare(k, again, state["outcome"][k], t)
                elif not state.get("failed%d" % k):
                    raise Violation("network_forgot_its_training", network=k)
        self.check_chains(case, chains, steps, ctx)
        return state["outcome"]

    def do_train(self, world, t, k, arg, state, ctx):
        if state["outcome"][k] is not None:
            return      # what a second training collects depends on the first's random numbers
        train_or_violate(t)
        ctx.probe("trainings")
        state["failed%d" % k] = False
        # a network that made an attempt before continues random streams and schedule
        state["outcome"][k] = None if state.get("attempted%d" % k) else self.outcome(t)

    def predict(self, t, individual):
        return t.predict(return_individual_predictions=individual)

    def do_predict(self, world, t, k, arg, state, ctx, individual=False):
        if not t.bnn.is_trained:
            return
        want = t.expected_prediction([[v.copy() for v in s] for s in t.samples()])
        got = self.predict(t, individual)
        rtol = 1e-9 if t.setup["dtype"] == "float64" else 1e-4
        scale = float(np.max(np.abs(want[0])) + np.max(np.abs(want[2])) + 1.)
        if not np.isfinite(scale) or scale > 1e6:
            return
        a, b = (want[2], want[3]) if individual else (want[0], want[1])
        if not close_to(got[0], a, rtol, rtol * scale) or \
                not close_to(got[1], b, rtol * 100, rtol * 10 * scale ** 2):
            raise Violation("prediction_is_not_that_of_its_own_nets", network=k, individual=individual,
                            got=np.asarray(got[0]).tolist(), expected=a.tolist())
        ctx.probe("predictions_compared")

    def do_individual(self, world, t, k, arg, state, ctx):
        self.do_predict(world, t, k, arg, state, ctx, individual=True)

    def do_fail_training(self, world, t, k, arg, state, ctx):
        if state["outcome"][k] is not None:
            return
        state["attempted%d" % k] = state["failed%d" % k] = True
        world.plan_session_fault(1 + arg % 12, {"when": ("pre", "mid", "post")[arg % 3], "at": (arg % 97) / 97.,
                                                "exc": SESSION_EXC[arg % len(SESSION_EXC)]})
        try:
            t.train()
        except HarnessError:
            raise
        except BaseException:
            ctx.probe("trainings_failed")
        world.fault_plan.clear()

    def do_fail_predict(self, world, t, k, arg, state, ctx):
        if not t.bnn.is_trained:
            return
        world.plan_session_fault(1 + arg % max(1, len(t.bnn.samples)),
                                 {"when": ("pre", "mid", "post")[arg % 3], "at": (arg % 97) / 97.,
                                  "exc": SESSION_EXC[arg % len(SESSION_EXC)]})
        try:
            t.predict()
        except HarnessError:
            raise
        except BaseException:
            ctx.probe("predictions_failed")
        world.fault_plan.clear()

    # -- chains beside the networks -----------------------------------------
    def step(self, world, case, k, chains, steps, graph, session):
        if chains[k] is None:
            chains[k] = build(world, case["chains"][k], prefix="c%d_" % k, graph=graph, session=session)
            return
        rec = chains[k].step({})
        if rec is not None:
            steps[k].append((rec["sample"], rec["cost"], rec["theta1"]))

    def check_chains(self, case, chains, steps, ctx):
        for k, chain in enumerate(chains):
            if chain is None:
                continue
            chain.close()
            alone = ctx.world({"kind": "fifo"}, primary=False)
            twin, want = build(alone, case["chains"][k], prefix="c%d_" % k), []
            try:
                for _ in range(len(steps[k])):
                    rec = twin.step({})
                    if rec is not None:
                        want.append((rec["sample"], rec["cost"], rec["theta1"]))
            finally:
                twin.close()
            bad = differ(steps[k], want, RTOL[case["chains"][k]["dtype"]])
            if bad:
                raise Violation("chain_beside_networks_differs_from_the_chain_alone", chain=k, **bad)
            if steps[k]:
                ctx.probe("chains_compared")

    def nontrivial(self, case, summary):
        return summary["probes"].get("networks_trained_side_by_side", 0) > 0

    def shrink(self, case):
        n = len(case["nets"])
        if n > 2:
            for k in range(n):
                out = dict(case, nets=case["nets"][:k] + case["nets"][k + 1:])
                if not case["threads"]:
                    out["ops"] = [[op, i if op == "step" else i - (i > k), a] for op, i, a in case["ops"]
                                  if op == "step" or i != k]
                yield out
        if not case["threads"]:
            for ops in drop_chunks(case["ops"]):
                yield dict(case, ops=ops)
            if case["chains"]:
                yield dict(case, chains=[], ops=[op for op in case["ops"] if op[0] != "step"])
            for k, cfg in enumerate(case["chains"]):
                for smaller in shrink_cfg(cfg):
                    chains = list(case["chains"])
                    chains[k] = smaller
                    yield dict(case, chains=chains)
        simple = (("units", 1), ("d", 1), ("method", "SGHMC"), ("kwargs", {}), ("batch_generator", "default"),
                  ("batch_size", 1), ("schedule", {"kind": "default", "values": [0.01]}),
                  ("normalize_input", False), ("normalize_output", False), ("dtype", "float64"),
                  ("n_nets", 1), ("sample_steps", 1), ("burn_in_steps", 1), ("n", 3))
        for k, s in enumerate(case["nets"]):
            for key, value in simple:
                if s[key] != value:
                    nets = list(case["nets"])
                    nets[k] = dict(s, **{key: value})
                    yield dict(case, nets=nets)
        for c in shrink_policy(case):
            yield c
        baton = case.get("baton")
        if baton and baton.get("kind") == "explicit":
            devs = sorted(baton["devs"].items(), key=lambda kv: int(kv[0]))
            for rest in drop_chunks(devs):
                yield dict(case, baton=dict(baton, devs=dict(rest)))

    def explicit(self, case, ctx):
        out = Prop.explicit(self, case, ctx)
        if out is not None and out.get("baton"):
            out["baton"]["line"] = case["baton"].get("p_line", 0) > 0
        return out
