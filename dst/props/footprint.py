"""C29, C30: what running chains and networks leaves behind besides its results."""
import gc
import logging
import os
import random
import signal
import sys
import threading

import numpy as np

from .. import env
from ..chain import Violation, gen_cfg, gen_noise, gen_fault, client_error, SESSION_EXC
from ..executor import SimSession, HarnessError
from ..world import LineHook, gen_policy
from .base import ChainProp, Prop, build, drop_chunks, shrink_cfg, shrink_policy
from .bnn import BNNProp, Training, gen_setup, train_or_violate

tf = env.setup()

# operations may be added lazily, once per kind of call, but not again and again
LAZY = 2


class Growth(object):
    """ Counts the calls of each kind during which the graph grew. """

    def __init__(self, graph):
        self.graph, self.times, self.calls = graph, {}, {}
        self.size = self.now()

    def now(self):
        return len(self.graph.get_operations())

    def after(self, kind):
        size = self.now()
        self.calls[kind] = self.calls.get(kind, 0) + 1
        if size != self.size:
            self.times[kind] = self.times.get(kind, 0) + 1
            if self.times[kind] > LAZY:
                raise Violation("graph_grows_with_every_call", of=kind, calls=self.calls[kind],
                                grew=self.times[kind], operations=size)
        self.size = size


class C29(ChainProp):
    id = "C29"
    rule = ("one chain stepped, fed, failed and recorded, or one BNN trained and asked to predict repeatedly "
            "while some calls fail; the graph's operations are counted after each call, and the graph is "
            "finalized in some runs. Non-trivial: at least 3 calls of one kind.")
    fault_rate = 0.25
    feed_rate = 0.1
    long_share = 0.02
    quick, thorough = 260, 6000
    rel_float32 = True
    chunk, recycle = 5, 60

    def gen(self, rng, index):
        if rng.chance(0.25):
            case = BNNProp.gen(_bnn, rng, index)
            s = case["setup"]
            s["n_nets"] = rng.choice((2, 4, 6))
            s["n_iters"] = s["burn_in_steps"] + s["n_nets"] * s["sample_steps"] + rng.choice((2, 5))
            case["asks"] = [[rng.choice(("predict", "predict", "individual")),
                             rng.chance(0.25) and rng.randint(1, 5), rng.below(1 << 16)]
                            for _ in range(rng.randint(4, 8))]
            return case
        case = ChainProp.gen(self, rng, index)
        case["cfg"].pop("via", None)
        case["finalize"] = rng.chance(0.4)
        case["traces"] = rng.below(5)
        return case

    def shape(self, case):
        return BNNProp.shape(_bnn, case) if "setup" in case else ChainProp.shape(self, case)

    def run(self, case, ctx):
        if "setup" in case:
            return self.network(case, ctx)
        world = ctx.world(case["policy"])
        chain = build(world, case["cfg"])
        growth = Growth(chain.graph)
        try:
            seen = set()
            for op in case["ops"]:
                burning = chain.count < chain.effective.get("burn_in_steps", 0)
                rec = chain.step(op)
                if rec is None:
                    break
                kind = "%s, %s" % ("step" if rec["ok"] else "failed step", "burn-in" if burning else "sampling")
                growth.after(kind)
                seen.add(kind)
                if case["finalize"] and rec["ok"] and not burning and not chain.graph.finalized:
                    # every kind of step had its chance: from now on nothing may be added at all
                    chain.graph.finalize()
                    ctx.probe("finalized")
            if not chain.dead and case["traces"]:
                from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
                for k in range(case["traces"]):
                    PYSGMCMCTrace.from_sampler(chain_id=k, sampler=chain.sampler, n_samples=2, keep_every=1 + k % 2)
                    growth.after("recording")
            ctx.probe("most_calls_of_a_kind", max(list(growth.calls.values()) + [0]))
        finally:
            chain.close()

    def network(self, case, ctx):
        world = ctx.world(case["policy"])
        t = Training(world, case["setup"])
        try:
            sizes = []
            t.on_state = lambda: sizes.append((len(t.states), len(t.graph.get_operations())))
            t.watch()
            train_or_violate(t)
            t.on_state = None
            if not t.finite():
                ctx.probe("left_domain")
                return
            # from the initial state on
            start = max(i for i, (n, _) in enumerate(sizes) if n == 1)
            sizes = [size for _, size in sizes[start:]]
            grew = sum(1 for a, b in zip(sizes, sizes[1:]) if a != b)
            if grew > 2 * LAZY and grew > len(sizes) // 3:
                raise Violation("graph_grows_with_every_iteration_of_training", iterations=len(sizes), grew=grew)
            growth = Growth(t.graph)
            for ask, fails, arg in case["asks"]:
                if fails:
                    world.plan_session_fault(1 + fails % len(t.bnn.samples),
                                             {"when": ("pre", "mid", "post")[arg % 3], "at": (arg % 97) / 97.,
                                              "exc": SESSION_EXC[arg % len(SESSION_EXC)]})
                try:
                    t.predict(**({"return_individual_predictions": True} if ask == "individual" else {}))
                except HarnessError:
                    raise
                except BaseException:
                    if not fails:
                        raise
                    ctx.probe("predictions_failed")
                    ask = "failed prediction"
                world.fault_plan.clear()
                growth.after(ask)
            ctx.probe("most_calls_of_a_kind", max(growth.calls.values()))
        finally:
            t.close()

    def nontrivial(self, case, summary):
        return summary["probes"].get("most_calls_of_a_kind", 0) > LAZY

    def shrink(self, case):
        if "setup" in case:
            for asks in drop_chunks(case["asks"]):
                yield dict(case, asks=asks)
            for c in BNNProp.shrink(_bnn, case):
                yield c
            return
        if case["finalize"]:
            yield dict(case, finalize=False)
        if case["traces"]:
            yield dict(case, traces=case["traces"] - 1)
        for c in ChainProp.shrink(self, case):
            yield c


class _Bnn(BNNProp):
    big = 0.02


_bnn = _Bnn()


def seeded(op):
    return all(cfg["seed"] is not None for cfg in op.get("cfgs", ())) and \
        ("setup" not in op or op["setup"]["seed"] is not None)


def place(op):
    return tf.get_default_graph() if op.get("here") else None


def process_state(generators):
    """ What a caller may have set up and relies on. (Without a seed, calls may draw from the process's generators.) """
    state = {"numpy error handling": repr(np.geterr()), "print options": repr(sorted(np.get_printoptions().items())),
             "logging": (logging.root.level, logging.root.manager.disable), "working directory": os.getcwd(),
             "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(),
             "graph-level seed": tf.get_default_graph().seed, "SIGINT": signal.getsignal(signal.SIGINT),
             "garbage collection": gc.isenabled(),
             "thread switching": sys.getswitchinterval()}
    if generators:
        state["numpy's generator"] = repr([np.asarray(v).tolist() for v in np.random.get_state()])
        state["Python's generator"] = repr(random.getstate())
    return state


class C30(Prop):
    id = "C30"
    rule = ("recordings, diagnostics, chains and trainings called one after the other inside a caller's default "
            "graph and session, with failing callbacks, sessions and interrupts at source lines; after every call "
            "the defaults are the caller's, sessions opened meanwhile are closed, no thread is left, process-wide "
            "settings (and, with seeds given, the process's random generators) are as they were, and the call "
            "made again succeeds. Non-trivial: at least one call failed and at least one succeeded.")
    quick, thorough = 120, 5000
    chunk, recycle = 5, 60

    def gen(self, rng, index):
        ops = []
        for _ in range(rng.randint(2, 5)):
            what = rng.choice(("multitrace", "multitrace", "diagnostic", "trace", "chain", "train", "reject"))
            op = {"what": what, "here": rng.chance(0.5)}
            if what == "train":
                op["setup"] = gen_setup(rng, big=0.)
                op["setup"]["n_nets"] = min(op["setup"]["n_nets"], 2)
            else:
                op["cfgs"] = [gen_cfg(rng, inits=("before", "after"))
                              for _ in range(rng.randint(1, 3) if what in ("multitrace", "diagnostic") else 1)]
                op["n_samples"], op["keep_every"] = rng.randint(1, 3), rng.randint(1, 2)
                op["which"] = rng.choice(("effective_sample_sizes", "gelman_rubin"))
            if rng.chance(0.6):
                op["fault"] = fault = {"kind": rng.choice(("session", "session", "callback", "line")),
                                       "exc": rng.choice(SESSION_EXC), "at": round(rng.random(), 3),
                                       "when": rng.choice(("pre", "mid", "post")), "after": rng.randint(1, 12),
                                       "chain": rng.below(3), "line": 1 + rng.below(400)}
                if fault["kind"] == "callback":
                    fault["exc"] = rng.choice(("RuntimeError", "OSError", "KeyboardInterrupt"))
                elif fault["kind"] == "line":
                    fault["exc"] = rng.choice(("KeyboardInterrupt", "MemoryError"))
            ops.append(op)
        default = rng.choice(("nothing", "graph", "session"))
        for op in ops:
            # in the caller's own graph, where one default network at most can be trained
            op["here"] &= default != "nothing" and op.get("setup", {}).get("net") != "default"
        return {"ops": ops, "default": default,
                "policy": gen_policy(rng), "wseed": rng.below(1 << 30)}

    def shape(self, case):
        return "%s/%s" % (case["default"], "+".join(sorted({op["what"] for op in case["ops"]})))

    def run(self, case, ctx):
        from pysgmcmc.diagnostics import sample_chains, sampler_diagnostics      # imports are nobody's call
        from pysgmcmc.models import bayesian_neural_network
        world = ctx.world(case["policy"])
        opened = []

        class AnySession(type(SimSession)):
            def __instancecheck__(cls, value):
                return type.__instancecheck__(SimSession, value)

        class WorldSession(SimSession, metaclass=AnySession):
            def __init__(self, target="", graph=None, config=None):
                SimSession.__init__(self, world, graph=graph)
                opened.append(self)

        real, tf.Session = tf.Session, WorldSession
        mine = None
        try:
            if case["default"] == "graph":
                with tf.Graph().as_default():
                    self.calls(case, ctx, world, opened)
            elif case["default"] == "session":
                graph = tf.Graph()
                mine = SimSession(world, graph=graph)
                with graph.as_default(), mine.as_default():
                    self.calls(case, ctx, world, opened)
                if mine._closed:
                    raise Violation("the_callers_session_was_closed")
            else:
                self.calls(case, ctx, world, opened)
        finally:
            tf.Session = real
            if mine is not None:
                mine.close()

    def calls(self, case, ctx, world, opened):
        for number, op in enumerate(case["ops"]):
            for fault in ((op["fault"], None) if op.get("fault") else (None,)):
                graph, session, threads = tf.get_default_graph(), tf.get_default_session(), threading.active_count()
                before = process_state(seeded(op))
                del opened[:]
                error, legal = self.call(op, fault, number, ctx, world)
                world.fault_plan.clear()
                detail = {"call": op["what"], "failed": None if error is None else type(error).__name__}
                if tf.get_default_graph() is not graph:
                    raise Violation("default_graph_is_not_the_callers", **detail)
                if tf.get_default_session() is not session:
                    raise Violation("default_session_is_not_the_callers", **detail)
                if any(not s._closed for s in opened):
                    raise Violation("a_session_was_left_open", **detail)
                if session is not None and session._closed:
                    raise Violation("the_callers_session_was_closed", **detail)
                if threading.active_count() > threads:
                    raise Violation("a_thread_was_left_behind", **detail)
                for name, value in process_state(seeded(op)).items():
                    if value != before[name]:
                        raise Violation("process_wide_state_was_changed", state=name, **detail)
                if error is None:
                    ctx.probe("calls_succeeded")
                elif legal:
                    ctx.probe("calls_failed")
                else:
                    raise Violation("call_failed_without_a_fault", error="%s: %s" % (
                        detail["failed"], str(error)[:300]), **detail)

    def call(self, op, fault, number, ctx, world):
        """ One call, the error it ended with, and whether a fault explains that. """
        before = dict(world.faults)
        hook = None
        if fault and fault["kind"] == "line":
            # not in the file that opens sessions: between opening and the block that closes there is always a gap
            hook = LineHook(world, {"line": fault["line"], "exc": fault["exc"]},
                            skip=("data_batches.py", "diagnostics/sample_chains.py"))
        if fault and fault["kind"] == "session":
            world.plan_session_fault(fault["after"], fault)
        closers = []
        error = None
        try:
            action = getattr(self, "do_" + op["what"])(op, fault, number, world, closers)
            if hook:
                hook.start()
            try:
                action()
            finally:
                if hook:
                    hook.stop()
        except (HarnessError, Violation) as exc:
            if isinstance(exc, HarnessError) or fault is None:
                raise
            error = exc
        except BaseException as exc:
            error = exc
        finally:
            for close in closers:
                close()
        fired = {k: v for k, v in world.faults.items() if not k.startswith("clock")} != \
            {k: v for k, v in before.items() if not k.startswith("clock")}
        return error, fired

    def get_sampler(self, op, fault, number, world):
        built = []

        def get_sampler(session):
            index = len(built)
            if fault and fault["kind"] == "callback" and fault["chain"] % len(op["cfgs"]) == index:
                world.fault_fired("client_callback", fault["exc"])
                raise client_error(fault["exc"])
            chain = build(world, op["cfgs"][index], graph=session.graph, session=session)
            built.append(chain)
            return chain.sampler
        return get_sampler

    def do_multitrace(self, op, fault, number, world, closers):
        from pysgmcmc.diagnostics.sample_chains import pymc3_multitrace
        get_sampler = self.get_sampler(op, fault, number, world)
        return lambda: pymc3_multitrace(get_sampler, n_chains=len(op["cfgs"]), samples_per_chain=op["n_samples"],
                                        keep_every=op["keep_every"])

    def do_diagnostic(self, op, fault, number, world, closers):
        from pysgmcmc.diagnostics import sampler_diagnostics
        get_sampler = self.get_sampler(op, fault, number, world)
        return lambda: getattr(sampler_diagnostics, op["which"])(get_sampler, n_chains=len(op["cfgs"]),
                                                                 samples_per_chain=op["n_samples"])

    def do_trace(self, op, fault, number, world, closers):
        from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace

        def action():
            chain = build(world, op["cfgs"][0], graph=place(op))
            closers.append(chain.close)
            PYSGMCMCTrace.from_sampler(chain_id=number, sampler=chain.sampler, n_samples=op["n_samples"],
                                       keep_every=op["keep_every"])
        return action

    def do_chain(self, op, fault, number, world, closers):
        def action():
            chain = build(world, op["cfgs"][0], graph=place(op))
            closers.append(chain.close)
            for _ in range(op["n_samples"] * 2):
                next(chain.sampler)
        return action

    def do_reject(self, op, fault, number, world, closers):
        from pysgmcmc.sampling import Sampler
        from ..chain import enum_member

        def action():
            chain = build(world, op["cfgs"][0], graph=place(op))
            closers.append(chain.close)
            with chain.graph.as_default():
                try:
                    Sampler.get_sampler(enum_member(chain.name), session=chain.session, no_such_argument=1)
                except ValueError:
                    pass
        return action

    def do_train(self, op, fault, number, world, closers):
        def action():
            t = Training(world, op["setup"], graph=place(op))
            closers.append(t.close)
            t.train()
            t.predict()
        return action

    def nontrivial(self, case, summary):
        p = summary["probes"]
        return p.get("calls_failed", 0) > 0 and p.get("calls_succeeded", 0) > 0

    def shrink(self, case):
        for ops in drop_chunks(case["ops"]):
            yield dict(case, ops=ops)
        for k, op in enumerate(case["ops"]):
            smaller = []
            if op.get("fault"):
                smaller.append({key: v for key, v in op.items() if key != "fault"})
                if op["fault"]["kind"] == "line" and op["fault"]["line"] > 1:
                    smaller.append(dict(op, fault=dict(op["fault"], line=op["fault"]["line"] // 2)))
            if op.get("here"):
                smaller.append(dict(op, here=False))
            if len(op.get("cfgs", ())) > 1:
                smaller.append(dict(op, cfgs=op["cfgs"][:1]))
            if op.get("cfgs"):
                smaller += [dict(op, cfgs=[cfg] + op["cfgs"][1:]) for cfg in shrink_cfg(op["cfgs"][0])
                            if cfg["init"] in ("before", "after")]
            for s in smaller:
                yield dict(case, ops=case["ops"][:k] + [s] + case["ops"][k + 1:])
        if case["default"] != "nothing":
            yield dict(case, default="nothing", ops=[dict(op, here=False) for op in case["ops"]])
        for c in shrink_policy(case):
            yield c
