"""C19: recording chains into traces."""
import numpy as np

from .. import env
from ..chain import Violation, gen_cfg, gen_noise, SESSION_EXC, _leaves
from ..executor import SimSession, HarnessError
from ..world import gen_policy
from .base import Prop, build, shrink_cfg, shrink_policy, drop_chunks
from .order import RTOL

tf = env.setup()


class C19(Prop):
    id = "C19"
    rule = ("one sampler recorded with PYSGMCMCTrace.from_sampler, or several fresh ones with "
            "pymc3_multitrace, with random thinning, names and faults in the middle of the recording; "
            "compared value by value with a twin chain stepped by hand. Non-trivial: at least one "
            "trace recorded.")
    quick, thorough = 320, 6000

    def gen(self, rng, index):
        multi = rng.chance(0.5)
        n_chains = rng.randint(1, 3) if multi else 1
        base = gen_cfg(rng, seeded=True,
                       inits=("before", "after", "uninit") if not multi else ("before", "after"))
        cfgs = []
        for k in range(n_chains):
            cfg = dict(base, params=[dict(p, init=[round(v + 0.1 * k, 4) for v in p["init"]])
                                     for p in base["params"]])
            if rng.chance(0.5):
                cfg["seed"] = rng.below(1 << 30)
            cfgs.append(cfg)
        n_samples = rng.randint(1, 6)
        keep_every = rng.choice((1, 1, 2, 3, 5))
        fault = None
        if rng.chance(0.35):
            fault = {"when": rng.choice(("pre", "mid", "post")), "exc": rng.choice(SESSION_EXC),
                     "at": round(rng.random(), 3),
                     "after": rng.randint(1, n_samples * keep_every)}
            if multi:
                fault["chain"] = rng.below(n_chains)
        return {"multi": multi, "cfgs": cfgs, "n_samples": n_samples, "keep_every": keep_every,
                "burned": rng.choice((0, 0, 1, 3, 6)) if multi else 0,
                "diagnostic": rng.choice(("effective_sample_sizes", "gelman_rubin"))
                if multi and rng.chance(0.25) else None,
                "names": rng.chance(0.4), "chain_id": rng.below(1000), "fault": fault,
                "default_keep": rng.chance(0.2), "before": rng.below(3), "after": rng.randint(1, 3),
                "slices": [[rng.below(4), rng.randint(1, 3)] for _ in range(2)],
                "policy": gen_policy(rng), "wseed": rng.below(1 << 30)}

    def shape(self, case):
        return "%s/%s/%s" % (case["cfgs"][0]["sampler"], "multitrace" if case["multi"] else "from_sampler",
                             "fault" if case["fault"] else "no fault")

    def run(self, case, ctx):
        from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace, pymc3_multitrace
        world = ctx.world(case["policy"])
        if case["multi"]:
            self._multi(case, ctx, world, pymc3_multitrace)
        else:
            self._single(case, ctx, world, PYSGMCMCTrace)

    # ------------------------------------------------------------------
    def _single(self, case, ctx, world, cls):
        chain = build(world, case["cfgs"][0])
        try:
            for _ in range(case["before"]):
                chain.step({})
            n, k = case["n_samples"], 1 if case["default_keep"] else case["keep_every"]
            names = ["%s%d" % ("vbx"[i % 3], i) for i in range(len(chain.params))] if case["names"] else None
            kwargs = {"chain_id": case["chain_id"], "sampler": chain.sampler, "n_samples": n}
            if not case["default_keep"]:
                kwargs["keep_every"] = k
            if names:
                kwargs["varnames"] = names
            fault = case["fault"]
            if fault:
                world.plan_session_fault(fault["after"], fault)
            before = self._fired(world)
            trace = error = None
            try:
                trace = cls.from_sampler(**kwargs)
            except HarnessError:
                raise
            except BaseException as exc:
                error = exc
            world.fault_plan.clear()
            if self._outcome(ctx, fault, self._fired(world) != before, error):
                return
            twin = ctx.world({"kind": "fifo"}, primary=False)
            other = build(twin, case["cfgs"][0])
            try:
                for _ in range(case["before"]):
                    other.step({})
                expected = self._walk(other, n * k)
            finally:
                other.close()
            self._judge(case, ctx, trace, expected, chain, n, k,
                        names or [p.name for p in chain.params], case["chain_id"])
            # what is recorded stays as recorded, whatever the chain does next
            for _ in range(case["after"]):
                chain.step({})
            self._judge(case, ctx, trace, expected, chain, n, k,
                        names or [p.name for p in chain.params], case["chain_id"])
        finally:
            chain.close()

    def _walk(self, chain, n):
        out = []
        for _ in range(n):
            rec = chain.step({})
            if rec is None:
                return None
            if any(not np.all(np.isfinite(t)) or np.max(np.abs(t), initial=0.) > 1e8
                   for t in rec["theta1"]):
                return None
            out.append([t.reshape(p["shape"]) for t, p in zip(rec["theta1"], chain.cfg["params"])])
        return out

    def _fired(self, world):
        return {k: v for k, v in world.faults.items() if not k.startswith("clock")}

    def _outcome(self, ctx, fault, fired, error):
        """An error must be the injected one, and the injected one must surface."""
        if error is None:
            if fired:
                raise Violation("a_fault_during_recording_was_swallowed", fault=fault)
            return False
        if not fired:
            raise Violation("recording_failed_without_a_fault",
                            error="%s: %s" % (type(error).__name__, str(error)[:300]))
        if "injected" not in str(error):
            raise Violation("a_fault_during_recording_was_disguised",
                            error="%s: %s" % (type(error).__name__, str(error)[:300]))
        ctx.probe("recordings_failed")
        return True

    def _judge(self, case, ctx, trace, expected, chain, n, k, names, chain_id):
        if expected is None:
            ctx.probe("left_domain")
            return
        ctx.probe("traces_checked")
        if trace.chain != chain_id:
            raise Violation("trace_has_wrong_chain_id", got=trace.chain, expected=chain_id)
        if len(trace) != n:
            raise Violation("trace_has_wrong_length", got=len(trace), expected=n)
        if list(trace.varnames) != list(names):
            raise Violation("trace_has_wrong_variable_names", got=list(trace.varnames), expected=names)
        rtol = RTOL[chain.cfg["dtype"]]
        columns = [np.asarray(trace.get_values(v)) for v in names]
        fits = []
        for offset in range(k):
            want = expected[offset::k][:n]
            good = len(want) == n
            for i, col in enumerate(columns):
                if not good:
                    break
                ref = np.array([w[i] for w in want])
                good = col.shape == ref.shape and bool(
                    np.all(np.abs(col - ref) <= rtol * (np.abs(ref) + 1e-3)))
            if good:
                fits.append(offset)
        if not fits:
            raise Violation("trace_is_not_every_kth_state_of_the_chain", keep_every=k, n_samples=n,
                            first_recorded=columns[0].tolist()[:3],
                            chain_states=[e[0].tolist() for e in expected[:6]])
        ctx.notes["columns"] = repr([c.tolist() for c in columns])
        for burn, thin in case["slices"]:
            for v, col in zip(names, columns):
                got = np.asarray(trace.get_values(v, burn=burn, thin=thin))
                want = col[burn::thin]
                if (got.size or want.size) and not np.array_equal(got, want):
                    raise Violation("burn_and_thin_pick_the_wrong_samples", burn=burn, thin=thin)
        point = trace.point(n - 1)
        if set(point) != set(names) or any(
                not np.array_equal(np.asarray(point[v]), col[n - 1]) for v, col in zip(names, columns)):
            raise Violation("point_is_not_the_sample")
        for i, col in enumerate(columns):
            if not np.array_equal(np.asarray(trace[i]), col):
                raise Violation("indexing_gives_other_values_than_names")

    # ------------------------------------------------------------------
    def _multi(self, case, ctx, world, multitrace):
        sessions, built = [], []
        fault = case["fault"]
        n = case["n_samples"]
        via = case["diagnostic"]
        k = 10 if case["default_keep"] or via else case["keep_every"]

        class WorldSession(SimSession):
            def __init__(self, target="", graph=None, config=None):
                SimSession.__init__(self, world, graph=graph)
                sessions.append(self)

        def get_sampler(session):
            index = len(built)
            chain = build(world, case["cfgs"][index], graph=session.graph, session=session)
            built.append(chain)
            for _ in range(case["burned"]):
                chain.step({})          # the caller burns its chain in
            if fault and fault["chain"] == index:
                world.plan_session_fault(fault["after"], fault)
            return chain.sampler

        names = ["%s%d" % ("vbx"[i % 3], i) for i in range(len(case["cfgs"][0]["params"]))] \
            if case["names"] and via is None else None
        kwargs = {"n_chains": len(case["cfgs"]), "samples_per_chain": n}
        if via is None:
            if not case["default_keep"]:
                kwargs["keep_every"] = k
            if names:
                kwargs["parameter_names"] = names
        real = tf.Session
        tf.Session = WorldSession
        result = error = None
        try:
            if via:
                # pymc3's own computation is a stub that hands its input back
                from pysgmcmc.diagnostics import sampler_diagnostics
                values = getattr(sampler_diagnostics, via)(get_sampler, **kwargs)
                results = list(values.values())
                result = results[0]
                if any(r is not result for r in results):
                    raise Violation("diagnostic_was_computed_on_several_multitraces")
                ctx.probe("diagnostics_computed")
            else:
                result = multitrace(get_sampler, **kwargs)
        except (HarnessError, Violation):
            raise
        except BaseException as exc:
            error = exc
        finally:
            tf.Session = real
        for s in sessions:
            if not s._closed:
                raise Violation("a_session_was_left_open", failed=error is not None)
        fired = self._fired(world)
        world.fault_plan.clear()
        if self._outcome(ctx, fault, bool(fired), error):
            return
        ids = list(result.chains)
        if len(ids) != len(case["cfgs"]) or len(set(ids)) != len(ids):
            raise Violation("chains_of_a_multitrace_are_not_distinct", ids=ids)
        if len(built) != len(case["cfgs"]):
            raise Violation("chains_do_not_have_samplers_of_their_own", samplers=len(built))
        for index, cid in enumerate(ids):
            twin = ctx.world({"kind": "fifo"}, primary=False)
            session = SimSession(twin, graph=tf.Graph())
            try:
                chain = build(twin, case["cfgs"][index], graph=session.graph, session=session)
                for _ in range(case["burned"]):
                    chain.step({})
                expected = self._walk(chain, n * k)
            finally:
                session.close()
            trace = result._straces[cid]
            self._judge(case, ctx, trace, expected, chain, n, k,
                        names or [p.name for p in chain.params], cid)

    def nontrivial(self, case, summary):
        p = summary["probes"]
        return p.get("traces_checked", 0) + p.get("recordings_failed", 0) > 0

    def shrink(self, case):
        if len(case["cfgs"]) > 1:
            for i in range(len(case["cfgs"])):
                yield dict(case, cfgs=[case["cfgs"][i]], fault=dict(case["fault"], chain=0) if case["fault"] else None)
        if case["fault"]:
            yield dict(case, fault=None)
        if case["diagnostic"]:
            yield dict(case, diagnostic=None)
        for burned in (0, 1):
            if case["burned"] > burned:
                yield dict(case, burned=burned)
        for key, value in (("n_samples", 2), ("n_samples", 1), ("keep_every", 2), ("keep_every", 1),
                           ("before", 0), ("after", 1), ("names", False)):
            if case[key] != value and not (isinstance(value, int) and case[key] < value):
                yield dict(case, **{key: value})
        for cfg in shrink_cfg(case["cfgs"][0]):
            if cfg["init"] in ("before", "after", "uninit"):
                yield dict(case, cfgs=[dict(cfg, seed=c["seed"], params=[
                    dict(p, init=(q["init"] * 9)[:len(p["init"])]) for p, q in zip(cfg["params"], c["params"])])
                    for c in case["cfgs"]])
        for c in shrink_policy(case):
            yield c
