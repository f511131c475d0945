"""C02-C08, C11, C12, C20, C22: one chain against its reference and protocol."""
from ..chain import Violation, SESSION_EXC
from .base import ChainProp


class C02(ChainProp):
    id = "C02"
    samplers = ("SGHMC",)
    checks = ("ref",)
    marathons = True
    cfg_kwargs = {"no_burn_in": 0.}
    rule = ("one SGHMC chain on a randomly generated coupled target; random operation "
            "order in every session.run, random step sizes, batches, noise; every step is "
            "compared with the reference update. Non-trivial: at least 3 checked steps.")
    quick, thorough = 520, 9000
    feed_rate = 0.05
    long_share = 0.06

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 3


class C03(C02):
    id = "C03"
    samplers = ("SGLD",)
    rule = C02.rule.replace("SGHMC", "SGLD")


class C04(C02):
    id = "C04"
    samplers = ("REL",)
    rule = C02.rule.replace("SGHMC", "relativistic SGHMC")
    quick, thorough = 700, 12000

    def finish(self, chain, case, ctx):
        limit = chain.effective["speed_of_light"]
        for rec in chain.steps:
            if not rec["ok"] or rec["eps"] is None:
                continue
            for a, b in zip(rec["theta0"], rec["theta1"]):
                if abs(float(b[0] - a[0])) > rec["eps"] * limit * (1 + 1e-9) + 1e-12 * (1 + abs(a[0])):
                    raise Violation("faster_than_light", start=a.tolist(), end=b.tolist(),
                                    eps=rec["eps"], speed_of_light=limit)


class C05(C02):
    id = "C05"
    samplers = ("SVGD",)
    rule = C02.rule.replace("one SGHMC chain", "one set of SVGD particles")


class C06(ChainProp):
    id = "C06"
    checks = ("cost", "sample")
    rule = ("one chain of any sampler with faults and per-step batches; the reported cost must "
            "be the cost at the step's starting parameters and batch, the sample the parameters "
            "after it. Non-trivial: at least 3 successful steps.")
    fault_rate = 0.12
    feed_rate = 0.1
    batched = 0.6
    rel_float32 = True
    quick, thorough = 520, 9000

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 3


class C07(ChainProp):
    id = "C07"
    samplers = ("SGHMC", "SGLD")
    checks = ("lifecycle", "ref")
    marathons = True
    cfg_kwargs = {"no_burn_in": 0.1}
    fault_rate = 0.2
    feed_rate = 0.1
    quick, thorough = 520, 9000
    rule = ("SGHMC/SGLD chains that cross the end of burn-in, with failed and interrupted steps "
            "around it; phase flag and adaptation against a model that counts successful steps. "
            "Non-trivial: the chain reached the sampling phase.")

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        burn = case["cfg"]["kwargs"].get("burn_in_steps")
        if burn is not None and len(case["ops"]) < burn + 3:
            extra = [{"z": 0.5 * rng.normal()} for _ in range(burn + 3 - len(case["ops"]))]
            case["ops"] += extra
        return case

    def nontrivial(self, case, summary):
        return summary["probes"].get("first_sampling_step", 0) > 0


class C08(ChainProp):
    id = "C08"
    checks = ("count", "ref")
    fault_rate = 0.35
    quick, thorough = 560, 9000
    rule = ("one chain of any sampler; steps fail in the batch source, the step-size schedule, "
            "the backend (before, in the middle of, after execution) or by an interrupt at a source "
            "line; the next fault-free step must succeed and follow the reference. Non-trivial: at "
            "least one failure followed by a successful step.")

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_failed", 0) > 0 and \
            summary["probes"].get("steps_ok", 0) > 0


class C11(ChainProp):
    id = "C11"
    checks = ("schedule", "ref")
    marathons = True
    fault_rate = 0.12
    quick, thorough = 520, 9000
    cfg_kwargs = {"schedule_kinds": ("list", "list", "decay", "adaptive", "const")}
    rule = ("one chain of any sampler with a recording, varying step-size schedule and failing "
            "steps; draws and updates are counted and the drawn value must be the one the step "
            "used. Non-trivial: at least 3 successful steps.")

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 3


class C12(ChainProp):
    id = "C12"
    checks = ("batch", "ref", "cost")
    marathons = True
    batched = 1.0
    feed_rate = 0.45
    fault_rate = 0.1
    quick, thorough = 520, 9000
    rule = ("one chain of any sampler with a recording batch source and callers that feed "
            "placeholders of their own, during and after burn-in; one batch per step, used by that "
            "step, and the caller's feeds honoured. Non-trivial: at least 3 successful steps.")

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 3


class C20(ChainProp):
    id = "C20"
    checks = ("snapshots", "sample")
    fault_rate = 0.15
    rel_float32 = True
    quick, thorough = 480, 8000
    rule = ("one chain of any sampler; everything it returned is compared, after every later "
            "attempt, with a copy made when it was returned, while the client scribbles over some "
            "returned samples. Non-trivial: at least 3 successful steps.")

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        for op in case["ops"]:
            if rng.chance(0.2):
                op["scribble"] = rng.below(1 << 16)
        return case

    def before(self, chain, op, case):
        if op.get("scribble") is None or not chain.kept:
            return
        # the client modifies a sample it was given: the chain must not notice
        import numpy as np
        k = op["scribble"] % len(chain.kept)
        sample, copies, cost, cost_copy = chain.kept[k]
        before = chain.peek()
        from ..chain import _leaves
        for leaf, copy in zip(_leaves(sample), copies):
            if isinstance(leaf, np.ndarray) and leaf.ndim and leaf.flags.writeable:
                leaf += 1.0
                copy += 1.0
                chain.world.probe("samples_scribbled_over")
        chain._same(before, chain.peek(), "writing_to_a_sample_moved_the_chain")

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) >= 3


class C22(ChainProp):
    id = "C22"
    checks = ("restart", "ref")
    fault_rate = 0.1
    quick, thorough = 520, 9000
    cfg_kwargs = {"inits": ("restore", "mixed", "mixed", "random", "before", "after", "uninit")}
    rule = ("one chain of any sampler whose parameters were restored from a checkpoint, drawn at "
            "random at initialisation, or overwritten between steps by somebody else, sometimes after a "
            "construction that failed and left them alone; every step must start from the values found. "
            "Non-trivial: at least one restore or overwrite.")

    def gen(self, rng, index):
        case = ChainProp.gen(self, rng, index)
        for op in case["ops"]:
            if rng.chance(0.2):
                op["write"] = [[float("%.4g" % rng.uniform(-2., 2.)) for _ in p["init"]]
                               for p in case["cfg"]["params"]]
                if case["cfg"]["sampler"] == "SVGD":
                    for i, value in enumerate(op["write"]):
                        value[0] += 1.7 * i
        return case

    def gen_cfg(self, rng):
        cfg = ChainProp.gen_cfg(self, rng)
        if rng.chance(0.25):
            kind = rng.choice(("pre", "mid", "post", "line"))
            fault = {"kind": kind, "after": rng.choice((1, 1, 2)), "at": round(rng.random(), 4),
                     "exc": rng.choice(SESSION_EXC)}
            if kind == "line":
                fault.update(line=rng.randint(1, 250), exc=rng.choice(("KeyboardInterrupt", "MemoryError")))
            cfg["construction_fault"] = fault
        return cfg

    def before(self, chain, op, case):
        if op.get("write") is not None:
            values = op["write"][:len(chain.params)]
            chain.write([v[:s] for v, s in zip(values, chain.sizes)])
            chain.world.fault_fired("external_write")

    def run(self, case, ctx):
        if case["cfg"]["init"] in ("restore", "random", "mixed"):
            ctx.fault("restart_from_" + case["cfg"]["init"])
        ChainProp.run(self, case, ctx)

    def nontrivial(self, case, summary):
        return any(k.startswith(("restart", "external")) for k in summary["faults"])
