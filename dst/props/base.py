"""Base classes of the per-property workloads."""
import copy

from ..chain import Chain, Violation, gen_cfg, gen_fault, gen_noise, SAMPLERS
from ..world import gen_policy


class Prop(object):
    id = None
    rule = ""
    quick = 400
    thorough = 6000
    chunk = 10             # cases handed to a worker at a time
    recycle = 150          # cases after which a worker process is replaced
    assumptions = ()
    twins = (0, 0)         # cases repeated in processes with another hash seed (quick, thorough)
    real = ["pysgmcmc (all code under test)", "tensorflow graph construction",
            "tensorflow CPU kernels of stateless operations (eager runtime)"]

    def gen(self, rng, index):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def nontrivial(self, case, summary):
        return summary["probes"].get("steps_ok", 0) > 0

    def shrink(self, case):
        return iter(())

    def shape(self, case):
        """A short label of the kind of case, for the coverage report."""
        cfg = case.get("cfg")
        if not cfg:
            return self.id
        return "%s/%s/%s" % (cfg["sampler"], cfg["target"]["kind"], case["policy"]["kind"])

    def explicit(self, case, ctx):
        """The same case with its schedule spelled out, or None."""
        out = dict(case)
        changed = False
        for w in ctx.worlds:
            if not w.primary:
                continue
            if "policy" in case and case["policy"]["kind"] not in ("fifo", "explicit"):
                out["policy"] = {"kind": "explicit", "devs": {str(k): v for k, v in w.dev_log.items()}}
                changed = True
            if case.get("baton") and case["baton"].get("kind") != "explicit" and w.baton:
                out["baton"] = {"kind": "explicit", "line": case["baton"].get("line", False),
                                "devs": {str(k): v for k, v in w.baton.log.items()}}
                changed = True
            break
        return out if changed else None


def drop_chunks(items):
    """Shorter lists, largest cuts first (ddmin-like)."""
    n = len(items)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            rest = items[:start] + items[start + size:]
            if len(rest) < n:
                yield rest
        size //= 2


def shrink_policy(case, key="policy"):
    spec = case.get(key)
    if not spec or spec["kind"] == "fifo":
        return
    yield dict(case, **{key: {"kind": "fifo"}})
    if spec["kind"] == "explicit":
        devs = sorted(spec["devs"].items(), key=lambda kv: int(kv[0]))
        for rest in drop_chunks(devs):
            yield dict(case, **{key: {"kind": "explicit", "devs": dict(rest)}})


def shrink_ops(case, key="ops"):
    ops = case[key]
    if len(ops) > 1:
        for rest in drop_chunks(ops):
            if rest:
                yield dict(case, **{key: rest})
    for i, op in enumerate(ops):
        for field in ("fault", "temp", "own_dict", "write", "iter"):
            if op.get(field) is not None and len(op) > 1:
                smaller = {k: v for k, v in op.items() if k != field}
                yield dict(case, **{key: ops[:i] + [smaller] + ops[i + 1:]})
        if op.get("z"):
            yield dict(case, **{key: ops[:i] + [dict(op, z=0.0)] + ops[i + 1:]})


def shrink_cfg(cfg):
    if cfg["sampler"] != "SVGD" and len(cfg["params"]) > 1:
        for i in range(len(cfg["params"])):
            yield dict(cfg, params=cfg["params"][:i] + cfg["params"][i + 1:])
    if cfg["sampler"] == "SVGD" and len(cfg["params"]) > 2:
        yield dict(cfg, params=cfg["params"][:-1])
    if cfg["sampler"] != "SVGD":
        for i, p in enumerate(cfg["params"]):
            if len(p["init"]) > 1:
                small = dict(p, shape=[1], init=p["init"][:1])
                yield dict(cfg, params=cfg["params"][:i] + [small] + cfg["params"][i + 1:])
    for key in list(cfg["kwargs"]):
        if key != "burn_in_steps":
            yield dict(cfg, kwargs={k: v for k, v in cfg["kwargs"].items() if k != key})
    if cfg["kwargs"].get("burn_in_steps", 0) > 1:
        yield dict(cfg, kwargs=dict(cfg["kwargs"], burn_in_steps=cfg["kwargs"]["burn_in_steps"] // 2))
    if cfg["stepsize"]["kind"] != "const":
        yield dict(cfg, stepsize={"kind": "const", "values": [0.01]})
    if cfg["dtype"] != "float64":
        yield dict(cfg, dtype="float64")
    if cfg.get("via"):
        yield {k: v for k, v in cfg.items() if k != "via"}
    if cfg.get("around"):
        yield {k: v for k, v in cfg.items() if k != "around"}
    if cfg.get("gain"):
        yield {k: v for k, v in cfg.items() if k != "gain"}
    if cfg.get("construction_fault"):
        yield {k: v for k, v in cfg.items() if k != "construction_fault"}
    if cfg["init"] != "before":
        yield dict(cfg, init="before")
    if cfg.get("data") and cfg["data"].get("source") != "own":
        yield dict(cfg, data=dict(cfg["data"], source="own"))
    if cfg.get("data"):
        small = {k: v for k, v in cfg.items() if k != "data"}
        small["target"] = {"kind": "quad", "seed": 1}
        yield small
    elif cfg["target"]["kind"] != "quad":
        yield dict(cfg, target={"kind": "quad", "seed": 1})


class ChainProp(Prop):
    """One chain under a random schedule; subclasses choose oracle and faults."""

    checks = ()
    samplers = SAMPLERS
    fault_rate = 0.0
    feed_rate = 0.0
    write_rate = 0.0
    rel_float32 = False
    batched = None
    long_share = 0.04
    marathons = False       # a few very long chains
    cfg_kwargs = {}

    def gen_cfg(self, rng):
        kw = dict(self.cfg_kwargs)
        if self.batched is not None:
            kw["batched"] = rng.chance(self.batched)
        cfg = gen_cfg(rng, samplers=self.samplers, **kw)
        if cfg["sampler"] == "REL" and not self.rel_float32:
            # float32 displacements do not determine the hidden momentum
            cfg["dtype"] = "float64"
        return cfg

    def gen(self, rng, index):
        cfg = self.gen_cfg(rng)
        marathon = self.marathons and index % 100 == 3
        long_run = marathon or rng.chance(self.long_share)
        if long_run:
            # few, small, long chains: adaptation, freezing and late behaviour
            cfg["params"] = cfg["params"][:2]
            if cfg["sampler"] not in ("SVGD",) and "data" not in cfg:
                cfg["params"] = [dict(p, shape=[1], init=p["init"][:1]) if p["init"] else p
                                 for p in cfg["params"]]
            if cfg["kwargs"].get("burn_in_steps"):
                cfg["kwargs"]["burn_in_steps"] = rng.choice((1, 17, 60, 150))
            n = rng.choice((80, 130, 220))
            if marathon:
                n = 1100
                cfg["stepsize"] = {"kind": "list", "values": [0.01, 0.012, 0.009]}
                cfg.pop("gain", None)
                if cfg["target"]["kind"] != "regress":
                    cfg["target"]["kind"] = "quad"
                if cfg["kwargs"].get("burn_in_steps"):
                    cfg["kwargs"]["burn_in_steps"] = rng.choice((5, 150, 600, 1050))
        else:
            n = rng.randint(2, 6) + rng.below(12)
        zs = gen_noise(rng, n)
        faulty = self.fault_rate > 0 and rng.chance(0.85)
        rate = self.fault_rate * rng.choice((0.5, 1., 1.5)) * (0.3 if long_run else 1.)
        ops = []
        kept = rng.chance(0.3)      # the caller hands in one dictionary again and again
        loops = rng.chance(0.2)     # the caller starts new loops over the sampler
        for z in zs:
            op = {"z": z}
            if loops and rng.chance(0.3):
                op["iter"] = True
            if faulty and rng.chance(rate):
                op["fault"] = gen_fault(rng, "data" in cfg)
            if self.feed_rate and rng.chance(self.feed_rate):
                if rng.chance(0.75):
                    op["temp"] = rng.choice((2.0, 0.5, 0.0, -1.0))
                else:
                    op["own_dict"] = True
                if kept:
                    op["own_dict"] = "kept"
            ops.append(op)
        if ops and "fault" in ops[-1]:
            ops.append({"z": gen_noise(rng, 1)[0]})    # faults stop, steps succeed
        return {"cfg": cfg, "ops": ops, "policy": gen_policy(rng),
                "wseed": rng.below(1 << 30)}

    def run(self, case, ctx):
        world = ctx.world(case["policy"])
        chain = self.chain(world, case)
        try:
            for op in case["ops"]:
                self.before(chain, op, case)
                chain.step(op)
                if chain.dead:
                    ctx.probe("left_domain")
                    break
            self.finish(chain, case, ctx)
        finally:
            chain.close()

    def chain(self, world, case):
        return build(world, case["cfg"], self.checks)

    def before(self, chain, op, case):
        pass

    def finish(self, chain, case, ctx):
        pass

    def shrink(self, case):
        for c in shrink_ops(case):
            yield c
        for cfg in shrink_cfg(case["cfg"]):
            yield dict(case, cfg=cfg)
        for c in shrink_policy(case):
            yield c


def build(world, cfg, checks=(), **kw):
    """A chain; a sampler that cannot be built for a legal input is a violation."""
    from ..executor import HarnessError
    try:
        return Chain(world, copy.deepcopy(cfg), checks=checks, **kw)
    except (Violation, HarnessError):
        raise
    except Exception as error:
        if _ours(error):
            raise
        raise Violation("sampler_construction_failed",
                        error="%s: %s" % (type(error).__name__, str(error)[:400]))


def innermost(error):
    """The function of pysgmcmc below all others that the error went through; None if there is none."""
    from .. import env
    import os
    root = os.path.realpath(os.path.join(env.REPO, "pysgmcmc")) + os.sep
    tb, found = error.__traceback__, None
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            found = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return found


def _ours(error):
    """Raised by the harness itself rather than by (or below) pysgmcmc?"""
    return innermost(error) is None
