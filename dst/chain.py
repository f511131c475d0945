"""Runs one simulated chain: builds a sampler on the simulated backend, performs
the case's operations (steps, faults, external writes, ...) and checks the
enabled oracles after every one of them.
"""
import contextlib
import zlib

import numpy as np

from . import env
tf = env.setup()

from .executor import SimSession, HarnessError, make_error       # noqa: E402
from .reference import MODELS, Tolerance                          # noqa: E402
from .targets import Target, gen_target, gen_data, make_data      # noqa: E402
from .world import LineHook                                       # noqa: E402


class Violation(Exception):
    def __init__(self, kind, **detail):
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


def sampler_class(name):
    from pysgmcmc import samplers  # noqa: F401
    if name == "SGHMC":
        from pysgmcmc.samplers.sghmc import SGHMCSampler as cls
    elif name == "SGLD":
        from pysgmcmc.samplers.sgld import SGLDSampler as cls
    elif name == "REL":
        from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler as cls
    elif name == "SVGD":
        from pysgmcmc.samplers.svgd import SVGDSampler as cls
    else:
        raise ValueError(name)
    return cls


def enum_member(name):
    from pysgmcmc.sampling import Sampler
    return {"SGHMC": Sampler.SGHMC, "SGLD": Sampler.SGLD, "REL": Sampler.RelativisticSGHMC,
            "SVGD": Sampler.SVGD}[name]


class InjectedFault(Exception):
    """Raised by the simulated environment, never by pysgmcmc."""


# -- seams the client owns --------------------------------------------------------

class Schedule(object):
    """Step-size schedule with a log and injectable failures."""

    def __init__(self, spec):
        self.spec = spec
        self.values = spec["values"]
        self.initial_value = spec.get("initial", self.values[0])
        self.drawn = []
        self.updates = []
        self.fail_next = None
        self.fail_update = None
        self.scale = 1.0

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_next is not None:
            exc, self.fail_next = self.fail_next, None
            raise exc
        value = self.values[len(self.drawn) % len(self.values)]
        if self.spec["kind"] == "adaptive":
            value = value * self.scale
        # (no list shared with copies of this schedule)
        self.drawn = self.drawn + [value]
        return value

    def update(self, *args, **kwargs):
        if self.fail_update is not None:
            exc, self.fail_update = self.fail_update, None
            raise exc
        self.updates = self.updates + [(args, kwargs)]
        if self.spec["kind"] == "adaptive":
            self.scale *= 0.97


DEFAULTS = {
    "SGHMC": {"mdecay": 0.05, "scale_grad": 1.0, "burn_in_steps": 3000},
    "SGLD": {"A": 1.0, "scale_grad": 1.0, "burn_in_steps": 3000},
    "REL": {"mass": 1.0, "speed_of_light": 1.0, "D": 1.0, "Bhat": 0.0},
    "SVGD": {"alpha": 0.9, "fudge_factor": 1e-6},
}
DEFAULT_STEPSIZE = {"SGHMC": 0.01, "SGLD": 0.01, "REL": 0.001, "SVGD": 0.1}


class Silent(object):
    """Stands in the log for a schedule of pysgmcmc's own."""

    fail_next = fail_update = None

    def __init__(self, value):
        self.value = value
        self.drawn = []
        self.updates = []


class Batches(object):
    """Batch source with a log and injectable failures."""

    def __init__(self, inner):
        self.inner = inner
        self.log = []
        self.fail = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail is not None:
            exc, self.fail = self.fail, None
            raise exc
        batch = next(self.inner)
        self.log.append(dict(batch))
        return batch


def own_batches(x, y, xp, yp, size, seed):
    rs = np.random.RandomState(seed)
    n = len(x)
    size = min(size, n)
    while True:
        start = rs.randint(0, n - size + 1)
        yield {xp: x[start:start + size], yp: y[start:start + size].reshape(-1, 1)}


def epochs(x, y, xp, yp, size, seed):
    """ The data in order, again and again: the last batch of an epoch may be shorter. """
    n, batch = len(x), {}
    start = (seed or 0) % n
    while True:
        # the caller gets the same dictionary every time
        batch[xp], batch[yp] = x[start:start + size], y[start:start + size].reshape(-1, 1)
        yield batch
        start = start + size if start + size < n else 0


# -- generation ---------------------------------------------------------------------

SHAPES = ([], [1], [2], [3], [2, 2], [1, 3], [4], [2, 1])
LARGE = ([3, 4], [7], [2, 1, 3], [16])
SAMPLERS = ("SGHMC", "SGLD", "REL", "SVGD")


def r3(v):
    return float("%.4g" % v)


def gen_cfg(rng, samplers=SAMPLERS, n_params=None, dtype=None, batched=None,
            seeded=None, schedule_kinds=("const", "list", "list", "decay", "adaptive",
                                          "constant", "default"),
            inits=("before", "after", "uninit", "restore", "random", "mixed"),
            burn_in=None, no_burn_in=0.05):
    name = rng.choice(samplers)
    cfg = {"sampler": name}
    cfg["dtype"] = dtype or rng.choice(("float64", "float64", "float64", "float32"))
    if name == "SVGD":
        dim = rng.randint(2, 3)
        n = n_params or (rng.randint(5, 7) if rng.chance(0.08) else rng.randint(2, 4))
        shapes = [[dim]] * n
    elif name == "REL":
        n = n_params or rng.randint(1, 3)
        shapes = [rng.choice(([], [1], [1, 1])) for _ in range(n)]
    else:
        n = n_params or (rng.randint(4, 6) if rng.chance(0.05) else rng.choice((1, 2, 2, 2, 3)))
        shapes = [rng.choice(SHAPES) for _ in range(n)]
        if rng.chance(0.06):
            shapes[rng.below(n)] = rng.choice(LARGE)
    params = []
    for shape in shapes:
        size = int(np.prod(shape, dtype=int))
        params.append({"shape": list(shape),
                       "init": [r3(rng.uniform(-2., 2.)) for _ in range(size)]})
    if name == "SVGD":
        # distinct particles, as SVGD's kernel bandwidth needs
        for i, p in enumerate(params):
            p["init"][0] = r3(p["init"][0] + 1.7 * i)
    cfg["params"] = params
    sizes = [int(np.prod(p["shape"], dtype=int)) for p in params]
    if batched is None:
        batched = rng.chance(0.4)
    tsizes = sizes[:1] if name == "SVGD" else sizes
    cfg["target"] = gen_target(rng, tsizes, batched)
    if batched:
        cfg["data"] = gen_data(rng)
        cfg["data"]["source"] = rng.choice(("own", "epochs", "generate_batches", "generate_shuffled_batches"))
    if rng.chance(0.12):
        cfg["gain"] = rng.choice((0.01, 5., 40.))
    kw = {}
    if name in ("SGHMC", "SGLD"):
        kw["burn_in_steps"] = burn_in if burn_in is not None else 0 if rng.chance(no_burn_in) else rng.choice((1, 1, 2, 3, 5, 8))
        kw["scale_grad"] = rng.choice((1.0, 1.0, 2.5, 10.0, 100.0))
    if name == "SGHMC":
        kw["mdecay"] = rng.choice((0.05, 0.05, 0.01, 0.2, 0.5))
    if name == "SGLD":
        kw["A"] = rng.choice((1.0, 1.0, 0.5, 2.0))
    if name == "REL":
        kw["mass"] = rng.choice((1.0, 1.0, 0.5, 2.0))
        kw["speed_of_light"] = rng.choice((1.0, 1.0, 0.6, 2.0))
        kw["D"] = rng.choice((1.0, 1.0, 0.5, 2.0))
        kw["Bhat"] = rng.choice((0.0, 0.0, 0.5))
    if name == "SVGD":
        kw["alpha"] = rng.choice((0.9, 0.9, 0.5, 0.0))
        kw["fudge_factor"] = rng.choice((1e-6, 1e-3, 0.1))
    cfg["kwargs"] = kw
    for key in list(kw):
        # rely on the documented default instead
        if key != "burn_in_steps" and rng.chance(0.12):
            del kw[key]
    if kw.get("burn_in_steps") is not None and burn_in is None and rng.chance(0.04):
        del kw["burn_in_steps"]
    base = rng.choice((0.001, 0.01, 0.01, 0.05, 0.1))
    kind = rng.choice(schedule_kinds)
    if kind in ("const", "constant", "default"):
        values = [base]
    elif kind == "decay":
        values = [r3(base / (1. + k) ** 0.5) for k in range(40)]
    else:
        values = [r3(base * rng.uniform(0.3, 2.)) for _ in range(rng.randint(2, 7))]
    cfg["stepsize"] = {"kind": kind, "values": values}
    if kind not in ("const", "constant", "default") and rng.chance(0.4):
        cfg["stepsize"]["initial"] = r3(base * rng.uniform(0.2, 3.))
    if seeded is None:
        seeded = rng.chance(0.6)
    cfg["seed"] = rng.choice((0, 1, rng.below(1 << 16), rng.below(1 << 31) - 1)) if seeded else None
    if name == "REL" and cfg["seed"] is not None:
        cfg["seed"] = abs(cfg["seed"])
    cfg["init"] = rng.choice(inits)
    if rng.chance(0.2):
        cfg["via"] = "get_sampler"
    if rng.chance(0.15):
        # which session is the default one when the sampler is built and when it steps
        cfg["around"] = rng.choice(("default", "decoy", "both"))
    return cfg


def gen_noise(rng, n):
    out = []
    for _ in range(n):
        kind = rng.below(6)
        out.append(0.0 if kind == 0 else r3(rng.normal() * (3. if kind == 1 else 1.)))
    return out


SESSION_EXC = ("ResourceExhaustedError", "AbortedError", "UnavailableError",
               "DeadlineExceededError", "InternalError", "CancelledError",
               "MemoryError", "KeyboardInterrupt")


def gen_fault(rng, batched, interrupts=True):
    kinds = ["pre", "mid", "mid", "mid", "post", "next"]
    if batched:
        kinds += ["batch", "batch"]
    if interrupts:
        kinds += ["line", "line"]
    kind = rng.choice(kinds)
    fault = {"kind": kind}
    if kind == "mid":
        fault["at"] = round(rng.random(), 4)
    if kind == "line":
        fault["line"] = rng.randint(1, 30)
        fault["exc"] = rng.choice(("KeyboardInterrupt", "MemoryError"))
    elif kind in ("pre", "mid", "post"):
        fault["exc"] = rng.choice(SESSION_EXC)
    else:
        fault["exc"] = rng.choice(("RuntimeError", "StopIteration", "OSError",
                                   "KeyboardInterrupt"))
    return fault


def client_error(name):
    return {"RuntimeError": RuntimeError, "StopIteration": StopIteration,
            "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt,
            "MemoryError": MemoryError}[name]("injected by the simulator")


# -- the chain ------------------------------------------------------------------------

class Chain(object):
    """One sampler with its client, on a simulated session."""

    def __init__(self, world, cfg, graph=None, session=None, prefix="",
                 checks=(), peers=None):
        self.world = world
        self.cfg = cfg
        self.checks = set(checks)
        self.name = cfg["sampler"]
        self.sizes = [int(np.prod(p["shape"], dtype=int)) for p in cfg["params"]]
        self.graph = graph or tf.Graph()
        self.own_session = session is None
        self.session = session or SimSession(world, graph=self.graph)
        # somebody else's session, the default one while the sampler is built or stepped
        self.around = cfg.get("around")
        self.decoy = SimSession(world, graph=tf.Graph()) if self.around in ("decoy", "both") else None
        self.prefix = prefix
        self.dtype = getattr(tf, cfg["dtype"])
        self.gain = cfg.get("gain", 1.)     # how steep the target is
        self.tol = Tolerance(cfg["dtype"])
        self.count = 0                 # steps that succeeded (client's view)
        self.steps = []                # history
        self.kept = []                 # (sample objects, copies)
        self.dead = False              # left the domain (non-finite values)
        self.attempts = 0
        with self.graph.as_default():
            self._build()

    # -- construction ------------------------------------------------------
    def _build(self):
        cfg, session = self.cfg, self.session
        self.params = []
        for i, p in enumerate(cfg["params"]):
            value = np.array(p["init"], dtype=cfg["dtype"]).reshape(p["shape"])
            if cfg["init"] == "random":
                rs = np.array(p["init"]).reshape(p["shape"])
                value = rs + 0.3 * tf.random_normal(p["shape"], dtype=self.dtype)
                value = tf.cast(value, self.dtype)
            elif cfg["init"] == "restore" or self._restored(i):
                value = np.zeros(p["shape"], dtype=cfg["dtype"]) + i
                if self.name == "SVGD":
                    value = value + np.arange(p["shape"][0]) * (i + 1)
            self.params.append(tf.Variable(value, dtype=self.dtype,
                                           name="%s%s%d" % (self.prefix, "qpzam"[i % 5], i)))
        kind = cfg["stepsize"]["kind"]
        self.own_schedule = kind not in ("default", "constant")
        schedule = None
        if self.own_schedule:
            self.schedule = schedule = Schedule(cfg["stepsize"])
        elif kind == "constant":
            from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
            schedule = ConstantStepsizeSchedule(cfg["stepsize"]["values"][0])
            self.schedule = Silent(cfg["stepsize"]["values"][0])
        else:
            self.schedule = Silent(DEFAULT_STEPSIZE[self.name])
        self.effective = dict(DEFAULTS[self.name], **cfg["kwargs"])
        self.data = None
        self.batches = None
        placeholders = None
        if "data" in cfg:
            d = cfg["data"]
            x, y = make_data(d)
            x, y = x.astype(cfg["dtype"]), y.astype(cfg["dtype"])
            self.data = (x, y)
            xp = tf.placeholder(self.dtype, name=self.prefix + "x")
            yp = tf.placeholder(self.dtype, name=self.prefix + "y")
            placeholders = self.placeholders = (xp, yp)
            if d["source"] in ("own", "epochs"):
                inner = {"own": own_batches, "epochs": epochs}[d["source"]](x, y, xp, yp, d["size"], d["seed"])
            else:
                import pysgmcmc.data_batches as db
                inner = getattr(db, d["source"])(
                    x, y, xp, yp, batch_size=d["size"], seed=d["seed"])
            self.batches = Batches(inner)
        tsizes = self.sizes[:1] if self.name == "SVGD" else self.sizes
        self.target = Target(cfg["target"], tsizes, cfg.get("data"))
        self.kept_feed = {}
        self.temp = tf.placeholder_with_default(
            tf.constant(1.0, dtype=self.dtype), shape=(), name=self.prefix + "temperature")

        def cost_fun(params):
            if self.name == "SVGD":
                params = [params]
            cost = self.temp * self.target.build(params, self.dtype, placeholders)
            return cost if self.gain == 1. else self.gain * cost

        order = cfg["init"]
        if order in ("before", "restore", "random"):
            session.run(tf.variables_initializer(self.params))
        if order == "restore":
            # a crashed client's parameters come back from its checkpoint
            for param, p in zip(self.params, cfg["params"]):
                param.load(np.array(p["init"], dtype=cfg["dtype"]).reshape(p["shape"]), session)
        if order == "mixed":
            # some parameters come from a checkpoint, the others have no value yet
            for i, (param, p) in enumerate(zip(self.params, cfg["params"])):
                if self._restored(i):
                    session.run(param.initializer)
                    param.load(np.array(p["init"], dtype=cfg["dtype"]).reshape(p["shape"]), session)
        before = self.peek() if order in ("before", "restore", "random") else None
        if order in ("uninit", "mixed", "after"):
            before = [np.array(p["init"], dtype=cfg["dtype"]).astype(np.float64) for p in cfg["params"]]
        cls = sampler_class(self.name)
        kwargs = dict(cfg["kwargs"], cost_fun=cost_fun, session=session,
                      dtype=self.dtype)
        if schedule is not None:
            kwargs["stepsize_schedule"] = schedule
        if cfg["seed"] is not None:
            kwargs["seed"] = cfg["seed"]
        if self.batches is not None:
            kwargs["batch_generator"] = self.batches
        kwargs["particles" if self.name == "SVGD" else "params"] = self.params
        if cfg.get("argument_order") is not None:
            # arguments by name come in any order
            kwargs = {key: kwargs[key] for key in sorted(
                kwargs, key=lambda k: zlib.crc32(("%s%d" % (k, cfg["argument_order"])).encode()))}
        default = self.decoy
        if self.around in ("default", "both"):
            # no session given: the default session of that moment
            del kwargs["session"]
            default = session
        with _default(default):
            self._construct(cls, kwargs)
        if self.around:
            self.world.probe("built_with_default_session_" + self.around)
        if before is not None and "restart" in self.checks:
            self._same(before, self.peek(), "construction_changed_parameters")
        mine = set(self.params)
        if order in ("restore", "uninit", "mixed") or not self.own_session:
            rest = [v for v in tf.global_variables() if v not in mine and
                    getattr(session.backend.vars.get(v.op.name), "buf", None) is None]
            session.run(tf.variables_initializer(rest))
        else:
            session.run(tf.global_variables_initializer())
        if self.effective.get("burn_in_steps") == 0:
            # whether the mass matrix adapts for ever or not at all is nowhere said
            self.checks.discard("ref")
        self.model = MODELS[self.name](dict(self.effective, dtype=cfg["dtype"]), self.sizes)

    def _construct(self, cls, kwargs):
        cfg = self.cfg
        if cfg.get("construction_fault"):
            self._failing_construction(cls, kwargs)
        if cfg.get("via") == "get_sampler":
            from pysgmcmc.sampling import Sampler
            self.sampler = Sampler.get_sampler(enum_member(self.name), **kwargs)
            if not isinstance(self.sampler, cls):
                raise Violation("get_sampler_returned_another_kind_of_sampler",
                                got=type(self.sampler).__name__, expected=cls.__name__)
        else:
            self.sampler = cls(**kwargs)

    def _failing_construction(self, cls, kwargs):
        """A first attempt to construct the sampler fails; nothing that had a value may change."""
        fault, world = self.cfg["construction_fault"], self.world
        held = [self._held(p) for p in self.params]
        faults0 = _real_faults(world)
        hook = None
        if fault["kind"] == "line":
            hook = LineHook(world, {"line": fault["line"], "exc": fault["exc"]})
        else:
            world.plan_session_fault(fault["after"], {"when": fault["kind"], "exc": fault["exc"], "at": fault["at"]})
        error = None
        try:
            if hook:
                hook.start()
            try:
                cls(**kwargs)
            finally:
                if hook:
                    hook.stop()
        except HarnessError:
            raise
        except BaseException as exc:
            error = exc
        world.fault_plan.clear()
        if _real_faults(world) == faults0:
            if error is not None:
                raise error
            world.probe("construction_fault_missed")
        elif error is None:
            raise Violation("failed_construction_did_not_reach_the_caller", fault=fault)
        else:
            world.probe("constructions_failed")
        for i, (before, p) in enumerate(zip(held, self.params)):
            after = self._held(p)
            if before is not None and (after is None or not np.array_equal(before, after)):
                raise Violation("failed_construction_changed_parameters", param=i, before=before.tolist(),
                                after=None if after is None else after.tolist(), fault=fault)

    def _held(self, param):
        var = self.session.backend.vars.get(param.op.name)
        return None if var is None or var.buf is None else np.array(var.buf)

    def _restored(self, i):
        return self.cfg["init"] == "mixed" and (i + len(self.sizes)) % 2 == 0

    def _same(self, a, b, kind, **detail):
        for i, (x, y) in enumerate(zip(a, b)):
            if not np.array_equal(x, y):
                raise Violation(kind, param=i, before=x.tolist(), after=y.tolist(), **detail)

    def peek(self):
        """Current parameter values, without running anything."""
        out = []
        for p in self.params:
            var = self.session.backend.vars.get(p.op.name)
            if var is None or var.buf is None:
                raise Violation("parameter_uninitialised", param=p.op.name)
            out.append(np.array(var.buf, dtype=np.float64).ravel())
        return out

    # -- operations ----------------------------------------------------------
    def write(self, values):
        """Somebody else writes the parameters between two steps."""
        for param, value in zip(self.params, values):
            param.load(np.array(value, dtype=self.cfg["dtype"]).reshape(param.shape.as_list()),
                       self.session)

    def value_grad(self, theta, batch, temp):
        if batch is not None:
            batch = (np.asarray(batch[self.placeholders[0]], dtype=np.float64),
                     np.asarray(batch[self.placeholders[1]], dtype=np.float64))
        temp = temp * self.gain
        if self.name == "SVGD":
            costs, grads = [], []
            for t in theta:
                c, g = self.target.value_grad([t], batch)
                costs.append(temp * c)
                grads.append(temp * g[0])
            return np.array(costs), grads
        c, g = self.target.value_grad(theta, batch)
        return temp * c, [temp * v for v in g]

    def step(self, op):
        """One ``next(sampler)`` with this op's noise, feed and fault."""
        if self.dead:
            return None
        self.attempts += 1
        world, sampler, sched = self.world, self.sampler, self.schedule
        fault = op.get("fault")
        z = op.get("z")
        theta0 = self.peek()
        n0 = self._n()
        faults0 = _real_faults(world)
        n_batch = len(self.batches.log) if self.batches else 0
        n_drawn, n_upd = len(sched.drawn), len(sched.updates)
        n_runs = len(world.run_log)
        rec = {"fault": fault, "count0": self.count}
        if "lifecycle" in self.checks:
            self._check_phase("before")
        hook = None
        if fault:
            kind = fault["kind"]
            if kind in ("pre", "mid", "post"):
                world.arm_session_fault({"when": kind, "exc": fault["exc"], "at": fault.get("at", 0.)})
            elif kind == "batch" and self.batches is not None:
                self.batches.fail = client_error(fault["exc"])
            elif kind == "next" and self.own_schedule:
                sched.fail_next = client_error(fault["exc"])
            elif kind == "update" and self.own_schedule:
                sched.fail_update = client_error(fault["exc"])
            elif kind == "line":
                hook = LineHook(world, {"line": fault["line"], "exc": fault["exc"]})
        temp = op.get("temp")
        feed = None
        world.noise.flat = z
        error = result = None
        try:
            if hook:
                hook.start()
            try:
                with _default(self.decoy):
                    if op.get("own_dict") == "kept":
                        # one dictionary, handed in again and again
                        feed = self.kept_feed
                        feed.pop(self.temp, None)
                        if temp is not None:
                            feed[self.temp] = temp
                        result = sampler.__next__(feed_dict=feed)
                    elif temp is not None or op.get("own_dict"):
                        feed = {} if temp is None else {self.temp: temp}
                        result = sampler.__next__(feed_dict=feed)
                    else:
                        result = next(iter(sampler)) if op.get("iter") else next(sampler)
            finally:
                if hook:
                    hook.stop()
        except HarnessError:
            raise
        except BaseException as exc:
            error = exc
        finally:
            world.noise.flat = None
            world.take_session_fault()
        if fault and fault["kind"] in ("batch", "next", "update"):
            left = {"batch": self.batches.fail if self.batches else None,
                    "next": sched.fail_next, "update": sched.fail_update}[fault["kind"]]
            given = fault["kind"] == "batch" and self.batches is not None or \
                fault["kind"] != "batch" and self.own_schedule
            if left is None and given:
                world.fault_fired("client_" + fault["kind"], fault["exc"])
            if self.batches:
                self.batches.fail = None
            sched.fail_next = sched.fail_update = None
        armed = bool(fault) and not (
            fault["kind"] == "batch" and self.batches is None or
            fault["kind"] in ("next", "update") and not self.own_schedule)
        fired = armed and error is not None
        theta1 = self.peek()
        statuses = [entry[0] for entry in world.run_log[n_runs:]]
        drawn = sched.drawn[n_drawn:]
        batches = self.batches.log[n_batch:] if self.batches else []
        updates = sched.updates[n_upd:]
        rec.update(ok=error is None, error=None if error is None else type(error).__name__,
                   theta0=theta0, theta1=theta1, eps=drawn[-1] if drawn else None, z=z,
                   statuses=statuses)
        self.steps.append(rec)
        world.log("step", rec["ok"], rec["error"], drawn, len(batches), statuses)
        world.log_array("theta", *theta1)
        if "count" in self.checks and fault and _real_faults(world) != faults0:
            if error is None:
                raise Violation("failure_did_not_reach_the_caller", fault=fault, attempt=self.attempts)
            if not _is_or_comes_from(error, fault["exc"]):
                raise Violation("failure_reached_the_caller_disguised", fault=fault,
                                error="%s: %s" % (type(error).__name__, str(error)[:300]))
        if error is not None and not fired:
            if isinstance(error, Exception):
                raise Violation("step_failed_without_a_fault",
                                error="%s: %s" % (type(error).__name__, str(error)[:400]),
                                attempt=self.attempts)
            raise error
        eps = drawn[-1] if drawn else None
        if not self.own_schedule:
            eps = sched.value
        batch = batches[-1] if batches else None
        burn_in = self.count < self.effective.get("burn_in_steps", 0)
        if error is None:
            self._after_success(rec, result, n0, theta0, theta1, eps, batch, z,
                                temp, burn_in, drawn, batches, updates)
        else:
            self._after_failure(rec, fault, n0, theta0, theta1, eps, batch, z,
                                temp, burn_in, statuses, drawn, updates)
        if "lifecycle" in self.checks:
            self._check_phase("after")
        if "snapshots" in self.checks:
            self._check_snapshots()
        return rec

    def _n(self):
        return self.sampler.n_iterations

    def _grads(self, theta0, batch, temp):
        if self.batches is not None and batch is None:
            return None, None
        with np.errstate(all="ignore"):
            cost, grads = self.value_grad(theta0, batch, 1.0 if temp is None else temp)
        finite = np.all(np.isfinite(cost)) and all(np.all(np.isfinite(g)) for g in grads) \
            and max(np.max(np.abs(t), initial=0.) for t in theta0) < 1e6
        if not finite:
            self.dead = True
            return None, None
        return cost, grads

    def _after_success(self, rec, result, n0, theta0, theta1, eps, batch, z,
                       temp, burn_in, drawn, batches, updates):
        world = self.world
        sample, cost = result
        rec["cost"] = np.array(cost, dtype=np.float64)
        rec["sample"] = self.flatten(sample)
        world.log_array("cost", rec["cost"])
        self.count += 1
        self.world.probe("steps_ok")
        if burn_in:
            world.probe("burn_in_steps")
        elif self.count - 1 == self.effective.get("burn_in_steps", -1):
            world.probe("first_sampling_step")
        if "count" in self.checks and self._n() != self.count:
            raise Violation("successful_step_not_counted_once", counted=self._n(),
                            successful=self.count)
        if "schedule" in self.checks and self.own_schedule:
            if len(drawn) != 1:
                raise Violation("stepsize_drawn_%d_times" % len(drawn), step=self.count)
            if len(updates) != 1:
                raise Violation("stepsize_updated_%d_times" % len(updates), step=self.count)
            args, kwargs = updates[0]
            values = list(args) + list(kwargs.values())
            if not any(_equal_nested(v, sample) for v in values) or \
                    not any(_equal_nested(v, cost) for v in values):
                raise Violation("update_did_not_get_the_steps_result", step=self.count)
        if "batch" in self.checks and self.batches is not None and len(batches) != 1:
            raise Violation("batches_drawn_%d_times" % len(batches), step=self.count)
        if "sample" in self.checks:
            got = rec["sample"]
            if len(got) != len(theta1):
                raise Violation("sample_has_wrong_number_of_parameters", step=self.count)
            for i in range(len(theta1)):
                if not np.array_equal(got[i], theta1[i]):
                    raise Violation("sample_is_not_the_new_parameter_value", param=i,
                                    step=self.count, sample=got[i].tolist(),
                                    actual=theta1[i].tolist())
        self.kept.append((sample, [np.array(a) for a in _leaves(sample)],
                          cost, np.array(cost)))
        ref_cost, grads = self._grads(theta0, batch, temp)
        if self.dead:
            return
        if "cost" in self.checks:
            self._check_cost(rec, ref_cost)
        if "ref" in self.checks:
            if eps is None:
                raise Violation("no_stepsize_was_drawn", step=self.count)
            with np.errstate(all="ignore"):
                problems = self.model.check(theta0, theta1, grads, eps, z, burn_in)
            self._ref_problem(problems, burn_in, "step_departs_from_reference")

    def _ref_problem(self, problems, burn_in, kind):
        if not problems:
            return
        if any(not np.all(np.isfinite(p.get("predicted", 0.))) for p in problems):
            self.dead = True
            return
        raise Violation(kind, step=len(self.steps), phase="burn-in" if burn_in else "sampling",
                        **problems[0])

    def _check_cost(self, rec, ref_cost):
        got = rec["cost"]
        ref = np.asarray(ref_cost)
        if got.size != ref.size:
            raise Violation("cost_has_wrong_shape", got=list(got.shape), expected=list(ref.shape))
        err = np.abs(got.ravel() - ref.ravel())
        scale = np.abs(ref.ravel()) + 1.
        if np.any(err > self.tol.cost * scale * 10):
            raise Violation("cost_is_not_that_of_the_steps_start", step=len(self.steps),
                            reported=got.tolist(), expected=ref.tolist())

    def _after_failure(self, rec, fault, n0, theta0, theta1, eps, batch, z,
                       temp, burn_in, statuses, drawn, updates):
        self.world.probe("steps_failed")
        n1 = self._n()
        # did the backend run, completely or in part?
        if not statuses or all(s == "none" for s in statuses):
            how = "none"
        elif all(s == "all" for s in statuses):
            how = "all"
        else:
            how = "any"
        self.world.probe("failed_" + how)
        counted = n1 != self.count
        maybe = fault["kind"] in ("line", "update") and how == "all"
        if "count" in self.checks:
            if n1 not in ((self.count, self.count + 1) if maybe else (self.count,)):
                raise Violation("failed_step_was_counted", counted=n1,
                                successful=self.count, fault=fault)
        if "schedule" in self.checks and self.own_schedule:
            if len(drawn) > 1 or how != "none" and not drawn:
                raise Violation("stepsize_drawn_%d_times" % len(drawn), by="failed step", fault=fault)
            if len(updates) > (1 if fault["kind"] == "line" and how == "all" else 0):
                raise Violation("schedule_updated_by_a_failed_step", fault=fault)
        grads = None
        if eps is not None:
            _, grads = self._grads(theta0, batch, temp)
        if self.dead:
            return
        if maybe and n1 == self.count + 1:
            self.count += 1
        if "ref" in self.checks:
            if how == "none":
                problems = self.model.fail("none", theta0, theta1, None, None, None, burn_in)
            elif grads is None:
                problems = [{"note": "ran without a step size or batch"}]
            else:
                with np.errstate(all="ignore"):
                    if maybe and counted and burn_in:
                        problems = self.model.check(theta0, theta1, grads, eps, z, burn_in)
                    else:
                        problems = self.model.fail(how, theta0, theta1, grads, eps, z, burn_in)
            self._ref_problem(problems, burn_in, "failed_step_corrupted_parameters")
        # an injected fault must reach the caller (not be swallowed or disguised)

    def _check_phase(self, when):
        burn = self.effective.get("burn_in_steps")
        if burn is None:
            return
        expected = self.count < burn
        if bool(self.sampler.is_burning_in) != expected:
            raise Violation("burn_in_phase_is_wrong", successful_steps=self.count,
                            burn_in_steps=burn, is_burning_in=bool(self.sampler.is_burning_in))

    def _check_snapshots(self):
        for k, (sample, copies, cost, cost_copy) in enumerate(self.kept):
            now = list(_leaves(sample))
            if len(now) != len(copies) or \
                    any(not np.array_equal(a, b) for a, b in zip(now, copies)) or \
                    not np.array_equal(np.asarray(cost), cost_copy):
                raise Violation("returned_sample_changed_later", sample=k,
                                after_attempt=self.attempts)

    def flatten(self, sample):
        """A sample as one flat float64 array per parameter."""
        leaves = [sample] if len(self.params) == 1 and not isinstance(sample, (list, tuple)) \
            else list(sample)
        return [np.asarray(v, dtype=np.float64).ravel() for v in leaves]

    def close(self):
        if self.decoy is not None:
            self.decoy.close()
        if self.own_session:
            self.session.close()


def _default(session):
    """The context in which ``session`` is the default one (none: nothing changes)."""
    return contextlib.nullcontext() if session is None else session.as_default()


def _real_faults(world):
    return {k: v for k, v in world.faults.items() if not k.startswith("clock")}


def _is_or_comes_from(error, name):
    """The injected error itself, or one raised because of it (but no mere end of iteration)."""
    if type(error).__name__ == name and "injected" in str(error):
        return True
    if isinstance(error, StopIteration):
        return False
    seen = error.__cause__ or error.__context__
    while seen is not None:
        if "injected" in str(seen):
            return True
        seen = seen.__cause__ or seen.__context__
    return False


def _leaves(sample):
    if isinstance(sample, (list, tuple)):
        for v in sample:
            for leaf in _leaves(v):
                yield leaf
    else:
        yield sample


def _equal_nested(a, b):
    try:
        la, lb = list(_leaves(a)), list(_leaves(b))
        return len(la) == len(lb) and all(
            np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y))
            for x, y in zip(la, lb))
    except Exception:
        return False
