"""C15-C18, C26: Bayesian neural networks, end to end."""
import copy
import random

import numpy as np

from .. import env
from ..chain import Violation, Schedule, Batches, epochs, client_error, SESSION_EXC, sampler_class
from ..executor import SimSession, HarnessError
from ..world import gen_policy, LineHook
from .base import Prop, drop_chunks, shrink_policy, _ours

tf = env.setup()


# -- the network under training: small, with a numpy twin --------------------------

def tiny_net(units):
    def get_net(inputs, seed=None, dtype=tf.float64):
        d = int(inputs.shape[1])
        init = tf.random_normal_initializer(stddev=0.7, seed=seed, dtype=dtype)
        w1 = tf.Variable(init([d, units]), name="w1", dtype=dtype)
        b1 = tf.Variable(tf.zeros([units], dtype=dtype), name="b1", dtype=dtype)
        w2 = tf.Variable(tf.random_normal([units, 1], stddev=0.5, dtype=dtype,
                                          seed=None if seed is None else seed + 1),
                         name="w2", dtype=dtype)
        bias = tf.Variable([[-2.0]], name="output_bias", dtype=dtype)
        hidden = tf.tanh(tf.matmul(inputs, w1) + b1)
        out = tf.matmul(hidden, w2)
        return tf.concat([out, tf.ones_like(out) * bias], axis=1)
    return get_net


def reusing_net(units):
    """ The same network, but all calls share one set of variables. """
    def get_net(inputs, seed=None, dtype=tf.float64):
        d = int(inputs.shape[1])
        with tf.variable_scope("reused_net", reuse=tf.AUTO_REUSE, use_resource=False):
            init = tf.random_normal_initializer(stddev=0.7, seed=seed, dtype=dtype)
            w1 = tf.get_variable("w1", [d, units], dtype, initializer=init)
            b1 = tf.get_variable("b1", [units], dtype, initializer=tf.zeros_initializer())
            w2 = tf.get_variable("w2", [units, 1], dtype, initializer=tf.random_normal_initializer(
                stddev=0.5, dtype=dtype, seed=None if seed is None else seed + 1))
            bias = tf.get_variable("output_bias", [1, 1], dtype, initializer=tf.constant_initializer(-2.0))
        hidden = tf.tanh(tf.matmul(inputs, w1) + b1)
        out = tf.matmul(hidden, w2)
        return tf.concat([out, tf.ones_like(out) * bias], axis=1)
    return get_net


NETS = {"tiny": tiny_net, "reuse": reusing_net}


def tiny_forward(params, x):
    w1, b1, w2, bias = [np.asarray(p, dtype=np.float64) for p in params]
    out = np.tanh(np.asarray(x, dtype=np.float64).dot(w1) + b1).dot(w2)
    return out[:, 0], np.full(len(x), float(bias[0, 0]))


def default_forward(params, x):
    h = np.asarray(x, dtype=np.float64)
    params = [np.asarray(p, dtype=np.float64) for p in params]
    for i in range(3):
        h = np.tanh(h.dot(params[2 * i]) + params[2 * i + 1])
    out = h.dot(params[6]) + params[7]
    return out[:, 0], np.full(len(x), float(params[8][0, 0]))


def gen_setup(rng, big=0.05):
    net = "default" if rng.chance(big) else "tiny"
    n = 300 if rng.chance(0.03) else rng.choice((1, 2, 3, 5, 8, 20, 21, 25))
    burn_in = rng.choice((0, 1, 1, 2, 3, 5, 8))
    sample_steps = rng.choice((1, 1, 2, 3, 4, 7))
    n_nets = rng.choice((1, 2, 3, 4, 6))
    # where collection stops: full, out of iterations, or exactly on the edge
    needed = burn_in + 1 + n_nets * sample_steps
    # at least one net is collected
    least = burn_in + sample_steps + 2
    n_iters = max(least, rng.choice((needed + 10, needed + 2, needed, needed - 1, needed - sample_steps,
                                     needed // 2)))
    method = rng.choice(("SGHMC", "SGHMC", "SGLD"))
    kwargs = {}
    if method == "SGHMC" and rng.chance(0.4):
        kwargs["mdecay"] = rng.choice((0.01, 0.1, 0.3))
    if method == "SGLD" and rng.chance(0.3):
        kwargs["A"] = rng.choice((0.5, 2.0))
    schedule = rng.choice(("default", "own", "own"))
    norm_x, norm_y = n >= 3 and rng.chance(0.7), n >= 2 and rng.chance(0.7)
    return {"net": net, "units": rng.choice((1, 2, 3)), "n": n, "d": rng.randint(1, 3),
            "scales": [rng.choice((1., 1., 1., 1e-3, 1e3)) if norm_x else 1.,
                       rng.choice((1., 1., 1., 1e-3, 1e3)) if norm_y else 1.],
            "integers": rng.choice(("", "", "", "", "x", "y", "xy")),
            "data_seed": rng.below(1 << 20), "method": method, "kwargs": kwargs,
            "batch_generator": rng.choice(("default", "generate_shuffled_batches", "own", "epochs")),
            "batch_size": rng.choice((None, 1, 2, 5, n, n + 4)),
            "schedule": {"kind": schedule,
                         "values": [round(rng.choice((0.003, 0.01)) * rng.uniform(0.5, 1.5), 6)
                                    for _ in range(5)]},
            "n_nets": n_nets, "n_iters": n_iters, "burn_in_steps": burn_in,
            "sample_steps": sample_steps,
            "normalize_input": norm_x, "normalize_output": norm_y,
            "dtype": rng.choice(("float64", "float64", "float64", "float32")),
            "seed": rng.choice((None, 0, 1, rng.below(1 << 20)))}


def training_data(s):
    rs = np.random.RandomState(s["data_seed"])
    x = np.round(rs.normal(size=(s["n"], s["d"])) * 2. + 1., 3)
    x += 0.01 * np.arange(s["n"])[:, None]
    y = np.round(np.sin(x.sum(axis=1)) * 3. + 5. + 0.1 * rs.normal(size=s["n"]) +
                 0.01 * np.arange(s["n"]), 3)
    xt = np.round(rs.normal(size=(rs.randint(1, 5), s["d"])) * 2. + 1., 3)
    a, b = s.get("scales", (1., 1.))        # units of the data
    x, y, xt = x * a, y * b, xt * a
    if "x" in s.get("integers", ""):
        x, xt = whole(x), np.round(xt).astype(int)
    if "y" in s.get("integers", ""):
        y = whole(y)
    return x, y, xt


def whole(data):
    """ As integers, not all of them equal. """
    data = np.round(data).astype(int)
    data[0] += data.std(axis=0) == 0
    return data


class Training(object):
    """One BayesianNeuralNetwork on a simulated session, with what can be seen of it."""

    def __init__(self, world, setup, graph=None, session=None):
        self.world, self.setup = world, setup
        self.graph = graph or tf.Graph()
        self.own_session = session is None
        self.session = session or SimSession(world, graph=self.graph)
        from pysgmcmc.models import bayesian_neural_network as module
        from pysgmcmc.sampling import Sampler
        import pysgmcmc.data_batches as db
        s = setup
        kwargs = dict(s["kwargs"])
        if s["batch_size"] is not None:
            kwargs["batch_size"] = s["batch_size"]
        self.batch_size = s["batch_size"] or 20
        self.schedule = None
        if s["schedule"]["kind"] == "own":
            self.schedule = Schedule({"kind": "list", "values": s["schedule"]["values"]})
            kwargs["stepsize_schedule"] = self.schedule
        self.batches = None
        if s["batch_generator"] in ("own", "epochs"):
            def batch_generator(x, x_placeholder, y, y_placeholder, batch_size=20, seed=None):
                source = db.generate_batches if s["batch_generator"] == "own" else epochs
                self.batches = Batches(source(
                    x, y, x_placeholder, y_placeholder, batch_size, seed))
                self.batches.fail_at = self.fail_batch
                return self.batches
            kwargs["batch_generator"] = batch_generator
        elif s["batch_generator"] != "default":
            kwargs["batch_generator"] = getattr(db, s["batch_generator"])
        if s["net"] in NETS:
            kwargs["get_net"] = NETS[s["net"]](s["units"])
        if s["seed"] is not None:
            kwargs["seed"] = s["seed"]
        self.fail_batch = None
        self.x, self.y, self.x_test = training_data(s)
        self.dtype = getattr(tf, s["dtype"])
        with self.graph.as_default():
            self.bnn = module.BayesianNeuralNetwork(
                session=self.session, sampling_method=Sampler(s["method"]),
                n_nets=s["n_nets"], n_iters=s["n_iters"], burn_in_steps=s["burn_in_steps"],
                sample_steps=s["sample_steps"], normalize_input=s["normalize_input"],
                normalize_output=s["normalize_output"], dtype=self.dtype, **kwargs)
        self.states = []
        self.writes = 0
        self.net_vars = None

    # what the network's variables went through
    def watch(self):
        self.world.after_run_hook = self._after_run

    def _after_run(self, execution):
        # executions of other threads and sessions are none of our business
        if execution.session is not self.session:
            return
        if self.net_vars is None:
            # the variables the network under training brought along, first
            names = [n for n in self.variable_names() if n not in self.foreign]
            count = 9 if self.setup["net"] == "default" else 4
            if len(names) < count:
                return
            self.net_vars = names[:count]
            inits = {v.op.name: v.initializer.name
                     for v in self.graph.get_collection(tf.GraphKeys.GLOBAL_VARIABLES)}
            self.inits = [inits.get(name) for name in self.net_vars]
        if any(name in execution.plan.nodes for name in self.inits):
            # (re-)initialised: the chain starts from here
            self.states = []
        values, writes = [], 0
        for name in self.net_vars:
            var = self.session.backend.vars.get(name)
            if var is None or var.buf is None:
                return
            values.append(np.array(var.buf))
            writes += var.writes
        # (a step may leave all values as they are)
        written, self.writes = writes != self.writes, writes
        if self.states and not written and all(np.array_equal(a, b) for a, b in zip(values, self.states[-1])):
            return
        self.states.append(values)
        self.world.log_array("net", *values)
        if self.on_state is not None:
            self.on_state()

    on_state = None

    def variable_names(self):
        return [op.name for op in self.graph.get_operations() if op.type == "VariableV2"]

    def train(self):
        self.foreign, self.net_vars, self.states = set(self.variable_names()), None, []
        if self.setup["net"] == "reuse":
            self.foreign = {n for n in self.foreign if not n.startswith("reused_net/")}
        # what it was trained on, whatever the caller does with the arrays later
        self.seen_x, self.seen_y = self.x.copy(), self.y.copy()
        with self.graph.as_default():
            self.bnn.train(self.x, self.y)

    def other_data(self, seed):
        """ What the next training will see: more points, on another scale. """
        rs = np.random.RandomState(seed)
        extra = seed % 3
        self.x = np.round(np.concatenate([self.seen_x * 1.5 + 0.25,
                                          rs.normal(size=(extra, self.setup["d"])) * 2.]), 3)
        self.y = np.round(np.concatenate([self.seen_y * 0.5 - 1., rs.normal(size=extra)]), 3)

    def predict(self, **kw):
        with self.graph.as_default():
            return self.bnn.predict(self.x_test, **kw)

    def samples(self):
        return [[np.asarray(v) for v in s] for s in self.bnn.samples]

    def finite(self):
        return all(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e6 for s in self.states for v in s)

    def close(self):
        self.world.after_run_hook = None
        if self.own_session:
            self.session.close()

    # -- oracles --------------------------------------------------------
    def chain_states(self):
        """States produced by steps: the first seen is the initial one."""
        return self.states[1:]

    def check_collection(self):
        s = self.setup
        samples, states = self.samples(), self.chain_states()
        if not self.bnn.is_trained:
            raise Violation("trained_network_says_it_is_not")
        if len(states) > s["n_iters"]:
            raise Violation("more_iterations_than_asked_for", steps=len(states), n_iters=s["n_iters"])
        if len(samples) > s["n_nets"]:
            raise Violation("more_nets_than_asked_for", collected=len(samples), n_nets=s["n_nets"])
        # chains may stand still for a while: look for the whole pattern first
        step = s["sample_steps"]
        for first in range(s["burn_in_steps"], s["burn_in_steps"] + step + 1):
            where = [first + k * step for k in range(len(samples))]
            end = where[-1] + 1 if len(samples) == s["n_nets"] else s["n_iters"]
            if where and where[-1] < len(states) == end < (where[-1] + 1 + step if len(
                    samples) < s["n_nets"] else np.inf) and all(
                    len(sample) == len(states[t]) and all(
                        a.shape == b.shape and np.array_equal(a, b) for a, b in zip(sample, states[t]))
                    for sample, t in zip(samples, where)):
                return where
        where = []
        for k, sample in enumerate(samples):
            hit = None
            for t in range(where[-1] + 1 if where else 0, len(states)):
                if len(sample) == len(states[t]) and all(
                        a.shape == b.shape and np.array_equal(a, b) for a, b in zip(sample, states[t])):
                    hit = t
                    break
            if hit is None:
                raise Violation("collected_net_is_not_a_later_state_of_the_chain", net=k, found=where)
            where.append(hit)
        for k, t in enumerate(where):
            if t < s["burn_in_steps"]:
                raise Violation("net_collected_during_burn_in", net=k, step=t + 1,
                                burn_in_steps=s["burn_in_steps"])
        for a, b in zip(where, where[1:]):
            if b - a != s["sample_steps"]:
                raise Violation("nets_are_not_sample_steps_apart", steps=[t + 1 for t in where],
                                sample_steps=s["sample_steps"])
        if not where:
            raise Violation("no_net_was_collected", setup=s)
        if where[0] > s["burn_in_steps"] + s["sample_steps"]:
            raise Violation("collection_starts_late", first=where[0] + 1)
        if len(samples) == s["n_nets"]:
            if len(states) != where[-1] + 1:
                raise Violation("training_goes_on_after_the_last_net", steps=len(states),
                                last=where[-1] + 1)
        else:
            if len(states) != s["n_iters"]:
                raise Violation("training_stopped_early", steps=len(states), n_iters=s["n_iters"])
            if where[-1] + s["sample_steps"] < s["n_iters"]:
                raise Violation("a_net_is_missing_at_the_end", last=where[-1] + 1,
                                n_iters=s["n_iters"])
        raise Violation("nets_are_not_sample_steps_apart", steps=[t + 1 for t in where], sample_steps=step)

    def expected_prediction(self, samples):
        s = self.setup
        x = self.x_test
        if s["normalize_input"]:
            x = (x - self.seen_x.mean(axis=0)) / self.seen_x.std(axis=0)
        forward = default_forward if s["net"] == "default" else tiny_forward
        f, v = [], []
        for params in samples:
            mean, logvar = forward(params, x)
            f.append(mean)
            v.append(np.exp(logvar))
        f, v = np.array(f), np.array(v)
        mean, var = f.mean(axis=0), f.var(axis=0)
        if s["normalize_output"]:
            m, sd = self.seen_y.mean(), self.seen_y.std()
            f, v, mean, var = f * sd + m, v * sd ** 2, mean * sd + m, var * sd ** 2
        return mean, var, f, v


def train_or_violate(t):
    try:
        t.train()
    except (Violation, HarnessError):
        raise
    except Exception as error:
        if _ours(error):
            raise
        raise Violation("training_failed_without_a_fault",
                        error="%s: %s" % (type(error).__name__, str(error)[:400]))


def close_to(a, b, rtol, atol=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore", over="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= rtol * (np.abs(a) + np.abs(b)) + atol)))


def close_exp(a, b, rtol, atol):
    """Exponentials of close numbers: the larger the number, the less close."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    with np.errstate(all="ignore"):
        size = np.log(np.clip(np.abs(b), 1e-300, 1e300))
        return close_to(np.where(a > 1e300, np.inf, a), np.where(b > 1e300, np.inf, b),
                        rtol * (1. + np.abs(size)), atol)


class BNNProp(Prop):
    chunk, recycle = 5, 60
    quick, thorough = 220, 4000

    def gen(self, rng, index):
        return {"setup": gen_setup(rng, self.big), "policy": gen_policy(rng),
                "wseed": rng.below(1 << 30), "jumps": [[rng.below(30), rng.choice((-7200., -5., 1e5, 3e8))]
                                                      for _ in range(rng.below(3))],
                "stalls": [[rng.below(60), rng.choice((5., 600., 1e5))] for _ in range(rng.below(3))]}

    big = 0.04

    def shape(self, case):
        s = case["setup"]
        return "%s/%s/%s/%s" % (s["method"], s["net"], s["batch_generator"], case["policy"]["kind"])

    def arm_clock(self, ctx, world, case):
        jumps = {k: dt for k, dt in case.get("jumps", ())}
        stalls = {k: dt for k, dt in case.get("stalls", ())}
        if not jumps and not stalls:
            return
        real = world.begin_run

        def begin_run(execution):
            dt = jumps.get(world.runs)
            if dt is not None:
                env.CLOCK.jump(dt)
                world.fault_fired("clock_jump", "back" if dt < 0 else "forward")
            if world.runs in stalls:
                # the whole process stood still: every clock went on
                env.CLOCK.advance(stalls[world.runs])
                world.fault_fired("clock_stall")
            return real(execution)
        world.begin_run = begin_run

    def nontrivial(self, case, summary):
        return summary["probes"].get("trainings", 0) > 0

    def shrink(self, case):
        s = case["setup"]
        simple = (("net", "tiny"), ("units", 1), ("d", 1), ("method", "SGHMC"), ("kwargs", {}),
                  ("batch_generator", "default"), ("integers", ""), ("batch_size", 1), ("schedule", {"kind": "default", "values": [0.01]}),
                  ("normalize_input", False), ("normalize_output", False), ("dtype", "float64"),
                  ("n_nets", 1), ("sample_steps", 1), ("burn_in_steps", 1), ("n", 3), ("seed", 1),
                  ("scales", [1., 1.]))
        for key, value in simple:
            if s[key] != value and not (key == "seed" and s[key] is None):
                yield dict(case, setup=dict(s, **{key: value}))
        for n in (s["n_iters"] // 2, s["n_iters"] - 1):
            if n >= s["burn_in_steps"] + s["sample_steps"] + 2 and n < s["n_iters"]:
                yield dict(case, setup=dict(s, n_iters=n))
        if case.get("jumps"):
            yield dict(case, jumps=[])
        if case.get("stalls"):
            yield dict(case, stalls=[])
        for c in shrink_policy(case):
            yield c


class C15(BNNProp):
    id = "C15"
    rule = ("one BNN trained end to end, sometimes once more on other data, with random collection settings "
            "under a random operation order and clock jumps; the collected nets are located in the sequence of "
            "states the network's variables went through. Non-trivial: training completed.")

    def gen(self, rng, index):
        case = BNNProp.gen(self, rng, index)
        if case["setup"]["net"] != "default":
            if rng.chance(0.15):
                case["setup"]["net"] = "reuse"
            case["again"] = int(rng.chance(0.3))
        if rng.chance(0.15):
            # the chain stands still for a few steps
            s = case["setup"]
            s["method"], s["kwargs"] = "SGLD", {}
            s["schedule"] = {"kind": "own", "values": [0.01] + [0.] * rng.randint(1, 6)}
        return case

    def shrink(self, case):
        if case.get("again"):
            yield dict(case, again=0)
        for c in BNNProp.shrink(self, case):
            yield c

    def run(self, case, ctx):
        world = ctx.world(case["policy"])
        self.arm_clock(ctx, world, case)
        t = Training(world, case["setup"])
        try:
            t.watch()
            for again in range(1 + case.get("again", 0)):
                if again:
                    t.other_data(case["wseed"])
                    world.fault_fired("trained_again")
                if self.one(t, case, ctx) is False:
                    break
        finally:
            t.close()

    def one(self, t, case, ctx):
        train_or_violate(t)
        ctx.probe("trainings")
        if not t.finite():
            ctx.probe("left_domain")
            return False
        where = t.check_collection()
        ctx.probe("collected_all" if len(where) == case["setup"]["n_nets"] else "ran_out_of_iterations")
        # prediction and a later life of the session leave the collection alone
        before = [[v.copy() for v in s] for s in t.samples()]
        t.predict()
        with t.graph.as_default():
            t.session.run(tf.global_variables_initializer())
        after = t.samples()
        if len(before) != len(after) or any(
                not np.array_equal(a, b) for x, y in zip(before, after) for a, b in zip(x, y)):
            raise Violation("collected_nets_changed_after_training")


class C16(BNNProp):
    id = "C16"
    rule = ("one trained BNN asked to predict repeatedly, by one or several preempted threads, at the same "
            "and other points, after its variables were overwritten, its sampler advanced, an earlier predict "
            "failed, the caller reused the arrays it passed or was given, or the network was trained again; "
            "compared with a numpy ensemble over the collected nets. Non-trivial: at least one prediction "
            "compared.")

    def gen(self, rng, index):
        case = BNNProp.gen(self, rng, index)
        ops, trained = [], 1
        if case["setup"]["net"] == "tiny" and rng.chance(0.15):
            case["setup"]["net"] = "reuse"
        for _ in range(rng.randint(2, 7)):
            op = rng.choice(("predict", "predict", "individual", "overwrite", "advance", "fail",
                             "threads", "reinit", "elsewhere", "elsewhere", "reuse_points",
                             "reuse_results", "reuse_training", "retrain"))
            if op == "retrain":
                # every training adds a sampler to the graph
                if case["setup"]["net"] == "default" or trained >= 2:
                    op = "predict"
                else:
                    trained += 1
            ops.append([op, rng.below(1 << 20)])
        ops.append(["predict", 0])
        case["ops"] = ops
        case["baton"] = {"seed": rng.below(1 << 30), "p_op": 0.05, "p_line": 0.1, "p_call": 1.0}
        return case

    def run(self, case, ctx):
        world = ctx.world(case["policy"], baton=case["baton"])
        t = Training(world, case["setup"])
        try:
            t.watch()
            if not self.train(t, ctx):
                return
            rtol = 1e-9 if case["setup"]["dtype"] == "float64" else 1e-4
            self.compare(t, rtol, ctx, "predict")
            for op, arg in case["ops"]:
                if getattr(self, "do_" + op)(t, arg, rtol, ctx, world) is False:
                    return
        finally:
            t.close()

    def train(self, t, ctx):
        train_or_violate(t)
        ctx.probe("trainings")
        if not t.finite():
            ctx.probe("left_domain")
            return False
        # the nets as they were when training ended
        t.nets = [[v.copy() for v in s] for s in t.samples()]
        t.given = []
        return True

    def compare(self, t, rtol, ctx, what):
        variables = self.variables(t)
        want = t.expected_prediction(t.nets)
        points = t.x_test.copy()
        scale = float(np.max(np.abs(want[0]), initial=0.) + np.max(np.abs(want[2]), initial=0.) + 1.)
        try:
            if what == "individual":
                a, b = f, v = t.predict(return_individual_predictions=True)
                good = close_to(f, want[2], rtol, rtol * scale) and close_exp(v, want[3], rtol * 10, rtol)
            else:
                a, b = mean, var = t.predict()
                good = close_to(mean, want[0], rtol, rtol * scale) and \
                    close_to(var, want[1], rtol * 100, rtol * 10 * scale ** 2)
        except (Violation, HarnessError):
            raise
        except Exception as error:
            if _ours(error):
                raise
            raise Violation("prediction_failed_without_a_fault",
                            error="%s: %s" % (type(error).__name__, str(error)[:300]))
        ctx.probe("predictions_compared")
        if not good:
            raise Violation("prediction_is_not_that_of_the_collected_nets", individual=what == "individual",
                            got=np.asarray(f if what == "individual" else mean).tolist(),
                            expected=np.asarray(want[2] if what == "individual" else want[0]).tolist(),
                            variance=None if what == "individual" else np.asarray(var).tolist(),
                            expected_variance=None if what == "individual" else want[1].tolist())
        if not np.array_equal(points, t.x_test):
            raise Violation("prediction_changed_the_callers_points")
        after = self.variables(t)
        if set(variables) - set(after) or any(not np.array_equal(variables[k], after[k]) for k in variables):
            raise Violation("prediction_changed_the_sessions_variables")
        for result, copy_of_it in t.given:
            if not np.array_equal(result, copy_of_it):
                raise Violation("an_earlier_prediction_changed_later")
        t.given = (t.given + [(r, np.array(r)) for r in (a, b) if isinstance(r, np.ndarray)])[-8:]

    def variables(self, t):
        return {k: np.array(v.buf) for k, v in t.session.backend.vars.items() if v.buf is not None}

    def do_predict(self, t, arg, rtol, ctx, world):
        self.compare(t, rtol, ctx, "predict")

    def do_individual(self, t, arg, rtol, ctx, world):
        self.compare(t, rtol, ctx, "individual")

    def points(self, t, arg, rows=None):
        rs = np.random.RandomState(arg)
        rows = rows or (rs.choice((0, 150, 600, 1100, 2100)) if rs.rand() < 0.15 else rs.randint(1, 6))
        return np.round(rs.normal(size=(rows, t.setup["d"])) * 2. + 1., 3)

    def do_elsewhere(self, t, arg, rtol, ctx, world):
        """ Other points: another array of the same or another size, laid out differently. """
        x = self.points(t, arg, len(t.x_test) if arg % 3 == 0 else None)
        kind = (arg >> 3) % 4
        if kind == 1:
            x = np.asfortranarray(x)
        elif kind == 2:
            x = np.repeat(x, 2, axis=0)[::2]
        elif kind == 3:
            x = x.astype(np.float32).astype(np.float64)
        t.x_test = x
        self.compare(t, rtol, ctx, "individual" if arg & 1 else "predict")

    def do_reuse_points(self, t, arg, rtol, ctx, world):
        """ The caller fills the array it predicted at with other points. """
        self.compare(t, rtol, ctx, "predict" if arg & 2 else "individual")
        t.x_test[...] = self.points(t, arg, len(t.x_test))
        world.fault_fired("callers_array_reused", "points")
        self.compare(t, rtol, ctx, "individual" if arg & 1 else "predict")

    def do_reuse_results(self, t, arg, rtol, ctx, world):
        """ The caller works on the arrays it was given. """
        for result, _ in t.given:
            if result.flags.writeable:
                result[...] = float(arg % 1000) - 500.
        t.given = []
        world.fault_fired("callers_array_reused", "results")
        self.compare(t, rtol, ctx, "individual" if arg & 1 else "predict")

    def do_reuse_training(self, t, arg, rtol, ctx, world):
        """ The caller fills the arrays it trained on with something else. """
        rs = np.random.RandomState(arg)
        t.x[...] = rs.normal(size=t.x.shape) * 5.
        t.y[...] = rs.normal(size=t.y.shape) * 5.
        world.fault_fired("callers_array_reused", "training")
        self.compare(t, rtol, ctx, "predict")

    def do_retrain(self, t, arg, rtol, ctx, world):
        """ The network is trained again, in the same graph, on other data. """
        t.other_data(arg)
        if not self.train(t, ctx):
            return False
        world.fault_fired("trained_again")
        self.compare(t, rtol, ctx, "individual" if arg & 1 else "predict")

    def do_overwrite(self, t, arg, rtol, ctx, world):
        with t.graph.as_default():
            rs = np.random.RandomState(arg)
            for v in tf.trainable_variables():
                v.load(rs.normal(size=v.shape.as_list()).astype(v.dtype.base_dtype.as_numpy_dtype), t.session)
        world.fault_fired("external_write")

    def do_reinit(self, t, arg, rtol, ctx, world):
        with t.graph.as_default():
            t.session.run(tf.global_variables_initializer())
        world.fault_fired("variables_reset")

    def do_advance(self, t, arg, rtol, ctx, world):
        with t.graph.as_default():
            for _ in range(1 + arg % 3):
                next(t.bnn.sampler)
        world.fault_fired("sampler_advanced")

    def do_fail(self, t, arg, rtol, ctx, world):
        world.plan_session_fault(1 + arg % max(1, len(t.bnn.samples)),
                                 {"when": ("pre", "mid", "post")[arg % 3], "at": (arg % 97) / 97.,
                                  "exc": SESSION_EXC[arg % len(SESSION_EXC)]})
        try:
            t.predict()
        except HarnessError:
            raise
        except BaseException as error:
            if "injected" not in str(error):
                raise Violation("fault_in_predict_was_disguised", error=str(error)[:300])
        else:
            if not world.fault_plan:
                raise Violation("fault_in_predict_was_swallowed")
        world.fault_plan.clear()
        ctx.probe("predictions_failed")

    def do_threads(self, t, arg, rtol, ctx, world):
        want = t.expected_prediction(t.nets)

        def body(what):
            return lambda: t.predict(return_individual_predictions=what)
        kinds = [False, bool(arg & 1), bool(arg & 2)]
        tasks = world.baton.run([("p%d" % i, body(k)) for i, k in enumerate(kinds)], line_trace=True)
        scale = float(np.max(np.abs(want[0]), initial=0.) + np.max(np.abs(want[2]), initial=0.) + 1.)
        for task, individual in zip(tasks, kinds):
            if task.error is not None:
                if isinstance(task.error, HarnessError):
                    raise task.error
                raise Violation("concurrent_prediction_failed", error=str(task.error)[:300])
            a, b = task.result
            first, second = (want[2], want[3]) if individual else (want[0], want[1])
            if not close_to(a, first, rtol, rtol * scale) or \
                    not close_to(b, second, rtol * 100, rtol * 10 * scale ** 2):
                raise Violation("concurrent_prediction_is_wrong", individual=individual)
        ctx.probe("concurrent_predictions", len(tasks))

    def nontrivial(self, case, summary):
        return summary["probes"].get("predictions_compared", 0) > 0

    def shrink(self, case):
        for i in range(len(case["ops"])):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        for c in BNNProp.shrink(self, case):
            yield c


class C17(BNNProp):
    id = "C17"
    rule = ("BNN training struck by a fault at a random session.run, operation, batch, step size or source "
            "line, first training or a repetition; afterwards the network must not claim to be trained "
            "nor predict, and a new one must train. Non-trivial: the fault fired.")
    big = 0.02

    def gen(self, rng, index):
        case = BNNProp.gen(self, rng, index)
        s = case["setup"]
        kinds = ["session", "session", "session", "line", "line", "line"]
        if s["schedule"]["kind"] == "own":
            kinds += ["next", "next", "update"]
        if s["batch_generator"] in ("own", "epochs"):
            kinds += ["batch", "batch"]
        kind = rng.choice(kinds)
        steps = s["n_iters"]
        fault = {"kind": kind}
        if kind == "session":
            fault.update(when=rng.choice(("pre", "mid", "post")), exc=rng.choice(SESSION_EXC),
                         at=round(rng.random(), 3), after=rng.randint(1, steps + 6))
        elif kind == "line":
            fault.update(line=rng.randint(1, rng.choice((40, 120, 200 + 14 * steps))),
                         exc=rng.choice(("KeyboardInterrupt", "MemoryError")))
        else:
            fault.update(after=rng.below(steps), exc=rng.choice(
                ("RuntimeError", "OSError", "KeyboardInterrupt", "StopIteration")))
            if fault["exc"] == "StopIteration" and kind != "batch":
                fault["exc"] = "RuntimeError"
        case["fault"] = fault
        case["retrain"] = rng.chance(0.3) and s["net"] == "tiny"
        case["recover"] = rng.chance(0.3)
        return case

    def run(self, case, ctx):
        world = ctx.world(case["policy"])
        self.arm_clock(ctx, world, case)
        fault = case["fault"]
        t = Training(world, case["setup"])
        try:
            trained_before = False
            if case["retrain"]:
                t.train()
                trained_before = True
                ctx.probe("trainings")
                # the next training sees other data (other also once it is normalised)
                t.before = t.predict(return_individual_predictions=True)
                t.x = t.x * 1.5 + 0.25
                t.y = t.y * 0.5 - 1. + np.cos(5. * np.arange(len(t.y))).reshape(t.y.shape)
            self.attempt(t, fault, ctx, world, trained_before)
        finally:
            t.close()
        if case["recover"]:
            again = ctx.world(case["policy"], primary=False)
            t2 = Training(again, case["setup"])
            try:
                t2.watch()
                train_or_violate(t2)
                ctx.probe("recovered")
                if t2.finite():
                    t2.check_collection()
                    t2.predict()
            finally:
                t2.close()

    def attempt(self, t, fault, ctx, world, trained_before):
        hook = None
        kind = fault["kind"]
        if kind == "session":
            world.plan_session_fault(fault["after"], fault)
        elif kind == "line":
            hook = LineHook(world, {"line": fault["line"], "exc": fault["exc"]}, skip=())
        elif kind in ("next", "update"):
            sched = t.schedule
            base = len(sched.drawn) if kind == "next" else len(sched.updates)

            def trigger():
                n = len(sched.drawn) if kind == "next" else len(sched.updates)
                return n - base == fault["after"]
            original = sched.__class__

            class Failing(original):
                def __next__(self):
                    if kind == "next" and trigger() and not self.fired:
                        self.fired = True
                        world.fault_fired("client_next", fault["exc"])
                        raise client_error(fault["exc"])
                    return original.__next__(self)

                def update(self, *a, **k):
                    if kind == "update" and trigger() and not self.fired:
                        self.fired = True
                        world.fault_fired("client_update", fault["exc"])
                        raise client_error(fault["exc"])
                    return original.update(self, *a, **k)
            sched.__class__ = Failing
            sched.fired = False
        elif kind == "batch":
            t.fail_batch = None
            make = t.bnn.batch_generator

            def batch_generator(*a, **k):
                inner = make(*a, **k)

                class Source(object):
                    n = 0

                    def __iter__(self):
                        return self

                    def __next__(self):
                        if self.n == fault["after"]:
                            self.n += 1
                            world.fault_fired("client_batch", fault["exc"])
                            raise client_error(fault["exc"])
                        self.n += 1
                        return next(inner)
                return Source()
            t.bnn.batch_generator = batch_generator
        error = None
        faults_before = dict(world.faults)
        old = [[np.array(v) for v in s] for s in t.bnn.samples] if trained_before else []
        try:
            if hook:
                hook.start()
            try:
                t.train()
            finally:
                if hook:
                    hook.stop()
        except HarnessError:
            raise
        except BaseException as exc:
            error = exc
        world.fault_plan.clear()
        fired = {k: v for k, v in world.faults.items()
                 if v != faults_before.get(k) and not k.startswith("clock")}
        world.log("training", type(error).__name__ if error is not None else None, sorted(fired))
        if fired:
            ctx.probe("training_struck")
        # a step source that ends by StopIteration may legitimately end the chain early
        stop = kind == "batch" and fault["exc"] == "StopIteration" and fired
        if error is None and fired and not stop:
            raise Violation("a_fault_during_training_was_swallowed", fault=fault)
        if error is not None and not fired and not trained_before:
            raise Violation("training_failed_without_a_fault",
                            error="%s: %s" % (type(error).__name__, str(error)[:300]))
        if error is not None:
            # failed: it must neither claim to be trained nor predict -- except that one struck before
            # it changed anything may go on serving the whole earlier training
            if t.bnn.is_trained:
                now = t.samples()
                kept = trained_before and len(now) == len(old) and all(
                    len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))
                    for a, b in zip(old, now))
                if kept and all(close_to(a, b, 1e-6) for a, b in zip(
                        t.before, t.predict(return_individual_predictions=True))):
                    ctx.probe("earlier_training_still_served")
                    return
                raise Violation("failed_training_claims_to_be_trained", fault=fault,
                                nets=len(now), unchanged_nets=kept)
            try:
                t.predict()
            except HarnessError:
                raise
            except Exception:
                ctx.probe("predict_refused")
            else:
                raise Violation("failed_training_predicts", fault=fault, nets=len(t.bnn.samples))
        else:
            ctx.probe("trainings")
            if not t.bnn.is_trained:
                raise Violation("trained_network_says_it_is_not")
            if trained_before:
                new = t.samples()
                if len(old) and len(new) and any(
                        len(a) == len(b) and all(np.array_equal(p, q) and np.all(np.isfinite(p))
                                                 for p, q in zip(a, b))
                        for a in old for b in new):
                    raise Violation("nets_of_an_earlier_training_survive")

    def nontrivial(self, case, summary):
        return summary["probes"].get("training_struck", 0) > 0

    def shrink(self, case):
        if case["recover"]:
            yield dict(case, recover=False)
        if case["retrain"]:
            yield dict(case, retrain=False)
        for c in BNNProp.shrink(self, case):
            yield c
        f = case["fault"]
        for key in ("after", "line"):
            if f.get(key, 0) > 1:
                yield dict(case, fault=dict(f, **{key: f[key] // 2}))
                yield dict(case, fault=dict(f, **{key: f[key] - 1}))


class C18(BNNProp):
    id = "C18"
    rule = ("the same seeded BNN trained twice in fresh graphs with different operation orders, clocks, "
            "entropy and global random state; collected nets and predictions must agree, also with those of "
            "processes with another hash seed. Non-trivial: both trainings completed.")
    quick, thorough = 160, 3000
    twins = (40, 600)
    big = 0.06

    def gen(self, rng, index):
        case = BNNProp.gen(self, rng, index)
        if case["setup"]["seed"] is None:
            case["setup"]["seed"] = rng.choice((0, 1, 1234, rng.below(1 << 20)))
        if rng.chance(0.08):
            case["other_seed"] = case["setup"]["seed"] + 1
        case["entropy"] = rng.below(1 << 30)
        return case

    def run(self, case, ctx):
        results = []
        for k in range(2):
            if k == 0:
                world = ctx.world({"kind": "fifo"}, primary=False)
            else:
                world = ctx.world(case["policy"], entropy=case["entropy"])
                self.arm_clock(ctx, world, case)
                env.CLOCK.jump(1e6)
                np.random.seed(case["entropy"] % 2 ** 31)
                random.seed(case["entropy"])
                ctx.fault("global_random_state_changed")
            setup = case["setup"]
            if k == 1 and case.get("other_seed") is not None:
                setup = dict(setup, seed=case["other_seed"])
            t = Training(world, setup)
            try:
                t.watch()
                train_or_violate(t)
                ctx.probe("trainings")
                if not t.finite():
                    ctx.probe("left_domain")
                    return
                results.append((t.samples(), t.predict()))
            finally:
                t.close()
        (s1, p1), (s2, p2) = results
        rtol = 1e-8 if case["setup"]["dtype"] == "float64" else 1e-3
        same = len(s1) == len(s2) and all(
            len(a) == len(b) and all(close_to(u, v, rtol, rtol * 0.01) for u, v in zip(a, b))
            for a, b in zip(s1, s2))
        if case.get("other_seed") is not None:
            if same:
                raise Violation("different_seeds_same_network")
            return
        ctx.same_everywhere([v for s in s1 for v in s] + list(p1), rtol * 100)
        ctx.notes["samples"] = repr([[v.tolist() for v in s] for s in s1])
        if not same:
            raise Violation("same_seed_different_network", nets=[len(s1), len(s2)])
        if not all(close_to(a, b, rtol * 100, rtol) for a, b in zip(p1, p2)):
            raise Violation("same_seed_different_predictions")

    def nontrivial(self, case, summary):
        return summary["probes"].get("trainings", 0) >= 2


class C26(BNNProp):
    id = "C26"
    rule = ("one BNN trained with equal random numbers next to a chain built by hand: same network, a "
            "posterior written down independently, the sampler with the settings the BNN was given; every "
            "state the network goes through must agree, also if other variables, chains or networks, or an "
            "earlier training of this one, are in its graph. Non-trivial: at least 3 states compared.")
    quick, thorough = 180, 3500
    big = 0.0

    def gen(self, rng, index):
        case = BNNProp.gen(self, rng, index)
        case["setup"]["net"] = "default" if rng.chance(0.06) else "tiny"
        case["setup"]["seed"] = rng.choice((0, 1, 99, rng.below(1 << 20)))
        case["setup"]["dtype"] = "float64"
        case["before"] = [rng.choice(("variables", "chain", "network", "training"))
                          for _ in range(rng.choice((0, 0, 1, 2)))]
        if case["setup"]["net"] == "default":      # there is one in a graph
            case["before"] = [what for what in case["before"] if what != "training"]
        # in a graph where something precedes it a training takes its time
        if "training" in case["before"] or "network" in case["before"]:
            case["setup"]["n_iters"] = min(case["setup"]["n_iters"],
                                           case["setup"]["burn_in_steps"] + case["setup"]["sample_steps"] + 8)
        return case

    def surround(self, t, world, case):
        """ What is in graph and session before the training that counts. """
        for k, what in enumerate(case["before"]):
            with t.graph.as_default():
                if what == "variables":
                    v = tf.Variable([0.5, -3.0], dtype=tf.float64, name="foreign%d" % k)
                    w = tf.Variable(7.0, dtype=tf.float64, trainable=False, name="untrainable%d" % k)
                    t.session.run(tf.variables_initializer([v, w]))
                elif what == "chain":
                    v = tf.Variable([0.5, -1.0], dtype=tf.float64, name="foreign%d" % k)
                    chain = sampler_class("SGHMC")(params=[v], cost_fun=lambda p: tf.reduce_sum(tf.square(p[0])),
                                                   session=t.session, dtype=tf.float64, burn_in_steps=2)
                    t.session.run(tf.global_variables_initializer())
                    for _ in range(3):
                        next(chain)
            if what == "network":
                small = dict(case["setup"], net="tiny", seed=5, units=1, method="SGHMC", kwargs={}, n_iters=4, n_nets=1,
                             burn_in_steps=1, sample_steps=1, schedule={"kind": "default", "values": []})
                other = Training(world, small, graph=t.graph, session=t.session)
                other.train()
            elif what == "training":
                x, y = t.x, t.y
                t.x, t.y = x * 1.5 + 0.25, y * 0.5 - 1.
                train_or_violate(t)
                t.x, t.y = x, y
            world.probe("surrounded_by_" + what)

    def run(self, case, ctx):
        s = case["setup"]
        world = ctx.world(case["policy"])
        self.arm_clock(ctx, world, case)
        t = Training(world, s)
        try:
            self.surround(t, world, case)
            # step sizes go on where an earlier training left them
            drawn = len(t.schedule.drawn) if t.schedule else 0
            t.watch()
            train_or_violate(t)
            ctx.probe("trainings")
            if not t.finite():
                ctx.probe("left_domain")
                return
            got = t.states
        finally:
            t.close()
        twin = ctx.world({"kind": "fifo"}, primary=False)
        want = self.by_hand(twin, s, t, len(got) - 1, drawn)
        if len(want) != len(got):
            raise Violation("states_differ_in_number", bnn=len(got), by_hand=len(want))
        for k, (a, b) in enumerate(zip(got, want)):
            ctx.probe("states_compared")
            for i, (u, v) in enumerate(zip(a, b)):
                if not close_to(u, v, 1e-6, 1e-9):
                    raise Violation("training_departs_from_the_posteriors_chain", step=k, param=i,
                                    bnn=u.tolist(), by_hand=v.tolist())

    def by_hand(self, world, s, t, steps, drawn):
        graph = tf.Graph()
        session = SimSession(world, graph=graph)
        import pysgmcmc.data_batches as db
        try:
            with graph.as_default():
                x, y = t.x, t.y
                if s["normalize_input"]:
                    x = (x - x.mean(axis=0)) / x.std(axis=0)
                if s["normalize_output"]:
                    y = (y - y.mean()) / y.std()
                n = s["n"]
                xp = tf.placeholder(tf.float64, (None, s["d"]))
                yp = tf.placeholder(tf.float64)
                net = t.bnn.get_net if s["net"] == "default" else tiny_net(s["units"])
                out = net(xp, seed=s["seed"], dtype=tf.float64)
                params = tf.trainable_variables()
                mean, logvar = out[:, :1], out[:, 1:]
                loglik = tf.reduce_sum(-tf.square(yp - mean) / (2. * (tf.exp(logvar) + 1e-16)) - 0.5 * logvar)
                var_prior = tf.reduce_mean(tf.reduce_sum(
                    -tf.square(logvar - np.log(1e-6)) / (2. * 0.01) - 0.5 * np.log(0.01), axis=1))
                size = sum(int(np.prod(p.shape.as_list())) for p in params)
                w_prior = sum(tf.reduce_sum(-0.5 * tf.square(p)) for p in params) / float(size)
                cost = -(loglik / float(t.batch_size) + (var_prior + w_prior) / float(n))
                source = {"epochs": epochs, "generate_shuffled_batches": db.generate_shuffled_batches}.get(
                    s["batch_generator"], db.generate_batches)
                batches = source(x, y, xp, yp, t.batch_size, s["seed"])
                kwargs = dict(s["kwargs"], params=params, cost_fun=lambda *_: cost, batch_generator=batches,
                              session=session, seed=s["seed"], dtype=tf.float64,
                              burn_in_steps=s["burn_in_steps"], scale_grad=n)
                if s["schedule"]["kind"] == "own":
                    schedule = Schedule({"kind": "list", "values": s["schedule"]["values"]})
                    for _ in range(drawn):
                        next(schedule)
                    kwargs["stepsize_schedule"] = schedule
                else:
                    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
                    kwargs["stepsize_schedule"] = ConstantStepsizeSchedule(np.sqrt(1e-4))
                sampler = sampler_class(s["method"])(**kwargs)
                session.run(tf.global_variables_initializer())

                def values():
                    return [np.array(session.backend.vars[p.op.name].buf) for p in params]
                states = [values()]
                for _ in range(steps):
                    next(sampler)
                    states.append(values())
                return states
        finally:
            session.close()

    def nontrivial(self, case, summary):
        return summary["probes"].get("states_compared", 0) >= 3

    def shrink(self, case):
        for before in drop_chunks(case["before"]):
            yield dict(case, before=before)
        for c in BNNProp.shrink(self, case):
            yield c
