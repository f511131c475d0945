"""selftest [--n N]: is the simulator faithful, and is it deterministic?

1. Random chains of every sampler on a real tf.Session and on the simulated one (random operations fed
   alike) must give the same samples and costs.
2. Graphs with control flow, TensorArrays, gradients through them, variables, feeds: equal results.
3. Every property: some cases run twice, with 1 and 8 workers and other hash seeds: equal digests.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from . import env
tf = env.setup()

from .chain import gen_cfg, gen_noise, Chain                # noqa: E402
from .executor import SimSession                            # noqa: E402
from .world import World, Prng                              # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


class _Vars(object):
    def __init__(self, session):
        self.session = session

    def get(self, name):
        for v in self.session.graph.get_collection(tf.GraphKeys.GLOBAL_VARIABLES):
            if v.op.name == name:
                class Var(object):
                    buf = None
                try:
                    Var.buf = tf.Session.run(self.session, v)
                except tf.errors.FailedPreconditionError:
                    Var.buf = None
                return Var
        return None


class RealSession(tf.Session):
    """TensorFlow's own session, with prescribed random numbers."""

    def __init__(self, world, graph):
        super().__init__(graph=graph)
        self.world = world
        self.backend = self
        self.vars = _Vars(self)

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        z = self.world.noise.flat
        feed_dict = dict(feed_dict or {})
        if z is not None:
            for op in self.graph.get_operations():
                if op.type == "RandomStandardNormal":
                    shape = op.outputs[0].shape.as_list()
                    feed_dict[op.outputs[0]] = np.full(shape, z, op.outputs[0].dtype.as_numpy_dtype)
        return super().run(fetches, feed_dict, options, run_metadata)


def samplers(n):
    bad = 0
    for k in range(n):
        rng = Prng("selftest", k)
        cfg = gen_cfg(rng, inits=("before", "after", "uninit", "restore"))
        zs = gen_noise(rng, 10)
        out = []
        for real in (True, False):
            world = World(k, {"kind": "fifo" if k % 2 else "random", "seed": k})
            graph = tf.Graph()
            session = RealSession(world, graph) if real else SimSession(world, graph=graph)
            try:
                chain = Chain(world, json.loads(json.dumps(cfg)), graph=graph, session=session)
                rows = []
                for z in zs:
                    rec = chain.step({"z": z})
                    if rec is None or chain.dead:
                        break
                    rows.append(np.concatenate([np.ravel(v) for v in rec["sample"]] + [np.ravel(rec["cost"])]))
                out.append(rows)
            finally:
                session.close()
        rtol = 1e-8 if cfg["dtype"] == "float64" else 2e-3
        same = len(out[0]) == len(out[1]) and all(
            np.allclose(a, b, rtol=rtol, atol=rtol, equal_nan=True) for a, b in zip(*out))
        if not same:
            bad += 1
            print("selftest: case %d differs from the real session: %s" % (k, json.dumps(cfg)))
    print("samplers: %d of %d chains equal on real and simulated session" % (n - bad, n))
    return bad


def graphs():
    """name -> builder returning (fetches, feed_dict)."""
    def loop():
        x = tf.placeholder(tf.float64, [3])
        _, y = tf.while_loop(lambda i, a: i < 5, lambda i, a: (i + 1, a * tf.sin(a) + x), (0, x))
        return [y, tf.gradients(y, x)[0]], {x: np.array([0.3, -1.2, 2.])}

    def nested():
        x = tf.placeholder(tf.float64, [])
        def inner(a):
            return tf.while_loop(lambda j, b: j < 3, lambda j, b: (j + 1, b * 1.5 - 0.1), (0, a))[1]
        y = tf.while_loop(lambda i, a: tf.less(i, 4), lambda i, a: (i + 1, inner(a) * 0.5), (0, x))[1]
        return [y, tf.gradients(y, x)[0]], {x: 1.7}

    def cond():
        x = tf.placeholder(tf.float64, [2])
        y = tf.cond(tf.reduce_sum(x) > 0., lambda: tf.cond(x[0] > 1., lambda: x * 2., lambda: x * 3.), lambda: -x)
        return [y, tf.gradients(y, x)[0]], {x: np.array([0.5, 0.7])}

    def mapped():
        x = tf.placeholder(tf.float64, [4, 2])
        y = tf.map_fn(lambda r: tf.reduce_sum(r * r) * r, x)
        return [y, tf.gradients(y, x)[0]], {x: np.arange(8.).reshape(4, 2)}

    def scanned():
        x = tf.placeholder(tf.float64, [5])
        y = tf.scan(lambda a, b: a * 0.9 + b, x)
        return [y, tf.gradients(y[-1], x)[0]], {x: np.arange(5.)}

    def variables():
        v = tf.Variable(np.ones(3))
        w = tf.Variable(v.initialized_value() * 2.)
        a = tf.assign_add(v, [1., 2., 3.])
        with tf.control_dependencies([a]):
            b = tf.assign_sub(w, v.read_value() if hasattr(v, "read_value") else v)
        with tf.control_dependencies([b]):
            c = tf.scatter_update(v, [0], [9.])
        with tf.control_dependencies([c]):
            return [tf.identity(w), tf.identity(v)], {}

    def topk():
        x = tf.placeholder(tf.float64, [7])
        v, i = tf.nn.top_k(x, 3)
        return [v, i, tf.gradients(v[1], x)[0], tf.linalg.tensor_diag(x), tf.stack(tf.unstack(x)[::2])], \
            {x: np.array([3., 1., 4., 1.5, 9., 2., 6.])}

    def tuples():
        x = tf.Variable(np.array([2., 3.]))
        c = tf.reduce_sum(x ** 3)
        g = tf.tuple(tf.gradients(c, [x]), control_inputs=[c])
        u = tf.assign(x, x - 0.1 * g[0])
        return [u, c], {}

    def case_op():
        x = tf.placeholder(tf.float64, [])
        return [tf.case([(x < 1., lambda: x), (x < 2., lambda: x * 10.)], default=lambda: x * 100.)], {x: 1.5}

    def resource():
        with tf.variable_scope("s", use_resource=True):
            v = tf.get_variable("v", initializer=np.array([1., 2.]))
        a = v.assign_add([1., 1.])
        with tf.control_dependencies([a]):
            return [v.read_value()], {}

    def pyfunc():
        x = tf.placeholder(tf.float64, [2])
        return [tf.py_func(lambda a: a * 2. + 1., [x], tf.float64)], {x: np.array([1., 2.])}

    def misc():
        x = tf.placeholder(tf.float64, [2, 3])
        parts = tf.split(x, 3, axis=1)
        return [tf.concat(parts[::-1], 1), tf.where(x > 0., x, -x), tf.gather(x, [1, 0]),
                tf.boolean_mask(x, x > 1.), tf.linalg.inv(tf.matmul(x, x, transpose_b=True) + tf.eye(2, dtype=tf.float64)),
                tf.cast(x, tf.float32), tf.one_hot([0, 2], 3), tf.slice(x, [0, 1], [2, 1]), x[:, ::-1],
                tf.reduce_logsumexp(x), tf.clip_by_value(x, 0., 1.), tf.cumsum(x, axis=1), tf.tile(x, [1, 2]),
                tf.Assert(tf.reduce_all(x < 100.), [x])], {x: np.arange(6.).reshape(2, 3) - 2.}

    return {k: v for k, v in locals().items() if callable(v)}


def control_flow():
    bad = 0
    table = graphs()
    for name in sorted(table):
        for v2 in (False,):        # TensorFlow 1's control flow is what pysgmcmc gets
            outs = []
            for real in (True, False):
                graph = tf.Graph()
                with graph.as_default():
                    (tf.enable_control_flow_v2 if v2 else tf.disable_control_flow_v2)()
                    fetches, feed = table[name]()
                    world = World(7, {"kind": "random", "seed": 3})
                    session = tf.Session(graph=graph) if real else SimSession(world, graph=graph)
                    try:
                        session.run(tf.global_variables_initializer())
                        outs.append([session.run(fetches, feed_dict=feed) for _ in range(2)])
                    except Exception as error:
                        outs.append("%s: %s" % (type(error).__name__, str(error)[:200]))
                    finally:
                        session.close()
            tf.disable_control_flow_v2()
            ok = not isinstance(outs[0], str) and not isinstance(outs[1], str) and all(
                (a is None and b is None) or np.allclose(a, b) for r, s in zip(*outs) for a, b in zip(r, s))
            if not ok:
                bad += 1
                print("selftest: graph %s (control flow v%d) differs: %s" % (name, 1 + v2, [str(o)[:300] for o in outs]))
    print("graphs: %d of %d equal" % (len(table) - bad, len(table)))
    return bad


def determinism(ids, n):
    bad = 0
    for pid in ids:
        dumps = []
        for workers, hashseed, extra in ((1, "0", {}), (8, "31", {"LANG": "C"})):
            with tempfile.NamedTemporaryFile(suffix=".jsonl") as f:
                e = dict(os.environ, PYTHONHASHSEED=hashseed, **extra)
                subprocess.run([sys.executable, "-m", "dst.check", pid, "--cases", str(n), "--workers",
                                str(workers), "--dump", f.name, "--scratch-evidence"],
                               cwd=os.path.dirname(HERE), env=e, stdout=subprocess.DEVNULL)
                rows = {}
                for line in open(f.name):
                    r = json.loads(line)
                    rows[r["i"]] = r["digest"]
                dumps.append(rows)
        same = dumps[0] == dumps[1] and len(dumps[0]) == n
        if not same:
            bad += 1
            diff = [i for i in range(n) if dumps[0].get(i) != dumps[1].get(i)]
            print("selftest: %s is not deterministic: cases %s" % (pid, diff[:10]))
    print("determinism: %d of %d properties" % (len(ids) - bad, len(ids)))
    return bad


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--n", type=int, default=60)
    p.add_argument("--cases", type=int, default=24)
    p.add_argument("--only")
    args = p.parse_args()
    from .props import registry
    bad = 0
    if args.only in (None, "samplers"):
        bad += samplers(args.n)
    if args.only in (None, "graphs"):
        bad += control_flow()
    if args.only in (None, "determinism"):
        bad += determinism(sorted(registry()), args.cases)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
