"""C13, C14: the minibatch sources, used by several clients of one dataset."""
import random

import numpy as np

from .. import env
from ..chain import Violation
from ..world import LineHook
from .base import Prop, drop_chunks

tf = env.setup()

SOURCES = ("generate_batches", "generate_shuffled_batches")


def dataset(spec):
    rs = np.random.RandomState(spec["seed"])
    n, d = spec["n"], spec["d"]
    x = rs.normal(size=(n, d))
    x[:, 0] += 10. * np.arange(n)               # every row is recognisable
    y = rs.normal(size=n) + 20. * np.arange(n)  # and so is every label
    if spec["dtype"] == "int64":
        x = np.round(x)
    if spec.get("labels") == "int64" or spec["dtype"] == "int64":
        y = np.round(y)
    return x.astype(spec["dtype"]), y.astype(spec.get("labels", spec["dtype"]))


class Client(object):
    """One consumer with a generator of its own."""

    def __init__(self, spec, x, y, world):
        self.spec, self.world = spec, world
        self.x, self.y = x, y
        with tf.Graph().as_default():
            self.xp, self.yp = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
        import pysgmcmc.data_batches as db
        self.make = getattr(db, spec["source"])
        self.gen = None
        self.log = []
        self.copies = []
        self.ended = None
        self.restarts = 0

    def open(self):
        kwargs = {"batch_size": self.spec["size"]}
        if self.spec["size"] is None:
            kwargs = {}
        if self.spec["seed"] is not None:
            kwargs["seed"] = self.spec["seed"]
        self.gen = self.make(self.x, self.y, self.xp, self.yp, **kwargs)

    def pull(self):
        if self.gen is None:
            self.open()
        batch = next(self.gen)
        if set(batch) != {self.xp, self.yp}:
            raise Violation("batch_has_wrong_placeholders", client=self.spec)
        self.log.append(batch)
        self.copies.append({k: np.array(v) for k, v in batch.items()})
        self.world.log_array("batch", *[batch[k] for k in (self.xp, self.yp)])

    def interrupted_pull(self, line, exc):
        hook = LineHook(self.world, {"line": line, "exc": exc}, skip=())
        try:
            hook.start()
            try:
                self.pull()
            finally:
                hook.stop()
        except (KeyboardInterrupt, MemoryError):
            # the interrupt ended the generator: the client opens a new one
            self.gen = None
            self.restarts += 1
            self.first_after_restart = len(self.log)

    def judge(self):
        size = 20 if self.spec["size"] is None else self.spec["size"]
        n = len(self.x)
        rows = min(size, n)
        starts = set()
        shuffled = self.spec["source"] == "generate_shuffled_batches"
        ascending = True
        for k, (batch, copy) in enumerate(zip(self.log, self.copies)):
            for key in (self.xp, self.yp):
                if not np.array_equal(np.asarray(batch[key]), copy[key]):
                    raise Violation("batch_changed_after_it_was_handed_out", client=self.spec, batch=k)
            bx, by = copy[self.xp], copy[self.yp]
            if bx.shape != (rows, self.x.shape[1]) or by.shape != (rows, 1):
                raise Violation("batch_has_wrong_shape", client=self.spec, batch=k,
                                x=list(bx.shape), y=list(by.shape), expected_rows=rows)
            index = []
            for r in range(rows):
                hit = np.flatnonzero(self.y0 == by[r, 0])
                if len(hit) != 1:
                    raise Violation("batch_label_is_not_in_the_dataset", client=self.spec, batch=k, row=r)
                if not np.array_equal(bx[r], self.x0[hit[0]]):
                    raise Violation("datapoint_without_its_own_label", client=self.spec, batch=k, row=r)
                index.append(int(hit[0]))
            if len(set(index)) != rows:
                raise Violation("datapoint_repeated_in_a_batch", client=self.spec, batch=k)
            if not shuffled and index != list(range(index[0], index[0] + rows)):
                raise Violation("batch_is_not_a_window", client=self.spec, batch=k, rows=index)
            if index != sorted(index):
                ascending = False
            starts.add(min(index))
        windows = n - rows + 1
        if len(self.log) >= 40 * windows and not self.restarts:
            self.world.probe("coverage_checked")
            covered = set()
            for s in starts:
                covered.add(s)
            if not shuffled and len(covered) < windows:
                raise Violation("some_windows_never_come", client=self.spec,
                                missing=sorted(set(range(windows)) - covered)[:5])
            seen = set()
            for copy in self.copies:
                seen.update(copy[self.yp].ravel().tolist())
            if len(seen) < n:
                raise Violation("some_datapoints_never_come", client=self.spec, seen=len(seen), of=n)
        elif windows >= 20 and len(self.log) >= 400 and not self.restarts:
            # too many windows to wait for each: but every tenth of them (of the datapoints) comes
            self.world.probe("rough_coverage_checked")
            if shuffled:
                points = {label: i for i, label in enumerate(self.y0.tolist())}
                hit = {points[label] * 10 // n for copy in self.copies for label in copy[self.yp].ravel().tolist()}
            else:
                hit = {start * 10 // windows for start in starts}
            if len(hit) < 10:
                raise Violation("some_windows_never_come", client=self.spec, tenths=sorted(hit))
        if shuffled and rows >= 3 and len(self.log) >= 60 and ascending:
            raise Violation("shuffled_batches_are_not_shuffled", client=self.spec)


class C13(Prop):
    id = "C13"
    rule = ("one to four clients pull minibatches (own generator each, shuffled or not, various sizes "
            "and seeds) from one shared dataset, as threads preempted at source lines of the generators "
            "or in a random order, some pulls interrupted; every batch is checked row by row. "
            "Non-trivial: at least 10 batches.")
    quick, thorough = 1200, 40000
    chunk, recycle = 40, 2000
    real = ["pysgmcmc.data_batches", "numpy generators"]

    def gen(self, rng, index):
        n = rng.choice((1, 2, 3, 4, 5, 8, 12, 19, 20, 21, 25, 40))
        large = rng.chance(0.015)
        if large:
            n = rng.choice((100, 257, 1000, 3000))
        data = {"n": n, "d": rng.randint(1, 4), "seed": rng.below(1 << 20),
                "dtype": rng.choice(("float64", "float64", "float32", "int64")),
                "labels": rng.choice(("float64", "float64", "float32", "int64"))}
        clients = []
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            size = rng.choice((1, 2, 3, 5, n, max(1, n - 1), n + 1, 2 * n + 3, 20, None))
            clients.append({"source": rng.choice(SOURCES), "size": size,
                            "seed": rng.choice((None, 0, 1, rng.below(1 << 31), 2 ** 32 - 1))})
        if large:
            clients = [dict(clients[0], size=rng.choice((1, 5, 20, None, 64, n - 1, n)))]
        if len(clients) > 1 and rng.chance(0.4):
            clients[1] = dict(clients[1], seed=clients[0]["seed"])
        threads = rng.chance(0.6) and not large
        many = rng.chance(0.25)
        pulls = []
        for k, c in enumerate(clients):
            rows = min(c["size"] or 20, n)
            want = 40 * (n - rows + 1) if many and n <= 12 else rng.randint(3, 25)
            if large:
                want = 450
            if c["source"] == "generate_shuffled_batches" and rng.chance(0.3):
                want = max(want, 61)
            for _ in range(want):
                op = {"c": k}
                if not many and not large and rng.chance(0.02):
                    op["line"] = rng.randint(1, 25)
                    op["exc"] = rng.choice(("KeyboardInterrupt", "MemoryError"))
                pulls.append(op)
        pulls = rng.shuffle(pulls)
        return {"data": data, "clients": clients, "pulls": pulls,
                "baton": {"seed": rng.below(1 << 30), "p_line": rng.choice((0.02, 0.1, 0.4)),
                          "p_call": 0.5} if threads else None,
                "wseed": rng.below(1 << 30)}

    def shape(self, case):
        return "%d clients/%s" % (len(case["clients"]), "threads" if case["baton"] else "turns")

    def drive(self, case, ctx, world):
        x, y = dataset(case["data"])
        clients = []
        for spec in case["clients"]:
            c = Client(spec, x, y, world)
            c.x0, c.y0 = x.copy(), y.copy()
            clients.append(c)
        x0, y0 = x.copy(), y.copy()

        def pull(op):
            c = clients[op["c"]]
            try:
                if op.get("line"):
                    c.interrupted_pull(op["line"], op["exc"])
                else:
                    c.pull()
            except (Violation, KeyboardInterrupt):
                raise
            except Exception as error:
                raise Violation("batch_source_failed", client=c.spec,
                                error="%s: %s" % (type(error).__name__, error))
            world.probe("batches")

        if case["baton"]:
            def body(k):
                def run():
                    for op in case["pulls"]:
                        if op["c"] == k:
                            world.baton.point("call")
                            if op.get("line"):
                                # the preempting tracer is already installed
                                op = {"c": k}
                            pull(op)
                return run
            tasks = world.baton.run([("client%d" % k, body(k)) for k in range(len(clients))],
                                    line_trace=True, skip=())
            for t in tasks:
                if t.error is not None:
                    raise t.error
        else:
            for op in case["pulls"]:
                pull(op)
        if not np.array_equal(x, x0) or not np.array_equal(y, y0):
            raise Violation("dataset_was_modified")
        return clients

    def run(self, case, ctx):
        world = ctx.world(baton=case["baton"])
        for c in self.drive(case, ctx, world):
            c.judge()

    def nontrivial(self, case, summary):
        return summary["probes"].get("batches", 0) >= 10

    def shrink(self, case):
        if len(case["clients"]) > 1:
            for k in range(len(case["clients"])):
                rest = [c for i, c in enumerate(case["clients"]) if i != k]
                pulls = [dict(op, c=op["c"] - (op["c"] > k)) for op in case["pulls"] if op["c"] != k]
                if pulls:
                    yield dict(case, clients=rest, pulls=pulls)
        for rest in drop_chunks(case["pulls"]):
            if rest:
                yield dict(case, pulls=rest)
        if case["baton"]:
            yield dict(case, baton=None)
        for k, c in enumerate(case["clients"]):
            if c["seed"] not in (None, 1):
                yield dict(case, clients=case["clients"][:k] + [dict(c, seed=1)] + case["clients"][k + 1:])
        if case["data"]["n"] > 1:
            yield dict(case, data=dict(case["data"], n=case["data"]["n"] // 2))


class C14(C13):
    id = "C14"
    rule = ("as C13, with seeded sources: each client's batch sequence is compared with that of the same "
            "seed alone in a fresh world with another clock, entropy and global random state; the "
            "process-wide generators must be left untouched, and different seeds must differ; some cases "
            "are repeated in processes with another hash seed. "
            "Non-trivial: at least 10 batches.")
    quick, thorough = 1200, 40000
    twins = (240, 4000)

    def gen(self, rng, index):
        case = C13.gen(self, rng, index)
        for op in case["pulls"]:
            op.pop("line", None)
            op.pop("exc", None)
        for k, c in enumerate(case["clients"]):
            if c["seed"] is None:
                c["seed"] = rng.below(1 << 31)
        case["drain"] = [rng.below(len(case["pulls"])) for _ in range(rng.below(6))]
        case["entropy"] = rng.below(1 << 30)
        return case

    def run(self, case, ctx):
        world = ctx.world(baton=case["baton"])
        before = np.random.get_state(), random.getstate()
        clients = self.drive(case, ctx, world)
        after = np.random.get_state(), random.getstate()
        if not _same_state(before, after):
            raise Violation("seeded_source_disturbs_the_global_generator")
        for c in clients:
            if c.log:
                c.judge()
        ctx.same_everywhere([copy[key] for c in clients for copy in c.copies[:8] for key in (c.xp, c.yp)],
                            1e-12)
        for k, c in enumerate(clients):
            alone = ctx.world(entropy=case["entropy"] + k, primary=False)
            env.CLOCK.jump(1e5 * (k + 1))
            np.random.seed(case["entropy"] % 2 ** 31)
            x, y = dataset(case["data"])
            solo = Client(dict(c.spec), x, y, alone)
            solo.x0, solo.y0 = x, y
            for i in range(len(c.log)):
                if i in case["drain"]:
                    np.random.normal(size=3)        # somebody else draws meanwhile
                    random.random()
                solo.pull()
            ctx.fault("global_random_state_changed")
            for i in range(len(c.log)):
                for a, b in ((c.xp, solo.xp), (c.yp, solo.yp)):
                    if not np.array_equal(c.copies[i][a], solo.copies[i][b]):
                        raise Violation("same_seed_different_batches", client=c.spec, batch=i)
        # distinct seeds give distinct sequences once that is not a coincidence
        for i, a in enumerate(clients):
            for b in clients[:i]:
                if a.spec["seed"] == b.spec["seed"]:
                    continue
                if a.spec["source"] != b.spec["source"] or a.spec["size"] != b.spec["size"]:
                    continue
                windows = len(a.x) - min(a.spec["size"] or 20, len(a.x)) + 1
                n = min(len(a.log), len(b.log))
                if windows < 2 or n * np.log(windows) < 30.:
                    continue
                ctx.probe("different_seeds_compared")
                if all(np.array_equal(np.sort(a.copies[j][a.yp], axis=0),
                                      np.sort(b.copies[j][b.yp], axis=0)) for j in range(n)):
                    raise Violation("different_seeds_same_batches", seeds=[a.spec["seed"], b.spec["seed"]])

    def shrink(self, case):
        for c in C13.shrink(self, case):
            c["drain"] = [d for d in c["drain"] if d < len(c["pulls"])]
            yield c


def _same_state(a, b):
    na, nb = a[0], b[0]
    return na[0] == nb[0] and np.array_equal(na[1], nb[1]) and na[2:] == nb[2:] and a[1] == b[1]
