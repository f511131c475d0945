"""The simulated world of one run: one integer decides everything.

Scheduling policies, the noise source, fault bookkeeping, the event digest and
the baton that decides which caller thread runs.
"""
import hashlib
import random
import struct
import sys
import threading

import numpy as np

from . import env


class Prng(object):
    """Small, explicit PRNG (splitmix64); never shared with the code under test."""

    def __init__(self, *key):
        digest = hashlib.sha256(repr(key).encode()).digest()
        self.state = struct.unpack("<Q", digest[:8])[0]

    def u64(self):
        self.state = (self.state + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = self.state
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return z ^ (z >> 31)

    def below(self, n):
        return self.u64() % n

    def randint(self, lo, hi):
        """lo <= result <= hi"""
        return lo + self.u64() % (hi - lo + 1)

    def random(self):
        return (self.u64() >> 11) / float(1 << 53)

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.random()

    def chance(self, p):
        return self.random() < p

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def normal(self):
        import math
        u = max(self.random(), 1e-300)
        return math.sqrt(-2. * math.log(u)) * math.cos(2 * math.pi * self.random())

    def numpy(self):
        return np.random.RandomState(self.below(2 ** 32))


# -- order of operations inside session.run -----------------------------------

class Policy(object):
    """Chooses among ready operations.

    kinds: fifo (graph order), lifo, random, prio (random static priorities,
    re-drawn at random change points), delay (a few operations are starved until
    nothing else is ready), writers (assignments first), readers (assignments
    last), explicit (choices listed by decision number; all others take the
    first ready operation in graph order).
    """

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = Prng("policy", spec.get("seed", 0), self.kind)
        self.devs = {int(k): v for k, v in spec.get("devs", {}).items()}
        self.prio = {}
        self.delayed = None

    def start(self, execution):
        if self.kind == "delay":
            nodes = [n for n in execution.plan.order if n.type not in
                     ("Const", "VariableV2", "NoOp")]
            count = self.spec.get("count", 3)
            self.delayed = {n.name for n in self.rng.sample(nodes, count)} \
                if nodes else set()
        elif self.kind == "prio":
            self.prio = {}
        return self

    def pick(self, ready):
        kind = self.kind
        n = len(ready)
        if kind == "fifo" or n == 1:
            return 0
        if kind == "lifo":
            return n - 1
        if kind == "random":
            return self.rng.below(n)
        if kind == "prio":
            if self.rng.chance(self.spec.get("change", 0.02)):
                self.prio = {}
            best, best_key = 0, None
            for i, state in enumerate(ready):
                key = self.prio.get(state.node.name)
                if key is None:
                    key = self.prio[state.node.name] = self.rng.random()
                if best_key is None or key < best_key:
                    best, best_key = i, key
            return best
        if kind == "delay":
            free = [i for i, s in enumerate(ready) if s.node.name not in self.delayed]
            if free:
                return free[self.rng.below(len(free))]
            return self.rng.below(n)
        if kind in ("writers", "readers"):
            from .executor import WRITERS
            want = kind == "writers"
            hit = [i for i, s in enumerate(ready) if (s.node.type in WRITERS) == want]
            if hit:
                return hit[self.rng.below(len(hit))]
            return self.rng.below(n)
        raise ValueError(kind)


POLICIES = ("fifo", "lifo", "random", "prio", "delay", "writers", "readers")


def gen_policy(rng):
    kind = rng.choice(("random", "random", "prio", "prio", "delay", "delay",
                       "delay", "writers", "readers", "lifo", "fifo"))
    spec = {"kind": kind, "seed": rng.below(1 << 30)}
    if kind == "prio":
        spec["change"] = rng.choice((0.0, 0.01, 0.1))
    if kind == "delay":
        spec["count"] = rng.choice((1, 1, 2, 3, 5, 8))
    return spec


# -- random-number kernels -----------------------------------------------------

class Noise(object):
    """Stands for TensorFlow's random kernels.

    Like the real kernels, an operation with seeds (seed, seed2) != (0, 0)
    produces a stream determined by the two seeds and the number of draws so
    far; an operation without seeds draws from entropy, which here is the
    world's, per session, operation and draw.  (Values are normal, uniform, ...
    as the kernel's; they are not TensorFlow's own Philox bits.)

    While ``flat`` is not None every element of every RandomStandardNormal draw
    is that scalar: a reference model can then predict a step exactly, whichever
    operation draws the noise.
    """

    def __init__(self, world):
        self.world = world
        self.flat = None
        self.draws = 0
        self.flat_seen = 0
        self.drawn = None          # list: records (seeds, count, array)

    def draw(self, execution, node, seeds, count, shape, dtype, args):
        self.draws += 1
        if self.flat is not None and node.type == "RandomStandardNormal":
            self.flat_seen += 1
            return np.full(shape, self.flat, dtype=dtype)
        if seeds == (0, 0):
            ident = ("entropy", self.world.entropy_seed,
                     execution.backend.session_serial, node.name, count)
        else:
            ident = (seeds, count)
        key = hashlib.sha256(repr(ident).encode()).digest()
        rng = np.random.RandomState(struct.unpack("<I", key[:4])[0])
        if node.type == "RandomUniform":
            out = rng.uniform(size=shape)
        elif node.type == "RandomUniformInt":
            out = rng.randint(int(args[0]), int(args[1]), size=shape)
        else:
            out = rng.normal(size=shape)
            if node.type == "TruncatedNormal":
                while True:
                    bad = np.abs(out) > 2
                    if not np.any(bad):
                        break
                    out = np.where(bad, rng.normal(size=shape), out)
        if self.drawn is not None:
            self.drawn.append((seeds, count, np.array(out)))
        return out


# -- caller threads ---------------------------------------------------------------

class Deadlock(Exception):
    pass


class Task(object):
    def __init__(self, name, func):
        self.name = name
        self.func = func
        self.event = threading.Event()
        self.done = False
        self.result = None
        self.error = None
        self.thread = None


class Baton(object):
    """Real threads, exactly one of which runs; the simulator says which.

    A switch can happen at every intercepted point: an operation executed, a
    source line of pysgmcmc reached, an explicit yield of the client.  Decisions
    are numbered; ``log`` records those that changed the running thread, and a
    spec with kind "explicit" replays such a log.
    """

    def __init__(self, world, spec):
        self.world = world
        self.explicit = spec.get("kind") == "explicit"
        self.script = {int(k): v for k, v in spec.get("devs", {}).items()}
        self.rng = Prng("baton", spec.get("seed", 0))
        self.p = {"op": spec.get("p_op", 0.0), "line": spec.get("p_line", 0.0),
                  "call": spec.get("p_call", 1.0)}
        self.tasks = []
        self.current = None
        self.main = threading.Event()
        self.switches = 0
        self.number = 0
        self.log = {}
        self.abort = False
        self.waited = 0      # hand-overs by threads that wait for a lock, in a row

    def run(self, funcs, line_trace=False, skip=("data_batches.py",)):
        self.skip = skip
        self.tasks = [Task(name, func) for name, func in funcs]
        for task in self.tasks:
            task.thread = threading.Thread(
                target=self._body, args=(task, line_trace), daemon=True)
            task.thread.start()
        env.BATON[0] = self
        self._grant(self._choose(None))
        if not self.main.wait(3600):
            raise Deadlock("tasks did not finish")
        for task in self.tasks:
            task.thread.join(60)
        env.BATON[0] = None
        self.current = None
        return self.tasks

    def progress(self):
        self.waited = 0

    def wait(self):
        """The running thread waits for a lock: another one runs.  False: nobody can go on."""
        me = self.current
        if me is None:
            return False
        others = [i for i, t in enumerate(self.tasks) if not t.done and i != me]
        self.waited += 1
        # every one of them in turn came to wait and nobody did anything else
        if not others or self.waited > 3 * len(self.tasks):
            return False
        # in turn, so that whoever holds the lock gets to release it
        nxt = min(others, key=lambda i: (i - me) % len(self.tasks))
        self.world.probe("lock_waits")
        self._hand_over(me, nxt)
        return True

    def _hand_over(self, me, nxt):
        self.switches += 1
        event = self.tasks[me].event
        event.clear()
        self._grant(nxt)
        event.wait()

    def _choose(self, stay):
        """Index of the task to run next among the live ones."""
        number, self.number = self.number, self.number + 1
        live = [i for i, t in enumerate(self.tasks) if not t.done]
        default = stay if stay is not None else live[0]
        if self.explicit:
            pick = self.script.get(number, default)
            if pick not in live:
                pick = default
        else:
            pick = self.rng.choice(live)
        if pick != default:
            self.log[number] = pick
        return pick

    def _body(self, task, line_trace):
        task.event.wait()
        tracer = None
        try:
            if line_trace:
                tracer = LineHook(self.world, skip=self.skip)
                tracer.start()
            try:
                task.result = task.func()
            finally:
                if tracer is not None:
                    tracer.stop()
        except BaseException as error:      # recorded, judged by the oracle
            task.error = error
        task.done = True
        if any(not t.done for t in self.tasks):
            self._grant(self._choose(None))
        else:
            self.main.set()

    def _grant(self, index):
        task = self.tasks[index]
        self.current = index
        self.world.digest.update(b"t%d" % index)
        task.event.set()

    def point(self, kind):
        if self.current is None:
            return
        self.waited = 0
        if not self.explicit:
            p = self.p[kind]
            if p <= 0. or (p < 1. and not self.rng.chance(p)):
                self.number += 1
                return
        me = self.current
        nxt = self._choose(me)
        if nxt == me:
            return
        self.world.probe("thread_switches_at_" + kind)
        self._hand_over(me, nxt)


def _is_with(frame):
    import linecache
    line = linecache.getline(frame.f_code.co_filename, frame.f_lineno).strip()
    return line.startswith("with ")


class LineHook(object):
    """sys.settrace on pysgmcmc's own source lines: preemption and interrupts."""

    def __init__(self, world, interrupt=None, skip=("data_batches.py",)):
        self.world = world
        self.interrupt = interrupt     # {"line": n, "exc": name}
        self.count = 0
        self.fired = False
        self.skip = skip     # an interrupt inside a generator ends it: Python's rule
        self.prefix = None
        self.armed = True
        self.preempt = interrupt is None

    def start(self):
        import pysgmcmc
        import os
        self.prefix = os.path.realpath(list(pysgmcmc.__path__)[0]) + os.sep
        self._cache = {}
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)

    def _mine(self, code):
        hit = self._cache.get(code)
        if hit is None:
            import os
            name = os.path.realpath(code.co_filename)
            hit = name.startswith(self.prefix) and \
                name[len(self.prefix):] not in self.skip
            self._cache[code] = hit
        return hit

    def _global(self, frame, event, arg):
        if event == "call" and self._mine(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.armed:
            self.count += 1
            baton = self.world.baton
            if baton is not None and self.preempt:
                baton.point("line")
            spec = self.interrupt
            # (a tracer that raises where a `with` block is being left would skip its __exit__)
            if spec is not None and not self.fired and self.count >= spec["line"] and \
                    not _is_with(frame):
                self.fired = True
                from .executor import make_error
                self.world.fault_fired("interrupt", spec["exc"])
                raise make_error(spec["exc"], "injected at line event %d" % self.count)
        return self._local


# -- the world --------------------------------------------------------------------

class World(object):
    def __init__(self, seed, policy=None, baton=None, entropy=None):
        self.seed = seed
        self.entropy_seed = seed if entropy is None else entropy
        self.policy = Policy(policy or {"kind": "fifo"})
        self.serials = 0
        self.runs = 0
        self.decisions = 0
        self.branching = 0
        self.dev_log = {}
        self.record_devs = False
        self.noise = Noise(self)
        self.pending_faults = {}   # by the thread whose next session.run it strikes
        self.fault_plan = {}
        self.run_log = []          # status of every session.run
        self.faults = {}
        self.probes = {}
        self.digest = hashlib.sha256()
        self.order_hashes = set()
        self.real_kernel_calls = 0
        self.ops = 0
        self.baton = Baton(self, baton) if baton else None
        self.after_op_hook = None
        self.after_run_hook = None
        self.trace = None
        env.CLOCK.now = 1.5e9
        # process-wide generators and the operating system's entropy
        env.ENTROPY.reset(self.entropy_seed)
        np.random.seed(env.ENTROPY.next())
        random.seed(env.ENTROPY.next())
        self.clock0 = env.CLOCK.elapsed

    # determinism and reporting
    def log(self, *items):
        text = repr(items)
        self.digest.update(text.encode())
        if self.trace is not None:
            self.trace.append(text)

    def log_array(self, tag, *arrays):
        self.digest.update(tag.encode())
        for a in arrays:
            self.digest.update(np.ascontiguousarray(a).tobytes())
        if self.trace is not None:
            self.trace.append(tag + " " + " ".join(repr(np.asarray(a).tolist()) for a in arrays))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault_fired(self, kind, what=""):
        key = kind if not what else "%s:%s" % (kind, what)
        self.faults[key] = self.faults.get(key, 0) + 1
        self.log("fault", key)

    # used by the executor
    def next_serial(self):
        self.serials += 1
        return self.serials

    def begin_run(self, execution):
        self.runs += 1
        entry = ["none", self.next_serial()]
        self.run_log.append(entry)
        return entry

    def end_run(self, execution, trail):
        if self.after_run_hook is not None:
            self.after_run_hook(execution)
        h = hashlib.sha1(repr(trail).encode()).digest()[:8]
        self.order_hashes.add(h)
        self.digest.update(h)
        env.CLOCK.advance(0.001 * (1 + len(trail)))

    def choose(self, policy, ready):
        number = self.decisions
        self.decisions += 1
        n = len(ready)
        if n == 1:
            return 0
        self.branching += 1
        if policy.kind == "explicit":
            return min(policy.devs.get(number, 0), n - 1)
        index = policy.pick(ready)
        if self.record_devs and index:
            self.dev_log[number] = index
        return index

    def after_op(self, execution, node):
        self.ops += 1
        if self.after_op_hook is not None:
            self.after_op_hook(execution, node)
        if self.baton is not None:
            self.baton.point("op")

    def take_session_fault(self):
        fault = self.pending_faults.pop(threading.get_ident(), None)
        if fault is None:
            fault = self.fault_plan.pop(self.runs, None)
        return fault

    def plan_session_fault(self, after, fault):
        """Strikes the ``after``-th session.run from now on (1: the next one)."""
        self.fault_plan[self.runs + after] = fault

    def arm_session_fault(self, fault):
        self.pending_faults[threading.get_ident()] = fault
