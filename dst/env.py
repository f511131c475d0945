"""Process environment for the simulator.

Must be imported before anything else that touches TensorFlow or pysgmcmc.

* gives ``import tensorflow`` the v1 API, as /opt/vp/plugins/tf_v1_api.py does
  (pysgmcmc is TensorFlow-1 code);
* replaces wall clocks, before pysgmcmc can bind them, by a simulated clock;
* installs the few stubs without which parts of pysgmcmc cannot be imported in
  this sandbox (listed in STUBS and reported in every evidence file).
"""
import os
import sys
import types

os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["TF_ENABLE_ONEDNN_OPTS"] = "0"
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["TF_NUM_INTRAOP_THREADS"] = "1"
os.environ["TF_NUM_INTEROP_THREADS"] = "1"
# unseeded random ops are legal for users; determinism is the simulator's job
os.environ.pop("TF_DETERMINISTIC_OPS", None)
sys.dont_write_bytecode = True

REPO = os.environ.get("PYSGMCMC_REPO", "/repo")

STUBS = []


class SimClock(object):
    """The only clock the code under test can read."""

    def __init__(self):
        self.now = 1.5e9
        self.reads = 0
        self.elapsed = 0.0       # simulated seconds covered (forward only)
        self.jumps = 0

    def time(self):
        """The wall clock: faults may set it, also back."""
        self.reads += 1
        return self.now

    def monotonic(self):
        """Clocks that only advance: stalls move them, settings do not."""
        self.reads += 1
        return 1000. + self.elapsed

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic_ns(self):
        return int(self.monotonic() * 1e9)

    def sleep(self, seconds):
        self.advance(max(0., seconds))

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.elapsed += dt

    def jump(self, dt):
        """Clock fault: may move backwards."""
        self.now += dt
        self.jumps += 1


CLOCK = SimClock()


class SimEntropy(object):
    """Stands for the operating system's entropy behind unseeded generators."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.seed, self.count = seed, 0

    def next(self):
        import hashlib
        self.count += 1
        digest = hashlib.sha256(repr(("entropy", self.seed, self.count)).encode()).digest()
        return int.from_bytes(digest[:4], "little")

    def bytes(self, n):
        out = b""
        while len(out) < n:
            out += self.next().to_bytes(4, "little")
        return out[:n]


ENTROPY = SimEntropy()


def _install_entropy():
    # unseeded numpy generators ask the operating system for a seed: here they
    # ask the simulation
    import numpy
    import numpy.random as npr
    real = npr.RandomState

    class RandomState(real):
        def __init__(self, seed=None):
            real.__init__(self, ENTROPY.next() if seed is None else seed)

        def seed(self, seed=None):
            return real.seed(self, ENTROPY.next() if seed is None else seed)

        def __reduce__(self):
            return real.__reduce__(self)

    real_seed, real_rng = npr.seed, npr.default_rng
    npr.RandomState = RandomState
    npr.seed = lambda seed=None: real_seed(ENTROPY.next() if seed is None else seed)
    npr.default_rng = lambda seed=None: real_rng(ENTROPY.next() if seed is None else seed)
    os.urandom = ENTROPY.bytes
    import arspy.ars
    arspy.ars.RandomState = RandomState
    STUBS.append("numpy.random.RandomState/seed/default_rng without a seed, os.urandom: simulated entropy")


def _install_tf():
    import logging
    logging.getLogger("tensorflow").setLevel(logging.ERROR)
    stderr_fd = os.dup(2)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)          # cuDNN/cuBLAS registration chatter
    try:
        import tensorflow.compat.v1 as tf_v1
        tf_v1.disable_v2_behavior()
    finally:
        os.dup2(stderr_fd, 2)
        os.close(stderr_fd)
        os.close(devnull)
    tf_v1.logging.set_verbosity(tf_v1.logging.ERROR)
    sys.modules["tensorflow"] = tf_v1
    return tf_v1


def _install_arspy():
    # arspy 0.4 refers to np.int, which current numpy no longer has.  Only
    # arspy sees this proxy: pysgmcmc's own use of numpy is not patched.
    import numpy
    import arspy.ars
    if not hasattr(numpy, "int"):
        proxy = types.ModuleType("numpy")
        proxy.__dict__.update(numpy.__dict__)
        proxy.int = int
        arspy.ars.np = proxy
        STUBS.append("arspy.ars.np: numpy with the removed alias np.int")


def _install_contrib(tf):
    # tf.contrib.layers.variance_scaling_initializer, needed by get_default_net
    def variance_scaling_initializer(factor=2.0, mode="FAN_IN", uniform=False,
                                     seed=None, dtype=tf.float32):
        return tf.variance_scaling_initializer(
            scale=factor, mode="fan_in", distribution="truncated_normal",
            seed=seed, dtype=dtype)

    contrib = types.ModuleType("tensorflow.contrib")
    layers = types.ModuleType("tensorflow.contrib.layers")
    layers.variance_scaling_initializer = variance_scaling_initializer
    contrib.layers = layers
    sys.modules["tensorflow.contrib"] = contrib
    sys.modules["tensorflow.contrib.layers"] = layers
    STUBS.append("tensorflow.contrib.layers.variance_scaling_initializer")


def _install_pymc3():
    pymc3 = types.ModuleType("pymc3")
    backends = types.ModuleType("pymc3.backends")
    base = types.ModuleType("pymc3.backends.base")
    diagnostics = types.ModuleType("pymc3.diagnostics")

    class MultiTrace(object):
        """Records the straces it is given, as pymc3's does."""

        def __init__(self, straces):
            self._straces = {}
            for strace in straces:
                if strace.chain in self._straces:
                    raise ValueError("Chains are not unique.")
                self._straces[strace.chain] = strace

        @property
        def chains(self):
            return sorted(self._straces)

        @property
        def nchains(self):
            return len(self._straces)

        @property
        def varnames(self):
            return self._straces[self.chains[-1]].varnames

        def __len__(self):
            return len(self._straces[self.chains[-1]])

        def get_values(self, varname, burn=0, thin=1, combine=True,
                       chains=None, squeeze=True):
            import numpy as np
            results = [self._straces[c].get_values(varname, burn, thin)
                       for c in (self.chains if chains is None else chains)]
            return np.concatenate(results) if combine else results

    def effective_n(mtrace):
        return {v: mtrace for v in mtrace.varnames}

    base.MultiTrace = MultiTrace
    backends.base = base
    diagnostics.effective_n = effective_n
    diagnostics.gelman_rubin = effective_n
    pymc3.backends = backends
    pymc3.diagnostics = diagnostics
    for module in (pymc3, backends, base, diagnostics):
        sys.modules[module.__name__] = module
    STUBS.append("pymc3.backends.base.MultiTrace, pymc3.diagnostics")


def _install_clock():
    import datetime
    import time
    time.real_time = time.time
    time.time, time.time_ns, time.sleep = CLOCK.time, CLOCK.time_ns, CLOCK.sleep
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, name, CLOCK.monotonic)
        setattr(time, name + "_ns", CLOCK.monotonic_ns)
    real = datetime.datetime

    class SimDatetime(real):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLOCK.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLOCK.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    datetime.datetime = SimDatetime
    STUBS.append("time.time/monotonic/perf_counter/sleep, datetime.now: simulated clock")


# -- locks ------------------------------------------------------------------------

BATON = [None]      # whoever schedules the client threads of the running case


class Deadlock(RuntimeError):
    """Everyone who could go on waits for a lock."""


class SimLock(object):
    """A lock of pysgmcmc: a thread that has to wait for it hands over to another one."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        import threading
        me = threading.get_ident()
        while True:
            if self._owner is None or self._reentrant and self._owner == me:
                self._owner = me
                self._count += 1
                if BATON[0] is not None:
                    BATON[0].progress()
                return True
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                CLOCK.advance(timeout)
                return False
            if BATON[0] is None or not BATON[0].wait():
                raise Deadlock("a lock is never released")

    def release(self):
        import threading
        if self._owner is None or self._reentrant and self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


def _install_locks():
    import threading

    def factory(real, reentrant):
        def lock(*args, **kwargs):
            name = sys._getframe(1).f_globals.get("__name__", "")
            if name == "pysgmcmc" or name.startswith("pysgmcmc."):
                return SimLock(reentrant)
            return real(*args, **kwargs)
        return lock

    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)
    STUBS.append("threading.Lock/RLock made by pysgmcmc: a waiting thread hands over to the scheduler")


_done = False


def setup():
    """Idempotent; returns the tensorflow (v1) module."""
    global _done
    import sys as _sys
    if not _done:
        tf = _install_tf()
        _install_arspy()
        try:
            import tensorflow.contrib.layers  # noqa: F401
        except ImportError:
            _install_contrib(tf)
        try:
            import pymc3  # noqa: F401
        except ImportError:
            _install_pymc3()
        if REPO not in _sys.path:
            _sys.path.insert(0, REPO)
        _install_clock()
        _install_locks()
        _install_entropy()
        import pysgmcmc
        where = os.path.realpath(list(pysgmcmc.__path__)[0])
        assert where == os.path.realpath(os.path.join(REPO, "pysgmcmc")), where
        _done = True
    return _sys.modules["tensorflow"]
