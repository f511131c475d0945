"""What one evaluation of a case leaves behind: worlds, counters, digests."""
import hashlib

from . import env
env.setup()

from .world import World           # noqa: E402


class Ctx(object):
    def __init__(self, case, record_devs=False):
        self.case = case
        self.worlds = []
        self.record_devs = record_devs
        self.faults = {}
        self.probes = {}
        self.notes = {}
        self.portable = None            # what any other process has to get, too
        self.trace = False
        self.clock0 = env.CLOCK.elapsed
        self.closers = []

    def world(self, policy=None, baton=None, entropy=None, primary=True):
        """``primary``: the world whose schedule the replay file spells out."""
        world = World(self.case.get("wseed", 0), policy, baton, entropy)
        world.primary = primary
        world.record_devs = self.record_devs and primary
        if self.trace:
            world.trace = []
        self.worlds.append(world)
        return world

    def on_close(self, func):
        self.closers.append(func)

    def close(self):
        self.sim_s = env.CLOCK.elapsed - self.clock0
        for func in reversed(self.closers):
            func()
        self.closers = []

    def fault(self, key):
        self.faults[key] = self.faults.get(key, 0) + 1

    def probe(self, key, n=1):
        self.probes[key] = self.probes.get(key, 0) + n

    def same_everywhere(self, arrays, rtol):
        """Results that must not depend on the process that computed them."""
        import numpy as np
        values = []
        for a in arrays:
            for v in np.asarray(a, dtype=np.float64).ravel().tolist():
                values.append(v if np.isfinite(v) else None)
        self.portable = {"rtol": rtol, "values": values}

    def digest(self):
        h = hashlib.sha256()
        for w in self.worlds:
            h.update(w.digest.digest())
        for key in sorted(self.notes):
            h.update(repr((key, self.notes[key])).encode())
        return h.hexdigest()

    def summary(self):
        faults, probes, orders = dict(self.faults), dict(self.probes), set()
        total = {"session_runs": 0, "ops": 0, "decisions": 0, "branching": 0,
                 "real_kernel_calls": 0, "noise_draws": 0, "thread_switches": 0}
        for w in self.worlds:
            for k, v in w.faults.items():
                faults[k] = faults.get(k, 0) + v
            for k, v in w.probes.items():
                probes[k] = probes.get(k, 0) + v
            orders |= w.order_hashes
            total["session_runs"] += w.runs
            total["ops"] += w.ops
            total["decisions"] += w.decisions
            total["branching"] += w.branching
            total["real_kernel_calls"] += w.real_kernel_calls
            total["noise_draws"] += w.noise.draws
            if w.baton is not None:
                total["thread_switches"] += w.baton.switches
        return {"faults": faults, "probes": probes, "orders": orders, "total": total,
                "sim_s": self.sim_s}
