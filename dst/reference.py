"""Executable reference models of the four samplers' steps (numpy, float64).

Each model predicts a step's displacement from the parameters at its start, the
gradients there, the step size in force and the noise drawn.  Hidden state
(momentum, burn-in statistics) is tracked from the first step on.  After a step
that failed half-way the hidden state is uncertain: the model then keeps every
combination of "this hidden quantity was / was not updated" and drops those the
following steps contradict; a step no remaining combination explains is a
violation.
"""
import itertools

import numpy as np

SMALL = 1e-16


def safe_divide(x, y):
    return x / (y + (2. * np.sign(y) * SMALL + SMALL))


def close(observed, predicted, start, rtol, ulp, slack=0.):
    """Compares displacements; rounding is relative to the parameter's size."""
    observed = np.asarray(observed, dtype=np.float64)
    move_obs, move_pred = observed - start, predicted - start
    scale = np.maximum(np.max(np.abs(move_pred), initial=0.), 0.)
    size = np.maximum(np.abs(start), np.abs(predicted))
    tol = rtol * scale + ulp * (size + 1e-30) + 1e-300 + slack
    return bool(np.all(np.abs(move_obs - move_pred) <= tol))


MAX_HYPS = 1024


class Tolerance(object):
    def __init__(self, dtype):
        if dtype == "float64":
            self.rtol, self.ulp, self.cost, self.rounding = 1e-6, 1e-14, 1e-9, 1e-14
        else:
            self.rtol, self.ulp, self.cost, self.rounding = 2e-3, 2e-6, 2e-4, 1e-6


class Model(object):
    """Per-parameter hypotheses about hidden state."""

    hidden = ()            # names of hidden arrays, in the order of _advance

    def __init__(self, cfg, sizes):
        self.cfg = cfg
        self.sizes = sizes
        self.tol = Tolerance(cfg.get("dtype", "float64"))
        self.hyps = [[self._initial(n)] for n in sizes]
        self.max_hyps = 1

    # check one successful step
    def check(self, theta0, theta1, grads, eps, z, burn_in):
        problems = []
        for i in range(len(self.sizes)):
            kept, best = [], None
            if self.hyps[i] is None:
                continue
            for state in self.hyps[i]:
                theta_new, new = self._advance(state, theta0[i], grads[i], eps, z, burn_in, theta1[i])
                if close(theta1[i], theta_new, theta0[i], self.tol.rtol, self.tol.ulp):
                    new = dict(new)
                    if burn_in:
                        new["seen"] = new.get("minv")
                    kept.append(new)
                else:
                    best = theta_new
            if kept:
                self._keep(i, kept)
            else:
                problems.append({"param": i, "start": theta0[i].tolist(),
                                 "observed": np.asarray(theta1[i]).tolist(),
                                 "predicted": best.tolist()})
        return problems

    def _keep(self, i, states):
        unique = {}
        for state in states:
            key = tuple((k, None if v is None else np.asarray(v).tobytes())
                        for k, v in sorted(state.items()))
            unique.setdefault(key, state)
        self.max_hyps = max(self.max_hyps, len(unique))
        # too many half-done steps in a row: nothing can be predicted any more
        self.hyps[i] = list(unique.values()) if len(unique) <= MAX_HYPS else None

    # a step that raised: how = "none" | "all" | "any"
    def fail(self, how, theta0, theta1, grads, eps, z, burn_in):
        problems = []
        for i in range(len(self.sizes)):
            moved = not np.array_equal(np.asarray(theta1[i], dtype=np.float64), theta0[i])
            if how == "none":
                if moved:
                    problems.append({"param": i, "note": "moved although nothing ran",
                                     "start": theta0[i].tolist(),
                                     "observed": np.asarray(theta1[i]).tolist()})
                continue
            kept, best = [], theta0[i]
            if self.hyps[i] is None:
                continue
            for state in self.hyps[i]:
                theta_new, new = self._advance(state, theta0[i], grads[i], eps, z, burn_in, theta1[i])
                fits = close(theta1[i], theta_new, theta0[i], self.tol.rtol, self.tol.ulp)
                if how == "all":
                    if fits:
                        kept.append(dict(new, seen=state.get("seen")))
                    best = theta_new
                    continue
                if moved and not fits:
                    best = theta_new
                    continue
                for mask in itertools.product((0, 1), repeat=len(self.hidden)):
                    mixed = dict(state)
                    for name, bit in zip(self.hidden, mask):
                        if bit:
                            mixed[name] = new[name]
                    kept.append(mixed)
            if kept:
                self._keep(i, kept)
            else:
                problems.append({"param": i, "note": "neither old nor updated value after a failed step",
                                 "start": theta0[i].tolist(),
                                 "observed": np.asarray(theta1[i]).tolist(),
                                 "predicted": best.tolist()})
        return problems


class Adaptive(Model):
    """Burn-in statistics shared by SGHMC and SGLD (Springenberg et al. 2016)."""

    def _initial(self, n):
        return {"tau": np.ones(n), "g": np.ones(n), "v": np.ones(n),
                "mom": np.zeros(n), "seen": None}

    def _adapt(self, s, grad):
        r = 1. / (s["tau"] + 1.)
        tau = s["tau"] + safe_divide(-s["g"] * s["g"] * s["tau"], s["v"]) + 1.
        minv = safe_divide(1., np.sqrt(np.maximum(s["v"], 0.)))
        g = s["g"] + (-r * s["g"] + r * grad)
        v = s["v"] + (-r * s["v"] + r * grad ** 2)
        return dict(s, tau=tau, g=g, v=v, minv=minv)

    def _minv(self, s, adapted, burn_in):
        return adapted["minv"] if burn_in or s["seen"] is None else s["seen"]


class SGHMC(Adaptive):
    hidden = ("tau", "g", "v", "mom")

    def _advance(self, s, theta, grad, eps, z, burn_in, observed):
        new = self._adapt(s, grad)
        minv = self._minv(s, new, burn_in)
        mdecay = self.cfg["mdecay"]
        eps_scaled = eps / np.sqrt(self.cfg["scale_grad"])
        var = 2. * eps_scaled ** 2 * mdecay * minv - eps_scaled ** 4
        sigma = np.sqrt(np.maximum(var, 1e-16))
        mom = s["mom"] + (-eps ** 2 * minv * grad - mdecay * s["mom"] + sigma * z)
        return theta + mom, dict(new, mom=mom)

    def sigma(self, s, grad, eps, burn_in):
        new = self._adapt(s, grad)
        minv = self._minv(s, new, burn_in)
        eps_scaled = eps / np.sqrt(self.cfg["scale_grad"])
        var = 2. * eps_scaled ** 2 * self.cfg["mdecay"] * minv - eps_scaled ** 4
        return np.sqrt(np.maximum(var, 1e-16))


class SGLD(Adaptive):
    hidden = ("tau", "g", "v")

    def _sigma(self, minv, eps):
        return np.sqrt(np.maximum(
            2. * eps * safe_divide(minv * self.cfg["A"], self.cfg["scale_grad"]), 0.))

    def _advance(self, s, theta, grad, eps, z, burn_in, observed):
        new = self._adapt(s, grad)
        minv = self._minv(s, new, burn_in)
        return (theta - eps * minv * self.cfg["A"] * grad + self._sigma(minv, eps) * z,
                new)

    def sigma(self, s, grad, eps, burn_in):
        new = self._adapt(s, grad)
        return self._sigma(self._minv(s, new, burn_in), eps)


class Relativistic(Model):
    """One momentum per parameter; its starting value is random and hidden.

    It is read off the first displacement (the relativistic velocity is a
    strictly monotone function of the momentum); from then on every step is
    predicted.
    """

    hidden = ("p",)

    def _initial(self, n):
        return {"p": None, "seen": None}

    def _velocity(self, p, eps):
        m, c = self.cfg["mass"], self.cfg["speed_of_light"]
        return eps * p / (m * np.sqrt(p * p / (m * m * c * c) + 1.))

    def _momentum(self, move, eps):
        m, c = self.cfg["mass"], self.cfg["speed_of_light"]
        u = move / (eps * c)
        return m * c * u / np.sqrt(max(1e-12, 1. - u * u))

    def sigma(self, s, grad, eps, burn_in):
        return np.full(1, np.sqrt(eps * (2. * self.cfg["D"] - eps * self.cfg["Bhat"])))

    def _advance(self, s, theta, grad, eps, z, burn_in, observed):
        grad = float(np.ravel(grad)[0])
        start = float(np.ravel(theta)[0])
        if s["p"] is None:
            move = float(np.ravel(observed)[0]) - start
            limit = eps * self.cfg["speed_of_light"]
            if abs(move) > limit * (1. + self.tol.rtol) + self.tol.ulp * (abs(start) + 1e-9):
                return theta + np.sign(move) * limit, dict(s, p=None)
            # the first step pins the momentum down
            return (np.asarray(observed, dtype=np.float64).reshape(theta.shape),
                    dict(s, p=self._momentum(move, eps)))
        D, B = self.cfg["D"], self.cfg["Bhat"]
        noise = np.sqrt(eps * (2. * D - eps * B)) * float(np.ravel(z)[0])
        p = s["p"] - eps * grad + noise - D * self._velocity(s["p"], eps)
        return theta + self._velocity(p, eps), dict(s, p=p)

    def fail(self, how, theta0, theta1, grads, eps, z, burn_in):
        # with an unknown momentum only a completed step is informative
        if how != "any":
            return Model.fail(self, how, theta0, theta1, grads, eps, z, burn_in)
        problems = []
        known = [i for i in range(len(self.sizes)) if self.hyps[i] is not None and self.hyps[i][0]["p"] is not None]
        for i in range(len(self.sizes)):
            if i in known or self.hyps[i] is None:
                continue
            if not np.array_equal(theta1[i], theta0[i]):
                move = float(np.ravel(theta1[i])[0] - np.ravel(theta0[i])[0])
                self.hyps[i] = [dict(self.hyps[i][0], p=self._momentum(move, eps))]
        saved = {i: self.hyps[i] for i in range(len(self.sizes)) if i not in known}
        problems = Model.fail(self, how, theta0, theta1, grads, eps, z, burn_in)
        problems = [p for p in problems if p["param"] in known]
        for i, hyps in saved.items():
            self.hyps[i] = hyps
        return problems


class SVGD(object):
    """All particles move together; the hidden state is one running average."""

    def __init__(self, cfg, sizes):
        self.cfg = cfg
        self.sizes = sizes
        self.tol = Tolerance(cfg.get("dtype", "float64"))
        # running averages, each with a bound on what rounding makes of it
        self.hyps = [(np.zeros((len(sizes), sizes[0])),) * 2]
        self.max_hyps = 1

    def phi(self, theta, grads):
        """The direction of every particle, and a bound on its rounding error: attraction
        and repulsion may cancel, and the update divides by the direction's size."""
        x = np.stack(theta)
        g = np.stack(grads)
        n = len(x)
        diff = x[:, None, :] - x[None, :, :]
        dist2 = np.sum(diff ** 2, axis=2)
        h2 = 0.5 * np.median(dist2) / np.log(n + 1.)
        K = np.exp(-dist2 / h2 / 2.)
        repulse = (-K.dot(x) + x * K.sum(axis=1)[:, None]) / h2
        eps = self.tol.rounding
        away = dist2 > 0.
        rel = np.where(away, 2. * eps * (1. + np.max(np.abs(x)) / np.sqrt(np.where(away, dist2, 1.))), 0.)
        rel_h = np.max(rel)
        K_err = K * (eps + dist2 / h2 / 2. * (rel + rel_h))
        ax, ag = np.abs(x), np.abs(g)
        err = (K_err.dot(ag) + 10. * eps * K.sum(axis=1)[:, None] * np.max(ag) +
               (K_err.dot(ax) + ax * K_err.sum(axis=1)[:, None] +
                eps * (K.dot(ax) + ax * K.sum(axis=1)[:, None])) / h2 + np.abs(repulse) * rel_h) / n
        return (K.dot(g) - repulse) / n, err

    def _advance(self, hyp, theta, grads, eps):
        hist, hist_err = hyp
        phi, err = self.phi(theta, grads)
        a, f = self.cfg["alpha"], self.cfg["fudge_factor"]
        hist = a * hist + (1. - a) * phi ** 2
        hist_err = a * hist_err + (1. - a) * (2. * np.abs(phi) * err + err ** 2)
        root = np.sqrt(np.maximum(hist - hist_err, 0.))
        slack = eps * (err / (f + root) + np.abs(phi) * (np.sqrt(hist + hist_err) - root) / (f + root) ** 2)
        return np.stack(theta) - eps * phi / (f + np.sqrt(hist)), (hist, hist_err), slack

    def check(self, theta0, theta1, grads, eps, z, burn_in):
        kept, bad = [], None
        for hyp in self.hyps:
            pred, new, slack = self._advance(hyp, theta0, grads, eps)
            wrong = [i for i in range(len(theta0)) if not
                     close(theta1[i], pred[i], theta0[i], self.tol.rtol, self.tol.ulp, slack[i])]
            if not wrong:
                kept.append(new)
            else:
                bad = (wrong[0], pred[wrong[0]])
        if kept:
            self.hyps = kept[:64]
            return []
        return [{"param": bad[0], "start": theta0[bad[0]].tolist(),
                 "observed": np.asarray(theta1[bad[0]]).tolist(), "predicted": bad[1].tolist()}]

    def fail(self, how, theta0, theta1, grads, eps, z, burn_in):
        kept, bad = [], None
        if how == "none":
            for i in range(len(theta0)):
                if not np.array_equal(np.asarray(theta1[i], dtype=np.float64), theta0[i]):
                    return [{"param": i, "note": "moved although nothing ran",
                             "start": theta0[i].tolist(),
                             "observed": np.asarray(theta1[i]).tolist()}]
            return []
        for hyp in self.hyps:
            pred, new, slack = self._advance(hyp, theta0, grads, eps)
            moved = [not np.array_equal(np.asarray(theta1[i], dtype=np.float64), theta0[i])
                     for i in range(len(theta0))]
            wrong = []
            for i in range(len(theta0)):
                fits = close(theta1[i], pred[i], theta0[i], self.tol.rtol, self.tol.ulp, slack[i])
                if how == "all" and not fits or \
                        how == "any" and moved[i] and not fits:
                    wrong.append(i)
            if wrong:
                bad = (wrong[0], pred[wrong[0]])
                continue
            if how == "any":
                kept.append(hyp)
            kept.append(new)
        if kept:
            self.hyps = kept[:64]
            self.max_hyps = max(self.max_hyps, len(self.hyps))
            return []
        return [{"param": bad[0], "note": "neither old nor updated value after a failed step",
                 "start": theta0[bad[0]].tolist(),
                 "observed": np.asarray(theta1[bad[0]]).tolist(), "predicted": bad[1].tolist()}]


MODELS = {"SGHMC": SGHMC, "SGLD": SGLD, "REL": Relativistic, "SVGD": SVGD}
