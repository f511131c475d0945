"""Target densities: TensorFlow cost functions with their numpy reference.

Every family couples the parameters with each other, so that a step which mixes
old and new values of different parameters is visible in its gradients.
"""
import numpy as np

from . import env
tf = env.setup()

KINDS = ("quad", "product", "rosen", "mlp", "regress")


def gen_target(rng, sizes, batched=False):
    kind = "regress" if batched else rng.choice(KINDS[:4])
    return {"kind": kind, "seed": rng.below(1 << 20)}


def gen_data(rng):
    n = rng.choice((1, 2, 3, 5, 7, 12, 20, 21))
    size = rng.choice((1, 2, 3, 5, n, n, n + 3))
    return {"n": n, "d": rng.randint(1, 3), "size": max(1, size),
            "seed": rng.below(1 << 20)}


class Target(object):
    """cost(params) both as a graph and as numpy value-and-gradient."""

    def __init__(self, spec, sizes, data=None):
        self.spec = spec
        self.kind = spec["kind"]
        self.sizes = list(sizes)
        self.dim = sum(self.sizes)
        rs = np.random.RandomState(spec["seed"] % (2 ** 31))
        d = self.dim
        self.offsets = np.cumsum([0] + self.sizes)
        if self.kind == "quad":
            m = np.round(rs.normal(size=(d, d)) / np.sqrt(d), 3)
            self.A = m.dot(m.T) + 0.3 * np.eye(d)
            self.b = np.round(rs.normal(size=d), 3)
        elif self.kind == "product":
            self.w = np.round(rs.uniform(0.5, 1.5, size=d), 3)
            self.v = np.round(rs.normal(size=d) * 0.5, 3)
        elif self.kind == "rosen":
            self.c = np.round(rs.uniform(0.3, 1.0, size=d), 3)
        elif self.kind == "mlp":
            self.P = np.round(rs.normal(size=(3, d)) / np.sqrt(d), 3)
        elif self.kind == "regress":
            self.P = np.round(rs.normal(size=(data["d"], d)), 3)
            self.lam = 0.1
        else:
            raise ValueError(self.kind)

    # -- graph -----------------------------------------------------------
    def build(self, params, dtype, placeholders=None):
        flat = [tf.reshape(p, (-1,)) for p in params]

        def const(value):
            return tf.constant(value, dtype=dtype)

        if self.kind == "quad":
            cost = 0.
            for i, fi in enumerate(flat):
                si = slice(self.offsets[i], self.offsets[i + 1])
                cost += tf.reduce_sum(fi * const(self.b[si]))
                for j, fj in enumerate(flat):
                    sj = slice(self.offsets[j], self.offsets[j + 1])
                    block = const(self.A[si, sj])
                    cost += 0.5 * tf.reduce_sum(
                        fi * tf.reshape(tf.matmul(block, tf.reshape(fj, (-1, 1))), (-1,)))
            return cost
        if self.kind == "product":
            cost = 1.
            for i, fi in enumerate(flat):
                si = slice(self.offsets[i], self.offsets[i + 1])
                cost *= 1. + 0.25 * tf.reduce_sum(const(self.w[si]) * fi * fi) / self.sizes[i]
            lin = 0.
            for i, fi in enumerate(flat):
                si = slice(self.offsets[i], self.offsets[i + 1])
                lin += tf.reduce_sum(const(self.v[si]) * fi)
            return tf.log(cost) * 2. + lin * lin * 0.1
        u = tf.concat(flat, axis=0) if len(flat) > 1 else flat[0]
        if self.kind == "rosen":
            cost = 0.5 * tf.reduce_sum(const(self.c) * (u - 1.) * (u - 1.))
            if self.dim > 1:
                r = u[1:] - 0.5 * u[:-1] * u[:-1]
                cost += 0.5 * tf.reduce_sum(tf.log(1. + r * r))
            return cost
        if self.kind == "mlp":
            h = tf.tanh(tf.reshape(tf.matmul(const(self.P), tf.reshape(u, (-1, 1))), (-1,)))
            return tf.reduce_sum((h - 0.3) * (h - 0.3)) + 0.1 * tf.reduce_sum(u * u)
        if self.kind == "regress":
            x, y = placeholders
            w = tf.matmul(const(self.P), tf.reshape(u, (-1, 1)))
            res = tf.matmul(x, w) - y
            return 0.5 * tf.reduce_mean(res * res) + 0.5 * self.lam * tf.reduce_sum(u * u)
        raise ValueError(self.kind)

    # -- numpy -----------------------------------------------------------
    def value_grad(self, flats, batch=None):
        """flats: list of 1-d arrays.  Returns cost, list of 1-d gradients."""
        u = np.concatenate([np.asarray(f, dtype=np.float64).ravel() for f in flats])
        if self.kind == "quad":
            Au = self.A.dot(u)
            cost, grad = 0.5 * u.dot(Au) + self.b.dot(u), Au + self.b
        elif self.kind == "product":
            terms, dterms = [], []
            for i in range(len(self.sizes)):
                si = slice(self.offsets[i], self.offsets[i + 1])
                t = 1. + 0.25 * np.sum(self.w[si] * u[si] ** 2) / self.sizes[i]
                terms.append(t)
                dterms.append(0.5 * self.w[si] * u[si] / self.sizes[i] / t)
            lin = self.v.dot(u)
            cost = 2. * np.sum(np.log(terms)) + 0.1 * lin * lin
            grad = 2. * np.concatenate(dterms) + 0.2 * lin * self.v
        elif self.kind == "rosen":
            cost = 0.5 * np.sum(self.c * (u - 1.) ** 2)
            grad = self.c * (u - 1.)
            if self.dim > 1:
                r = u[1:] - 0.5 * u[:-1] ** 2
                cost += 0.5 * np.sum(np.log(1. + r * r))
                dr = r / (1. + r * r)
                grad = grad.copy()
                grad[1:] += dr
                grad[:-1] -= dr * u[:-1]
        elif self.kind == "mlp":
            h = np.tanh(self.P.dot(u))
            cost = np.sum((h - 0.3) ** 2) + 0.1 * u.dot(u)
            grad = self.P.T.dot(2. * (h - 0.3) * (1. - h * h)) + 0.2 * u
        else:
            x, y = batch
            w = self.P.dot(u)
            res = x.dot(w) - y.ravel()
            cost = 0.5 * np.mean(res ** 2) + 0.5 * self.lam * u.dot(u)
            grad = self.P.T.dot(x.T.dot(res)) / len(res) + self.lam * u
        grads = [grad[self.offsets[i]:self.offsets[i + 1]]
                 for i in range(len(self.sizes))]
        return float(cost), grads


def make_data(spec):
    rs = np.random.RandomState(spec["seed"])
    x = np.round(rs.normal(size=(spec["n"], spec["d"])), 3)
    y = np.round(x.sum(axis=1) + 0.3 * rs.normal(size=spec["n"]) +
                 0.01 * np.arange(spec["n"]), 4)
    return x, y
