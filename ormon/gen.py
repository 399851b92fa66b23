"""Workload generators (all driven by a numpy Generator)."""
import numpy as np

KINDS = ["randn", "stable", "skew", "sym", "negdef", "diag", "jordan", "nilpotent", "singular", "zero",
         "triu", "stiff", "rates", "perm", "rank1", "osc"]


def orth(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def wellcond(rng, n):
    """random well-conditioned basis (cond <~ 10)"""
    return orth(rng, n) @ np.diag(10 ** rng.uniform(-.5, .5, n)) @ orth(rng, n)


def matrix(rng, kind, n):
    """matrix of the given kind with norm O(1)"""
    R = rng.standard_normal((n, n)) / max(1., np.sqrt(n))
    if kind == "randn":
        return R
    if kind == "stable":
        return R - 2.0 * np.eye(n)
    if kind == "skew":
        return R - R.T
    if kind == "sym":
        return (R + R.T) / 2
    if kind == "negdef":
        return -(R @ R.T)
    if kind == "diag":
        return np.diag(rng.standard_normal(n))
    if kind == "jordan":
        return np.diag(np.full(n, rng.uniform(-1, .5))) + np.diag(np.full(n - 1, 1.0), 1)
    if kind == "nilpotent":
        return np.triu(R, 1)
    if kind == "singular":
        u = R.copy()
        if n > 1:
            u[:, -1] = u[:, :-1] @ rng.standard_normal(n - 1)
        else:
            u[:] = 0
        return u
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "triu":
        return np.triu(R) + np.triu(rng.standard_normal((n, n)), 1) * 3 - np.eye(n)
    if kind == "stiff":
        V = wellcond(rng, n)
        lam = -10 ** rng.uniform(-3, 0, n)
        return V @ np.diag(lam) @ np.linalg.inv(V)
    if kind == "rates":
        A = np.abs(rng.standard_normal((n, n))) * (rng.uniform(size=(n, n)) < .5)
        np.fill_diagonal(A, 0)
        return A - np.diag(A.sum(axis=0) + (rng.uniform(size=n) < .4) * rng.uniform(0, 1, n))
    if kind == "perm":
        return np.eye(n)[rng.permutation(n)]
    if kind == "rank1":
        return np.outer(rng.standard_normal(n), rng.standard_normal(n)) / n
    if kind == "osc":
        A = np.zeros((n, n))
        for i in range(0, n - 1, 2):
            w = rng.uniform(.2, 1)
            d = rng.uniform(-.3, 0)
            A[i:i + 2, i:i + 2] = [[d, w], [-w, d]]
        if n % 2:
            A[-1, -1] = rng.uniform(-1, 0)
        Q = orth(rng, n)
        return Q @ A @ Q.T
    raise ValueError(kind)


STABLE = ["skew", "negdef", "stiff", "rates", "osc", "zero"]


def scaled(rng, kind, n, lo, hi):
    """matrix scaled by 10**U(lo,hi); unstable kinds are capped so that exp stays moderate"""
    A = matrix(rng, kind, n)
    s = 10 ** rng.uniform(lo, hi)
    if kind not in STABLE:
        mu = max(0., float(np.max(np.linalg.eigvalsh((A + A.T) / 2))))
        if mu * s > 6:
            s = 6 / mu
    return A * s, s
