"""Extended-precision Arnoldi reference and operator zoo."""
import numpy as np
from ormon import refs

LD = np.longdouble


def ld_arnoldi(A, s, b, m, iom, tol=1e-12, reorth=True):
    """windowed MGS Arnoldi in long double.  Returns Q, H, betas (true subdiagonals incl. the last residual)."""
    A, b = refs.ld(A), refs.ld(b)
    n = len(b)
    m = min(m, n)
    Q = np.zeros((n, m), dtype=LD)
    H = np.zeros((m, m), dtype=LD)
    Q[:, 0] = b / np.sqrt(np.sum(b * b))
    betas = []
    for k in range(m):
        w = (A @ Q[:, k]) * LD(s)
        lo = max(k - iom, 0)
        for _ in range(2 if (reorth and lo == 0) else 1):
            for i in range(lo, k + 1):
                h = np.sum(w * Q[:, i])
                H[i, k] += h
                w = w - h * Q[:, i]
        nb = np.sqrt(np.sum(w * w))
        betas.append(float(nb))
        if nb <= tol:
            return Q[:, :k + 1], H[:k + 1, :k + 1], betas
        if k + 1 < m:
            H[k + 1, k] = nb
            Q[:, k + 1] = w / nb
    return Q, H, betas


def operators(rng, jnp, jsp, eqx, ode_sys, A, kind):
    """A as a LinOp of the given storage kind"""
    J = jnp.asarray(A)
    if kind == "dense":
        return ode_sys.MatrixLinOp(J)
    if kind == "bcoo":
        return ode_sys.MatrixLinOp(jsp.BCOO.fromdense(J))
    if kind == "bcsr":
        return ode_sys.MatrixLinOp(jsp.BCSR.fromdense(J))
    if kind == "free":
        return make_free(eqx, ode_sys)(J)
    if kind == "adjac":
        class Lin(ode_sys.OdeSys):
            a: object

            def __init__(self, a):
                self.a = a

            def _frhs(self, t, u, **kw):
                return self.a @ u
        return ode_sys.AdJacLinOp(0.3, jnp.ones(A.shape[0]), Lin(J).frhs)
    raise ValueError(kind)


_free = {}


def make_free(eqx, ode_sys):
    if "c" not in _free:
        class Free(ode_sys.LinOp):
            l: object

            def __init__(self, a):
                self.l = a

            def _matvec(self, v):
                # row-wise action without a stored product A @ v
                return (self.l * v[None, :]).sum(axis=1)

            def _dense(self):
                return self.l
        _free["c"] = Free
    return _free["c"]


OPS = ["dense", "bcoo", "bcsr", "free", "adjac"]


def growth(A):
    """max norm of exp(tau A) over the dyadic chain (>= 1)"""
    ch = refs.phi_chain(A, 0)
    return max([1.0] + [refs.inorm(c[0]) for c in ch])


def problem(rng, gen, n, lo=-1.5, hi=1.3, kinds=None):
    kind = str(rng.choice(kinds or gen.KINDS))
    A, s = gen.scaled(rng, kind, n, lo, hi)
    return kind, A
