"""Independent reference models in extended precision (numpy longdouble) and mpmath."""
import math
import numpy as np

LD = np.longdouble
CLD = np.clongdouble
EPS = float(np.finfo(float).eps)


def ld(a):
    a = np.asarray(a)
    return a.astype(CLD if np.iscomplexobj(a) else LD)


def inorm(a):
    a = np.asarray(a)
    return float(np.max(np.sum(np.abs(a), axis=1))) if a.size else 0.0


def nsq(theta, target=0.5):
    s = 0
    while theta > target:
        theta /= 2
        s += 1
    return s


def phi_chain(a, k, nterms=30):
    """phi_0..phi_k of a / 2^s, a / 2^(s-1), ..., a   (list of lists), longdouble."""
    a = ld(a)
    n = a.shape[0]
    s = nsq(inorm(a))
    z = a / LD(2) ** s
    I = np.eye(n, dtype=a.dtype)
    # top order by Taylor
    top = I / LD(math.factorial(k))
    term = top.copy()
    for j in range(1, nterms):
        term = term @ z / LD(k + j)
        top = top + term
    ph = [None] * (k + 1)
    ph[k] = top
    for j in range(k - 1, -1, -1):
        ph[j] = I / LD(math.factorial(j)) + z @ ph[j + 1]
    chain = [ph]
    for _ in range(s):
        new = [None] * (k + 1)
        new[0] = ph[0] @ ph[0]
        for j in range(1, k + 1):
            acc = ph[0] @ ph[j]
            for i in range(1, j + 1):
                acc = acc + ph[i] / LD(math.factorial(j - i))
            new[j] = acc / LD(2) ** j
        ph = new
        chain.append(ph)
    return chain


def phis(a, k):
    return phi_chain(a, k)[-1]


def expm(a):
    return phis(a, 0)[0]


def phi_apply(a, b, k):
    return phis(a, k)[k] @ ld(b)


def expm_err_bound(a, c=60.0):
    """Bound (inf norm) for the error of the platform's double-precision Pade-13
    scaling-and-squaring exponential of a, propagated with the true intermediate norms.
    jax scales the 1-norm only below 10.74 (floor of the log), so the Pade truncation
    error at the scaled argument is part of the model."""
    a = ld(a)
    n = a.shape[0]
    nrm1 = float(np.max(np.sum(np.abs(a), axis=0))) if a.size else 0.0
    s = max(0, int(math.floor(math.log2(nrm1 / 5.371920351148152)))) if nrm1 > 5.371920351148152 else 0
    ts = nrm1 / 2.0 ** s
    X = expm(a / LD(2) ** s)
    nx = inorm(X)
    trunc = 4 * 8.9e-36 * ts ** 27 * n
    e = c * n * EPS * math.exp(min(ts, 11.0)) * max(1.0, nx) ** .5 + trunc * nx
    for _ in range(s):
        nx = inorm(X)
        e = min(2 * nx * e + e * e + n * EPS * nx * nx, 1e120)
        X = X @ X
    return e


def sq_bounds(z, k, deg=4, scale_fact=16, c=30.0):
    """Inf-norm error bounds for phi_0..phi_k of the documented scaling-and-squaring
    evaluator (Taylor of total degree `deg`, argument scaled below 2/scale_fact),
    and the exact phis: returns (phis, bounds). Also the squaring count."""
    z = ld(z)
    n = z.shape[0]
    theta = inorm(z)
    N = int(max(0, math.floor(math.log2(theta * scale_fact)))) if theta > 0 else 0
    zs = z / LD(2) ** N
    ts = theta / 2.0 ** N
    ph = phis(zs, k)
    # truncation of phi_j: sum_{m>=deg+1} |z|^{m-j}/m!  <= ts^{deg+1-j}/(deg+1)! * 1/(1-ts/(deg+2))
    e = [ts ** (deg + 1 - j) / math.factorial(deg + 1) / (1 - min(ts, .5) / (deg + 2)) + c * n * EPS for j in range(k + 1)]
    for _ in range(N):
        nrm = [inorm(p) for p in ph]
        ne = [2 * nrm[0] * e[0] + e[0] ** 2 + c * n * EPS * nrm[0] ** 2] + [None] * k
        new = [ph[0] @ ph[0]] + [None] * k
        for j in range(1, k + 1):
            acc = ph[0] @ ph[j]
            ee = (nrm[0] + e[0]) * e[j] + nrm[j] * e[0] + c * n * EPS * (nrm[0] * nrm[j] + 1.0)
            for i in range(1, j + 1):
                acc = acc + ph[i] / LD(math.factorial(j - i))
                ee += e[i] / math.factorial(j - i)
            new[j] = acc / LD(2) ** j
            ne[j] = ee / 2.0 ** j
        ph, e = new, [min(x, 1e120) for x in ne]
    return ph, [1.02 * x if x < 1e100 else math.inf for x in e], N


def aug(z, b, k):
    """[z B 0; 0 0 I; 0 0 0] of the phi_k action (k>=1)."""
    z, b = ld(z), ld(b)
    n, m = b.shape
    tot = n + k * m
    A = np.zeros((tot, tot), dtype=np.result_type(z.dtype, b.dtype))
    A[:n, :n] = z
    A[:n, n:n + m] = b
    for i in range((k - 1) * m):
        A[n + i, n + m + i] = 1
    return A


def appl_bound(z, b, k):
    """error bound (inf norm of the whole block row) for the dense action, k>=1, and exact value"""
    A = aug(z, b, k)
    ph, e, N = sq_bounds(A, 0)
    n, m = b.shape
    return ph[0][:n, -m:], e[0], N


def ldsolve(A, B):
    """Gaussian elimination with partial pivoting in extended precision"""
    A, B = ld(A).copy(), ld(B).copy()
    dt = np.result_type(A.dtype, B.dtype)
    A, B = A.astype(dt), B.astype(dt)
    n = A.shape[0]
    for i in range(n):
        p = i + int(np.argmax(np.abs(A[i:, i])))
        if p != i:
            A[[i, p]] = A[[p, i]]
            B[[i, p]] = B[[p, i]]
        f = A[i + 1:, i] / A[i, i]
        A[i + 1:, i:] -= f[:, None] * A[i, i:]
        B[i + 1:] -= f[:, None] * B[i]
    X = np.zeros_like(B)
    for i in range(n - 1, -1, -1):
        X[i] = (B[i] - A[i, i + 1:] @ X[i + 1:]) / A[i, i]
    return X


def sq_replica(z, k, N, deg=4):
    """the documented evaluator (Taylor of total degree deg on z/2^N, modified squaring) in extended precision"""
    z = ld(z)
    n = z.shape[0]
    zs = z / LD(2) ** N
    I = np.eye(n, dtype=z.dtype)
    ph = []
    for j in range(k + 1):
        term = I / LD(math.factorial(j))
        acc = term.copy()
        for m in range(1, deg - j + 1):
            term = term @ zs / LD(j + m)
            acc = acc + term
        ph.append(acc)
    for _ in range(N):
        new = [ph[0] @ ph[0]]
        for j in range(1, k + 1):
            acc = ph[0] @ ph[j]
            for i in range(1, j + 1):
                acc = acc + ph[i] / LD(math.factorial(j - i))
            new.append(acc / LD(2) ** j)
        ph = new
    return ph


def sq_err(z, k, deg=4, scale_fact=16, c=30.0):
    """like sq_bounds, but the truncation part is the truncation error actually realised by the documented
    evaluator (factor 4, worst over neighbouring squaring counts) and only rounding is bounded a priori."""
    z = ld(z)
    n = z.shape[0]
    theta = inorm(z)
    N = int(max(0, math.floor(math.log2(theta * scale_fact)))) if theta > 0 else 0
    ch = phi_chain(z, k)
    ex = ch[-1]
    tr = [0.0] * (k + 1)
    for M in {N, max(0, N - 1)} if N > 1 else {N}:
        rp = sq_replica(z, k, M, deg)
        tr = [max(t, inorm(a - b)) for t, a, b in zip(tr, rp, ex)]
    # rounding only
    ph = phis(z / LD(2) ** N, k)
    e = [c * n * EPS] * (k + 1)
    for _ in range(N):
        nrm = [inorm(p) for p in ph]
        ne = [2 * nrm[0] * e[0] + c * n * EPS * nrm[0] ** 2]
        new = [ph[0] @ ph[0]]
        for j in range(1, k + 1):
            acc = ph[0] @ ph[j]
            ee = nrm[0] * e[j] + nrm[j] * e[0] + c * n * EPS * (nrm[0] * nrm[j] + 1.0)
            for i in range(1, j + 1):
                acc = acc + ph[i] / LD(math.factorial(j - i))
                ee += e[i] / math.factorial(j - i)
            new.append(acc / LD(2) ** j)
            ne.append(ee / 2.0 ** j)
        ph, e = new, [min(x, 1e120) for x in ne]
    return ex, [4 * a + b for a, b in zip(tr, e)], N
