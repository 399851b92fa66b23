"""C04 Arnoldi: the returned factorisation is checked column by column."""
import numpy as np
from ormon import gen, refs, kref

LEVEL_RULE = ("random operators (16 matrix kinds; dense/COO/CSR/matrix-free/autodiff storage), scales of both signs, subspace sizes below/at/above n, "
              "windows iom 1..large, start vectors generic or inside constructed invariant subspaces; non-trivial = operator nonzero")
MIN = {"long_basis": 5, "judged": 250, "windowed": 40, "breakdown": 60, "full_dim": 60, "capped": 40, "window_pairs": 100, "near_invariant": 15}
ASSUMPTIONS = ["operator matvec in double precision", "invariant subspaces are constructed exactly (block structure) and scaled so the rounding noise is below the absolute breakdown tolerance"]
SHAPES = [(1, 3), (2, 2), (3, 5), (4, 2), (5, 5), (6, 4), (8, 20), (10, 6), (12, 12), (15, 7), (20, 40), (7, 1), (70, 60), (90, 52)]


def units(tier):
    ops = kref.OPS
    u = []
    for i, s in enumerate(SHAPES):
        for o in ([ops[i % 5], ops[(i + 2) % 5]] if tier == "quick" else ops):
            u.append((f"{o}_{s[0]}_{s[1]}", {"n": s[0], "m": s[1], "op": o}))
    return u


def run(ctx, name, p):
    import jax, jax.numpy as jnp, equinox as eqx
    from jax.experimental import sparse as jsp
    from ormatex_py import ode_sys
    from ormatex_py.arnoldi_jax import arnoldi_lop
    n, m, op = p["n"], p["m"], p["op"]
    rng = ctx.rng
    base = None
    for it in range(ctx.n(30, 300) if n < 50 else ctx.n(6, 30)):
        if not ctx.more():
            break
        fam = it % 5
        s = float(rng.choice([1.0, -1.0, .5, 10 ** rng.uniform(-3, 1), -10 ** rng.uniform(-2, .5)]))
        r = None
        if fam in (3, 4) and n > 1:
            # exact invariant subspace of dimension <= r
            r = int(rng.integers(1, n))
            kind, A = kref.problem(rng, gen, n, -1., .5)
            A[r:, :r] = 0
            b = np.zeros(n)
            b[:r] = rng.standard_normal(r)
            if it % 10 == 3:
                # nearly invariant: weak coupling well above the breakdown tolerance and the rounding noise
                A = np.zeros((n, n))
                A += np.diag(np.full(n - 1, .5), -1)
                A[r, r - 1] = 10 ** rng.uniform(-10.5, -7.5)
                b[:] = 0
                b[0] = 1.
                s = 1.0
            if fam == 4:
                kind = "struct"
                A = np.zeros((n, n))
                w = int(rng.integers(4))
                if w == 0:
                    A = np.diag(np.repeat([1., -2.], n)[:n] if n > 1 else [1.]) ; b = rng.standard_normal(n)
                elif w == 1:
                    A = np.eye(n) * rng.uniform(-2, 2); b = rng.standard_normal(n)
                elif w == 2:
                    A = np.diag(np.ones(n - 1), -1); b = np.zeros(n); b[int(rng.integers(n))] = 2.
                else:
                    A = np.roll(np.eye(n), 1, axis=0); b = np.tile([1., -1.], n)[:n] if n % 2 == 0 else np.ones(n)
        else:
            kind, A = kref.problem(rng, gen, n, -2, 2.5 if fam == 1 else 1.)
            b = rng.standard_normal(n) * 10 ** rng.uniform(-8, 8)
        iom = 100 if it % 2 else int(rng.integers(1, max(2, min(m, n))))
        if it % 7 == 0:
            iom = m
        judge(ctx, arnoldi_lop, kref.operators(rng, jnp, jsp, eqx, ode_sys, A, op), jnp, A, s, b, m, iom, f"{kind}/{op}")


def judge(ctx, arnoldi_lop, lo, jnp, A, s, b, m, iom, desc):
    n = len(b)
    mm = min(m, n)
    ctx.case((desc, n, m, iom, s, A.ravel()[:5].tolist(), b[:3].tolist()), refs.inorm(A) > 0,
             f"{desc} n={n} m={m} iom={iom} scale={s:.4g} |A|={refs.inorm(A):.3e} b={b[:4]}")
    Q, H = arnoldi_lop(lo, s, jnp.asarray(b), m, iom)
    Q, H = np.asarray(Q), np.asarray(H)
    d = Q.shape[1]
    if not ctx.ok(Q.shape[0] == n and H.shape == (d, d) and 1 <= d <= mm, "shape", f"Q {Q.shape} H {H.shape} for n={n} m={m}"):
        return
    if not ctx.ok(np.all(np.isfinite(Q)) and np.all(np.isfinite(H)), "nonfinite", "non-finite factorisation"):
        return
    ctx.count("judged")
    full = iom >= d - 1
    ctx.count("windowed", int(not full))
    ctx.count("long_basis", int(full and d > 45))
    nb = np.linalg.norm(b)
    ctx.close(Q[:, 0], refs.ld(b) / np.sqrt(np.sum(refs.ld(b) ** 2)), 8 * n * refs.EPS, "start", "first basis vector")
    sA = refs.ld(A) * np.longdouble(s)
    na = float(np.sqrt(np.sum(np.abs(sA) ** 2))) + 1e-300
    # Hessenberg and band structure: exact zeros
    i, j = np.indices((d, d))
    ctx.ok(np.all(H[i > j + 1] == 0), "hessenberg", "H has entries below the subdiagonal")
    ctx.ok(np.all(H[i < np.maximum(j - iom, 0)] == 0), "band", f"H has entries above the window iom={iom}")
    ctx.ok(np.all(np.diag(H, -1) > 0), "subdiag", f"non-positive subdiagonal {np.diag(H, -1)}")
    # relation
    R = sA @ refs.ld(Q) - refs.ld(Q) @ refs.ld(H)
    tol = 30 * (n + d) * refs.EPS * na
    if d > 1:
        ctx.close(R[:, :-1], np.zeros((n, d - 1)), tol, "relation", "A Q - Q H outside the last column", track="relation")
    last = R[:, -1]
    nl = float(np.sqrt(np.sum(last ** 2)))
    ctx.ok(np.max(np.abs(np.sum(Q * Q, axis=0) - 1)) < 20 * n * refs.EPS, "unit", "basis vectors are not unit vectors")
    # orthonormality (full orthogonalisation): MGS bound through the conditioning of [q0, A Q]
    Rm = np.concatenate([np.eye(d)[:, :1], H[:, :-1]], axis=1)
    Rm = Rm / np.linalg.norm(Rm, axis=0)
    kap = np.linalg.cond(Rm)
    # local matvec rounding relative to the column norms
    amp = max(1., na / max(1e-300, float(np.min(np.linalg.norm(H[:, :-1], axis=0))))) if d > 1 else 1.
    orth_tol = 30 * n * refs.EPS * kap * amp
    if full and orth_tol < 1e-2:
        ctx.count("orth")
        ctx.close(Q.T @ Q, np.eye(d), orth_tol, "orthonormal", "Q^T Q = I", track="orth")
    elif not full:
        # consecutive window is orthogonalised
        # pairs at distance <= iom+1 are orthogonalised against each other
        G = Q.T @ Q
        for y in range(1, d):
            t = 100 * n * refs.EPS
            for z in range(max(y - 2 * iom - 2, 1), y + 1):
                t *= max(1., 2 * na / H[z, z - 1])
            if t < 1e-3:
                for x in range(max(y - 1 - iom, 0), y):
                    ctx.count("window_pairs")
                    ctx.ok(abs(G[x, y]) < t, "window_orth", f"columns {x},{y} in one window (iom={iom}) not orthogonal: {G[x, y]:.2e} > {t:.1e}")
    # the last column residual is orthogonal to the window / the last basis vector
    hl = abs(float(np.sum(refs.ld(Q[:, -1]) * last)))
    ctx.ok(hl < 30 * (n + d) * refs.EPS * na * (1 + kap * (0 if full else 0)), "last_orth", f"last residual not orthogonal to last basis vector: {hl:.2e}")
    if full and orth_tol < 1e-6:
        ctx.close(Q.T @ last.astype(float), np.zeros(d), 30 * (n + d) * refs.EPS * na + orth_tol * na, "last_orth", "last residual orthogonal to the basis")
    # dimension
    Qr, Hr, be = kref.ld_arnoldi(A, s, b, m, iom)
    noise = n * refs.EPS * na
    mid = [x for x in be if 1e-13 < x < 1e-11]
    dref = Qr.shape[1]
    broke = be[-1] <= 1e-12
    Rr = np.concatenate([np.eye(len(Hr))[:, :1], np.asarray(Hr, dtype=float)[:, :-1]], axis=1)
    Rr = Rr / np.maximum(np.linalg.norm(Rr, axis=0), 1e-300)
    am = (np.linalg.cond(Rr) if Rr.shape[1] > 1 else 1.) * max([1.] + [na / x for x in be if x > 1e-7]) if full else float(np.prod([max(1., 2 * na / x) for x in be if x > 1e-7]))
    if not mid and noise * 20 * am < 3e-13 and min([x for x in be if x >= 1e-11] + [1e9]) > 20 * am * noise:
        ctx.count('near_invariant', int(any(1e-11 <= x < 1e-7 for x in be)))
        ctx.count("dim_judged")
        ctx.ok(d == dref, "dimension", f"dimension {d}, expected {dref} (subdiagonals {be})")
        if broke and dref < mm:
            ctx.count("breakdown")
            ctx.ok(nl < 2e-12 + tol, "breakdown_residual", f"invariant subspace but residual {nl:.2e}")
        if d == n:
            ctx.count("full_dim")
        if not broke:
            ctx.count("capped")
    if full and d == n and orth_tol < 1e-6:
        ctx.ok(nl < tol + orth_tol * na, "full_residual", f"complete space but last residual {nl:.2e}")
