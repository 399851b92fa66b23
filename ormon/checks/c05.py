"""C05 Krylov phi/exp actions."""
import numpy as np
from ormon import gen, refs, kref

LEVEL_RULE = ("random operators (kinds x storage), steps of both signs, start vectors over many decades, orders 0..4, subspace sizes below/at/above n, "
              "windows; complete subspaces are judged against phi_k(A dt)v, incomplete ones against the unique projected approximation in long double; "
              "non-trivial = nonzero operator and vector")
MIN = {"zero_step": 30, "complete": 120, "projected": 60, "zero": 20, "homogeneous": 40, "storage": 30}
ASSUMPTIONS = ["longdouble Arnoldi and phi reference", "sensitivity of the projected approximation is measured by perturbing the data"]
SHAPES = [(1, 2), (3, 3), (4, 10), (5, 3), (6, 6), (8, 5), (9, 100), (12, 8), (16, 16), (25, 10), (7, 1), (40, 14), (64, 52)]


def units(tier):
    u = []
    for i, s in enumerate(SHAPES):
        for o in ([kref.OPS[(i + 1) % 5], kref.OPS[(i + 3) % 5]] if tier == "quick" else kref.OPS):
            u.append((f"{o}_{s[0]}_{s[1]}", {"n": s[0], "m": s[1], "op": o}))
    return u


def phi_tol(H, k, nv):
    """error of the small evaluator applied to H, e1 (2-norm of the coefficient vector), exact small vector"""
    d = H.shape[0]
    e1 = np.zeros((d, 1))
    e1[0] = 1
    if k == 0:
        return refs.expm_err_bound(H) * np.sqrt(d) * nv
    _, e, _ = refs.appl_bound(H, e1, k)
    return e * np.sqrt(d) * nv


def projected(A, dt, v, k, m, iom):
    Q, H, be = kref.ld_arnoldi(A, dt, v, m, iom)
    nv = np.sqrt(np.sum(refs.ld(v) ** 2))
    return nv * (Q @ refs.phis(H, k)[k][:, 0]), H, be, Q


def run(ctx, name, p):
    import jax.numpy as jnp, equinox as eqx
    from jax.experimental import sparse as jsp
    from ormatex_py import ode_sys
    from ormatex_py.matexp_krylov import phi_linop, matexp_linop
    n, m, op = p["n"], p["m"], p["op"]
    rng = ctx.rng
    for it in range(ctx.n(30, 300) if n < 50 else ctx.n(8, 40)):
        if not ctx.more():
            break
        k = int((it + it // 5) % 5)
        kinds = None
        iom = 100 if it % 2 else 1000
        if it % 4 == 3:
            kinds, iom = ["sym", "negdef", "diag", "zero"], int(rng.choice([1, 2, 3]))
        kind, A = kref.problem(rng, gen, n, -1.5, 1.3 if it % 5 else 2.3, kinds)
        v = rng.standard_normal(n)
        if it % 6 == 0 and n > 2:      # invariant subspace
            r = int(rng.integers(1, n))
            A[r:, :r] = 0
            v[r:] = 0
        vs = 10 ** rng.uniform(-10, 10) if it % 3 == 0 else 1.
        v = v * vs
        as_int = it % 10 == 7
        if as_int:
            v = rng.integers(-4, 5, n).astype(float)
            v[int(rng.integers(n))] = 3.
            ctx.count("integer_vector")
        dt = float(rng.choice([1., 10 ** rng.uniform(-3, 0), -rng.uniform(.1, 1.)]))
        if it % 11 == 6:
            dt = 0.
            ctx.count("zero_step")
        if dt < 0 and kind in gen.STABLE and refs.inorm(A) > 6:
            A = A * (6 / refs.inorm(A))
        nv = float(np.linalg.norm(v))
        ctx.case((kind, op, n, m, k, dt, A.ravel()[:4].tolist(), v[:3].tolist()), refs.inorm(A) > 0,
                 f"{kind}/{op} n={n} m={m} iom={iom} k={k} dt={dt:.4g} |A|={refs.inorm(A):.3e} |v|={nv:.3e}")
        lo = kref.operators(rng, jnp, jsp, eqx, ode_sys, A, op)
        call = (lambda vv: np.asarray(phi_linop(lo, dt, jnp.asarray(vv), k, m, iom)))
        got = call(v.astype(int)) if as_int else call(v)
        if not ctx.ok(got.shape == (n,), "shape", f"shape {got.shape}"):
            continue
        na = refs.inorm(A * dt)
        G = kref.growth(A * dt)
        want, H, be, Q = projected(A, dt, v, k, m, iom)
        base = phi_tol(H.astype(float), k, nv) + 200 * n * refs.EPS * (1 + na) * G * G * nv
        d = H.shape[0]
        complete = (d == n and iom >= d) or be[-1] <= 1e-12
        if complete:
            exact = refs.phi_apply(refs.ld(A) * np.longdouble(dt), v, k)
            if base < .2 * nv * G:
                ctx.count("complete")
                ctx.close(got, exact, base + 1e-11 * G * nv * (be[-1] > 0), "complete", f"phi_{k}(A dt) v with a complete subspace", track="complete")
        # projected approximation with measured sensitivity
        sens = 0.
        for r_ in range(2):
            P = A * (1 + 1e-13 * rng.standard_normal(A.shape))
            w2 = projected(P, dt, v * (1 + 1e-13 * rng.standard_normal(n)), k, m, iom)[0]
            sens = max(sens, float(np.max(np.abs(w2 - want))))
        tol = base + 20 * sens
        if not complete and tol < 1e-2 * nv:
            ctx.count("projected")
            ctx.close(got, want, tol, "projected", f"phi_{k} projected approximation m={m} iom={iom}", track="projected")
        # metamorphic: homogeneity, k=0 alias, zero vector, storage independence
        if it % 2 == 0:
            c = float(rng.choice([-1., 2., 1e-6, 1e5]))
            ctx.count("homogeneous")
            ctx.close(call(v * c), c * got, abs(c) * (1e-11 * nv * G + base + 40 * sens), "homogeneous", f"phi(c v) = c phi(v), c={c}", track="homog")
        if k == 0:
            g0 = np.asarray(matexp_linop(lo, dt, jnp.asarray(v), m, iom))
            ctx.close(g0, got, 1e-14 * np.max(np.abs(got)) if np.max(np.abs(got)) > 0 else 0., "exp_alias", "matexp_linop vs phi_0")
        if it % 5 == 0:
            z = call(np.zeros(n))
            ctx.count("zero")
            ctx.ok(z.shape == (n,) and np.all(z == 0), "zero", f"zero vector mapped to {z[:4]}")
        if it % 6 == 1:
            o2 = kref.OPS[(kref.OPS.index(op) + 1 + it) % 5]
            lo2 = kref.operators(rng, jnp, jsp, eqx, ode_sys, A, o2)
            g2 = np.asarray(phi_linop(lo2, dt, jnp.asarray(v), k, m, iom))
            ctx.count("storage")
            ctx.close(g2, got, 2 * (200 * n * refs.EPS * (1 + na) * G * G * nv + 20 * sens), "storage", f"{o2} vs {op}", track="storage")
