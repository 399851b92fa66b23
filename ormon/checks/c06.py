"""C06 KIOPS: linear combination of phi_j(dt A) b_j."""
import numpy as np
from ormon import gen, refs, kref

LEVEL_RULE = ("random operators (kinds x storage), steps, vector lists b_0..b_p with p=1..11, random zero subsets, magnitudes over 12 decades, complete and "
              "incomplete Krylov spaces, mild to extremely stiff; judged against the long double linear combination / the unique projected approximation; "
              "non-trivial = nonzero operator and at least one nonzero vector")
MIN = {"complete": 150, "projected": 20, "all_zero": 10, "stiff": 10, "some_zero": 60}
ASSUMPTIONS = ["longdouble reference", "accuracy is relative to the largest supplied vector (the routine normalises by it)"]
SHAPES = [(1, 1), (2, 2), (3, 3), (4, 1), (5, 4), (6, 2), (8, 3), (10, 5), (12, 2), (3, 5), (20, 2), (2, 4), (3, 8), (6, 7), (2, 11)]


def units(tier):
    u = []
    for i, s in enumerate(SHAPES):
        for o in ([kref.OPS[i % 5], kref.OPS[(i + 2) % 5]] if tier == "quick" else kref.OPS):
            u.append((f"{o}_{s[0]}_{s[1]}", {"n": s[0], "p": s[1], "op": o}))
    return u


def augmented(A, dt, vb):
    n, p = len(vb[0]), len(vb) - 1
    T = np.zeros((n + p, n + p), dtype=np.longdouble)
    T[:n, :n] = refs.ld(A) * np.longdouble(dt)
    for j in range(p):
        T[:n, n + j] = vb[p - j]
    for j in range(p - 1):
        T[n + j, n + j + 1] = 1
    return T


def combo(A, dt, vb):
    Z = refs.ld(A) * np.longdouble(dt)
    ph = refs.phis(Z, len(vb) - 1)
    return sum(P @ refs.ld(b) for P, b in zip(ph, vb))


def run(ctx, name, p_):
    import jax.numpy as jnp, equinox as eqx
    from jax.experimental import sparse as jsp
    from ormatex_py import ode_sys
    from ormatex_py.matexp_krylov import kiops_fixedsteps
    n, p, op = p_["n"], p_["p"], p_["op"]
    rng = ctx.rng
    for it in range(ctx.n(26, 260)):
        if not ctx.more():
            break
        fam = it % 6
        if fam == 5:
            kind = str(rng.choice(["rates", "negdef", "stiff", "diag"]))
            A, _ = gen.scaled(rng, kind, n, 2.5, 4.5)
            if kind == "diag":
                A = -np.diag(10 ** rng.uniform(-2, 5, n))
            if kind == "rates":
                A = A * 10 ** rng.uniform(1, 3)
        else:
            kind, A = kref.problem(rng, gen, n, -1.5, 1.2)
        dt = float(rng.choice([1., 10 ** rng.uniform(-3, .3), -rng.uniform(.1, 1.) if fam != 5 else .5]))
        if dt < 0 and refs.inorm(A) > 5:
            A = A * (5 / refs.inorm(A))
        vb = [rng.standard_normal(n) for _ in range(p + 1)]
        if fam in (1, 2):
            vb = [v * 10 ** rng.uniform(-6, 6) for v in vb]
        if fam in (2, 3):
            z = rng.uniform(size=p + 1) < .5
            vb = [v * (0 if q else 1) for v, q in zip(vb, z)]
            ctx.count("some_zero")
        gscale = 10 ** rng.uniform(-9, 9) if it % 3 == 0 else 1.
        vb = [v * gscale for v in vb]
        as_int = it % 13 == 7
        if as_int:
            vb = [rng.integers(-4, 5, n).astype(float) for _ in vb]
            ctx.count("integer_list")
        m = 100 if it % 4 else int(rng.integers(2, n + p + 1))
        iom = 100
        big = max(float(np.linalg.norm(v)) for v in vb)
        ctx.case((kind, op, n, p, dt, m, A.ravel()[:4].tolist(), [v[:2].tolist() for v in vb]), refs.inorm(A) > 0 and big > 0,
                 f"{kind}/{op} n={n} p={p} dt={dt:.4g} m={m} |A|={refs.inorm(A):.3e} norms={['%.1e' % np.linalg.norm(v) for v in vb]}")
        lo = kref.operators(rng, jnp, jsp, eqx, ode_sys, A, op)
        got = np.asarray(kiops_fixedsteps(lo, dt, [jnp.asarray(v.astype(int) if as_int else v) for v in vb], max_krylov_dim=m, iom=iom))
        if not ctx.ok(got.shape == (n,), "shape", f"shape {got.shape}"):
            continue
        if big == 0:
            ctx.count("all_zero")
            ctx.ok(np.all(got == 0), "all_zero", f"all-zero list gives {got[:4]}")
            continue
        if it % 9 == 0:
            z = np.asarray(kiops_fixedsteps(lo, dt, [jnp.zeros(n)] * (p + 1), max_krylov_dim=m, iom=iom))
            ctx.count("all_zero")
            ctx.ok(z.shape == (n,) and np.all(z == 0), "all_zero", f"all-zero list gives {z[:4]}")
        # model of the computation: exponential of the augmented operator on the normalised list
        T = augmented(A, dt, [v / big for v in vb])
        v = np.concatenate([refs.ld(vb[0]) / big, np.eye(p)[-1]]) if p else None
        nv = float(np.sqrt(np.sum(v * v)))
        Q, H, be = kref.ld_arnoldi(T, 1.0, v, m, iom)
        d = H.shape[0]
        complete = d == n + p or be[-1] <= 1e-12
        nt = refs.inorm(T)
        G = kref.growth(refs.ld(A) * np.longdouble(dt)) * (p + 1)
        eb = refs.expm_err_bound(np.asarray(H)) * np.sqrt(d) * nv
        arn = 200 * (n + p) * refs.EPS * (1 + nt) * G * nv
        if complete:
            exact = combo(A, dt, vb)
            tol = (eb + arn + 1e-11 * G * nv * (be[-1] > 0)) * big
            if tol < 1e-3 * big * G:
                ctx.count("complete")
                ctx.count("stiff", int(fam == 5))
                ctx.close(got, exact, tol, "combo", "sum phi_j(dt A) b_j, complete space", track="complete" + ("_stiff" if fam == 5 else ""))
            else:
                ctx.ok(np.all(np.isfinite(got)), "nonfinite", f"non-finite {got[:4]}")
        elif fam != 5:
            want = (nv * (Q @ refs.expm(H)[:, 0]))[:n] * big
            sens = 0.
            for r in range(2):
                Tp = T * (1 + 1e-13 * rng.standard_normal(T.shape))
                Q2, H2, _ = kref.ld_arnoldi(Tp, 1.0, v, m, iom)
                sens = max(sens, float(np.max(np.abs((nv * (Q2 @ refs.expm(H2)[:, 0]))[:n] * big - want))))
            tol = (eb + arn) * big + 20 * sens
            if tol < 1e-2 * big:
                ctx.count("projected")
                ctx.close(got, want, tol, "projected", f"projected approximation m={m}", track="projected")
        # linearity in the list: scaling all vectors scales the result
        if it % 5 == 0 and fam != 5:
            c = 10 ** rng.uniform(-4, 4)
            g2 = np.asarray(kiops_fixedsteps(lo, dt, [jnp.asarray(v * c) for v in vb], max_krylov_dim=m, iom=iom))
            ctx.close(g2, c * got, 4 * c * (eb + arn) * big + c * 1e-10 * big * G, "homogeneous", "scaling the list")
