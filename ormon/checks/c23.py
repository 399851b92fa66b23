"""C23 power iteration and Leja shift/scale: exact convergence bounds from constructed spectra."""
import numpy as np
from ormon import gen

LEVEL_RULE = ("operators built from a prescribed dominant real eigenvalue, gap ratio and eigenvector basis; the tangent bound of the power method "
              "(tan angle_k <= gap^k tan angle_0, exact for symmetric operators) bounds estimate and vector at the reported iteration count, applications of the "
              "operator are counted by a host callback, and the bound on successive differences limits the iteration count; non-trivial = gap ratio in (0,1) with start not an eigenvector")
MIN = {"sym": 150, "nonnormal": 80, "capped": 60, "converged": 80, "counted": 30, "warm": 60, "shift": 60, "monotone": 30, "degenerate": 8}
ASSUMPTIONS = ["start vectors with a dominant component of at least 5% of their norm"]


def units(tier):
    reps = 1 if tier == "quick" else 8
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("sym", "nonnormal", "count", "warm", "shift", "degenerate")]


def operator(rng, n, sym, gap, lam):
    """matrix with dominant real eigenvalue lam, all others of modulus <= gap*|lam|, eigenvector matrix X (orthogonal if sym)"""
    if sym:
        X, _ = np.linalg.qr(rng.standard_normal((n, n)))
        lo = rng.choice([-gap, 0.]) # one-signed spectra: the quotients are monotone
        e = np.concatenate([[lam], rng.uniform(lo, gap, n - 1) * lam])
        if n > 1:
            e[1] = gap * lam * (rng.choice([-1, 1]) if lo < 0 else 1)
        A = X @ np.diag(e) @ X.T
        return .5 * (A + A.T), X, e
    X = np.eye(n) + .25 * rng.standard_normal((n, n)) / np.sqrt(n)
    D = np.zeros((n, n))
    D[0, 0] = lam
    i = 1
    while i < n:
        r = gap * abs(lam) * (1. if i == 1 else rng.uniform(0, 1))
        if i + 1 < n and rng.random() < .6:
            th = rng.uniform(0, np.pi)
            D[i:i + 2, i:i + 2] = r * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            i += 2
        else:
            D[i, i] = r * rng.choice([-1, 1])
            i += 1
    return X @ D @ np.linalg.inv(X), X, D


def start(rng, n, X):
    for _ in range(100):
        b = rng.uniform(0, 1, n) if rng.random() < .5 else rng.standard_normal(n)
        b = b * 10. ** rng.uniform(-2, 2)
        c = np.linalg.solve(X, b)
        if abs(c[0]) > .05 * np.linalg.norm(c):
            return b, c
    return X[:, 0] + .3 * X[:, -1], np.eye(n)[0] + .3 * np.eye(n)[-1]


def judge(ctx, A, X, lam, gap, c, tol, cap, out, what, sym):
    """exact a-priori bounds at the reported iteration count"""
    eig, b, it = float(out[0]), np.asarray(out[1]), int(out[2])
    n = len(b)
    ctx.track("iters", it)
    if not ctx.ok(1 <= it <= max(cap, 1), "iters", f"{what}: {it} iterations reported, maximum {cap}"):
        return
    ctx.ok(np.isfinite(eig) and np.all(np.isfinite(b)), "finite", f"{what}: estimate {eig}, vector {b}")
    ctx.ok(abs(np.linalg.norm(b) - 1) < 1e-12, "unit", f"{what}: eigenvector norm {np.linalg.norm(b)}")
    t0 = np.linalg.norm(c[1:]) / abs(c[0])
    kap = 1. if sym else np.linalg.cond(X)
    # one iterate more or less is granted to implementations that evaluate the quotient at the other end
    s = kap * t0 * gap ** max(it - 1, 0)
    norm = abs(lam) * (1 + 1e-13) if sym else np.linalg.norm(A, 2)
    eps = 1e-11 * norm
    if sym:
        be = (1 + gap) * abs(lam) * min(1., s * s)      # |rho-lam| <= (lam-lam_n) sin^2
        ctx.ok(abs(eig) <= abs(lam) + eps, "range", f"{what}: estimate {eig} outside the numerical range [{-abs(lam)},{abs(lam)}]")
    else:
        be = 2 * norm * min(1., s)
    ctx.ok(abs(eig - lam) <= be + eps, "bound", f"{what}: estimate {eig} after {it} iterations, eigenvalue {lam}, bound {be:.3e}, error {abs(eig - lam):.3e}")
    x = X[:, 0] / np.linalg.norm(X[:, 0])
    ang = np.linalg.norm(b - x * (x @ b))
    ba = min(1., kap * t0 * gap ** it)
    ctx.ok(ang <= ba * (1 + 1e-9) + 1e-11 * kap * kap, "vector", f"{what}: eigenvector angle {ang:.3e} after {it} iterations, bound {ba:.3e}")
    if it < cap:
        ctx.count("converged")
        # differences of the quotient contract by gap^2 (sym) or gap: the error at a stop is a multiple of the tolerance
        ev = np.linalg.eigvalsh(A) if sym else None
        if sym and gap < .97 and (np.all(ev * lam > -1e-12 * lam * lam)):
            ctx.count("monotone")
            lim = 3 * tol / (1 - gap ** 2) * max(1., 1. * (1 + t0 ** 2) if s > .3 else 1.)
            ctx.ok(abs(eig - lam) <= lim + eps, "accuracy", f"{what}: stopped after {it} < {cap} iterations with error {abs(eig - lam):.3e}, tolerance {tol:g}, gap {gap:.3f}")
    else:
        ctx.count("capped")
    # stop is due once two successive quotients are both within tol/2 of the eigenvalue
    if gap > 0 and t0 > 0:
        need = (1 + gap) * abs(lam) * t0 ** 2 if sym else 2 * norm * kap * t0
        rate = gap ** 2 if sym else gap
        kdue = max(0., np.log(tol / 2 / need) / np.log(rate)) if need > tol / 2 else 0.
        if tol > 1e-12 * norm:
            ctx.ok(it <= kdue + 4, "late", f"{what}: {it} iterations, tolerance {tol:g} was met after {kdue:.1f}")


def run(ctx, name, p):
    import jax
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import power_iter, leja_shift_scale
    from ormatex_py.ode_sys import LinOp, MatrixLinOp
    rng, kind = ctx.rng, p["k"]
    tols = [5e-2, 1e-3, 1e-6]

    def draw(sym):
        n = int(rng.integers(2, 9))
        gap = float(rng.choice([rng.uniform(.02, .5), rng.uniform(.5, .95), .999]))
        lam = float(rng.choice([-1, 1]) * 10. ** rng.uniform(-2, 4))
        A, X, D = operator(rng, n, sym, gap, lam)
        b, c = start(rng, n, X)
        return n, gap, lam, A, X, b, c

    if kind in ("sym", "nonnormal"):
        for i in range(ctx.n(200, 1200)):
            if not ctx.more():
                break
            n, gap, lam, A, X, b, c = draw(kind == "sym")
            n_ = n
            cap = int(rng.choice([1, 2, 3, 5, 10, 20, 60, 200]))
            tol = float(tols[i % 3])
            desc = f"n={n} gap={gap:.3f} lam={lam:.4g} cap={cap} tol={tol:g} #{i}"
            ctx.case((kind, n, round(gap, 1), cap, tol, lam > 0), True, desc)
            ctx.count(kind)
            b0 = jnp.asarray(b)
            if i % 9 == 0 and tol == 5e-2:
                out = power_iter(MatrixLinOp(jnp.asarray(A)), b0, cap)
            else:
                out = power_iter(MatrixLinOp(jnp.asarray(A)), b0, cap, tol)
            judge(ctx, A, X, lam, gap, c, tol, cap, out, desc, kind == "sym")
            ctx.ok(np.array_equal(np.asarray(b0), b), "input", f"{desc}: start vector changed")
    elif kind == "count":
        box = {"n": 0}

        def hit():
            box["n"] += 1

        class Counting(LinOp):
            a: jax.Array

            def _matvec(self, v):
                jax.debug.callback(hit)
                return self.a @ v

            def _dense(self):
                return self.a
        for i in range(ctx.n(40, 300)):
            n, gap, lam, A, X, b, c = draw(i % 2 == 0)
            cap = int(rng.choice([1, 2, 4, 9, 25]))
            box["n"] = 0
            ctx.case(("count", n, cap, round(gap, 1)), True, f"operator applications, n={n} gap={gap:.3f} cap={cap}")
            out = power_iter(Counting(jnp.asarray(A)), jnp.asarray(b), cap)
            jax.effects_barrier()
            ctx.count("counted")
            ctx.track("applications", box["n"])
            ctx.ok(int(out[2]) <= box["n"] <= int(out[2]) + 1, "applications", f"{box['n']} operator applications, {int(out[2])} iterations reported (cap {cap})")
            judge(ctx, A, X, lam, gap, c, 5e-2, cap, out, f"counting n={n} gap={gap:.3f} lam={lam:.4g} cap={cap}", i % 2 == 0)
    elif kind == "warm":
        for i in range(ctx.n(80, 500)):
            sym = i % 2 == 0
            n, gap, lam, A, X, b, c = draw(sym)
            if gap > .97:
                gap, lam = .6, lam
                A, X, D = operator(rng, n, sym, gap, lam)
                b, c = start(rng, n, X)
            op = MatrixLinOp(jnp.asarray(A))
            out = power_iter(op, jnp.asarray(b), 200)
            tot = int(out[2])
            desc = f"n={n} gap={gap:.3f} lam={lam:.4g} #{i}"
            ctx.case(("warm", n, round(gap, 1), sym), True, f"warm restart {desc}")
            for rep in range(3):
                cw = np.linalg.solve(X, np.asarray(out[1]))
                new = power_iter(op, out[1], 200)
                ctx.count("warm")
                judge(ctx, A, X, lam, gap, cw, 5e-2, 200, new, f"restart {rep} {desc}", sym)
                tot += int(new[2])
                out = new
            # the restarts together are one long iteration
            t0 = np.linalg.norm(c[1:]) / abs(c[0])
            kap = 1. if sym else np.linalg.cond(X)
            s = kap * t0 * gap ** (tot - 1)
            be = (1 + gap) * abs(lam) * min(1, s * s) if sym else 2 * np.linalg.norm(A, 2) * min(1, s)
            ctx.ok(abs(float(out[0]) - lam) <= be + 1e-11 * np.linalg.norm(A, 2), "warm", f"{desc}: {float(out[0])} after restarts with {tot} iterations, eigenvalue {lam}, bound {be:.2e}")
    elif kind == "shift":
        for i in range(ctx.n(80, 500)):
            sym = i % 2 == 0
            n, gap, lam, A, X, b, c = draw(sym)
            f = float(rng.choice([1., 1.1, 1.5, .8]))
            cap = int(rng.choice([2, 5, 20, 100]))
            op = MatrixLinOp(jnp.asarray(A))
            desc = f"n={n} gap={gap:.3f} lam={lam:.4g} cap={cap} factor={f} #{i}"
            ctx.case(("shift", n, cap, f, lam > 0), True, f"leja_shift_scale {desc}")
            ctx.count("shift")
            if i % 4 == 3:
                out = leja_shift_scale(op, n, max_power_iter=cap, scale_factor=f)
                again = leja_shift_scale(op, n, max_power_iter=cap, scale_factor=f)
                ctx.ok(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(out, again)), "default_start", f"{desc}: two calls with the default start differ")
                c = None
            elif i % 8 == 0:
                cap, f = 20, 1.
                out = leja_shift_scale(op, n, b0=jnp.asarray(b))
            else:
                out = leja_shift_scale(op, n, cap, jnp.asarray(b), f)
            shift, scale, est, bv, it = float(out[0]), float(out[1]), float(out[2]), out[3], int(out[4])
            if c is not None:
                judge(ctx, A, X, lam, gap, c, 5e-2, cap, (est / f, bv, it), desc, sym)
            else:
                ctx.ok(1 <= it <= cap, "iters", f"{desc}: {it} iterations")
                if sym:
                    ctx.ok(abs(est) <= f * abs(lam) * (1 + 1e-10), "range", f"{desc}: estimate {est} exceeds {f}*|{lam}|")
            iv = sorted([shift - 2 * scale, shift + 2 * scale])
            want = sorted([0., est])
            ctx.ok(scale >= 0 and np.allclose(iv, want, rtol=1e-13, atol=1e-14 * abs(est)), "interval", f"{desc}: reference interval maps to {iv}, expected {want}")
        try:
            leja_shift_scale(MatrixLinOp(jnp.eye(3)), 3, b0=jnp.ones(2))
            ctx.violate("length", "start vector of wrong length accepted")
        except (AssertionError, ValueError, TypeError):
            ctx.count("rejected")
    elif kind == "degenerate":
        N = np.diag(np.ones(3), 1)
        cases = [("zero", np.zeros((3, 3)), 0.), ("nilpotent", N, 0.), ("identity", np.eye(4), 1.), ("minus_identity", -2.5 * np.eye(2), -2.5),
                 ("1x1", np.array([[-7.]]), -7.), ("rank1", -3. * np.outer([1, 2, 2.], [1, 2, 2.]) / 9, -3.), ("tiny", 1e-9 * np.diag([1., .1]), 1e-9), ("huge", 1e12 * np.diag([-1., .1]), -1e12)]
        for nm, A, lam in cases:
            n = len(A)
            for cap in (1, 2, 6, 30):
                ctx.case(("deg", nm, cap), True, f"{nm} operator, cap {cap}")
                ctx.count("degenerate")
                b0 = jnp.asarray(rng.uniform(.5, 1., n))
                eig, b, it = power_iter(MatrixLinOp(jnp.asarray(A)), b0, cap)
                ctx.ok(np.isfinite(float(eig)) and np.all(np.isfinite(np.asarray(b))), "degenerate", f"{nm} operator, cap {cap}: estimate {eig}, vector {b}")
                ctx.ok(1 <= int(it) <= cap, "iters", f"{nm}: {it} iterations, cap {cap}")
                if cap >= 6 and nm != "nilpotent":
                    ctx.ok(abs(float(eig) - lam) <= 5e-2 + 1e-6 * abs(lam), "degenerate_value", f"{nm} operator: estimate {eig}, expected {lam}")
