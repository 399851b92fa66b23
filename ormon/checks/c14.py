"""C14 integrate(): complete trajectories on the requested grid."""
import numpy as np
from ormon import gen, refs, iref
from ormon.checks.c11 import leja_problem

LEVEL_RULE = ("random non-autonomous systems x every Python method (native and diffrax) x start times of both signs and sizes x step sizes (incl. negative, "
              "integers) x 1..10 steps; times, lengths, initial entry, error code, step-by-step driven states, reference Runge-Kutta states, chained runs; "
              "non-trivial = system with explicit time dependence")
MIN = {"late": 40, "many": 12, "runs": 150, "stepwise": 80, "tableau": 40, "chained": 60, "t0_nonzero": 100, "negdt": 10, "single_step": 10, "diffrax": 40, "accuracy": 8, "esdirk": 15}
ASSUMPTIONS = ["Butcher tableaux of the named explicit methods", "scipy DOP853 for the implicit methods"]
DFX = ["euler", "heun", "midpoint", "bosh3", "dopri5", "implicit_euler", "implicit_esdirk3", "implicit_esdirk4"]
TAB = {"euler": ([[]], [1.]), "heun": ([[], [1.]], [.5, .5]), "midpoint": ([[], [.5]], [0., 1.]),
       "bosh3": ([[], [.5], [0, .75]], [2 / 9, 1 / 3, 4 / 9]),
       "dopri5": ([[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
                   [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656]], [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])}


def units(tier):
    reps = 1 if tier == "quick" else 5
    ms = DFX + ["epi2_leja_im", "epi3_leja_im", "epi2_leja_re"] + iref.RB + ["exp_pfd", "rk4"] + iref.SPLIT
    late = [m for m in ms if m != "exp_pfd"]
    return [(f"{m}_{r}", {"m": m, "r": r}) for r in range(reps) for m in ms] + [(f"late_{r}_{i}", {"late": late[i::6]}) for r in range(reps) for i in range(6)] + \
        [(f"many_{r}_{i}", {"many": x}) for r in range(reps) for i, x in enumerate([["rk4", "euler", "exp1_dense"], ["dopri5", "exprb2_dense", "implicit_euler"]])]


def rk_step(F, t, y, h, tab):
    a, b = tab
    ks = []
    for row in a:
        ks.append(F.f(t + h * sum(row), y + np.longdouble(h) * sum((np.longdouble(c) * k for c, k in zip(row, ks)), np.zeros_like(y))))
    return y + np.longdouble(h) * sum((np.longdouble(c) * k for c, k in zip(b, ks)), np.zeros_like(y))


def esdirk(ctx, m, F, ys, want_t, h, sc):
    """every accepted state against the named ESDIRK formula, stages solved by Newton to rounding"""
    import diffrax
    tab = (diffrax.Kvaerno3 if m == "implicit_esdirk3" else diffrax.Kvaerno4).tableau
    low, dia, b, c = [np.asarray(x, float) for x in tab.a_lower], np.asarray(tab.a_diagonal, float), np.asarray(tab.b_sol, float), np.asarray(tab.c, float)
    f = lambda t, y: np.asarray(F.f(t, y), dtype=float)
    for k in range(len(ys) - 1):
        y, t = ys[k], float(want_t[k])
        ks = [f(t, y)] if dia[0] == 0 else None
        for row, d, ci in zip(low, dia[1:], c):
            base = y + h * sum(a * q for a, q in zip(row, ks))
            z, t1 = base + h * d * ks[-1], t + ci * h
            for _ in range(60):
                dz = np.linalg.solve(np.eye(len(y)) - h * d * np.asarray(F.jac(t1, z), dtype=float), z - base - h * d * f(t1, z))
                z = z - dz
                if np.max(np.abs(dz)) < 1e-14 * sc:
                    break
            ks.append(f(t1, z))
        w = y + h * sum(q * kk for q, kk in zip(b, ks))
        ctx.count("esdirk")
        if not ctx.close(ys[k + 1], w, 1e-6 * sc, "tableau", f"{m} state {k + 1} vs its Runge-Kutta formula", track=m):
            break


def rest_system(jnp, A, c, t1):
    """at rest in the zero state until t1, driven afterwards"""
    from ormatex_py import ode_sys

    class Rest(ode_sys.OdeSplitSys):
        A: object
        c: object
        t1: object

        def __init__(self):
            super().__init__()
            self.A, self.c, self.t1 = jnp.asarray(A), jnp.asarray(c), jnp.asarray(t1)

        def _frhs(self, t, u, **kw):
            return self.A @ u + jnp.where(t > self.t1 - 1e-9, self.c * (1. + t - self.t1), 0.)

        def _fl(self, t, u, **kw):
            return ode_sys.MatrixLinOp(self.A)
    return Rest()


def late(ctx, m, jnp, integrate):
    """a system at rest that is driven from a later grid time on: the same states as driven step by step, and as a run started when the source comes on"""
    rng = ctx.rng
    for it in range(ctx.n(2, 6)):
        n = int(rng.integers(2, 4))
        A = -np.diag(rng.uniform(.3, 2, n))
        c = rng.uniform(.5, 1., n)
        t0, h, k1, steps = float(rng.choice([0., -1.5, 2.25])), float(2. ** -rng.integers(2, 4)), int(rng.integers(3, 6)), 9
        opts = dict(leja_tol=1e-13, leja_a=-2. * refs.inorm(A)) if "leja" in m else {}
        if m.endswith("leja_im"):
            opts["leja_c"] = .5 * refs.inorm(A)
        sysm = rest_system(jnp, A, c, t0 + k1 * h)
        desc = f"{m} at rest until step {k1} of {steps}, t0={t0} h={h} n={n}"
        ctx.case(("late", m, it, t0, h, k1, c.tolist()), True, desc)
        res = integrate(sysm, jnp.zeros(n), t0, h, steps, m, **opts)
        ys = np.array([np.asarray(y) for y in res.y])
        ctx.count("late")
        if not ctx.ok(ys.shape == (steps + 1, n) and not ys[:k1].any(), "late_rest", f"{desc}: shape {ys.shape}, states {ys[:k1]}"):
            continue
        ctx.ok(bool(np.all(ys[-1] > .02)), "late_moves", f"{desc}: final state {ys[-1]}")
        if m not in DFX:
            I = iref.integrator(sysm, t0, jnp.zeros(n), m, **opts)
            for k in range(steps):
                r = I.step(h)
                I.accept_step(r)
                if not ctx.close(ys[k + 1], np.asarray(r.y), 1e-9, "late_stepwise", f"{desc}: state {k + 1}"):
                    break
        if not m.startswith("epi3"):
            r2 = integrate(sysm, jnp.asarray(ys[k1 - 1]), t0 + (k1 - 1) * h, h, steps - k1 + 1, m, **opts)
            ctx.close(np.array([np.asarray(y) for y in r2.y]), ys[k1 - 1:], 1e-6 if m.startswith("implicit") else 1e-9, "late_chained", f"{desc}: run started at the last step at rest")


def many(ctx, m, jnp, integrate):
    """several hundred steps of a size that is not representable, and no step at all"""
    rng = ctx.rng
    S = iref.blank(2)
    S["A"] = S["L"] = np.array([[-.3, 1.], [-1., -.3]])
    S["s"], S["w"], S["ph"] = np.ones(2) * .2, np.ones(2), np.zeros(2)
    sysm = iref.make(S)
    for steps in (0, 333, 1000) if m not in ("implicit_euler", "exp1_dense", "exprb2_dense") else (0, 160):
        t0, h = float(rng.choice([0., .1, -3.3, 7.7])), float(rng.choice([.1, .03, .07]))
        desc = f"{m} {steps} steps of {h} from {t0}"
        ctx.case(("many", m, steps, t0, h), True, desc)
        try:
            res = integrate(sysm, jnp.asarray([1., -.5]), t0, h, steps, m)
        except IndexError as e:
            if steps or m not in DFX:
                raise
            ctx.violate("diffrax_zero_steps", f"{desc}: {type(e).__name__} instead of the initial state alone")
            continue
        ctx.count("many")
        if not ctx.ok(len(res.t) == steps + 1 and len(res.y) == steps + 1 and res.err_code == 0, "many_count", f"{desc}: {len(res.t)} times, {len(res.y)} states"):
            continue
        tt = np.array([float(x) for x in res.t])
        ctx.close(tt, t0 + h * np.arange(steps + 1), 4 * refs.EPS * (steps + 1) * (abs(t0) + steps * h), "many_grid", desc)
        ys = np.array([np.asarray(y) for y in res.y])
        if m not in DFX and steps:
            I = iref.integrator(sysm, t0, jnp.asarray([1., -.5]), m)
            for k in range(steps):
                r = I.step(h)
                I.accept_step(r)
                if not ctx.close(ys[k + 1], np.asarray(r.y), 1e-12, "many_stepwise", f"{desc}: state {k + 1}"):
                    break
        elif m in TAB and steps:
            F, y = iref.F(S), refs.ld([1., -.5])
            for k in range(steps):
                y = rk_step(F, t0 + k * h, y, h, TAB[m])
                if not ctx.close(ys[k + 1], y, 1e-11, "many_tableau", f"{desc}: state {k + 1}"):
                    break


def run(ctx, name, p):
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    from ormatex_py.integrate_wrapper import integrate
    if "late" in p or "many" in p:
        for m in p.get("late") or p["many"]:
            (late if "late" in p else many)(ctx, m, jnp, integrate)
        return
    m, rng = p["m"], ctx.rng
    dfx, leja = m in DFX, "leja" in m
    for it in range(ctx.n(5 if (leja or dfx) else 8, 24)):
        if not ctx.more():
            break
        n = int([2, 1, 3, 5, 2][it % 5])
        opts = {}
        if leja:
            n = max(2, n)
            S = leja_problem(rng, n, m)
            na = refs.inorm(iref.F(S).jac(0., np.ones(n)))
            opts = dict(leja_tol=1e-13, leja_a=-2. * na)
            if m.endswith("im"):
                opts["leja_c"] = 1.5 * na
        elif m == "exp_pfd":
            S = iref.blank(n)
            S["A"] = gen.scaled(rng, "negdef", n, -1, 1)[0]
        else:
            S = iref.random_system(rng, n, nonlin=.3)
            S["A"] = S["A"] - .5 * np.eye(n)
            S["T"] *= .1
            S["c"] *= .1
        F = iref.F(S)
        t0 = [0., float(rng.uniform(.5, 5)), float(rng.uniform(-5, -.5)), 40.25, -17.5, 0, float(rng.uniform(0, 1e-3))][(it + p["r"]) % 7]
        y0 = rng.standard_normal(n)
        nj = max(refs.inorm(F.jac(t0, y0)), .5)
        h = float(rng.uniform(.05, .5)) / nj
        if it % 5 == 3 and not leja:
            h = -h / 2
        steps = int([3, 1, 10, 4, 7][it % 5])
        if leja or dfx:
            steps = int([3, 1, 6, 4, 5][it % 5])
        ctx.case((m, n, it, t0, h, steps, y0.tolist()), m != "exp_pfd", f"{m} n={n} t0={t0!r} dt={h:.5g} nsteps={steps} opts={opts}")
        sys = iref.make(S)
        y0j = jnp.asarray(y0)

        def go(y, t, k):
            return integrate(sys, y, t, h, k, m, **opts)
        try:
            res = go(y0j, t0, steps)
        except RuntimeError as e:
            if leja and "not converged" in str(e):
                ctx.count("leja_notconv")
                continue
            raise
        ctx.count("runs")
        ctx.count("diffrax", int(dfx))
        ctx.count("t0_nonzero", int(t0 != 0))
        ctx.count("negdt", int(h < 0))
        ctx.count("single_step", int(steps == 1))
        ok = ctx.ok(len(res.t) == steps + 1 and len(res.y) == steps + 1, "count", f"{len(res.t)} times / {len(res.y)} states for {steps} steps")
        ok &= ctx.ok(res.err_code == 0, "err_code", f"err_code {res.err_code}")
        ctx.ok(res.t_res is res.t and res.y_res is res.y and res.cb is res.callback_res, "aliases", "t_res/y_res/cb do not return the stored fields")
        if not ok:
            continue
        tt = np.array([float(x) for x in res.t])
        want_t = t0 + h * np.arange(steps + 1)
        ctx.close(tt, want_t, 4 * refs.EPS * (steps + 1) * (abs(t0) + steps * abs(h)) + 1e-300, "time_grid", "time grid")
        ys = [np.asarray(y) for y in res.y]
        if not ctx.ok(all(y.shape == (n,) for y in ys), "shape", f"shapes {[y.shape for y in ys]}"):
            continue
        ctx.ok(np.array_equal(ys[0], y0), "initial", f"first state {ys[0]} is not the initial state {y0}")
        ctx.ok(np.array_equal(np.asarray(y0j), y0), "y0_changed", "initial state array was modified")
        sc = 1 + max(float(np.max(np.abs(y))) for y in ys)
        if not np.isfinite(sc):
            ctx.violate("nonfinite", f"non-finite trajectory {ys[-1]}")
            continue
        if not dfx:
            I = iref.integrator(sys, t0, y0j, m, **opts)
            drv = []
            for k in range(steps):
                r = I.step(h)
                I.accept_step(r)
                drv.append(np.asarray(r.y))
            ctx.count("stepwise")
            ctx.close(np.array(ys[1:]), np.array(drv), (1e-9 if leja else 1e-13) * sc, "stepwise", "integrate() vs driving step/accept_step")
            # independent one-step formula on each interval
            st = iref.Stepper(S, None, "ad", **opts)
            if not (m.endswith("dense") and np.any(S["L1"])) and sc < 50:
                for k in sorted({0, steps - 1, steps // 2}):
                    hist = [(float(tt[j]), ys[j]) for j in range(k, max(-1, k - iref.ORDER[m]), -1)]
                    w = st.step(m, hist, h)
                    ctx.close(ys[k + 1], w.v, 3 * w.e + 1e-11 * sc, "formula", f"state {k + 1} vs the step formula at (t_{k}, y_{k})", track=m)
        elif m in TAB:
            y, amp = refs.ld(y0), 1.
            for k in range(steps):
                y = rk_step(F, float(want_t[k]), y, h, TAB[m])
                amp *= 1 + 3 * abs(h) * nj
                ctx.count("tableau")
                if not ctx.close(ys[k + 1], y, (2e-14 * amp * (1 + abs(t0)) * sc) * (1 + k), "tableau", f"{m} state {k + 1}", track=m):
                    break
        elif m == "implicit_euler":
            y = y0.copy()
            for k in range(steps):
                z = y.copy()
                t1 = float(want_t[k + 1])
                for _ in range(60):
                    G = z - y - h * np.asarray(F.f(t1, z), dtype=float)
                    dz = np.linalg.solve(np.eye(n) - h * np.asarray(F.jac(t1, z), dtype=float), G)
                    z = z - dz
                    if np.max(np.abs(dz)) < 1e-14:
                        break
                ctx.count("tableau")
                if not ctx.close(ys[k + 1], z, 1e-6 * sc * (k + 1), "tableau", f"implicit Euler state {k + 1}", track=m):
                    break
                y = ys[k + 1]
        else:
            esdirk(ctx, m, F, ys, want_t, h, sc)
            sol = solve_ivp(lambda t, y: np.asarray(F.f(t, y), dtype=float), (t0, float(want_t[-1])), y0, method="DOP853", rtol=1e-12, atol=1e-13, t_eval=want_t)
            ctx.count("accuracy")
            lam = max(abs(h) * nj, .05)
            ctx.close(np.array(ys), sol.y.T, (lam ** 3 * .5 + 1e-6) * sc * (1 + steps * lam), "accuracy", f"{m} trajectory", track=m)
        # chained runs
        if steps >= 3 and not m.startswith("epi3"):
            k = steps // 2
            r1 = go(y0j, t0, k)
            r2 = go(jnp.asarray(r1.y[-1]), float(r1.t[-1]), steps - k)
            ctx.count("chained")
            tol = 1e-8 if leja else 1e-6 if m.startswith("implicit") else 1e-12 * (1 + abs(t0))
            if m.endswith("_dense") and np.any(S["L1"]):
                continue
            ctx.close(np.array([np.asarray(y) for y in list(r1.y) + list(r2.y)[1:]]), np.array(ys), tol * sc, "chained", "chained runs vs one run")
            ctx.close(np.array([float(x) for x in list(r1.t) + list(r2.t)[1:]]), tt, 8 * refs.EPS * (steps + 1) * (abs(t0) + steps * abs(h)), "chained_t", "times of chained runs")

