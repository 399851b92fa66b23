"""C12 convergence order on step-size ladders."""
import numpy as np
from ormon import refs, iref

LEVEL_RULE = ("random smooth non-autonomous nonlinear systems (n 1..4; autodiff, custom and custom-with-differenced-time-derivative Jacobians), start times of "
              "both signs, and the bundled Lotka-Volterra systems; step-size ladders N0*2^i; slope of the global error against an 8th-order reference "
              "(rtol 1e-13) on the ladder part above the evaluator floor; non-trivial = at least two ladder levels above the floor")
MIN = {"ladders": 100, "slopes": 150, "nonauto": 60, "lv": 16, "leja": 8, "diffrax": 10, "varying_split": 5}
ASSUMPTIONS = ["scipy DOP853 at rtol 1e-13 as reference", "slopes are judged only above the phi evaluator's floor and below 5% relative error"]
DIFFRAX = {"euler": 1, "heun": 2, "midpoint": 2, "bosh3": 3, "dopri5": 5, "implicit_euler": 1, "implicit_esdirk3": 3, "implicit_esdirk4": 4}
METHODS = iref.RB + ["rk4"] + iref.SPLIT + iref.LEJA


def units(tier):
    reps = 1 if tier == "quick" else 5
    u = [(f"{m}_{r}", {"m": m, "r": r}) for r in range(reps) for m in ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"] + [x for x in METHODS if "leja" not in x]]
    return u + [(f"dfx_{m}_{r}", {"m": m, "r": r, "dfx": 1}) for r in range(reps) for m in DIFFRAX]


def lv_system(rng, auto):
    import jax
    from ormatex_py.progression import lotka_volterra as lv
    par = dict(alpha=float(rng.uniform(.6, 1.4)), beta=float(rng.uniform(.6, 1.4)), delta=float(rng.uniform(.6, 1.4)), gamma=float(rng.uniform(.6, 1.4)))
    sys = (lv.LotkaVolterra if auto else lv.LotkaVolterraNonauto)(**par)

    def f(t, x):
        h = 0. if auto else .4 * (np.sin(t * .2) + 1)
        return np.array([par["alpha"] * x[0] - par["beta"] * x[0] * x[1], par["delta"] * x[0] * x[1] - par["gamma"] * x[1] - h * x[1]])
    return sys, f, rng.uniform(.3, 1.5, 2)


def run(ctx, name, p):
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    from ormatex_py.integrate_wrapper import integrate
    m, rng = p["m"], ctx.rng
    dfx = "dfx" in p
    leja = "leja" in m
    order = DIFFRAX[m] if dfx else iref.ORDER[m]
    slopes_all = []
    if not dfx:
        I = iref.integrator(iref.make(iref.blank(2)), 0., jnp.zeros(2), m)
        ctx.ok(I.order == order, "declared", f"{m} declares order {I.order}, expected {order}")
    nprob = ctx.n(4 if (leja or dfx) else 6, 12)
    for it in range(nprob):
        if not ctx.more():
            break
        opts, jac = {}, "ad"
        lv = it % 4 == 3
        t0 = float([0., rng.uniform(-3, -.5), rng.uniform(.5, 6)][it % 3])
        nonauto = True
        if lv:
            auto = it % 8 == 3 and not leja and not dfx
            sys, f, y0 = lv_system(rng, auto)
            nonauto = not auto
            T = 2.
            n = 2
        else:
            n = 1 + (it % 4 if not dfx else 1)
            if leja:
                n = max(n, 2)
            S = iref.random_system(rng, n, nonlin=.5, nonauto=0. if it % 5 == 4 else 1., lo=-.3, hi=.2, kinds=["negdef", "stable"] if leja else None)
            nonauto = it % 5 != 4
            if n == 1 or leja:
                S["A"] = S["A"] - .6 * np.eye(n)
            S["b"] *= .6
            S["c"] *= .3
            if m in iref.SPLIT and not m.endswith("dense") and it % 2:
                S["Lu"] = .4 * rng.standard_normal((n, n))
                S["L1"] = .3 * rng.standard_normal((n, n))
                ctx.count("varying_split")
            F = iref.F(S)
            if not leja and not dfx and m in iref.RB:
                jac = ["ad", "custom", "customfd"][it % 3] if not m.endswith(("dense", "pfd")) else ["ad", "custom"][it % 2]
            sys = iref.make(S, jac)
            f = lambda t, y: np.asarray(F.f(t, y), dtype=float)
            y0 = rng.uniform(-.8, .8, n)
            T = 1.2
        sol = solve_ivp(f, (t0, t0 + T), y0, method="DOP853", rtol=1e-13, atol=1e-14)
        ref = sol.y[:, -1]
        if not sol.success or np.max(np.abs(sol.y)) > 20:
            ctx.count("skipped")
            continue
        scale = max(float(np.max(np.abs(sol.y))), .1)
        if m == "epi2_leja_re":
            opts["leja_a"] = -4.
        if m.endswith("_im"):
            opts["leja_a"], opts["leja_c"] = -4., 3.
        if leja:
            opts["leja_tol"] = 1e-13
        # floor: differenced time derivative / evaluator truncation / CRAM / iteration tolerances
        floor = 2e-7 * scale
        if m in ("rk4", "epi2", "epi3") or leja:
            floor = 2e-9 * scale if jac != "customfd" else 2e-7 * scale
        if dfx:
            floor = (1e-7 if m.startswith("implicit") else 1e-11) * scale
        ladder = [8, 16, 32, 64] if order <= 2 else [5, 10, 20, 40]
        if ctx.thorough and order <= 3:
            ladder.append(ladder[-1] * 2)
        if order == 1:
            ladder = [16, 32, 64, 128]
        errs = []
        ctx.case((m, it, t0, y0.tolist()), True, f"{m} {'lv' if lv else 'random'} n={n} t0={t0:.3g} T={T} jac={jac} nonauto={nonauto}")
        bad = False
        todo = list(ladder)
        ladder = []
        while todo:
            N = todo.pop(0)
            try:
                res = integrate(sys, jnp.asarray(y0), t0, T / N, N, m, **opts)
            except RuntimeError as e:
                if leja and "not converged" in str(e):
                    bad = True
                    break
                raise
            e = float(np.max(np.abs(np.asarray(res.y[-1]) - ref)))
            errs.append(e)
            ladder.append(N)
            # pre-asymptotic: refine further while the error is still far above the floor
            if not todo and len(errs) < 9 and np.isfinite(e) and e > 30 * floor and (errs[-2] > .05 * scale or np.log2(errs[-2] / e) < order - .5):
                todo.append(2 * N)
                ctx.count("refined")
        if bad:
            ctx.count("leja_notconv")
            continue
        if not ctx.ok(all(np.isfinite(errs)), "nonfinite", f"errors {errs}"):
            continue
        val = [i for i in range(len(ladder)) if errs[i] > 30 * floor and errs[i] < .05 * scale]
        ctx.count("ladders")
        ctx.count("nonauto", int(nonauto))
        ctx.count("lv", int(lv))
        ctx.count("leja", int(leja))
        ctx.count("diffrax", int(dfx))
        # an accurate method reaches the floor: consistency of the finest level
        if not val:
            ctx.count("at_floor", int(errs[-1] <= 30 * floor))
            if errs[-1] > .05 * scale:
                if order >= 2:
                    ctx.violate("no_convergence", f"errors {errs} over N={ladder}, scale {scale:.3g}")
            continue
        lo, hi = val[0], val[-1]
        sl = [np.log2(errs[i] / errs[i + 1]) for i in range(lo, hi) if i + 1 in val]
        if not sl:
            ctx.count("one_level")
            continue
        # levels between the floor and the judging threshold still support a slope (the floor can only flatten it)
        fine = [np.log2(errs[i] / errs[i + 1]) for i in range(hi, len(errs) - 1) if errs[i + 1] > 2 * floor]
        if fine and fine[-1] > sl[-1]:
            sl.append(fine[-1])
        ctx.count("slopes", len(sl))
        slopes_all.append(sl[-1])
        total = np.log2(errs[lo] / errs[hi]) / (hi - lo)
        ctx.track(f"order_deficit_{m}", max(0., order - max(sl[-1], total)))
        ctx.ok(max(sl[-1], total) >= order - .6, "order", f"{m} (order {order}): errors {['%.3e' % e for e in errs]} for N={ladder}; slopes {np.round(sl, 2).tolist()}, overall {total:.2f}")
    if len(slopes_all) >= 3:
        med = float(np.median(slopes_all))
        ctx.track(f"median_deficit_{m}", max(0., order - med))
        ctx.ok(med >= order - .4, "order_median", f"{m} (order {order}): median slope {med:.2f} over {len(slopes_all)} problems: {np.round(slopes_all, 2).tolist()}")
