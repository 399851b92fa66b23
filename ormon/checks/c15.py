"""C15 callbacks, options and errors of integrate()."""
import numpy as np
from ormon import gen, refs, iref
from ormon.checks.c11 import leja_problem

LEVEL_RULE = ("every native method x callback combinations x returned right-hand-side arguments (changing every step) x callbacks raising at any step; event logs are "
              "checked for exactly-once ordering and the trajectory against the one-step formula with that step's arguments; options are judged by their "
              "observable effect; unknown/unavailable methods and non-convergence must raise; non-trivial = callback run with >= 2 steps")
MIN = {"cb_runs": 120, "events": 400, "kwargs_steps": 100, "cb_fault": 25, "option": 60, "bad_method": 20, "nonconv": 12, "stage_sensitive": 20, "dfx_options": 10, "composed": 80, "product_visible": 150, "direct": 120, "direct_visible": 80}
ASSUMPTIONS = ["long double one-step references"]
JAC = iref.RB + ["exp_pfd"] + iref.LEJA
ALL = iref.LEJA + iref.RB + ["exp_pfd", "rk4"] + iref.SPLIT


class Boom(Exception):
    pass


def units(tier):
    reps = 1 if tier == "quick" else 5
    return [("dfxopt", {"f": "dfxopt", "m": ""})] + [(f"cb_{m}_{r}", {"m": m, "f": "cb", "r": r}) for r in range(reps) for m in ALL] + \
           [(f"opt_{m}_{r}", {"m": m, "f": "opt", "r": r}) for r in range(reps) for m in ALL] + [("bad", {"f": "bad", "m": ""})]


def problem(rng, m, n):
    opts = {}
    if "leja" in m:
        S = leja_problem(rng, n, m)
        na = refs.inorm(iref.F(S).jac(0., np.ones(n)))
        opts = dict(leja_tol=1e-13, leja_a=-3. * na)
        if m.endswith("im"):
            opts["leja_c"] = 2. * na
    elif m == "exp_pfd":
        S = iref.blank(n)
        S["A"] = gen.scaled(rng, "negdef", n, -.5, .5)[0]
    else:
        S = iref.random_system(rng, n, nonlin=.5)
        S["A"] = S["A"] - .3 * np.eye(n)
        S["T"] *= .1
        S["c"] *= .1
    return S, opts


def run(ctx, name, p):
    if p["f"] == "bad":
        return bad(ctx)
    if p["f"] == "dfxopt":
        return dfxopt(ctx)
    return (callbacks if p["f"] == "cb" else options)(ctx, p["m"])


def callbacks(ctx, m):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    rng = ctx.rng
    leja = "leja" in m
    for it in range(ctx.n(7 if leja else 10, 30)):
        if not ctx.more():
            break
        n = int([2, 3, 2, 4][it % 4])
        S, opts = problem(rng, m, n)
        jacv = ["ad", "custom", "customfd"][it % 3] if (m in iref.RB and not m.endswith("pfd")) and it >= 3 else "ad"
        sys = iref.make(S, jacv)
        t0, y0 = float(rng.uniform(-1, 2)), .7 * rng.standard_normal(n)
        nj = max(refs.inorm(iref.F(S).jac(t0, y0)), .5)
        h, steps = float(rng.uniform(.1, .5)) / nj, int(rng.integers(2, 5))
        mode = ["both", "before", "after", "none_result", "empty", "raise_before", "raise_after", "both", "both", "noncallable"][it % 10]
        # arguments of each step
        plan = []
        for k in range(steps):
            kw = {}
            if m == "exp_pfd":
                kw = {"gain": float(rng.uniform(.5, 1.5))}
            else:
                if rng.uniform() < .8:
                    kw["gain"] = float(rng.uniform(.5, 1.6))
                if rng.uniform() < .8 or not kw:
                    kw["src"] = rng.standard_normal(n)
            plan.append(kw)
        if mode == "none_result":
            plan = [None] * steps
        if mode == "empty":
            plan = [{}] * steps
        log = []
        fail_at = int(rng.integers(steps))

        def before(s, t, y):
            k = sum(e[0] == "b" for e in log)
            log.append(("b", s, float(t), np.array(y)))
            if mode == "raise_before" and k == fail_at:
                raise Boom("before")
            kw = plan[k] if k < len(plan) else None
            return None if kw is None else {a: jnp.asarray(b) for a, b in kw.items()}

        def after(s, t, y):
            k = sum(e[0] == "a" for e in log)
            log.append(("a", s, float(t), np.array(y)))
            if mode == "raise_after" and k == fail_at:
                raise Boom("after")
            return ("res", k)
        kws = dict(opts)
        if mode not in ("after", "noncallable"):
            kws["callback_before_step"] = before
        if mode not in ("before", "noncallable"):
            kws["callback_after_step_accept"] = after
        if mode == "noncallable":
            kws["callback_before_step"] = None
            kws["callback_after_step_accept"] = None
        kwcopy = dict(kws)
        ctx.case((m, it, mode, t0, h), True, f"{m} n={n} jac={jacv} callbacks={mode} steps={steps} t0={t0:.4g} h={h:.4g} fail_at={fail_at} args={[None if k is None else sorted(k) for k in plan]}")
        try:
            res = integrate(sys, jnp.asarray(y0), t0, h, steps, m, **kws)
        except Boom as e:
            ctx.ok(mode.startswith("raise"), "spurious_raise", f"{e}")
            ctx.count("cb_fault")
            nb, na = sum(e[0] == "b" for e in log), sum(e[0] == "a" for e in log)
            exp = (fail_at + 1, fail_at) if mode == "raise_before" else (fail_at + 1, fail_at + 1)
            ctx.ok((nb, na) == exp, "fault_count", f"callback raised in step {fail_at}: {nb} before / {na} after calls, expected {exp}")
            continue
        except RuntimeError as e:
            if leja and "not converged" in str(e):
                ctx.count("leja_notconv")
                continue
            raise
        if mode.startswith("raise"):
            ctx.violate("swallowed", f"exception raised by the {mode[6:]} callback in step {fail_at} did not surface")
            continue
        ctx.count("cb_runs")
        cb = res.callback_res
        has_b, has_a = "callback_before_step" in kws and mode != "noncallable", "callback_after_step_accept" in kws and mode != "noncallable"
        exp = []
        for k in range(steps):
            if has_b:
                exp.append("b")
            if has_a:
                exp.append("a")
        ctx.count("events", len(log))
        ctx.ok([e[0] for e in log] == exp, "order", f"callback events {''.join(e[0] for e in log)}, expected {''.join(exp)}")
        ctx.ok(kws == kwcopy, "options_changed", "integrate changed the caller's options")
        ib = ia = 0
        for e in log:
            if e[0] == "b":
                k, ib = ib, ib + 1
            else:
                ia += 1
                k = ia
            if k > steps:
                break
            ctx.ok(e[1] is sys, "sys", "callback received another system object")
            ctx.ok(e[2] == float(res.t[k]) and np.array_equal(e[3], np.asarray(res.y[k])), "cb_state", f"{'before' if e[0] == 'b' else 'after'} callback #{k} got t={e[2]}, y={e[3]}; trajectory has t={float(res.t[k])}, y={np.asarray(res.y[k])}")
        rb, ra = cb.get("callback_before_step"), cb.get("callback_after_step_accept")
        ctx.ok(rb is not None and len(rb) == (steps if has_b else 0) and ra is not None and len(ra) == (steps if has_a else 0), "record", f"recorded {rb} / {ra}")
        if has_a and ra is not None:
            ctx.ok(list(ra) == [("res", k) for k in range(steps)], "record_order", f"recorded after-step results {ra}")
        if has_b and rb is not None and len(rb) == steps:
            for k in range(steps):
                want = plan[k]
                same = (rb[k] is None and want is None) or (rb[k] is not None and want is not None and sorted(rb[k]) == sorted(want)
                                                            and all(np.array_equal(np.asarray(rb[k][a]), np.asarray(want[a])) for a in want))
                ctx.ok(same, "record_before", f"recorded before-step value {k}: {rb[k]} expected {want}")
        # the values reach every evaluation of that step
        if (m in JAC) or not has_b or mode in ("none_result", "empty"):
            ys, ts = [np.asarray(y) for y in res.y], [float(t) for t in res.t]
            for k in range(steps):
                kw = plan[k] if has_b else {}
                st = iref.Stepper(S, kw or {}, jacv, **opts)
                hist = [(ts[j], ys[j]) for j in range(k, max(-1, k - iref.ORDER[m]), -1)]
                if np.max(np.abs(ys[k])) > 30:
                    break
                w = st.step(m, hist, h)
                sc = 1 + iref.inf(w.v)
                ctx.count("kwargs_steps", int(bool(kw)))
                if kw:
                    # would ignoring the arguments in the stages be visible?
                    w0 = iref.Stepper(S, {}, jacv, **opts).step(m, hist, h)
                    ctx.count("stage_sensitive", int(iref.inf(w0.v - w.v) > 100 * (w.e + 1e-11 * sc)))
                if not ctx.close(ys[k + 1], w.v, 3 * w.e + 1e-11 * sc, "kwargs", f"step {k} with arguments {kw}", track="kwargs"):
                    break


def options(ctx, m):
    """options passed to integrate() have their documented effect"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    rng = ctx.rng
    leja = "leja" in m
    for it in range(ctx.n(4, 12)):
        n = 6
        S, opts = problem(rng, m, n)
        t0, y0 = float(rng.uniform(-1, 1)), .5 * rng.standard_normal(n)
        nj = max(refs.inorm(iref.F(S).jac(t0, y0)), .5)
        h = .6 / nj
        sys = iref.make(S)
        todo = []
        if m.endswith("pfd"):
            todo = [{"pfd_method": t} for t in ("cram_4", "cram_6", "IE" if m == "exp_pfd" else "cram_8")]
        elif m in iref.RB + iref.SPLIT and not m.endswith("dense"):
            todo = [{"max_krylov_dim": 2}, {"max_krylov_dim": 3}, {"iom": 1}, {"iom": 2, "max_krylov_dim": 5}]
        if m in ("exprb2", "exprb3", "pexprb4", "exprb2_pfd"):
            todo.append({"tol_fdt": -1.})
            todo.append({"tol_fdt": 1e3})
        for o in todo:
            oo = dict(opts, **o)
            ctx.case((m, it, str(o)), True, f"{m} option {o} h={h:.4g}")
            st, s0 = iref.Stepper(S, None, "ad", **oo), iref.Stepper(S, None, "ad", **opts)
            w, w0 = st.step(m, [(t0, y0)], h), s0.step(m, [(t0, y0)], h)
            tol = 3 * w.e + 1e-11 * (1 + iref.inf(w.v))
            if iref.inf(w.v - w0.v) < 5 * tol:
                ctx.count("option_invisible")
                continue
            res = integrate(sys, jnp.asarray(y0), t0, h, 1, m, **oo)
            ctx.count("option")
            ctx.close(res.y[-1], w.v, tol, "option", f"{m} with {o} (default would give {np.asarray(w0.v, dtype=float)[:3]})", track="option")
        if m in iref.RB + iref.SPLIT and not m.endswith(("dense", "pfd")):
            composed(ctx, m, integrate, jnp)
        direct(ctx, m, it, integrate, jnp)
        if leja:
            base = dict(opts)
            yj = jnp.asarray(y0)
            big = 40. / nj

            def outcome(hh, **o):
                try:
                    return np.asarray(integrate(sys, yj, t0, hh, 1, m, **dict(base, **o)).y[-1])
                except RuntimeError as e:
                    # reported (either by the step or by the substep loop)
                    return None
            ctx.case((m, it, "nonconv"), True, f"{m} too few points without substepping: h={big:.4g}")
            r = outcome(big, n_leja=8, leja_substep=False)
            ctx.count("nonconv")
            ctx.ok(r is None, "nonconv_silent", f"8 Leja points, no substeps, h|J|=40: returned {r} instead of raising")
            ctx.case((m, it, "n_leja"), True, f"{m} n_leja/leja_substep/leja_tol effects")
            r1 = outcome(h, n_leja=40, leja_substep=False, leja_tol=1e-10)
            w = iref.Stepper(S, None, "ad", **dict(base, leja_tol=1e-10)).step(m, [(t0, y0)], h)
            if ctx.ok(r1 is not None, "nonconv_spurious", "40 points, h|J|=0.6, tol 1e-10: not converged"):
                ctx.close(r1, w.v, 3 * w.e + 1e-9 * (1 + iref.inf(w.v)), "leja_value", "40 points")
            # a tolerance that cannot be met with few points is met with a loose one
            r2 = outcome(h, n_leja=8, leja_substep=False, leja_tol=1e-14)
            r3 = outcome(h, n_leja=12, leja_substep=False, leja_tol=1e-2)
            ctx.count("option", 3)
            ctx.ok(r2 is None, "tol_ignored", "8 points at tolerance 1e-14 reported convergence")
            ctx.ok(r3 is not None, "tol_ignored", "12 points at tolerance 1e-2 did not converge")
            # substepping rescues a large step
            r4 = outcome(big, n_leja=60, leja_substep=True, leja_tol=1e-8)
            if r4 is not None and np.max(np.abs(r4)) < 1e3:
                w = iref.Stepper(S, None, "ad", **dict(base, leja_tol=1e-8)).step(m, [(t0, y0)], big)
                ctx.close(r4, w.v, 3 * w.e + 1e-5 * (1 + iref.inf(w.v)), "leja_value", "60 points with substepping, large step")
            for dd in ("pade", "recursive"):
                r5 = outcome(h, dd_method=dd, n_leja=40, leja_tol=1e-8)
                if r5 is not None:
                    ctx.count("option")
                    w = iref.Stepper(S, None, "ad", **dict(base, leja_tol=1e-8)).step(m, [(t0, y0)], h)
                    ctx.close(r5, w.v, 3 * w.e + (1e-6 if dd == "pade" else 1e-2) * (1 + iref.inf(w.v)), "leja_value", f"dd_method={dd}")


def direct(ctx, m, it, integrate, jnp):
    """integrate() with a set of options against an integrator of that class constructed with the same options and stepped by hand (same values, same failures);
    the options include values that count as false"""
    rng = ctx.rng
    n = 3
    S, base = problem(rng, m, n)
    t0, y0 = float(rng.uniform(-1, 1)), .5 * rng.standard_normal(n)
    nj = max(refs.inorm(iref.F(S).jac(t0, y0)), .5)
    sys, h = iref.make(S), .6 / nj
    if "leja" in m:
        h = float(rng.choice([.6, 6., 40.])) / nj
        todo = [{"leja_n_zeros": 0, "leja_tol": 1e-3}, {"leja_n_zeros": 5, "leja_tol": 1e-3}, {"leja_substep": False, "n_leja": 30, "leja_tol": 1e-8},
                {"leja_c": 0., "leja_tol": 1e-4}, {"leja_a": None, "leja_max_re_eig_scale": 2., "leja_tol": 1e-3}, {"leja_tol": 0., "n_leja": 60, "leja_substep": False}]
    elif m.endswith("pfd"):
        todo = [{"pfd_method": "cram_2"}, {"pfd_method": "IE"}]
    elif m in iref.SPLIT:
        todo = [] if m.endswith("dense") else [{"max_krylov_dim": 1}, {"iom": 1, "max_krylov_dim": 2}]
    elif m in iref.RB and m != "exprb2_dense":
        todo = [{"max_krylov_dim": 1}, {"iom": 1, "max_krylov_dim": 2}]
    else:
        todo = []
    if m in ("exprb2", "exprb3", "pexprb4", "exprb2_pfd"):
        # a right-hand side which changes slowly with time: zero tolerance sees it
        todo += [{"tol_fdt": 0}, {"tol_fdt": 0.}, {"tol_fdt": -1}]
        for k in ("c", "s", "T"):
            S[k] = S[k] * 0
        S["c"] = 5e-9 * np.ones(n)
        S["A"] = S["L"] = -np.diag(rng.uniform(1e-9, 1e-8, n))
        S["b"], S["Q"] = 1e-9 * rng.standard_normal(n), S["Q"] * 0
        sys, h, y0 = iref.make(S), 2., 1e-9 * y0

    def by_hand(o):
        I = iref.integrator(sys, t0, jnp.asarray(y0), m, **o)
        ys = []
        for _ in range(2):
            r = I.step(h)
            I.accept_step(r)
            ys.append(np.asarray(r.y))
        return np.concatenate(ys)

    def driver(o):
        return np.concatenate([np.asarray(y) for y in integrate(sys, jnp.asarray(y0), t0, h, 2, m, **o).y[1:]])

    def outcome(f, o):
        try:
            return f(o)
        except RuntimeError:
            return None
    d0 = outcome(by_hand, dict(base)) if todo else None
    for o in todo:
        oo = dict(base, **o)
        ctx.case((m, "direct", str(o), t0, h), True, f"{m} options {o} through integrate() and by hand, h={h:.4g} h|J|={h * nj:.3g}")
        a, b = outcome(driver, oo), outcome(by_hand, oo)
        ctx.count("direct")
        if not ctx.ok((a is None) == (b is None), "option_direct", f"{m} with {o}: integrate() {'raised' if a is None else 'returned'}, the integrator {'raised' if b is None else 'returned'}"):
            continue
        if a is None:
            ctx.count("direct_raise")
            ctx.count("direct_visible", int(d0 is not None))
            continue
        sc = np.max(np.abs(b)) + 1e-300
        ctx.count("direct_visible", int(d0 is None or np.max(np.abs(b - d0)) > 1e-10 * sc))
        ctx.close(a, b, 1e-12 * sc, "option_direct", f"{m} with {o}: integrate() vs the integrator constructed with these options", track="direct")


def composed(ctx, m, integrate, jnp):
    """every single phi product of a step uses the requested subspace options: the step against the formula composed of the repository's own products"""
    rng, n = ctx.rng, 9
    S = iref.random_system(rng, n, nonlin=2., lo=.3, hi=.6)
    S["L"] = S["L"] + .6 * rng.standard_normal((n, n))
    t0, y0 = float(rng.uniform(-1, 1)), .5 * rng.standard_normal(n)
    nj = max(refs.inorm(iref.F(S).jac(t0, y0)), .5)
    h = float(rng.uniform(1.5, 3.)) / nj
    sys = iref.make(S)
    for o in ({"iom": 1, "max_krylov_dim": 4}, {"iom": 2, "max_krylov_dim": 4}, {"iom": 1, "max_krylov_dim": 6}, {"max_krylov_dim": 3}):
        st = iref.KStepper(S, None, "ad", **o)
        w = st.step(m, [(t0, y0)], h)
        tol = 1e-7 * (1 + iref.inf(w.v)) + 3 * w.e
        ctx.case((m, "composed", str(o), t0, h), True, f"{m} option {o} in each of {st.calls} products, h={h:.4g}")
        if iref.inf(w.v) > 1e3:
            ctx.count("option_unstable")
            continue
        for k in range(st.calls):
            w1 = iref.KStepper(S, None, "ad", skip=k, **o).step(m, [(t0, y0)], h)
            ctx.count("product_visible", int(iref.inf(w1.v - w.v) > 5 * tol))
        res = integrate(sys, jnp.asarray(y0), t0, h, 1, m, **o)
        ctx.count("composed")
        ctx.close(res.y[-1], w.v, tol, "option_product", f"{m} with {o}: one of the phi products differs", track="composed")


def dfxopt(ctx):
    """solver options of the implicit diffrax methods: linear solver and tolerances"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    rng = ctx.rng
    for m in ("implicit_euler", "implicit_esdirk3", "implicit_esdirk4"):
        moved = []
        for it in range(ctx.n(2, 10)):
            n = int(rng.integers(2, 6))
            S, _ = problem(rng, "epi2", n)
            F = iref.F(S)
            t0, y0 = float(rng.uniform(-1, 1)), .5 * rng.standard_normal(n)
            h = .5 / max(refs.inorm(F.jac(t0, y0)), .5)
            sys = iref.make(S)
            ctx.case(("dfxopt", m, it), True, f"{m} n={n} h={h:.4g}: linear solver and tolerance options")

            def go(**o):
                return np.asarray(integrate(sys, jnp.asarray(y0), t0, h, 2, m, **o).y[-1])
            base = go(rtol=1e-12, atol=1e-12, lin_rtol=1e-13, lin_atol=1e-13)
            sc = 1 + np.max(np.abs(base))
            ctx.count("dfx_options", 2)
            ctx.close(go(lin_solver="qr", rtol=1e-12, atol=1e-12), base, 1e-9 * sc, "dfx_linsolver", f"{m}: QR and GMRES linear solver", track="dfx_linsolver")
            ctx.close(go(), base, 1e-5 * sc, "dfx_default", f"{m}: default tolerances", track="dfx_default")
            if m == "implicit_euler":
                r = integrate(sys, jnp.asarray(y0), t0, h, 2, m, rtol=1e-12, atol=1e-12)
                for k in (0, 1):
                    a, b = np.asarray(r.y[k]), np.asarray(r.y[k + 1])
                    res = b - a - h * np.asarray(F.f(t0 + (k + 1) * h, b), float)
                    ctx.close(res, 0 * res, 1e-9 * sc, "dfx_residual", f"{m}: implicit equation of step {k + 1}", track="dfx_residual")
            moved += [np.max(np.abs(go(lin_solver=ls, rtol=.9, atol=.9) - base)) > 1e-12 * sc for ls in ("gmres", "qr")]
        # one Newton iteration cannot be enough for every nonlinear problem
        ctx.ok(any(moved[::2]) and any(moved[1::2]), "dfx_tolerance", f"{m}: loose tolerances (0.9) have no effect on any of {len(moved) // 2} nonlinear problems")


def bad(ctx):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    try:
        import ormatex_py.ormatex  # noqa
        native = True
    except ImportError:
        native = False
    rng = ctx.rng
    names = ["", "foo", "EPI2", "epi2 ", "exprb5", "epi4", "rk5", "epi2_leja", "exp4", "exp1_dense_", "dopri", "rk4_rs", "exprb2_dens", "epi2_leja_rs", "Exprb2"]
    unavailable = ["exprb2_rs", "exprb3_rs", "epi2_rs", "epi3_rs", "bdf2_rs", "bdf1_rs", "backeuler_rs", "cn_rs", "exprb2_pfd_rs", "exp_pfd_rs"]
    for nm in names + ([] if native else unavailable):
        sys = iref.make(iref.random_system(rng, 2))
        ctx.case(("bad", nm), True, f"method {nm!r}")
        ctx.count("bad_method")
        try:
            res = integrate(sys, jnp.ones(2), 0., .1, 2, nm)
        except (AttributeError, ImportError, NotImplementedError, ValueError, KeyError) as e:
            ctx.count("raised")
            continue
        ctx.violate("bad_method", f"method {nm!r} returned a result: {res.y[-1]}")
    # bad method names are rejected at construction too
    for C, nm in (("rb", "epi7"), ("split", "exp9"), ("leja", "epi5_leja"), ("rk", "rk3")):
        from ormatex_py.ode_exp import ExpRBIntegrator, ExpSplitIntegrator, ExpLejaIntegrator
        from ormatex_py.ode_explicit import RKIntegrator
        K = {"rb": ExpRBIntegrator, "split": ExpSplitIntegrator, "leja": ExpLejaIntegrator, "rk": RKIntegrator}[C]
        ctx.case(("ctor", C, nm), True, f"{K.__name__}(method={nm!r})")
        ctx.count("bad_method")
        try:
            K(iref.make(iref.random_system(rng, 2)), 0., jnp.ones(2), method=nm)
            ctx.violate("bad_method", f"{K.__name__} accepted method {nm!r}")
        except (AttributeError, NotImplementedError, ValueError, KeyError):
            ctx.count("raised")
    # unknown rational table
    for m in ("exprb2_pfd", "exp_pfd"):
        ctx.case(("table", m), True, f"{m} with an unknown table")
        try:
            r = integrate(iref.make(iref.random_system(rng, 2)), jnp.ones(2), 0., .1, 1, m, pfd_method="nope")
            ctx.violate("bad_table", f"{m}: unknown table accepted, result {r.y[-1]}")
        except (KeyError, ValueError, AttributeError, NotImplementedError):
            ctx.count("raised")
