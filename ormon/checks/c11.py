"""C11 every step equals the published one-step formula."""
import numpy as np
from ormon import gen, refs, iref

LEVEL_RULE = ("random non-autonomous nonlinear systems (quadratic + trigonometric, mixed time-state terms, source), random times of both signs, "
              "step sizes with h|J| in 0.05..2 and variable-step accepted histories; every StepResult is compared with the published formula "
              "evaluated in long double with exact derivatives, within the evaluator's error model; non-trivial = stage terms resolved by the bound")
MIN = {"edge_quiet": 60, "edge_jump": 60, "edge_silent": 60, "edge_resolved": 150, "steps": 350, "significant": 150, "multistep": 25, "nonauto": 200, "leja_steps": 25, "varstep": 100, "negdt": 30, "incomplete": 20, "tl_split": 6, "ul_split": 12}
ASSUMPTIONS = ["longdouble references of phi functions", "first/second-order propagation of evaluator error through stages (x3)"]
NS = [1, 2, 3, 4, 6]


def units(tier):
    u = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for m in iref.RB + ["rk4", "exp_pfd"] + iref.SPLIT:
            u.append((f"{m}_{r}", {"m": m, "r": r}))
        for m in iref.LEJA:
            u.append((f"{m}_{r}", {"m": m, "r": r}))
        ms = [m for m in iref.RB + ["rk4"] + iref.SPLIT + iref.LEJA if not m.endswith("pfd")]
        for i in range(6):
            u.append((f"edge{i}_{r}", {"edge": ms[i::6]}))
    return u


def leja_problem(rng, n, m):
    """system whose Jacobian keeps its spectrum in a known box (real negative or a rectangle)"""
    S = iref.random_system(rng, n, nonlin=.05, nonauto=.5, kinds=["negdef", "stiff"] if m.endswith("re") else ["osc", "negdef", "stable"], lo=0, hi=1.)
    sc = refs.inorm(S["A"])
    S["A"] = S["A"] - .5 * sc * np.eye(n) * (rng.uniform() < .5)
    if m.endswith("re"):
        S["A"] = (S["A"] + S["A"].T) / 2 - .05 * sc * np.eye(n)
    S["T"] *= .1
    return S


def edge(ctx, m, jnp):
    """states next to an equilibrium (a step changes them by less than 1e-5), step sizes jumping by factors up to 1000, explicit time dependence that is
    invisible at the first step."""
    rng, leja = ctx.rng, "leja" in m
    for it in range(ctx.n(6 if not leja else 4, 24)):
        if not ctx.more():
            return
        kind = ["quiet", "jump", "silent"][it % 3]
        n = int([2, 3, 1, 4][(it + it // 3) % 4]) + leja
        S = leja_problem(rng, n, m) if leja else iref.random_system(rng, n, nonlin=[1., .3][it % 2])
        if not leja:
            S["A"] = S["A"] - .5 * np.eye(n)
            S["L"] = S["L"] - .5 * np.eye(n)
        t0, y0, opts = float(rng.uniform(-2, 2)), rng.standard_normal(n), dict(leja_tol=1e-15) if leja else {}
        if kind == "quiet":
            for k in ("c", "s", "T") if it % 2 else ():
                S[k] = S[k] * 0
            if it % 2 == 0:
                S["s"], S["c"], S["T"] = S["s"] * 1e-6, S["c"] * 1e-6, S["T"] * 1e-6
            S["b"] = S["b"] - np.asarray(iref.F(S).f(t0, y0), dtype=float)
            y0 = y0 + 10 ** rng.uniform(-8, -5.5) * rng.standard_normal(n)
        if kind == "silent":
            # the time derivative vanishes at t0 only
            S["T"], S["c"] = S["T"] * 0, S["c"] * 0
            S["s"] = rng.uniform(.5, 1.5, n)
            S["ph"] = np.pi / 2 - S["w"] * t0
        sys, st = iref.make(S), iref.Stepper(S, None, "ad", **opts)
        nj = max(refs.inorm(st.F.jac(t0, y0)), .3)
        if leja:
            opts["leja_a"] = -2. * nj
            if m.endswith("im"):
                opts["leja_c"] = 1.5 * nj
        I = iref.integrator(sys, t0, jnp.asarray(y0), m, **opts)
        hs = {"quiet": [.8, 2., .3], "jump": [.3, .0003 if it % 2 else .006, .2, .2], "silent": [.2, .3, .25]}[kind]
        for k, c in enumerate(hs):
            h = c * float(rng.uniform(.8, 1.2)) / nj
            hist = [(float(a), np.asarray(b)) for a, b in zip(I.t_hist, I.y_hist)]
            ctx.case(("edge", m, it, k, h, y0.tolist()), True, f"{m} {kind} n={n} t={hist[0][0]:.4g} h={h:.4g} step#{k} |f|={iref.inf(st.F.f(*hist[0])):.3g}")
            want = st.step(m, hist, h)
            big = iref.inf(want.v)
            if not np.isfinite(big) or big > 300:
                break
            try:
                r = I.step(h)
            except RuntimeError as e:
                if leja and "not converged" in str(e):
                    ctx.count("leja_notconv")
                    break
                raise
            tol = 3 * want.e + 1e-13 * (1 + big)
            ctx.count("edge_" + kind)
            ctx.count("edge_resolved", int(iref.inf(want.v - hist[0][1]) > 100 * tol))
            if not ctx.close(r.y, want.v, tol, "edge_" + kind, f"{m} step", track="edge_" + kind):
                break
            I.accept_step(r)


def run(ctx, name, p):
    import jax.numpy as jnp
    if "edge" in p:
        for m in p["edge"]:
            edge(ctx, m, jnp)
        return
    m, rng = p["m"], ctx.rng
    leja = "leja" in m
    for it in range(ctx.n(16 if leja else 22, 40 if leja else 90)):
        if not ctx.more():
            break
        n = NS[it % len(NS)] if not ctx.thorough else int(rng.integers(1, 7))
        jac, opts, kw = "ad", {}, {}
        if leja:
            n = max(n, 2)
            S = leja_problem(rng, n, m)
        elif m == "exp_pfd":
            S = iref.blank(n)
            S["A"] = gen.scaled(rng, str(rng.choice(["stable", "stiff", "osc", "rates", "skew", "negdef"])), n, -1, 1)[0]
        else:
            S = iref.random_system(rng, n, nonlin=[1., .5, .1][it % 3], nonauto=0. if it % 7 == 3 else 1.)
        F = iref.F(S)
        t0 = float(rng.choice([0., rng.uniform(-3, 4), rng.uniform(5, 30)]))
        if t0 > 4:
            S["T"] = S["T"] * 0
            S["c"] = S["c"] * .1
            F = iref.F(S)
        y0 = rng.standard_normal(n) * float(rng.choice([.3, 1., 1.5]))
        nj = refs.inorm(F.jac(t0, y0))
        if m in iref.SPLIT:
            nj = max(nj, refs.inorm(S["L"]))
            if it % 4 == 1:
                S["L"] = S["L"] * 0
            if it % 5 == 2 and not m.endswith("dense"):
                S["L1"] = .3 * rng.standard_normal((n, n))
                ctx.count("tl_split")
            if it % 5 in (2, 4) and not m.endswith("dense"):
                S["Lu"] = .3 * rng.standard_normal((n, n))
                ctx.count("ul_split")
            F = iref.F(S)
        h = 10 ** rng.uniform(-1.2, .3) / max(nj, .3)
        if leja:
            h = 10 ** rng.uniform(-.5, 1.2) / max(nj, .3)
        if it % 6 == 5 and not leja:
            h = -h
        if m in iref.RB and not m.endswith(("dense", "pfd")):
            jac = ["ad", "ad", "custom", "ad", "customfd"][it % 5]
            if it % 4 == 3:
                opts["max_krylov_dim"] = int(rng.integers(1, max(2, n)))
            if it % 11 == 4:
                opts["tol_fdt"] = -1.
        if m in iref.SPLIT and it % 6 == 3 and not m.endswith("dense"):
            opts["max_krylov_dim"] = int(rng.integers(1, max(2, n)))
        if m.endswith("pfd"):
            opts["pfd_method"] = ["cram_16", "cram_12", "cram_14", "cram_8"][it % 4]
        if leja:
            opts["leja_tol"] = [1e-15, 1e-12, 1e-10][it % 3]
            opts["dd_method"] = ["taylor", "pade"][it % 2]
            if m.endswith("im"):
                ev = np.linalg.eigvals(np.asarray(F.jac(t0, y0), dtype=float))
                cplx = float(np.max(np.abs(ev.imag))) > .05 * float(np.max(np.abs(ev)))
                # the box must contain the spectrum; without imaginary extent and with a dominant real eigenvalue it may be omitted
                opts["leja_c"] = float(np.max(np.abs(ev.imag)) * 1.2 + .05 * nj) if cplx or it % 3 else None
                opts["leja_a"] = float(min(-.05 * nj, np.min(ev.real)) * 1.3) if cplx or it % 4 else None
            elif it % 2:
                ev = np.linalg.eigvals(np.asarray(F.jac(t0, y0), dtype=float))
                opts["leja_a"] = float(min(-1e-2, np.min(ev.real)) * 1.2)
            if it % 5 == 2:
                opts["leja_n_zeros"] = int(rng.integers(0, 4))
            opts = {k: v for k, v in opts.items() if v is not None}
        if refs.inorm(S["A"]) and it % 3 == 1 and m in iref.RB and m != "exp_pfd":
            kw = {"gain": float(rng.uniform(.5, 1.5)), "src": rng.standard_normal(n)}
        jkw = {k: jnp.asarray(v) for k, v in kw.items()}
        sys = iref.make(S, jac)
        I = iref.integrator(sys, t0, jnp.asarray(y0), m, **opts)
        st = iref.Stepper(S, kw, jac, **opts)
        ratio = [1., 1., .6, 1.7][int(rng.integers(4))]
        for k in range(3 if m in ("epi3", "epi3_leja_im") else 2):
            hist = [(float(a), np.asarray(b)) for a, b in zip(I.t_hist, I.y_hist)]
            ctx.case((m, n, it, k, t0, h, jac, str(opts), y0.tolist()), True,
                     f"{m} n={n} t={hist[0][0]:.4g} h={h:.4g} jac={jac} opts={opts} kw={sorted(kw)} hist={len(hist)} h|J|={abs(h) * nj:.3g} step#{k}")
            want = st.step(m, hist, h)
            big = iref.inf(want.v)
            if not np.isfinite(big) or big > 300:
                ctx.count("left_range")
                break
            try:
                r = I.step(h, frhs_kwargs=jkw) if kw else I.step(h)
            except RuntimeError as e:
                if leja and "not converged" in str(e):
                    ctx.count("leja_notconv")
                    break
                raise
            tol = 3 * want.e + 1e-13 * (1 + big)
            lim = 1e-3 * max(iref.inf(want.v - hist[0][1]), 1e-3)
            t1 = hist[0][0] + h
            ctx.ok(abs(float(r.t) - t1) <= 8 * refs.EPS * (abs(t1) + abs(h)), "time", f"result time {r.t}, expected {t1}")
            ctx.ok(float(r.dt) == h, "dt", f"result dt {r.dt}, requested {h}")
            if tol > lim and big > 1e-9 and "krylov" not in str(opts):
                ctx.count("unresolved")
                I.accept_step(r)
                continue
            if tol > 1e-2 * (1e-3 + big):
                ctx.count("unresolved")
                I.accept_step(r)
                continue
            ok = ctx.close(r.y, want.v, tol, "formula", f"{m} step", track=m)
            ctx.count("steps")
            if "max_krylov_dim" in opts:
                ctx.count("incomplete")
            if leja:
                ctx.count("leja_steps")
            if len(hist) >= 2 and m.startswith("epi3"):
                ctx.count("multistep")
            if k and ratio != 1:
                ctx.count("varstep")
            if h < 0:
                ctx.count("negdt")
            if np.any(np.asarray(st.F.ft(hist[0][0], hist[0][1])) != 0):
                ctx.count("nonauto")
            base = st.step("exprb2", hist, h) if (m in iref.RB or leja) else st.split("exp1", hist[0][0], refs.ld(hist[0][1]), h) if m in iref.SPLIT else iref.Val(hist[0][1])
            if iref.inf(base.v - want.v) > 30 * tol or iref.ORDER[m] <= 2:
                ctx.count("significant")
            if not ok:
                break
            I.accept_step(r)
            h = h * ratio
