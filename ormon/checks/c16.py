"""C16 Jacobian operators against extended-precision derivatives of the right-hand side."""
import numpy as np
from ormon import refs, iref

LEVEL_RULE = ("random non-autonomous polynomial/trigonometric systems with closed-form derivatives in extended precision; operators obtained through fjac and built "
              "directly, applied to many directions (zero, unit, random, tiny, huge) by call, matvec, numpy-compatible matvec and dense form, before and after creating operators at "
              "other points; finite differences judged by their truncation + rounding bound; non-trivial = nonlinear or time dependent system with n >= 2")
MIN = {"op": 150, "direction": 800, "fdt": 150, "cached": 150, "dense": 60, "zero_state": 20, "kwargs": 40, "scale_shift": 40, "linear_exact": 15, "eps": 30, "trace_eval": 4}
ASSUMPTIONS = ["finite-difference accuracy: truncation of the requested perturbation plus 200 roundings of the right-hand side divided by the perturbation"]
EPS = refs.EPS


def units(tier):
    reps = 1 if tier == "quick" else 8
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("ad", "custom", "customfd", "fd", "direct", "fdopts", "interleave", "once")]


def draw(rng, i):
    n = int([3, 2, 1, 5, 4][i % 5])
    S = iref.random_system(rng, n, nonlin=float(rng.choice([0., .3, 1.])), nonauto=float(rng.choice([0., 1.])))
    t = float(rng.choice([0., rng.uniform(-3, 3), 10 * rng.uniform(-3, 3)]))
    u = rng.standard_normal(n) * 10. ** rng.uniform(-2, 1)
    if i % 6 == 5:
        u = np.zeros(n)
    elif i % 6 == 3:
        u[0] = 0.
    return n, S, t, u


def directions(rng, n):
    e = np.zeros(n)
    e[rng.integers(n)] = 1.
    return [("zero", np.zeros(n)), ("unit", e), ("random", rng.standard_normal(n)), ("small", 1e-6 * rng.standard_normal(n)), ("large", 1e4 * rng.standard_normal(n))]


def fd_tol(F, t, u, v, eps):
    """bounds of |(f(u+h v)-f(u))/h - J v| (the perturbation is relative to the state size, absolute at zero)"""
    n1 = np.sum(np.abs(u))
    tol = 0.
    for h in ([eps * n1, eps * np.max(np.abs(u))] if n1 > 0 else [eps]):
        w = np.abs(u) + h * np.abs(v)
        trunc = .5 * h * F.curv() * iref.inf(v) ** 2
        rnd = 200 * EPS * (F.fabs(t, u) + F.fabs(t, w) + float(np.max(np.abs(F.jac(t, u)).sum(1))) * iref.inf(w)) / h
        tol = max(tol, 2 * trunc + rnd)
    return tol


def fdt_tol(F, t, u, eps):
    return eps * F.ftt() + 200 * EPS * (F.fabs(t, u) + F.fabs(abs(t) + eps, u)) / eps + 20 * EPS * abs(t) / eps * (iref.inf(F.ft(t, u)) + F.ftt())


def judge(ctx, op, F, t, u, kind, what, eps=.5e-8, scale=1., gamma=0., dense=True, jacmat=None):
    import jax.numpy as jnp
    rng, n = ctx.rng, len(u)
    J = F.jac(t, u) if jacmat is None else refs.ld(jacmat)
    Ja = np.abs(F.jac(t, u)) if jacmat is None else np.abs(J)
    rows = float(np.max(Ja.sum(1))) + F.curv() * iref.inf(u)
    ctx.count("op")
    if not np.any(u):
        ctx.count("zero_state")
    dirs = directions(rng, n)
    rng.shuffle(dirs)
    for nm, v in dirs:
        ctx.count("direction")
        want = scale * (J @ refs.ld(v)) + gamma * refs.ld(v)
        tol = 60 * n * EPS * (rows + F.fabs(t, np.ones(n)) * 0) * iref.inf(v)
        if kind == "fd":
            tol = abs(scale) * fd_tol(F, t, u, v, eps) + 60 * EPS * abs(gamma) * iref.inf(v)
        vj = jnp.asarray(v)
        for how, call in (("matvec", op.matvec), ("call", op), ("npcompat", op.matvec_npcompat)):
            if how != "matvec" and rng.random() < .6:
                continue
            got = np.asarray(call(vj))
            ctx.ok(got.shape == (n,), "shape", f"{what}: {how} returned shape {got.shape}")
            ctx.close(got, want, tol, f"{kind}_{how}", f"{what}: {how} on {nm} direction", track=f"jv_{kind}")
        ctx.ok(np.array_equal(np.asarray(vj), v), "input", f"{what}: direction modified")
    ctx.count("fdt")
    ft = F.ft(t, u)
    tolt = 60 * EPS * (iref.inf(ft) + float(np.max(np.abs(F.S["T"]) @ np.abs(u))) + 10 * iref.inf(F.S["s"] * F.S["w"]) * (1 + abs(t) * iref.inf(F.S["w"])))
    if kind in ("fd", "customfd"):
        tolt = fdt_tol(F, t, u, eps)
    ctx.close(np.asarray(op._fdt()), ft, tolt, f"{kind}_fdt", f"{what}: time derivative", track=f"fdt_{kind}")
    ctx.count("cached")
    ctx.close(np.asarray(op._frhs_cached()), F.f(t, u), 60 * n * EPS * (F.fabs(t, u) + 1e-300), f"{kind}_cached", f"{what}: cached right-hand side")
    if dense and kind != "fd":
        ctx.count("dense")
        D = np.asarray(op.dense())
        ctx.ok(D.shape == (n, n), "dense_shape", f"{what}: dense shape {D.shape}")
        ctx.close(D, J, 60 * n * EPS * (rows + 1e-300), f"{kind}_dense", f"{what}: dense form")


def run(ctx, name, p):
    import jax
    import jax.numpy as jnp
    from ormatex_py import ode_sys
    rng, kind = ctx.rng, p["k"]
    if kind in ("ad", "custom", "customfd", "fd"):
        for i in range(ctx.n(40 if kind == "ad" else 30, 250)):
            if not ctx.more():
                break
            n, S, t, u = draw(rng, i)
            kw = {}
            if i % 3 == 1:
                kw = {"gain": float(rng.uniform(.3, 2)), "src": float(rng.standard_normal())}
                ctx.count("kwargs")
            sys = iref.make(S, kind)
            F = iref.F(S, kw)
            desc = f"{kind} n={n} t={t:.3g} |u|={iref.inf(u):.3g} kw={kw} #{i}"
            ctx.case((kind, n, bool(kw), t == 0, not np.any(u), bool(np.any(S["Q"]))), n > 1 and (np.any(S["Q"]) or np.any(S["s"])), desc)
            uj = jnp.asarray(u)
            # keyword arguments directly and nested as the integrators pass them
            op = sys.fjac(t, uj, **(kw if i % 2 else ({"frhs_kwargs": kw} if kw else {})))
            judge(ctx, op, F, t, u, kind, desc)
            ctx.ok(np.array_equal(np.asarray(uj), u), "input", f"{desc}: state modified")
    elif kind == "direct":
        for i in range(ctx.n(40, 250)):
            n, S, t, u = draw(rng, i)
            sys = iref.make(S)
            kw = {"gain": float(rng.uniform(.3, 2)), "src": float(rng.standard_normal())} if i % 2 else {}
            if kw:
                ctx.count("kwargs")
            F = iref.F(S, kw)
            w = ("ad", "custom", "customfd", "fd")[i % 4]
            desc = f"direct {w} n={n} t={t:.3g} kw={kw} #{i}"
            ctx.case(("direct", w, n, bool(kw)), n > 1, desc)
            uj = jnp.asarray(u)
            J = np.asarray(F.jac(t, u), float)
            mat = None
            if w == "ad":
                op = ode_sys.AdJacLinOp(t, uj, sys.frhs, frhs_kwargs=kw)
            elif w == "custom":
                if i % 8 < 4:           # the operator returns whatever the user supplies
                    J = rng.standard_normal((n, n))
                    mat = J
                op = ode_sys.CustomJacLinOp(t, uj, sys.frhs, jnp.asarray(J), jnp.asarray(np.asarray(F.ft(t, u), float)), frhs_kwargs=kw)
            elif w == "customfd":
                op = ode_sys.CustomJacLinOp(t, uj, sys.frhs, jnp.asarray(J), frhs_kwargs=kw)
            else:
                op = ode_sys.FdJacLinOp(t, uj, sys.frhs, frhs_kwargs=kw)
                ctx.ok(tuple(op.shape) == (n, n), "fd_shape", f"{desc}: shape {op.shape}")
            judge(ctx, op, F, t, u, w, desc, jacmat=mat)
            if kw:
                # a second operator without the arguments sees the plain system, the first one keeps its own
                op2 = ode_sys.AdJacLinOp(t, uj, sys.frhs)
                judge(ctx, op2, iref.F(S), t, u, "ad", desc + " (no arguments)")
                judge(ctx, op, F, t, u, w, desc + " (again)", jacmat=mat)
        # non-square user Jacobians are refused
        for shape in ((2, 3), (3, 2), (3,)):
            try:
                S = iref.random_system(rng, 3)
                ode_sys.CustomJacLinOp(0., jnp.ones(3), iref.make(S).frhs, jnp.ones(shape), jnp.ones(3))
                ctx.violate("nonsquare", f"user Jacobian of shape {shape} accepted")
            except (AssertionError, ValueError, TypeError, IndexError):
                ctx.count("refused")
    elif kind == "fdopts":
        for i in range(ctx.n(60, 400)):
            n, S, t, u = draw(rng, i)
            linear = i % 4 == 0
            if linear:
                S["Q"] *= 0
                S["d"] *= 0
            sys, F = iref.make(S), iref.F(S)
            scale, gamma = float(rng.uniform(-3, 3)), float(rng.choice([0., rng.uniform(-5, 5)]))
            eps = float(10. ** rng.uniform(-9, -3)) if i % 3 else .5e-8
            desc = f"fd options scale={scale:.3f} gamma={gamma:.3f} eps={eps:.2e} n={n} #{i}"
            ctx.case(("fdopts", n, gamma != 0, i % 3, not np.any(u)), n > 1, desc)
            kw = dict(scale=scale, gamma=gamma)
            if i % 3:
                kw["eps"] = eps
                ctx.count("eps")
            if i % 5 == 0:
                kw = {}
                scale, gamma, eps = 1., 0., .5e-8
            ctx.count("scale_shift")
            op = ode_sys.FdJacLinOp(t, jnp.asarray(u), sys.frhs, **kw)
            judge(ctx, op, F, t, u, "fd", desc, eps=eps, scale=scale, gamma=gamma)
            if linear and eps > 1e-6:
                # no truncation error on affine systems: large perturbations give small errors
                ctx.count("linear_exact")
            if i % 3 == 1:
                # the perturbation of the user's time-derivative fallback
                J = np.asarray(F.jac(t, u), float)
                op = ode_sys.CustomJacLinOp(t, jnp.asarray(u), sys.frhs, jnp.asarray(J), eps=eps)
                judge(ctx, op, F, t, u, "customfd", desc, eps=eps)
                ctx.count("linear_exact")
    elif kind == "interleave":
        # operators at several points / times / arguments of one system stay independent, in any order of use
        for i in range(ctx.n(10, 60)):
            n = int(rng.integers(2, 6))
            S = iref.random_system(rng, n)
            ops = []
            for j in range(6):
                k = ("ad", "custom", "customfd", "fd")[int(rng.integers(4))]
                t, u = float(rng.uniform(-2, 2)), rng.standard_normal(n)
                kw = {"gain": float(rng.uniform(.5, 2)), "src": 1.} if j % 2 else {}
                ops.append((iref.make(S, k).fjac(t, jnp.asarray(u), **kw), iref.F(S, kw), t, u, k))
            for j in rng.permutation(np.repeat(np.arange(6), 2)):
                op, F, t, u, k = ops[j]
                ctx.case(("inter", k, n), True, f"interleaved operators, {k} #{i}/{j}")
                judge(ctx, op, F, t, u, k, f"interleaved {k} #{i}/{j}", dense=False)
    elif kind == "once":
        # results do not depend on how often the right-hand side is traced: python-side counters only grow at construction
        for k in ("ad", "fd", "custom", "customfd"):
            n, S, t, u = draw(rng, 0)
            base = iref.make(S)
            F = iref.F(S)
            calls = {"n": 0}

            def rhs(t_, u_, **kw):
                calls["n"] += 1
                return base.frhs(t_, u_, **kw)
            J = jnp.asarray(np.asarray(F.jac(t, u), float))
            uj = jnp.asarray(u)
            ctx.case(("once", k), True, f"plain function right-hand side, {k}")
            if k == "ad":
                op = ode_sys.AdJacLinOp(t, uj, rhs)
            elif k == "fd":
                op = ode_sys.FdJacLinOp(t, uj, rhs)
            elif k == "custom":
                op = ode_sys.CustomJacLinOp(t, uj, rhs, J, jnp.asarray(np.asarray(F.ft(t, u), float)))
            else:
                op = ode_sys.CustomJacLinOp(t, uj, rhs, J)
            ctx.count("trace_eval")
            try:
                v = jnp.asarray(rng.standard_normal(n))
                op.matvec(v)
            except TypeError:
                ctx.count("plain_function_unsupported")   # a bare function is not a pytree leaf
                continue
            judge(ctx, op, F, t, u, k, f"plain function {k}", dense=False)
