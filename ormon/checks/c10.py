"""C10 exactness on linear, affine and time-linear problems, whole trajectories."""
import json
import numpy as np
from ormon import gen, refs, iref, kref

LEVEL_RULE = ("u' = A u + b (+ c t) with random A (stable, stiff up to h|A| ~ 1e5, singular, oscillatory, non-normal), start times of both signs, step sizes "
              "over six decades, 2..12 steps through integrate() and through step/accept; every state is compared with the exact solution (long double "
              "phi functions) within the accumulated evaluator error; non-trivial = A and the inhomogeneity nonzero")
MIN = {"late": 200, "traj": 150, "states": 700, "stiff": 20, "timelinear": 50, "homogeneous": 20, "leja": 15, "split": 40, "negdt": 8, "longrun": 20, "balanced": 10, "wide": 30}
ASSUMPTIONS = ["longdouble phi reference", "Leja methods are run with boxes containing the spectrum"]
EXP = iref.RB + ["exp_pfd"] + iref.SPLIT + iref.LEJA


def units(tier):
    reps = 1 if tier == "quick" else 6
    return [(f"{m}_{r}", {"m": m, "r": r}) for r in range(reps) for m in EXP] + \
        [(f"wide_{m}_{r}", {"m": m, "r": r, "w": 1}) for r in range(reps) for m in EXP if m[0] == "e" and not m.endswith("pfd") and "leja" not in m] + \
        [(f"late_{r}_{i}", {"late": LATE[i::4]}) for r in range(reps) for i in range(4)]


# methods that are exact for a source growing linearly from a step boundary on
LATE = ["exprb2", "exprb3", "pexprb4", "epi2", "exprb2_dense", "exprb2_pfd", "exp2", "exp3", "exp2_dense", "exp3_dense", "epi2_leja_re", "epi2_leja_im"]


def late(ctx, m, jnp, integrate):
    """u' = A u + b + c max(t - t1, 0) with t1 on the time grid: exact before and after the source starts to grow"""
    from ormatex_py import ode_sys
    rng = ctx.rng

    class Late(ode_sys.OdeSplitSys):
        A: object
        b: object
        c: object
        t1: object

        def __init__(self, A, b, c, t1):
            super().__init__()
            self.A, self.b, self.c, self.t1 = jnp.asarray(A), jnp.asarray(b), jnp.asarray(c), jnp.asarray(t1)

        def _frhs(self, t, u, **kw):
            return self.A @ u + self.b + jnp.where(t > self.t1 - 1e-9, self.c * (t - self.t1), 0.)

        def _fl(self, t, u, **kw):
            return ode_sys.MatrixLinOp(self.A)

    for it in range(ctx.n(3, 10)):
        n = int(rng.integers(2, 5))
        A = gen.matrix(rng, "negdef", n) if "leja" not in m else -np.diag(rng.uniform(.3, 3, n))
        A = (A + A.T) / 2
        A = A / refs.inorm(A) * rng.uniform(.5, 3)
        b = rng.standard_normal(n) * (it % 3 != 0)
        y0 = rng.standard_normal(n) * (it % 3 != 0)
        c = rng.uniform(.3, 1., n)
        t0, h, k1, steps = float(rng.choice([0., -1.5, 2.25])), float(2. ** -rng.integers(1, 4)), int(rng.integers(1, 4)), 7
        t1 = t0 + k1 * h
        opts = dict(leja_tol=1e-14, leja_a=-2. * refs.inorm(A)) if "leja" in m else dict(pfd_method="cram_16") if m.endswith("pfd") else {}
        if m == "epi2_leja_im":
            opts["leja_c"] = .5 * refs.inorm(A)
        desc = f"{m} late source n={n} t0={t0} h={h} source from step {k1} y0={y0[:2]}"
        ctx.case(("late", m, it, h, k1, A.ravel()[:3].tolist()), True, desc)
        sysm = Late(A, b, c, t1)
        try:
            if it % 2:
                got = integrate(sysm, jnp.asarray(y0), t0, h, steps, m, **opts).y
            else:
                I = iref.integrator(sysm, t0, jnp.asarray(y0), m, **opts)
                got = [y0]
                for k in range(steps):
                    r = I.step(h)
                    I.accept_step(r)
                    got.append(r.y)
        except RuntimeError as e:
            if "leja" in m and "not converged" in str(e):
                ctx.count("leja_notconv")
                continue
            raise
        ph = refs.phis(refs.ld(A) * np.longdouble(h), 2)
        y, H = refs.ld(y0), np.longdouble(h)
        for k in range(steps):
            on = k >= k1
            y = y + H * (ph[1] @ (refs.ld(A) @ y + b + (k - k1) * h * c * on)) + H * H * (ph[2] @ (refs.ld(c) * on))
            ctx.count("late")
            if not ctx.close(got[k + 1], y, (1e-9 if "leja" in m or m.endswith("pfd") else 1e-5 if m.endswith("dense") else 1e-6) * (1 + iref.inf(y)), "late", f"{desc}: state {k + 1}", track="late"):
                break


def pfd_scalar_err(lam, k, table):
    """error of the published table for phi_k at the scalars lam"""
    from ormon.checks.c03 import phi_scalar
    ps, cs, c0 = iref.pfd_tables()[table]
    worst = 0.
    for z in lam:
        r = sum(float(np.real(2 * complex(c) / complex(p) ** k / (z - complex(p)))) for p, c in zip(ps, cs)) + (c0 if k == 0 else 0)
        worst = max(worst, abs(r - float(phi_scalar(z, k))))
    return worst


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    if "late" in p:
        for m in p["late"]:
            late(ctx, m, jnp, integrate)
        return
    m, rng = p["m"], ctx.rng
    leja, split, pf = "leja" in m, m in iref.SPLIT, m.endswith("pfd")
    for it in range(ctx.n(10 if leja else 8 if p.get("w") else 14, 40)):
        if not ctx.more():
            break
        n = int([1, 2, 3, 5, 8][it % 5]) + (it % 5 == 0 and "w" in p)
        fam = ["stable", "stiff", "osc", "singular", "rates", "triu", "skew", "zero"][(it + it // 5) % 8]
        if leja:
            n = max(2, n)
            fam = ["negdef", "stiff"][it % 2] if m.endswith("re") else ["osc", "negdef", "skewdamp"][it % 3]
        if pf:
            fam = ["diagstiff", "symrates"][it % 2]
        big = it % 3 == 1
        if big and not leja and not pf and it % 2:
            fam = ["stable", "stiff", "rates"][it // 3 % 3]
        if fam == "diagstiff":
            A = -np.diag(10 ** rng.uniform(-2, 4 if big else 1.5, n))
            if n > 1 and it % 4 == 0:
                A[0, 0] = 0
            Q = gen.orth(rng, n)
            A = Q @ A @ Q.T
            A = (A + A.T) / 2
        elif fam == "symrates":
            R = np.abs(rng.standard_normal((n, n))) * (1 if n > 1 else 0)
            R = (R + R.T) / 2
            np.fill_diagonal(R, 0)
            A = (R - np.diag(R.sum(1) + .1)) * 10 ** rng.uniform(-1, 1)
        elif fam == "skewdamp":
            A = gen.matrix(rng, "skew", n) * 10 ** rng.uniform(-.5, .8)
            A = A - .5 * refs.inorm(A) * np.eye(n)
        else:
            hi = 1. if leja else (4.5 if big and fam in ("stable", "stiff", "rates") else .8)
            A = gen.scaled(rng, fam, n, hi - 1.2, hi)[0]
            if big and fam == "stable":
                A = A - 2 * refs.inorm(A) * np.eye(n)
        if leja and m.endswith("re"):
            A = (A + A.T) / 2 - .02 * refs.inorm(A) * np.eye(n)
        S = iref.blank(n)
        S["A"] = S["L"] = A
        kind = ["affine", "timelinear", "homog", "timelinear"][(it + 1) % 4]
        if "w" in p:
            kind = "timelinear"
        if m == "exp_pfd":
            kind = "homog"
        if split and m.startswith("exp1") and kind == "timelinear":
            kind = "affine"
        sc = 10 ** rng.uniform(-3, 3) if it % 4 == 0 else 1.
        if kind != "homog":
            S["b"] = rng.standard_normal(n) * sc
        if kind == "timelinear":
            S["c"] = rng.standard_normal(n) * sc
            if it % 8 == 1:
                S["c"] = S["c"] * (rng.uniform(size=n) < .4)
            elif it % 3 == 0 and n > 1:
                # conservative exchange: the inhomogeneities sum to zero over the components
                S["c"] = rng.permutation(np.concatenate([[1., -1.], np.zeros(n - 2)])) * sc
                ctx.count("balanced")
            elif it % 3 == 1 and n > 1 and it % 2:
                S["c"][0] = S["c"][-1] = 0.
        wide = kind == "timelinear" and n > 1 and p.get("w")
        if wide:
            # a slow explicitly time dependent component next to large autonomous ones
            sc, j = 1., int(rng.integers(n))
            S["b"] = rng.uniform(.5, 1., n) * 10 ** rng.uniform(6.5, 7.5)
            S["b"][j] = rng.standard_normal()
            S["c"] = np.zeros(n)
            S["c"][j] = rng.uniform(.03, .06)
            ctx.count("wide")
        y0 = rng.standard_normal(n) * sc
        if it % 7 == 6 and kind != "homog":
            y0 = y0 * 0
        t0 = float(rng.choice([0., rng.uniform(-3, 5), 50.]))
        na = refs.inorm(A)
        h = 10 ** rng.uniform(-2, .3)
        if fam in ("triu", "zero", "osc", "skew", "singular"):
            h = min(h, 4 / max(na, .1))
        if not big and not leja and na * h > 30:
            h = 30 / na
        neg = it % 6 == 4 and not leja and not pf
        if wide:
            h = max(h, min(.3, 8 / max(na, 1e-3)))
        if neg:
            h = -min(h, 2. / max(na, .2))
        steps = int(rng.integers(2, 5)) if it % 4 else 11
        if leja:
            h = min(h, 60 / na)
            steps = min(steps, 4)
        if neg:
            steps = min(steps, 4)
        opts = {}
        if leja:
            opts = {"leja_tol": [1e-12, 1e-15, 1e-10][it % 3], "dd_method": ["taylor", "pade"][it % 2]}
            ev = np.linalg.eigvals(A)
            if m.endswith("im"):
                opts["leja_a"] = float(min(np.min(ev.real), -.05 * na) * 1.2)
                opts["leja_c"] = float(np.max(np.abs(ev.imag)) * 1.2 + .05 * na)
            elif it % 2:
                opts["leja_a"] = float(min(np.min(ev.real), -.05 * na) * 1.2)
        if m.endswith("pfd"):
            opts["pfd_method"] = ["cram_16", "cram_14", "cram_12"][it % 3]
        F = iref.F(S)
        st = iref.Stepper(S, None, "ad", **opts)
        # exact trajectory and accumulated bound
        hA = F.S["A"] * np.longdouble(h)
        ph = refs.phis(hA, 2)
        ge = refs.inorm(ph[0])
        grow = kref.growth(hA)
        ys, ts, errs = [refs.ld(y0)], [t0], [0.]
        lam = np.linalg.eigvalsh(A) * h if pf else None
        for k in range(steps):
            t, y = t0 + k * h, ys[-1]
            f, ft = F.f(t, y), F.ft(t, y)
            nxt = y + np.longdouble(h) * (ph[1] @ f) + np.longdouble(h) ** 2 * (ph[2] @ ft)
            fs = F.fabs(t, y)
            if pf:
                tb = opts["pfd_method"]
                if m == "exp_pfd":
                    v = iref.pfd(F.S["A"], h, y, 0, tb)
                    e = v.e + n * (pfd_scalar_err(lam, 0, tb) * 2 + 1e-13) * iref.inf(y)
                else:
                    v1, v2 = iref.pfd(F.S["A"], h, f, 1, tb), iref.pfd(F.S["A"], h, ft, 2, tb)
                    e = abs(h) * (v1.e + n * (2 * pfd_scalar_err(lam, 1, tb) + 1e-13) * iref.inf(f)) + h * h * (v2.e + n * (2 * pfd_scalar_err(lam, 2, tb) + 1e-13) * iref.inf(ft))
            else:
                # two histories so that multistep formulas apply after the first step
                hist = [(t, y)] + ([(ts[-2], ys[-2])] if k else [])
                w = st.step(m, hist, h)
                e = w.e + iref.inf(w.v - nxt)
                if iref.inf(w.v - nxt) > 10 * w.e + 1e-8 * h * h * grow + 1e-6 * iref.inf(nxt):
                    raise RuntimeError(f"harness: formula not exact for {m}: {iref.inf(w.v - nxt)} {w.e}")
            e += 40 * refs.EPS * (abs(h) * fs * grow + iref.inf(nxt)) + 4e-16 * (abs(t) + abs(h)) * abs(h) * grow * iref.inf(ft) * (k + 2)
            ys.append(nxt)
            ts.append(t0 + (k + 1) * h)
            errs.append(max(ge, 1e-2) * errs[-1] * 1.05 + e)
        ctx.case((m, n, it, fam, kind, t0, h, A.ravel()[:3].tolist()), na > 0 and kind != "zero",
                 f"{m} {fam} {kind} n={n} t0={t0:.4g} h={h:.4g} steps={steps} |A|={na:.3g} h|A|={abs(h) * na:.3g} opts={opts}")
        sysm = iref.make(S, "ad")
        scale = max(iref.inf(y) for y in ys)
        drv = it % 2 == 0
        try:
            if drv:
                res = integrate(sysm, jnp.asarray(y0), t0, h, steps, m, **opts)
                got, tt = res.y, res.t
            else:
                I = iref.integrator(sysm, t0, jnp.asarray(y0), m, **opts)
                got, tt = [y0], [t0]
                for k in range(steps):
                    r = I.step(h)
                    I.accept_step(r)
                    got.append(r.y)
                    tt.append(r.t)
        except RuntimeError as e:
            if leja and "not converged" in str(e):
                ctx.count("leja_notconv")
                continue
            raise
        if not ctx.ok(len(got) == steps + 1 and len(tt) == steps + 1, "count", f"{len(got)} states, {len(tt)} times for {steps} steps"):
            continue
        judged = 0
        for k in range(1, steps + 1):
            tol = 3 * errs[k] + 1e-14 * iref.inf(ys[k])
            if not np.isfinite(tol) or tol > 1e-3 * scale + 1e-300:
                if scale > 0:
                    ctx.count("unresolved")
                    break
            if scale > 1e12:
                break
            judged += 1
            ctx.count("states")
            if not ctx.close(got[k], ys[k], tol + 1e-300, "exact", f"{m} state after step {k}", track=m):
                break
        if judged:
            ctx.count("traj")
            ctx.count("leja", int(leja))
            ctx.count("split", int(split))
            ctx.count("stiff", int(abs(h) * na > 100))
            ctx.count("timelinear", int(kind == "timelinear"))
            ctx.count("homogeneous", int(kind == "homog"))
            ctx.count("negdt", int(h < 0))
            ctx.count("longrun", int(judged > 9))
