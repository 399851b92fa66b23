"""C21 assembled advection-diffusion semi-discretisation."""
import numpy as np
from ormon import refs
from ormon.checks.c20 import gll, lag

LEVEL_RULE = ("assembled stiffness, lumped mass and load against an independent dense assembler (Lagrange basis on Gauss-Lobatto nodes, own quadrature) on random uniform and non-uniform, Dirichlet and periodic meshes, "
              "orders 1..4, velocities of either sign and zero, constant and spatially varying fields; plus invariants: constants, total mass, polynomial exactness, dissipation sign, "
              "frozen or prescribed boundary nodes, operator against right-hand side differences, mass over exponential integration; non-trivial = at least two elements")
MIN = {"reassembled": 60, "assembled": 120, "periodic": 40, "dirichlet": 50, "stabilised": 50, "field": 30, "zero_velocity": 8, "negative_velocity": 25, "constants": 60, "conserve": 30, "poly": 25,
       "dissipation": 25, "system": 50, "rate": 15, "evolve": 8, "forms": 20}
ASSUMPTIONS = ["collocation coordinates identify degrees of freedom"]
EPS = refs.EPS


def units(tier):
    reps = 1 if tier == "quick" else 6
    return [(f"{k}_{r}_{i}", {"k": k, "r": r}) for r in range(reps) for k, m in (("assemble", 3), ("system", 4), ("evolve", 1), ("forms", 1)) for i in range(m)]


def make_mesh(rng, periodic, uniform=None, ne=None):
    import skfem as fem
    if uniform is None:
        uniform = rng.random() < .4
    x0 = 0. if rng.random() < .5 else float(rng.uniform(-2, 2))
    if ne is None:
        ne = int(rng.integers(2, 13))
    if periodic:
        ne = max(ne, 3)
    if uniform and x0 == 0. and ne in (2, 4, 8) and rng.random() < .6:
        mesh = fem.MeshLine1().with_boundaries({'left': lambda x: np.isclose(x[0], 0.), 'right': lambda x: np.isclose(x[0], 1.)}).refined({2: 1, 4: 2, 8: 3}[ne])
        lo, hi = 0., 1.
    else:
        w = np.ones(ne) if uniform else rng.uniform(.2, 1., ne) if rng.random() < .6 else 10. ** rng.uniform(-1.7, 0, ne)
        pts = x0 + np.concatenate([[0.], np.cumsum(w)]) * float(10. ** rng.uniform(-1, 1)) / ne
        lo, hi = pts[0], pts[-1]
        e = (hi - lo) * 1e-9
        mesh = fem.MeshLine(pts).with_boundaries({'left': lambda x: np.abs(x[0] - lo) < e, 'right': lambda x: np.abs(x[0] - hi) < e})
        if ne <= 8 and rng.random() < .25:
            # locally refined: nodes and elements are not numbered from left to right
            for _ in range(int(rng.integers(1, 3))):
                mesh = mesh.refined(rng.choice(mesh.t.shape[1], size=max(1, mesh.t.shape[1] // 3), replace=False))
            uniform = False
    nodes = np.sort(np.asarray(mesh.p[0]))
    if periodic:
        mesh = fem.MeshLine1DG.periodic(mesh, mesh.boundaries['right'], mesh.boundaries['left'])
    return mesh, nodes, uniform


FIELDS = {
    "wave": lambda a, b: (lambda x: a + b * np.sin(2.1 * x)),
    "lin": lambda a, b: (lambda x: a + b * x),
    "step": lambda a, b: (lambda x: np.where(x > .3, a, -b)),
    "bump": lambda a, b: (lambda x: a * np.exp(-4 * (x - b) ** 2)),
}


def setup(rng, p=None, periodic=None, uniform=None, fields=True, vel=None, tau=None, ne=None):
    p = int(rng.integers(1, 5)) if p is None else p
    periodic = bool(rng.random() < .45) if periodic is None else periodic
    mesh, nodes, uni = make_mesh(rng, periodic, uniform, ne)
    nu = float(rng.choice([0., 1., 10. ** rng.uniform(-6, 0)]))
    if vel is None:
        vel = float(rng.choice([0., 1., -1., rng.uniform(-2, 2), rng.uniform(.05, 2.), 1e-8]))
    if tau is None:
        tau = float(rng.choice([0., 0., 1., rng.uniform(0, 1)]))
    par = {"nu": nu, "vel": vel, "tau": tau}
    fn, used = {}, {}
    kw = {}
    if fields and rng.random() < .45:
        which = [k for k in ("vel", "nu", "tau") if rng.random() < (.8 if k == "vel" else .3)]
        if rng.random() < .3:
            kw = {"shift": float(rng.uniform(-.5, .5))}
        for k in which:
            form = str(rng.choice(list(FIELDS)))
            a, b = rng.uniform(-1, 1, 2)
            if k in ("nu", "tau"):
                a, b = abs(a), abs(b) * .1
                if form in ("step", "lin", "wave"):
                    form = "bump"
            g = FIELDS[form](a, b)
            base = par[k]

            def f(x, nu, vel, tau, shift=0., g=g, k=k):
                return g(x) + {"nu": nu, "vel": vel, "tau": tau}[k] + shift * (k == "vel")
            fn[k] = f
            used[k] = (lambda x, g=g, base=base, k=k: g(x) + base + kw.get("shift", 0.) * (k == "vel"))
    desc = f"p={p} {'periodic' if periodic else 'dirichlet'} {len(nodes) - 1} elements{' uniform' if uni else ''} nu={nu:.3g} vel={vel:.3g} tau={tau:.3g} fields={sorted(fn)}{' shift' if kw else ''}"
    return dict(p=p, periodic=periodic, mesh=mesh, nodes=nodes, uniform=uni, par=par, fn=fn, val=used, kw=kw, desc=desc)


def reference(S, x):
    """dense reference on the degrees of freedom with coordinates x (the library's numbering)"""
    p, nodes, par = S["p"], S["nodes"], S["par"]
    L = nodes[-1] - nodes[0]
    n = len(x)

    def dof(c):
        d = np.abs(x - c)
        if S["periodic"]:
            d = np.minimum(d, np.abs(d - L))
        j = int(np.argmin(d))
        if d[j] > 1e-9 * L:
            raise LookupError(f"no degree of freedom at {c}")
        return j
    val = {k: (S["val"][k](x) if k in S["val"] else np.full(n, par[k])) for k in ("nu", "vel", "tau")}
    r, w = gll(p)
    _, D = lag(r, r)                                   # D[i, q] = phi_i'(r_q)
    A, K, Ml, Mraw = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n), np.zeros((n, n))
    N = np.zeros((n, n))                               # non-conservative advection + diffusion
    C = np.zeros((n, n))                               # conservative without stabilisation or boundary
    for e in range(len(nodes) - 1):
        a, h = nodes[e], nodes[e + 1] - nodes[e]
        g = [dof(a + h * s) for s in r]
        nu, v, tau = (val[k][g] for k in ("nu", "vel", "tau"))
        d = D / h
        W = w * h
        diff = np.einsum("q,iq,jq->ij", W * nu, d, d)
        adv = -(W * v)[None, :] * d                    # phi_j at node q is delta
        st = np.einsum("q,iq,jq->ij", W * tau * h / 2 * np.abs(v), d, d)
        for i, gi in enumerate(g):
            Ml[gi] += W[i] + float((W * tau * h / 2 * np.sign(v) * d[i]).sum())
            for j, gj in enumerate(g):
                A[gi, gj] += diff[i, j] + adv[i, j] + st[i, j]
                K[gi, gj] += st[i, j]
                C[gi, gj] += diff[i, j] + adv[i, j]
                N[gi, gj] += diff[i, j] + W[i] * v[i] * d[j, i]
            Mraw[gi, gi] += W[i]
    R = np.zeros((n, n))
    left = None
    if not S["periodic"]:
        left, right = dof(nodes[0]), dof(nodes[-1])
        R[left, left], R[right, right] = -val["vel"][left], val["vel"][right]
        A = A + R
    mraw = Ml.copy()
    Af = A.copy()
    if left is not None:
        Af[left] = 0.
        Af[left, left] = 1.
        Ml = Ml.copy()
        Ml[left] = 1.
    return dict(A=Af, Ml=Ml, K=K, left=left, mraw=mraw, M=Mraw, N=N, C=C, R=R, val=val, right=None if left is None else right)


def label(ctx, S):
    ctx.case((S["desc"],), nontrivial=len(S["nodes"]) > 2, desc=S["desc"])
    ctx.count("periodic" if S["periodic"] else "dirichlet")
    if S["par"]["tau"] or "tau" in S["fn"]:
        ctx.count("stabilised")
    if S["fn"]:
        ctx.count("field")
    if "vel" not in S["fn"]:
        v = S["par"]["vel"]
        ctx.count("zero_velocity" if v == 0 else "negative_velocity" if v < 0 else "positive_velocity")


def same(ctx, got, want, mech, what, scale, tol=1e-12):
    got = np.asarray(got)
    if not ctx.ok(got.shape == want.shape, mech + "_shape", f"{what}: shape {got.shape} instead of {want.shape}"):
        return False
    err = float(np.abs(got - want).max()) if want.size else 0.
    b = tol * (scale + 1e-300)
    ctx.track(mech, err / b)
    return ctx.ok(bool(np.isfinite(got).all()) and err <= b, mech, f"{what}: error {err:.3e} exceeds {b:.3e}")


def sem_of(ctx, S):
    from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM
    sem = AdDiffSEM(S["mesh"], p=S["p"], params=S["par"], field_fns=S["fn"])
    x = np.asarray(sem.collocation_points())
    n = (len(S["nodes"]) - 1) * S["p"] + (0 if S["periodic"] else 1)
    if not ctx.ok(x.shape == (n,), "dof_count", f"{x.shape} collocation points instead of {n}"):
        return None, x
    return sem, x


def run(ctx, name, params):
    import jax.numpy as jnp
    import jax
    import ormatex_py.progression.advection_diffusion_1d as ad
    k = params["k"]
    rng = ctx.rng
    if k == "assemble":
        rep = 0
        while rep < ctx.n(50, 250) and ctx.more():
            rep += 1
            S = setup(rng)
            label(ctx, S)
            sem, x = sem_of(ctx, S)
            if sem is None:
                return
            A, Ml, b = sem.assemble(**S["kw"])
            A, Ml, b = np.asarray(A.todense()), np.asarray(Ml), np.asarray(b)
            R = reference(S, x)
            ctx.count("assembled")
            sc = np.abs(R["A"]).max()
            same(ctx, A, R["A"], "stiffness", "assembled operator", sc)
            same(ctx, Ml, R["Ml"], "mass", "lumped mass", np.abs(R["Ml"]).max())
            ctx.ok(np.array_equal(b, np.zeros(len(x))), "load", f"load vector {b[:4]} without sources")
            if S["fn"]:
                # the same assembler with another value of the field functions' argument, and with the first one again
                first = S["kw"].get("shift")
                for val in (float(rng.uniform(-.5, .5)), first):
                    S["kw"].clear()
                    if val is not None:
                        S["kw"]["shift"] = val
                    ctx.count("reassembled")
                    A2, Ml2, _ = sem.assemble(**S["kw"])
                    R2 = reference(S, x)
                    same(ctx, np.asarray(A2.todense()), R2["A"], "reassembled", f"operator assembled again with shift {val} (first {first})", np.abs(R2["A"]).max())
                    same(ctx, np.asarray(Ml2), R2["Ml"], "reassembled_mass", f"mass assembled again with shift {val} (first {first})", np.abs(R2["Ml"]).max())
            L = S["nodes"][-1] - S["nodes"][0]
            keep = np.ones(len(x), bool)
            if not S["periodic"]:
                keep[R["left"]] = False
            want = L - (0. if S["periodic"] else R["mraw"][R["left"]])
            ctx.ok(abs(Ml[keep].sum() - want) <= 1e-11 * L, "mass_sum", f"lumped mass adds up to {Ml[keep].sum()} instead of {want}")
            stab = bool(np.any(R["val"]["tau"] != 0.))
            if not stab or (S["uniform"] and "vel" not in S["fn"] and "tau" not in S["fn"] and (S["periodic"] or S["par"]["vel"] >= 0) and S["par"]["tau"] <= 1):
                ctx.count("positive")
                ctx.ok(bool(np.all(Ml > 0)), "mass_positive", f"lumped mass {Ml.min()}")
            if "vel" not in S["fn"]:
                ctx.count("constants")
                s = A[keep].sum(axis=1)
                ctx.ok(np.abs(s).max() <= 1e-11 * sc, "constants", f"operator on constants: {np.abs(s).max():.2e}")
            if S["periodic"]:
                ctx.count("conserve")
                s = A.sum(axis=0)
                ctx.ok(np.abs(s).max() <= 1e-11 * sc, "column_sums", f"total mass changes at rate {np.abs(s).max():.2e}")
            if stab:
                par0 = dict(S["par"], tau=0.)
                fn0 = {q: f for q, f in S["fn"].items() if q != "tau"}
                A0 = np.asarray(ad.AdDiffSEM(S["mesh"], p=S["p"], params=par0, field_fns=fn0).assemble(**S["kw"])[0].todense())
                D = (A - A0)[np.ix_(keep, keep)]
                ctx.count("dissipation")
                ctx.ok(np.abs(D - D.T).max() <= 1e-11 * sc, "stab_symmetry", "stabilisation is not symmetric")
                ev = np.linalg.eigvalsh((D + D.T) / 2)
                ctx.ok(ev.min() >= -1e-11 * sc, "dissipation", f"stabilisation adds energy: smallest eigenvalue {ev.min():.3e}")
        return
    if k == "system":
        rep = 0
        while rep < ctx.n(20, 120) and ctx.more():
            rep += 1
            poly = rng.random() < .6
            S = setup(rng, fields=not poly, tau=0. if poly else None)
            label(ctx, S)
            sem, x = sem_of(ctx, S)
            if sem is None:
                return
            nonaut = bool(rng.random() < .4)
            sysm = ad.NonautonomousSEM(sem, **S["kw"]) if nonaut else (sem.ode_sys(**S["kw"]) if rng.random() < .5 else ad.AffineLinearSEM(sem, **S["kw"]))
            R = reference(S, x)
            n = len(x)
            if np.abs(R["Ml"]).min() < 1e-3 * np.abs(R["Ml"]).max():
                ctx.count("singular_mass")       # stabilised mass degenerates at an outflow Dirichlet mesh: no dynamics to judge
                continue
            G = -R["A"] / R["Ml"][:, None]
            t = float(rng.uniform(-2, 4))
            u = rng.standard_normal(n)
            rate = 0.
            if nonaut:
                d = (.3 + .5 * t) % 1.
                s = min(d, 1 - d)
                ds = .5 if d <= .5 else -.5
                rate = float(np.exp(-(s / .1) ** 2) * (-2 * s / .01) * ds)
                ctx.count("rate")
                ctx.ok(abs(float(sysm.dirichlet_dt(t)) - rate) <= 1e-9 + 1e-10 * abs(rate), "boundary_rate", f"t={t}: {float(sysm.dirichlet_dt(t))} instead of {rate}")
            want = G @ u
            sc = np.abs(G).max() * 4
            if R["left"] is not None:
                want[R["left"]] = rate
            f = np.asarray(sysm.frhs(t, jnp.asarray(u)))
            ctx.count("system")
            same(ctx, f, want, "frhs", "right-hand side", max(sc, abs(rate)))
            if R["left"] is not None:
                ctx.ok(abs(f[R["left"]] - rate) <= (0. if not nonaut else 1e-9 + 1e-10 * abs(rate)), "dirichlet_rate", f"Dirichlet node moves at {f[R['left']]} instead of {rate}")
            v = rng.standard_normal(n)
            if R["left"] is not None:
                v[R["left"]] = 0.
            fl = sysm.fl(t, jnp.asarray(u))
            w1 = np.asarray(fl.matvec(jnp.asarray(v))).ravel()
            f2 = np.asarray(sysm.frhs(t, jnp.asarray(u + v)))
            jv = np.asarray(sysm.fjac(t, jnp.asarray(u)).matvec(jnp.asarray(v))).ravel()
            same(ctx, w1, G @ v * np.where(np.arange(n) == (-1 if R["left"] is None else R["left"]), 0., 1.), "fl", "linear operator on vectors vanishing at the boundary", sc)
            ctx.ok(np.abs(w1 - (f2 - f)).max() <= 1e-11 * sc, "fl_difference", f"operator differs from right-hand side differences by {np.abs(w1 - (f2 - f)).max():.2e}")
            ctx.ok(np.abs(w1 - jv).max() <= 1e-11 * sc, "fl_jacobian", f"operator differs from the Jacobian by {np.abs(w1 - jv).max():.2e}")
            m = np.asarray(sysm.fm(t, jnp.asarray(u)).matvec(jnp.asarray(v))).ravel()
            same(ctx, m, R["Ml"] * v, "fm", "mass operator", np.abs(R["Ml"]).max())
            if poly:
                ctx.count("poly")
                c = np.polynomial.Polynomial(rng.standard_normal(S["p"] + 1), domain=[S["nodes"][0], S["nodes"][-1]], window=[-1, 1])
                nu, vel = S["par"]["nu"], S["par"]["vel"]
                lo, hi = S["nodes"][0], S["nodes"][-1]
                e = 1e-9 * (hi - lo)
                inner = (x > lo + e) & (x < hi - e)
                if nu == 0 and not S["periodic"]:
                    inner |= x >= hi - e
                got = np.asarray(sysm.frhs(t, jnp.asarray(c(x))))
                if S["periodic"]:      # neighbours of the wrap see the jump: only elements away from it
                    inner = (x > S["nodes"][1] + e) & (x < S["nodes"][-2] - e)
                ex = -vel * c.deriv()(x) + nu * c.deriv(2)(x)
                if inner.any():
                    ctx.ok(np.abs(got - ex)[inner].max() <= 1e-11 * sc * 4, "polynomial", f"derivative of a polynomial of degree {S['p']} is off by {np.abs(got - ex)[inner].max():.2e}")
            for _ in range(3):
                a, b = rng.uniform(-3, 3, 2)
                want = min((a - b) % 1., (b - a) % 1.)
                ctx.ok(abs(float(ad.torus_distance(a, b)) - want) <= 1e-12, "torus_distance", f"torus_distance({a}, {b}) = {float(ad.torus_distance(a, b))} instead of {want}")
        return
    if k == "forms":
        import skfem as fem
        try:
            ad.AdDiffSEM(make_mesh(rng, False)[0], field_fns={"vel": 3.})
            ctx.case(("bad_field",), desc="field that is not callable")
            ctx.ok(False, "bad_field", "a field that is not callable was accepted")
        except AssertionError:
            pass
        rep = 0
        while rep < ctx.n(24, 120) and ctx.more():
            rep += 1
            S = setup(rng)
            label(ctx, S)
            ctx.count("forms")
            sem, x = sem_of(ctx, S)
            if sem is None:
                return
            R = reference(S, x)
            w = sem.w_ext(sem.basis, **S["kw"])
            sc = max(np.abs(R["C"]).max(), np.abs(R["N"]).max(), 1e-3)
            same(ctx, np.asarray(ad.adv_diff.assemble(sem.basis, **w).todense()), R["N"], "adv_diff", "non-conservative form", sc)
            same(ctx, np.asarray(ad.adv_diff_cons.assemble(sem.basis, **w).todense()), R["C"], "adv_diff_cons", "conservative form", sc)
            same(ctx, np.asarray(ad.adv_diff_cons_supg.assemble(sem.basis, **w).todense()), R["C"] + R["K"], "adv_diff_supg", "stabilised form", sc)
            same(ctx, np.asarray(ad.mass.assemble(sem.basis, **w).todense()), R["M"], "mass_form", "mass", np.abs(R["M"]).max())
            ms = np.asarray(ad.mass_supg.assemble(sem.basis, **w).todense())
            same(ctx, ms.sum(axis=1), R["mraw"], "mass_supg", "stabilised mass row sums", np.abs(R["mraw"]).max())
            ctx.ok(not np.asarray(ad.rhs.assemble(sem.basis, **w)).any() and not np.asarray(ad.rhs_supg.assemble(sem.basis, **w)).any(), "rhs_form", "source form is not zero")
            if not S["periodic"]:
                rb = np.asarray(ad.robin.assemble(sem.basis_f, **sem.w_ext(sem.basis_f, **S["kw"])).todense())
                same(ctx, rb, R["R"], "robin", "outflow form", max(np.abs(R["R"]).max(), 1e-3))
        return
    from ormatex_py import integrate_wrapper
    from scipy.linalg import expm
    todo = ["epi2", "exprb2", "epi3", "exprb3", "exp2_dense", "epi2", "exprb2_dense", "exp3_dense", "pexprb4", "rk4"]
    for rep in range(ctx.n(12, 80)):
        if not ctx.more():
            break
        m = todo[rep % len(todo)]
        per = rep % 2 == 0
        S = setup(rng, p=int(rng.integers(1, 4)), periodic=per, fields=False, vel=float(rng.uniform(.2, 1.5)), ne=int(rng.integers(3, 6)))
        if not S["uniform"]:
            S["par"]["tau"] = 0.
        S["par"]["nu"] *= .01
        S["desc"] += " " + m
        label(ctx, S)
        sem, x = sem_of(ctx, S)
        if sem is None:
            return
        sysm = sem.ode_sys()
        R = reference(S, x)
        G = -R["A"] / R["Ml"][:, None]
        if R["left"] is not None:
            G[R["left"]] = 0.
        u0 = rng.standard_normal(len(x))
        T = .4 / max(np.abs(G).sum(axis=1).max(), 1e-6) * 4
        ns = 2 if m != "rk4" else 200
        try:
            res = integrate_wrapper.integrate(sysm, jnp.asarray(u0), 0., T / ns, ns, m, max_krylov_dim=len(x) + 6, iom=len(x) + 6)
        except (NotImplementedError, KeyError):
            continue
        y = np.asarray(res.y_res[-1]).ravel()
        want = expm(T * G) @ u0
        ctx.count("evolve")
        amp = max(np.abs(u0).max(), np.abs(want).max())
        ctx.ok(np.abs(y - want).max() <= 3e-6 * amp * max(1., np.linalg.norm(expm(T * G), np.inf)), "evolve", f"{m}: solution off by {np.abs(y - want).max():.2e}")
        if per:
            ctx.ok(abs(R["Ml"] @ y - R["Ml"] @ u0) <= 1e-6 * R["Ml"].sum() * amp, "mass_evolution", f"{m}: total mass {R['Ml'] @ y} from {R['Ml'] @ u0}")
        else:
            ctx.ok(abs(y[R["left"]] - u0[R["left"]]) <= 1e-9 * amp, "boundary_evolution", f"{m}: boundary value {y[R['left']]} from {u0[R['left']]}")
