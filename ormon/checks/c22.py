"""C22 coupled reaction-transport systems and source models."""
import numpy as np
from ormon import refs
from ormon.checks import c21

LEVEL_RULE = ("2-, 3- and 9-species systems on random meshes, orders, velocities, periodic and Dirichlet, random states (zero, tiny, large, negative entries): right-hand side against a per-species, per-node evaluation "
              "using an independent transport assembler and exactly accumulated decay libraries; source models against their formulas on random non-negative parameters; phase transfer inventory and direction; "
              "Jacobians against right-hand side differences; spatially uniform runs against the decay system alone; non-trivial = at least two species and two nodes")
MIN = {"rhs": 60, "frozen": 20, "inventory": 40, "fl": 60, "jacobian": 25, "source": 200, "direction": 60, "bateman": 30, "stack": 40, "uniform": 4, "zero_gas": 10}
ASSUMPTIONS = ["the rate constants and libraries written in the example modules are their specification"]
EPS = refs.EPS
RG = 8.3145
MODS = {"2s": "rad_1d_2s", "3s": "rad_1d_3s", "9s": "rad_1d_9s"}


def units(tier):
    reps = 1 if tier == "quick" else 6
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("2s", "3s", "9s", "source", "bateman", "uniform")]


def lib_matrix(keys, lib):
    n = len(keys)
    B = np.zeros((n, n))
    for i, k in enumerate(keys):
        br = lib[k]
        br = [br] if isinstance(br[0], str) else list(br)
        for c, r in br:
            B[i, i] -= r
            if c != "none":
                B[keys.index(c), i] += r
    return B


def lib_diag(keys, lib):
    """transmutation libraries used by the examples have only ('none', value) entries: value on the diagonal"""
    D = np.zeros(len(keys))
    for i, k in enumerate(keys):
        assert lib[k][0] == "none"
        D[i] = lib[k][1]
    return D


def nonlin(u_a, u_g, k=1e-2, k_g=1., k_a=1., k_s=1e-12):
    return k * (np.maximum(u_g, 1e-16) ** (2 / 3) + k_s) * (k_g * u_g - k_a * u_a)


def area(u_g, cvol, alpha_g=.01, nb=10., a_k=.1, T=900., P=101.3e3):
    gas = cvol * u_g * RG * T / (P * 1e-6)
    per = (cvol * alpha_g + a_k * gas) / nb
    return nb * 4 * np.pi * (.75 * per / np.pi) ** (2 / 3)


def bubble(u_a, u_g, cvol, alpha_g=.01, k=1e-2, h=1e-4, nb=10., T=900.):
    return k * area(u_g, cvol, alpha_g, nb, T=T) * (u_g / alpha_g * h * RG * T - u_a / (1 - alpha_g))


def state(rng, n):
    w = rng.integers(5)
    if w == 0:
        return 10. ** rng.uniform(-16, 0, n)
    if w == 1:
        return rng.uniform(0, 2, n)
    if w == 2:
        return np.where(rng.random(n) < .4, 0., rng.uniform(0, 1e-3, n))
    if w == 3:
        return rng.standard_normal(n)
    return np.full(n, 1e-16)


def close(ctx, got, want, scale, mech, what, tol=1e-12):
    got = np.asarray(got, float)
    if not ctx.ok(got.shape == want.shape, mech + "_shape", f"{what}: shape {got.shape} instead of {want.shape}"):
        return
    err = np.abs(got - want)
    bound = tol * scale + 1e-300
    ctx.track(mech, float((err / bound).max()) if err.size else 0.)
    ctx.ok(bool(np.all(np.isfinite(got))) and bool(np.all(err <= bound)), mech, f"{what}: error {err.max():.3e} exceeds {np.max(bound):.3e}")


def local_terms(kind, mod, un, x):
    """local sources (n_nodes, n_species) and a magnitude for the rounding bound"""
    n, m = un.shape
    s = np.zeros((n, m))
    mag = np.zeros((n, m))

    def add(j, v, w=None):
        s[:, j] += v
        mag[:, j] += np.abs(v) if w is None else w
    if kind == "2s":
        t = nonlin(un[:, 0], un[:, 1], 2.)
        w = 2. * (np.maximum(un[:, 1], 1e-16) ** (2 / 3) + 1e-12) * (np.abs(un[:, 0]) + np.abs(un[:, 1]))
        add(0, t, w), add(1, -t, w)
    if kind == "9s":
        inside = (x >= 0.) & (x <= 1.)
        phi = np.where(inside, np.cos(np.pi * (x - .5)), 0.)
        fis, tra = lib_diag(mod.keymap, mod.fission_lib), lib_diag(mod.keymap, mod.transmute_lib)
        for j in range(m):
            add(j, phi * fis[j])
            add(j, phi * tra[j] * un[:, j])
        for a, g, k in ((5, 7, 10.e3), (6, 8, .9e3)):
            t = nonlin(un[:, a], un[:, g], k)
            w = k * (np.maximum(un[:, g], 1e-16) ** (2 / 3) + 1e-12) * (np.abs(un[:, a]) + np.abs(un[:, g]))
            add(a, t, w), add(g, -t, w)
        prof = np.tanh((x - 3.8) * 10.) * -np.tanh((x - 4.2) * 10.) / 2. + .5
        for g in (7, 8):
            add(g, -.4 * .4 * un[:, g] * prof)
    return s, mag


def libs(kind, mod):
    keys = ["u_0", "u_1"] if kind == "2s" else mod.keymap
    return lib_matrix(list(keys), mod.decay_lib)


def system(ctx, rng, mod, kind, periodic=None):
    S = c21.setup(rng, fields=False, periodic=periodic, p=int(rng.integers(1, 5)), ne=int(rng.integers(2, 8)))
    if not (S["uniform"] and S["par"]["vel"] >= 0 and S["par"]["tau"] < .95):
        S["par"]["tau"] = 0.
    if kind == "9s":        # a domain that covers the reactor and the purification region
        import skfem as fem
        lo, hi = 0., 5.
        ne = int(rng.integers(4, 10))
        w = np.ones(ne) if S["uniform"] else rng.uniform(.3, 1., ne)
        pts = np.concatenate([[0.], np.cumsum(w)]) * 5. / w.sum()
        pts[-1] = hi
        mesh = fem.MeshLine(pts).with_boundaries({'left': lambda x: np.isclose(x[0], 0.), 'right': lambda x: np.isclose(x[0], 5.)})
        S["nodes"] = pts
        if S["periodic"]:
            mesh = fem.MeshLine1DG.periodic(mesh, mesh.boundaries['right'], mesh.boundaries['left'])
        S["mesh"] = mesh
    S["desc"] = f"{kind} {S['desc']}"
    ctx.case((S["desc"],), desc=S["desc"])
    sem, x = c21.sem_of(ctx, S)
    if sem is None:
        return None
    return S, sem, x, c21.reference(S, x)


def run(ctx, name, params):
    import importlib
    import jax
    import jax.numpy as jnp
    k = params["k"]
    rng = ctx.rng
    if k in MODS:
        mod = importlib.import_module("ormatex_py.progression." + MODS[k])
        B = libs(k, mod)
        m = len(B)
        rep = 0
        while rep < ctx.n(22, 120) and ctx.more():
            rep += 1
            r = system(ctx, rng, mod, k)
            if r is None:
                return
            S, sem, x, R = r
            sysm = mod.RAD_SEM(sem)
            n = len(x)
            G = -R["A"] / R["Ml"][:, None]
            un = np.stack([state(rng, n) for _ in range(m)], axis=1)
            u = un.reshape(-1, order="F")
            ctx.count("stack")
            st = np.asarray(mod.stack_u(jnp.asarray(u), m))
            ctx.ok(np.array_equal(st, un), "stack", "stacking a flat state does not put one species in each column")
            ctx.ok(np.array_equal(np.asarray(mod.flatten_u(jnp.asarray(un))), u), "flatten", "flattening is not species by species")
            t = float(rng.uniform(-1, 3))
            s, mag = local_terms(k, mod, un, x)
            want = un @ B.T + s + G @ un
            scale = np.abs(un) @ np.abs(B).T + mag + np.abs(G) @ np.abs(un)
            scale = scale + scale.max(axis=0, keepdims=True) * 1e-3
            if R["left"] is not None:
                ctx.count("frozen")
                want[R["left"]] = 0.
            got = np.asarray(sysm.frhs(t, jnp.asarray(u)))
            ctx.count("rhs")
            if ctx.ok(got.shape == (n * m,), "rhs_shape", f"{got.shape}"):
                gn = got.reshape((n, m), order="F")
                for j in range(m):
                    close(ctx, gn[:, j], want[:, j], scale[:, j], "rhs", f"species {j}", tol=1e-11)
                if R["left"] is not None:
                    ctx.ok(not gn[R["left"]].any(), "frozen", f"Dirichlet node moves: {gn[R['left']]}")
                if S["periodic"]:
                    ctx.count("inventory")
                    tot = R["Ml"] @ un
                    rate = R["Ml"] @ gn
                    expect = B @ tot + R["Ml"] @ s
                    sc = (np.abs(R["Ml"]) @ scale)
                    ctx.ok(bool(np.all(np.abs(rate - expect) <= 1e-10 * sc + 1e-300)), "inventory", f"species totals change at {rate} instead of {expect}")
            L = np.asarray(sysm.fl(t, jnp.asarray(u)).dense())
            ctx.count("fl")
            want_l = np.kron(np.eye(m), G)
            if R["left"] is not None:        # the value on the frozen rows acts only on the boundary values
                pass
            close(ctx, L, want_l, np.abs(G).max(), "fl", "linear operator")
            if rep % 2 == 0:
                ctx.count("jacobian")
                v = rng.standard_normal(n * m)
                up = np.abs(u) + .1
                J = np.asarray(sysm.fjac(t, jnp.asarray(up)).matvec(jnp.asarray(v))).ravel()
                e = 1e-4
                D = (np.asarray(sysm.frhs(t, jnp.asarray(up + e * v))) - np.asarray(sysm.frhs(t, jnp.asarray(up - e * v)))) / (2 * e)
                ctx.ok(np.abs(J - D).max() <= 1e-5 * max(np.abs(J).max(), np.abs(D).max()) + 1e-9, "jacobian", f"Jacobian action off by {np.abs(J - D).max():.2e}")
        return
    if k == "source":
        import ormatex_py.progression.species_source_sink as src
        from ormatex_py import ode_utils
        rep = 0
        while rep < ctx.n(60, 400) and ctx.more():
            rep += 1
            n = int(rng.integers(1, 7))
            shape = () if rng.random() < .15 else (n,)

            def pos():
                w = rng.integers(4)
                z = 10. ** rng.uniform(-14, 0, shape) if w == 0 else rng.uniform(0, 3, shape) if w == 1 else np.zeros(shape) if w == 2 else np.where(rng.random(shape) < .5, 0., rng.uniform(0, 1, shape))
                return np.asarray(z)
            ua, ug = pos(), pos()
            K = float(10. ** rng.uniform(-4, 4))
            kg, ka, a = rng.uniform(0, 3, 3)
            if rng.random() < .2:
                kg = ka = 1.
            T = float(rng.uniform(300, 1500))
            alpha = float(rng.uniform(.001, .9))
            nb = float(rng.uniform(.1, 100))
            cvol = float(10. ** rng.uniform(-3, 3))
            h = float(10. ** rng.uniform(-6, -2))
            ctx.case(("source", rep), nontrivial=bool(np.any(ua) or np.any(ug)), desc=f"source u_a={ua} u_g={ug}"[:200])
            if not np.any(ug):
                ctx.count("zero_gas")
            J = jnp.asarray

            def same(got, want, mag, what):
                ctx.count("source")
                close(ctx, got, np.asarray(want, float), np.asarray(mag, float) + 0. * np.asarray(want, float), "source_" + what, what + f" at u_a={ua} u_g={ug}"[:120], tol=1e-13)
            full = rng.random() < .7
            kw = dict(k=K, k_g=kg, k_a=ka, a=a) if full else {}
            f = dict(dict(k=1e-2, k_g=1., k_a=1., a=1.), **kw)
            d = f["k_g"] * ug - f["k_a"] * ua
            dm = f["k_g"] * ug + f["k_a"] * ua
            got = src.mxf_liq_vapor_lin(J(ua), J(ug), **kw)
            same(got, f["k"] * f["a"] * d, f["k"] * f["a"] * dm, "linear")
            ctx.count("direction")
            clear = np.abs(d) > 1e-12 * dm
            ctx.ok(bool(np.all(np.where(clear & (f["k"] * f["a"] > 0), np.sign(np.asarray(got)) == np.sign(d), True))), "direction", "linear transfer against the imbalance")
            ks = float(10. ** rng.uniform(-13, -1))
            kw = dict(k=K, k_g=kg, k_a=ka, k_s=ks) if full else {}
            f = dict(dict(k=1e-2, k_g=1., k_a=1., k_s=1e-12), **kw)
            d = f["k_g"] * ug - f["k_a"] * ua
            dm = f["k_g"] * ug + f["k_a"] * ua
            clear = np.abs(d) > 1e-12 * dm
            got = src.mxf_liq_vapor_nonlin(J(ua), J(ug), **kw)
            sz = f["k"] * (np.maximum(ug, 1e-16) ** (2 / 3) + f["k_s"])
            same(got, nonlin(ua, ug, **f), sz * dm, "nonlinear")
            ctx.ok(bool(np.all(np.where(clear, np.sign(np.asarray(got)) == np.sign(d), True))), "direction", "nonlinear transfer against the imbalance")
            kw = dict(alpha_g=alpha, nb=nb, T=T) if full else {}
            ak, P = float(rng.uniform(0, 1)), float(rng.uniform(1e4, 1e6))
            kwa = dict(kw, a_k=ak, P=P) if full else {}
            same(src.bubble_surface_area(J(ug), cvol, **kwa), area(ug, cvol, **kwa), area(ug, cvol, **kwa) * 10, "area")
            kw = dict(kw, k=K, h=h) if full else {}
            f = dict(dict(alpha_g=.01, k=1e-2, h=1e-4, nb=10., T=900.), **kw)
            w = bubble(ua, ug, cvol, **f)
            mag = f["k"] * area(ug, cvol, f["alpha_g"], f["nb"], T=f["T"]) * (ug / f["alpha_g"] * f["h"] * RG * f["T"] + ua / (1 - f["alpha_g"]))
            got = src.mxf_liq_vapor_bubble_ig(J(ua), J(ug), cvol, **kw)
            same(got, w, mag * 10, "bubble")
            ctx.count("direction")
            clear = np.abs(w) > 1e-12 * mag
            ctx.ok(bool(np.all(np.where(clear, np.sign(np.asarray(got)) == np.sign(w), True))), "direction", "bubble transfer against the imbalance")
            asol = float(rng.uniform(.01, 1))
            kw = dict(k=K, a=a) if full else {}
            f = dict(dict(k=1e-4, a=1.), **kw)
            same(src.mxf_diffusion_sorption(J(ua), J(ug), asol, **kw), -f["k"] * f["a"] * (ua - ug / asol), f["k"] * f["a"] * (ua + ug / asol), "sorption")
            E, ap = float(rng.uniform(0, 2e5)), float(10. ** rng.uniform(-3, 8))
            kw = dict(m_a=float(rng.uniform(.5, 3)), m_b=float(rng.choice([1., 2., .5])), T=T) if full else {}
            f = dict(dict(m_a=1., m_b=1., T=900.), **kw)
            w = ua ** f["m_a"] * ug ** f["m_b"] * ap * np.exp(-E / (RG * f["T"]))
            same(src.mxf_arrhenius(J(ua), J(ug), E, ap, **kw), w, np.abs(w) * (100 + E / (RG * f["T"])), "arrhenius")
            N, q = int(rng.integers(1, 9)), int(rng.integers(1, 6))
            U = rng.standard_normal((N, q))
            ctx.count("stack")
            fl = np.asarray(ode_utils.flatten_u(J(U)))
            ctx.ok(np.array_equal(fl, U.T.ravel()), "flatten", "flattening is not species by species")
            ctx.ok(np.array_equal(np.asarray(ode_utils.stack_u(J(U.T.ravel()), q)), U), "stack", "stacking a flat state does not put one species in each column")
        ctx.case(("raoult",), desc="model that is not implemented")
        try:
            src.mxf_liq_vapor_raoults(J(1.), J(1.), J(1.), .1, 1.)
            ctx.ok(False, "raoult", "the model that is not implemented returned a value")
        except NotImplementedError:
            pass
        return
    if k == "bateman":
        import ormatex_py.progression.bateman_nonlin_sys as bn
        keys = list(bn.keymap)
        B = lib_matrix(keys, bn.decay_lib)
        tr, fi = lib_diag(keys, bn.transmute_lib), lib_diag(keys, bn.fission_lib)
        a, g = keys.index("xe_135_a"), keys.index("xe_135_v")
        rep = 0
        while rep < ctx.n(60, 300) and ctx.more():
            rep += 1
            vol = float(10. ** rng.uniform(-2, 4))
            phi = float(10. ** rng.uniform(0, 12))
            kw = {}
            if rng.random() < .7:
                kw["tank_vol"] = vol
            if rng.random() < .7:
                kw["n_phi"] = phi
            sysm = bn.NonlinearBateman(**kw)
            vol, phi = kw.get("tank_vol", 100.), kw.get("n_phi", 1e9)
            u = np.abs(state(rng, len(keys)))
            ctx.case(("bateman", rep), nontrivial=bool(u.any()), desc=f"nonlinear Bateman {kw}")
            ctx.count("bateman")
            s = bubble(u[a], u[g], vol, .05, k=1e-2)
            mag = 1e-2 * area(u[g], vol, .05) * (u[g] / .05 * 1e-4 * RG * 900. + u[a] / .95)
            want = B @ u + phi * tr * u + phi * fi
            scale = np.abs(B) @ u + phi * np.abs(tr) * u + phi * np.abs(fi)
            for i, sg in ((a, 1.), (g, -1.)):
                want[i] += sg * s
                scale[i] += mag
            got = np.asarray(sysm.frhs(float(rng.uniform(-5, 5)), jnp.asarray(u)))
            close(ctx, got, want, scale * 10 + 1e-30, "bateman", "right-hand side", tol=1e-13)
            T = np.asarray(bn.srcf_xe_av(jnp.asarray(u), a, g, tank_vol=vol))
            ctx.count("inventory")
            ctx.ok(T[a] == -T[g] and not np.delete(T, [a, g]).any(), "transfer_inventory", f"phase transfer changes the inventory: {T}")
            ctx.ok(abs(T[a] - s) <= 1e-12 * mag + 1e-300, "transfer", f"phase transfer {T[a]} instead of {s}")
            close(ctx, np.asarray(sysm.fl(0., jnp.asarray(u)).dense()), B, np.abs(B), "bateman_fl", "linear operator", tol=1e-14)
            al = float(rng.uniform(.01, .9))
            T = np.asarray(bn.srcf_xe_av(jnp.asarray(u), 2, 0, al, vol))
            ctx.ok(abs(T[2] - bubble(u[2], u[0], vol, al)) <= 1e-12 * (1e-2 * area(u[0], vol, al) * (u[0] / al * 1e-4 * RG * 900. + u[2] / (1 - al))) + 1e-300 and T[0] == -T[2], "transfer_index", f"phase transfer between other species: {T}")
            if rep % 4 == 0:
                ctx.count("jacobian")
                up = u + .1
                v = rng.standard_normal(len(keys))
                Jv = np.asarray(sysm.fjac(0., jnp.asarray(up)).matvec(jnp.asarray(v))).ravel()
                e = 1e-4
                D = (np.asarray(sysm.frhs(0., jnp.asarray(up + e * v))) - np.asarray(sysm.frhs(0., jnp.asarray(up - e * v)))) / (2 * e)
                ctx.ok(np.abs(Jv - D).max() <= 1e-5 * max(np.abs(Jv).max(), np.abs(D).max()) + 1e-9 * phi * np.abs(fi).max() + 1e-9, "jacobian", f"Jacobian action off by {np.abs(Jv - D).max():.2e}")
        return
    # spatially uniform states on periodic meshes follow the decay system alone
    from ormatex_py import integrate_wrapper
    from scipy.linalg import expm
    mod = importlib.import_module("ormatex_py.progression.rad_1d_3s")
    B = libs("3s", mod)
    for rep, meth in enumerate(["epi3", "exprb2", "epi2", "exprb3", "pexprb4", "exprb2", "epi3"][:ctx.n(5, 7)]):
        r = system(ctx, rng, mod, "3s", periodic=True)
        if r is None:
            return
        S, sem, x, R = r
        sysm = mod.RAD_SEM(sem)
        c = rng.uniform(0, 1, 3)
        n = len(x)
        u0 = np.repeat(c, n)
        G = np.abs(R["A"] / R["Ml"][:, None]).sum(axis=1).max()
        T = min(.05, 2. / max(G, 1.))
        res = integrate_wrapper.integrate(sysm, jnp.asarray(u0), 0., T / 4, 4, meth, max_krylov_dim=12, iom=12)
        for i, y in enumerate(res.y_res):
            want = np.repeat(expm(B * T / 4 * i) @ c, n)
            y = np.asarray(y).ravel()
            ctx.ok(np.abs(y - want).max() <= 1e-6, "uniform", f"{meth} step {i}: uniform state off by {np.abs(y - want).max():.2e}")
        ctx.count("uniform")
