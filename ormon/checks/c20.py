"""C20 Gauss-Lobatto quadrature and the nodal spectral element on the line."""
import numpy as np
from ormon import refs

LEVEL_RULE = ("quadrature tables against nodes and weights computed independently (roots of the Legendre derivative) and against exact polynomial integrals; basis values and derivatives against products of differences; "
              "random histories of evaluations (equal and different counts, vectors and per-element arrays, arrays changed in place between calls) on the same element object; "
              "interpolation, traces and integrals of polynomials through the finite element basis; non-trivial = at least one point that is not a node")
MIN = {"near_repeat": 40, "rule": 12, "integral": 100, "basis": 300, "same_count": 80, "inplace": 20, "nodes": 100, "fem": 20, "unsupported": 4}
ASSUMPTIONS = ["skfem maps reference points and numbers degrees of freedom as documented"]
EPS = refs.EPS
PS = (1, 2, 3, 4)


def units(tier):
    reps = 1 if tier == "quick" else 6
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("quad", "history", "fem")]


def gll(p):
    """nodes (left, right, interior ascending) and weights on [0,1], independent of the library's tables"""
    from numpy.polynomial import legendre as L
    c = np.zeros(p + 1)
    c[p] = 1.
    d = L.legder(c)
    x = np.sort(np.real(L.legroots(d))) if p > 1 else np.zeros(0)
    for _ in range(3):                                # polish
        if p > 1:
            x = x - L.legval(x, d) / L.legval(x, L.legder(d))
    x = np.concatenate([[-1.], [1.], x])
    w = 2. / (p * (p + 1) * L.legval(x, c) ** 2)
    return (x + 1) / 2, w / 2


def lag(nodes, x):
    """values and derivatives of the Lagrange basis at x by plain products"""
    x = np.asarray(x, float)
    n = len(nodes)
    V = np.ones((n,) + x.shape)
    D = np.zeros((n,) + x.shape)
    for i in range(n):
        den = np.prod([nodes[i] - nodes[j] for j in range(n) if j != i])
        for j in range(n):
            if j != i:
                V[i] = V[i] * (x - nodes[j])
        for k in range(n):
            if k != i:
                t = np.ones(x.shape)
                for j in range(n):
                    if j not in (i, k):
                        t = t * (x - nodes[j])
                D[i] += t
        V[i] /= den
        D[i] /= den
    return V, D


def points(rng, nodes, shape):
    k = rng.integers(6)
    n = int(np.prod(shape))
    if k == 0:
        x = rng.uniform(0, 1, n)
    elif k == 1:
        x = rng.uniform(-.3, 1.3, n)
    elif k == 2:
        x = rng.choice(nodes, n)
    elif k == 3:
        x = np.where(rng.random(n) < .5, rng.choice(nodes, n), rng.uniform(0, 1, n))
    elif k == 4:
        x = rng.choice(nodes, n) + rng.choice([-1, 1], n) * 10. ** rng.uniform(-7, -2, n)
    else:
        x = np.linspace(0, 1, n) if n > 1 else np.array([.37])
    return x.reshape(shape)


def run(ctx, name, params):
    import ormatex_py.progression.element_line_pp_nodal as el
    k = params["k"]
    rng = ctx.rng
    if k == "quad":
        from fractions import Fraction as Fr
        for p in PS:
            for rep in range(3):
                Q = el.GLL_quad()
                X, W = Q(p + 1)
                X, W = np.asarray(X), np.asarray(W)
                ctx.case(("rule", p, rep), desc=f"rule {p + 1} points")
                ctx.count("rule")
                x, w = gll(p)
                if not ctx.ok(X.shape == (1, p + 1) and W.shape == (p + 1,), "table_shape", f"p={p}: {X.shape} {W.shape}"):
                    continue
                # the end points come first (vertex degrees of freedom); the interior order is the library's own
                ctx.ok(X[0, 0] == 0. and X[0, 1] == 1., "end_points", f"p={p}: {X}")
                perm = np.argsort(X[0, 2:])
                inv = np.empty(p - 1, int)
                inv[perm] = np.arange(p - 1)
                x, w = np.concatenate([x[:2], x[2:][inv]]), np.concatenate([w[:2], w[2:][inv]])
                ctx.close(X[0], x, 4 * EPS, "nodes", f"GLL nodes, p={p}")
                ctx.close(W, w, 4 * EPS, "weights", f"GLL weights, p={p}")
                for d in range(2 * p):
                    ctx.count("integral")
                    ctx.close(float((W * X[0] ** d).sum()), 1. / (d + 1), 20 * EPS, "monomial", f"p={p} integral of t^{d}", track="integral")
                for _ in range(8):
                    co = [int(c) for c in rng.integers(-9, 10, 2 * p)]
                    ref = float(sum(Fr(c, i + 1) for i, c in enumerate(co)))
                    got = float((W * sum(c * X[0] ** i for i, c in enumerate(co))).sum())
                    ctx.count("integral")
                    ctx.ok(abs(got - ref) <= 60 * EPS * sum(map(abs, co)) + 1e-300, "integral", f"p={p} coefficients {co}: {got} instead of {ref}")
        for bad in (0, -1, -3, 5):
            ctx.case(("bad", bad), desc=f"order {bad}")
            ctx.count("unsupported")
            try:
                el.ElementLinePp_nodal(bad)
                ctx.ok(False, "unsupported_order", f"order {bad} was accepted")
            except (ValueError, KeyError):
                ctx.ok(True, "unsupported_order", "")
        return
    if k == "history":
        rep = 0
        while rep < ctx.n(90, 400) and ctx.more():
            rep += 1
            p = int(rng.choice(PS))
            E = el.ElementLinePp_nodal(p)
            nodes, _ = gll(p)
            if not ctx.ok(np.asarray(E.doflocs).shape == (p + 1, 1) and np.allclose(np.sort(np.asarray(E.doflocs)[:, 0]), np.sort(nodes), atol=1e-14, rtol=0), "doflocs", f"p={p}: {E.doflocs}"):
                return
            nodes = np.array(E.doflocs[:, 0])
            n0 = int(rng.integers(1, 9))
            X = None
            last = None
            for step in range(int(rng.integers(3, 9))):
                how = rng.integers(8)
                if how >= 5 and X is not None:
                    # almost the same points: a finite-difference shift, one point changed, another order of the same points
                    Y = np.array(X)
                    if how == 5:
                        Y = np.clip(Y + 10. ** rng.uniform(-9, -4) * rng.choice([-1, 1]), 0., 1.)
                    elif how == 6:
                        Y.reshape(-1)[rng.integers(Y.size)] = rng.uniform(0, 1)
                    else:
                        Y = Y.reshape(-1)[rng.permutation(Y.size)].reshape(Y.shape)
                    shape = ()
                elif how <= 1 or X is None:
                    shape = (n0,)
                elif how == 2:
                    shape = (int(rng.integers(1, 9)),)
                elif how == 3:
                    shape = (n0, int(rng.integers(1, 5)))
                else:
                    shape = None                           # change the caller's array in place
                if shape == ():
                    X = Y
                    ctx.count("near_repeat")
                elif shape is None:
                    X[0] = points(rng, nodes, X.shape[1:])
                    ctx.count("inplace")
                else:
                    X = points(rng, nodes, shape)[None]
                ctx.case(("hist", p, X.shape[1:], last), nontrivial=True, desc=f"p={p} points {X.shape} after {last}")
                ctx.count("basis")
                if last is not None and last[0] == X.shape[1]:
                    ctx.count("same_count")
                last = X.shape[1:]
                V, D = lag(nodes, X[0])
                sumV = 0.
                sumD = 0.
                for i in rng.permutation(p + 1):
                    v, d = E.lbasis(X, int(i))
                    v, d = np.asarray(v), np.asarray(d)
                    if not ctx.ok(v.shape == X.shape[1:] and d.shape == X.shape, "basis_shape", f"p={p} points {X.shape}: {v.shape} {d.shape}"):
                        return
                    ctx.close(v, V[i], 1e-12, "basis_value", f"p={p} function {i} at {X.ravel()[:4]}", track="value")
                    ctx.ok(bool(np.all(np.abs(d[0] - D[i]) <= 2e-8 * (1 + np.abs(D[i]).max()))), "basis_derivative",
                           f"p={p} derivative {i} at {X.ravel()[:4]}: {d.ravel()[:4]} instead of {D[i].ravel()[:4]}")
                    sumV = sumV + v
                    sumD = sumD + d
                    at = np.isin(X[0], E.doflocs[:, 0])
                    if at.any():
                        ctx.count("nodes")
                        want = (X[0][at] == E.doflocs[i, 0]).astype(float)
                        ctx.ok(np.array_equal(v[at], want), "cardinal", f"p={p} function {i} at the nodes: {v[at][:4]} instead of {want[:4]}")
                ctx.close(sumV, np.ones(X.shape[1:]), 1e-12, "partition", f"p={p} sum of basis functions")
                ctx.ok(bool(np.all(np.abs(sumD) <= 1e-7)), "derivative_sum", f"p={p}: derivatives add up to {np.abs(sumD).max():.2e}")
        return
    import skfem as fem
    rep = 0
    while rep < ctx.n(40, 200) and ctx.more():
        rep += 1
        p = int(rng.choice(PS))
        ne = int(rng.integers(1, 8))
        pts = np.cumsum(np.concatenate([[rng.uniform(-1, 1)], rng.uniform(.1, 1., ne)]))
        mesh = fem.MeshLine(pts)
        E = el.ElementLinePp_nodal(p)
        Q = el.GLL_quad()(p + 1)
        ctx.case(("fem", p, ne, rep), desc=f"p={p} {ne} elements")
        ctx.count("fem")
        B = fem.Basis(mesh, E, quadrature=Q)
        order = ["vol", "facet", "probe", "vol2"]
        co = rng.standard_normal(p + 1)
        f = np.polynomial.Polynomial(co)
        df = f.deriv()
        x = np.asarray(B.doflocs[0])
        sc = np.abs(co).sum() * max(1., np.abs(pts).max()) ** p
        ctx.ok(len(x) == ne * p + 1, "dof_count", f"p={p} ne={ne}: {len(x)} degrees of freedom")
        u = f(x)
        for what in rng.permutation(order):
            if what in ("vol", "vol2"):
                BB = B if what == "vol" else fem.Basis(mesh, E, quadrature=el.GLL_quad()(int(rng.integers(2, 6))))
                ui = BB.interpolate(u)
                xq = np.asarray(BB.global_coordinates())[0]
                ctx.ok(np.abs(np.asarray(ui) - f(xq)).max() <= 1e-12 * sc, "interpolate", f"p={p} ne={ne} {what}")
                ctx.ok(np.abs(np.asarray(ui.grad[0]) - df(xq)).max() <= 1e-7 * sc * 10, "gradient", f"p={p} ne={ne} {what}")
                if what == "vol":
                    g = np.polynomial.Polynomial(rng.standard_normal(2 * p))
                    G = g.integ()
                    got = float((g(xq) * np.asarray(BB.dx)).sum())
                    ctx.ok(abs(got - (G(pts.max()) - G(pts.min()))) <= 1e-12 * np.abs(g.coef).sum() * 8 * max(1, np.abs(pts).max()) ** (2 * p), "mesh_integral", f"p={p} ne={ne}")
            elif what == "facet":
                FB = fem.FacetBasis(mesh, E)
                ui = np.asarray(FB.interpolate(u))
                xq = np.asarray(FB.global_coordinates())[0]
                ctx.ok(np.abs(ui - f(xq)).max() <= 1e-12 * sc, "trace", f"p={p} ne={ne}: boundary values {ui.ravel()} instead of {f(xq).ravel()}")
            else:
                n = int(rng.choice([p + 1, ne, rng.integers(1, 10)]))
                xs = rng.uniform(pts.min(), pts.max(), n)
                got = np.asarray(B.interpolator(u)(xs[None])).ravel()
                ctx.ok(np.abs(got - f(xs)).max() <= 1e-11 * sc, "probe", f"p={p} ne={ne}: {n} points")
