"""Systems with known derivatives and extended-precision one-step references for the time integrators.

Every reference value is a pair (value, error bound); the bounds model the documented accuracy of
the phi evaluators used by the method under test, so that a step is judged against the published
formula and nothing else."""
import json, os
import numpy as np
from ormon import refs, kref
from ormon.checks.c05 import phi_tol

LD = np.longdouble
EPS = refs.EPS
RB = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd"]
SPLIT = ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]
ORDER = {"exprb2": 2, "exprb3": 3, "pexprb4": 4, "epi2": 2, "epi3": 3, "exprb2_dense": 2, "exprb2_pfd": 2, "exp_pfd": 1,
         "exp1": 1, "exp2": 2, "exp3": 3, "exp1_dense": 1, "exp2_dense": 2, "exp3_dense": 3, "rk4": 4,
         "epi2_leja_re": 2, "epi2_leja_im": 2, "epi3_leja_im": 3}
FIELDS = ["A", "b", "c", "Q", "P", "s", "w", "ph", "T", "d", "L", "L1", "Lu"]
_cls = {}


def classes():
    """eqx system classes (created once, after jax is configured)"""
    if _cls:
        return _cls
    import jax.numpy as jnp, jax
    from ormatex_py import ode_sys

    class Sys(ode_sys.OdeSplitSys):
        A: object
        b: object
        c: object
        Q: object
        P: object
        s: object
        w: object
        ph: object
        T: object
        d: object
        L: object
        L1: object
        Lu: object

        def __init__(self, S):
            super().__init__()
            for k in FIELDS:
                setattr(self, k, jnp.asarray(S[k]))

        def _frhs(self, t, u, **kw):
            kw = kw.get("frhs_kwargs", kw) or {}
            g = kw.get("gain", 1.0)
            src = kw.get("src", 0.0)
            return g * (self.A @ u) + (self.Q @ u) * (self.P @ u) + self.s * jnp.sin(self.w * t + self.ph) + self.b \
                + self.c * t + t * (self.T @ u) + self.d * jnp.sin(u) + src

        def _fl(self, t, u, **kw):
            return ode_sys.MatrixLinOp(self.L + t * self.L1 + jnp.diag(self.Lu @ u))

        def _jac(self, t, u, kw):
            kw = kw.get("frhs_kwargs", kw) or {}
            return kw.get("gain", 1.0) * self.A + (self.P @ u)[:, None] * self.Q + (self.Q @ u)[:, None] * self.P \
                + t * self.T + jnp.diag(self.d * jnp.cos(u))

        def _ft(self, t, u):
            return self.s * self.w * jnp.cos(self.w * t + self.ph) + self.c + self.T @ u

    class SysCustom(Sys):
        def _fjac(self, t, u, **kw):
            return ode_sys.CustomJacLinOp(t, u, self.frhs, self._jac(t, u, kw), self._ft(t, u), frhs_kwargs=kw)

    class SysCustomFd(Sys):
        def _fjac(self, t, u, **kw):
            return ode_sys.CustomJacLinOp(t, u, self.frhs, self._jac(t, u, kw), frhs_kwargs=kw)

    class SysFd(Sys):
        def _fjac(self, t, u, **kw):
            return ode_sys.FdJacLinOp(t, u, self.frhs, frhs_kwargs=kw)

    _cls.update(ad=Sys, custom=SysCustom, customfd=SysCustomFd, fd=SysFd)
    return _cls


def make(S, jac="ad"):
    return classes()[jac](S)


def blank(n):
    S = {k: np.zeros(n) for k in ("b", "c", "s", "w", "ph", "d")}
    S.update({k: np.zeros((n, n)) for k in ("A", "Q", "P", "T", "L", "L1", "Lu")})
    return S


def random_system(rng, n, nonlin=1.0, nonauto=1.0, kinds=None, lo=-.3, hi=.5):
    from ormon import gen
    S = blank(n)
    S["A"] = gen.scaled(rng, str(rng.choice(kinds or ["randn", "stable", "stiff", "osc", "rates", "triu", "singular"])), n, lo, hi)[0]
    r = rng.standard_normal
    S["b"] = r(n)
    S["Q"], S["P"] = r((n, n)) * nonlin / n ** .5, r((n, n)) * nonlin / n ** .5
    S["d"] = nonlin * r(n)
    S["c"], S["s"], S["w"], S["ph"] = nonauto * r(n), nonauto * r(n), rng.uniform(.5, 3, n), rng.uniform(0, 6, n)
    S["T"] = .3 * nonauto * r((n, n)) / n ** .5
    S["L"] = S["A"] + .4 * r((n, n)) / n ** .5
    return S


class F:
    """extended-precision right-hand side"""

    def __init__(self, S, kw=None):
        self.S = {k: refs.ld(v) for k, v in S.items()}
        kw = kw or {}
        self.g, self.src = LD(kw.get("gain", 1.0)), refs.ld(kw.get("src", 0.0))

    def f(self, t, u):
        S, u, t = self.S, refs.ld(u), LD(t)
        return self.g * (S["A"] @ u) + (S["Q"] @ u) * (S["P"] @ u) + S["s"] * np.sin(S["w"] * t + S["ph"]) + S["b"] + S["c"] * t \
            + t * (S["T"] @ u) + S["d"] * np.sin(u) + self.src

    def fabs(self, t, u):
        """size of the summed terms (rounding scale, inf norm)"""
        S, u, t = {k: np.abs(v) for k, v in self.S.items()}, np.abs(refs.ld(u)), abs(LD(t))
        v = abs(self.g) * (S["A"] @ u) + 3 * (S["Q"] @ u) * (S["P"] @ u) + S["s"] * (1 + S["w"] * t + S["ph"]) + S["b"] + S["c"] * t + t * (S["T"] @ u) + S["d"] * (1 + u) + np.abs(self.src)
        return float(np.max(v))

    def jac(self, t, u):
        S, u, t = self.S, refs.ld(u), LD(t)
        return self.g * S["A"] + (S["P"] @ u)[:, None] * S["Q"] + (S["Q"] @ u)[:, None] * S["P"] + t * S["T"] + np.diag(S["d"] * np.cos(u))

    def ft(self, t, u):
        S, u, t = self.S, refs.ld(u), LD(t)
        return S["s"] * S["w"] * np.cos(S["w"] * t + S["ph"]) + S["c"] + S["T"] @ u

    def L(self, t, u):
        return self.S["L"] + LD(t) * self.S["L1"] + np.diag(self.S["Lu"] @ refs.ld(u))

    def curv(self):
        """bound of |f''| (inf norm)"""
        S = {k: np.abs(v) for k, v in self.S.items()}
        return float(2 * np.max(S["Q"].sum(1) * S["P"].sum(1)) + np.max(S["d"]))

    def ftt(self):
        return float(np.max(np.abs(self.S["s"] * self.S["w"] ** 2)))


def inf(v):
    v = np.asarray(v)
    return float(np.max(np.abs(v))) if v.size else 0.0


class Val:
    """value with an error bound (inf norm)"""
    __slots__ = ("v", "e")

    def __init__(self, v, e=0.0):
        self.v, self.e = v, float(e)

    def __add__(self, o):
        if not isinstance(o, Val):
            o = Val(o)
        v = self.v + o.v
        return Val(v, self.e + o.e + 4 * EPS * (inf(self.v) + inf(o.v)))

    def scale(self, c):
        return Val(LD(c) * self.v, abs(float(c)) * self.e + 4 * EPS * abs(float(c)) * inf(self.v))


def sqmat(Z, k):
    ph, e, N = refs.sq_bounds(Z, k)
    if max(e) > 1e-7:
        e = [min(a, b) for a, b in zip(e, refs.sq_err(Z, k)[1])]
    return ph, e, N


def kaction(A, h, b, k, m=100, iom=100):
    """Krylov phi_k(hA) b (b: Val) with evaluator error bound"""
    A = refs.ld(A)
    v = b.v
    nv = float(np.sqrt(np.sum(v * v)))
    n = len(v)
    X = refs.phis(A * LD(h), k)[k]
    if nv == 0:
        return Val(np.zeros(n, dtype=LD), refs.inorm(X) * b.e)
    na, G = refs.inorm(A) * abs(h), kref.growth(A * LD(h))
    Q, H, be = kref.ld_arnoldi(A, h, v, m, iom)
    d = H.shape[0]
    e = phi_tol(H.astype(float), k, nv)
    if e > 1e-7 * nv and k > 0:
        e1 = np.zeros((d, 1))
        e1[0] = 1
        e = min(e, refs.sq_err(refs.aug(H, e1, k), 0)[1][0] * np.sqrt(d) * nv)
    e += 200 * n * EPS * (1 + na) * G * G * nv
    if (d == n and iom >= d) or be[-1] <= 1e-12:
        return Val(X @ v, e + 1e-11 * G * nv * (d < n) + refs.inorm(X) * b.e)
    w = nv * (Q @ refs.phis(H, k)[k][:, 0])
    rng = np.random.default_rng(0)
    sens = 0.
    for _ in range(3):
        dv = (max(b.e, 1e-13 * nv)) * rng.standard_normal(n)
        v2 = v + dv
        Q2, H2, _b = kref.ld_arnoldi(A * (1 + 1e-13 * rng.standard_normal(A.shape)), h, v2, m, iom)
        sens = max(sens, inf(np.sqrt(np.sum(v2 * v2)) * (Q2 @ refs.phis(H2, k)[k][:, 0]) - w))
    return Val(w, e + 20 * sens)


def combo(A, h, bs, m=100, iom=100, tol=None):
    """sum_j phi_j(hA) b_j, j=0..p (list of Val or None); KIOPS error model, or tol*scale for Leja"""
    A = refs.ld(A)
    n = A.shape[0]
    p = len(bs) - 1
    hA = A * LD(h)
    ph = refs.phis(hA, p)
    bs = [Val(np.zeros(n, dtype=LD)) if b is None else b for b in bs]
    want = sum((ph[j] @ bs[j].v for j in range(p + 1)), np.zeros(n, dtype=LD))
    e_in = sum(refs.inorm(ph[j]) * bs[j].e for j in range(p + 1))
    big = max(float(np.sqrt(np.sum(b.v * b.v))) for b in bs)
    if big == 0:
        return Val(want, e_in)
    from ormon.checks.c06 import augmented
    G = kref.growth(hA) * (p + 1)
    T = augmented(A, h, [b.v / LD(big) for b in bs])
    nt = refs.inorm(T)
    if tol is not None:
        # Leja: error estimate relative to the augmented start vector (norm ~ 1), B not normalised
        return Val(want, e_in + tol * G * (1 + big) * 50)
    v = np.concatenate([bs[0].v / LD(big), refs.ld(np.eye(p)[-1])])
    nv = float(np.sqrt(np.sum(v * v)))
    Q, H, be = kref.ld_arnoldi(T, 1.0, v, m, iom)
    d = H.shape[0]
    e = (refs.expm_err_bound(np.asarray(H)) * np.sqrt(d) * nv + 200 * (n + p) * EPS * (1 + nt) * G * nv) * big
    if (d == n + p and iom >= d) or be[-1] <= 1e-12:
        return Val(want, e_in + e + 1e-11 * G * nv * big * (d < n + p))
    w = (nv * (Q @ refs.expm(H)[:, 0]))[:n] * LD(big)
    rng = np.random.default_rng(0)
    sens = 0.
    ein = max([b.e for b in bs])
    for _ in range(2):
        Tp = T * (1 + 1e-13 * rng.standard_normal(T.shape))
        Tp[:n] += ein / big * rng.standard_normal((n, n + p)) * (T[:n] != 0)
        Q2, H2, _b = kref.ld_arnoldi(Tp, 1.0, v, m, iom)
        sens = max(sens, inf((nv * (Q2 @ refs.expm(H2)[:, 0]))[:n] * big - w))
    return Val(w, e + 20 * sens)


_gold = {}


def pfd_tables():
    if not _gold:
        g = json.load(open(os.path.join(os.path.dirname(__file__), "data", "pfd_golden.json")))
        for t, x in g.items():
            _gold[t] = ([np.clongdouble(complex(*z)) for z in x["p"]], [np.clongdouble(complex(*z)) for z in x["c"]], x["c0"])
    return _gold


def pfd(A, h, b, k, table):
    from ormon.checks.c03 import rational
    ps, cs, c0 = pfd_tables()[table]
    w, rnd, sens = rational(np.asarray(refs.ld(A) * LD(h)), b[:, None], k, ps, cs, c0, True)
    return Val(w[:, 0], rnd + 3e-14 * sens)


class Stepper:
    """reference one-step formulas. hist: list of (t, y), newest first."""

    def __init__(self, S, kw=None, jac="ad", **opts):
        self.F = F(S, kw)
        self.jacvar = jac
        self.m = opts.get("max_krylov_dim", 100)
        self.iom = opts.get("iom", None)
        self.tol_fdt = opts.get("tol_fdt", 1e-8)
        self.table = opts.get("pfd_method", "cram_16")
        self.leja_tol = opts.get("leja_tol", 1e-15)

    def prep(self, t, y):
        F = self.F
        J, f = F.jac(t, y), F.f(t, y)
        fa = F.fabs(t, y)
        f = Val(f, 20 * EPS * fa)
        ft = F.ft(t, y)
        e = 20 * EPS * fa
        if self.jacvar == "customfd":
            eps = .5e-8
            e = (30 * EPS * fa + 4 * EPS * abs(t) * (inf(ft) + 1)) / eps + eps * (F.ftt() + 1)
        return J, f, Val(ft, e)

    def krylov(self, A, h, b, k):
        return kaction(A, h, b, k, self.m, self.iom if self.iom is not None else 100)

    def ksplit(self, A, h, b, k):
        return kaction(A, h, b, k, self.m, self.iom if self.iom is not None else 200)

    def comb(self, A, h, bs):
        return combo(A, h, bs, self.m, self.iom if self.iom is not None else 100)

    def rem(self, t, y, f, J, tr, yr, ft=None):
        """F(tr, yr) - F(t,y) - J (yr-y) - ft (tr-t); yr a Val"""
        F = self.F
        fr = F.f(tr, yr.v)
        dy = yr.v - refs.ld(y)
        Jr = F.jac(tr, yr.v)
        e = refs.inorm(Jr - J) * yr.e + F.curv() * yr.e ** 2 + f.e + 30 * EPS * (F.fabs(tr, yr.v) + refs.inorm(J) * inf(dy) + inf(f.v)) + 8 * EPS * (refs.inorm(J) + refs.inorm(Jr)) * inf(yr.v)
        v = fr - f.v - J @ dy
        if ft is not None:
            v = v - ft.v * (LD(tr) - LD(t))
            e += abs(tr - t) * ft.e + 10 * EPS * abs(tr - t) * inf(ft.v)
        # rounding of the stage time
        e += 4 * EPS * abs(tr) * inf(F.ft(tr, yr.v))
        return Val(v, e)

    def step(self, method, hist, h):
        t, y = hist[0]
        y = refs.ld(y)
        F = self.F
        Y = Val(y)
        if method == "rk4":
            t = LD(t)
            H = LD(h)
            Lp = refs.inorm(F.jac(t, y))
            k1 = F.f(t, y)
            k2 = F.f(t + H / 2, y + H / 2 * k1)
            k3 = F.f(t + H / 2, y + H / 2 * k2)
            k4 = F.f(t + H, y + H * k3)
            ys = [y, y + H / 2 * k1, y + H / 2 * k2, y + H * k3]
            Lm = max(refs.inorm(F.jac(t, z)) for z in ys)
            fa = max(F.fabs(t + H, z) for z in ys)
            amp = (1 + abs(h) * Lm) ** 3
            return Val(y + H / 6 * (k1 + 2 * k2 + 2 * k3 + k4), 60 * EPS * (abs(h) * fa + inf(y) + abs(h) * max(inf(z) for z in ys) * Lm + abs(h) * abs(float(t)) * (F.ftt() + inf(F.ft(t, y)))) * amp)
        if method in SPLIT:
            return self.split(method, t, y, h)
        J, f, ft = self.prep(t, y)
        if method == "exp_pfd":
            return pfd(J, h, y, 0, self.table)
        drop = self.tol_fdt < 0 or inf(ft.v) <= self.tol_fdt
        if method == "exprb2_dense":
            ph, e, _ = sqmat(J * LD(h), 2)
            return Y + Val(ph[1] @ f.v, e[1] * inf(f.v) + refs.inorm(ph[1]) * f.e).scale(h) + Val(ph[2] @ ft.v, e[2] * inf(ft.v) + refs.inorm(ph[2]) * ft.e).scale(h * h)
        if method == "exprb2_pfd":
            r = Y + pfd(J, h, f.v, 1, self.table).scale(h)
            r.e += abs(h) * f.e
            if not drop:
                r = r + pfd(J, h, ft.v, 2, self.table).scale(h * h)
                r.e += h * h * ft.e
            return r
        if method in ("epi2", "epi2_leja_re", "epi2_leja_im") or (method == "epi3_leja_im" and len(hist) < 2):
            bs = [None, f.scale(h), ft.scale(h * h)]
            return Y + (combo(J, h, bs, tol=self.leja_tol) if "leja" in method else self.comb(J, h, bs))
        if method in ("epi3", "epi3_leja_im") and len(hist) >= 2:
            tp, yp = hist[1]
            r = self.rem(t, y, f, J, tp, Val(refs.ld(yp)), ft)
            bs = [None, f.scale(h), r.scale(2. / 3. * h) + ft.scale(h * h)]
            return Y + (combo(J, h, bs, tol=self.leja_tol) if "leja" in method else self.comb(J, h, bs))
        # exprb2 stage and its corrections
        def stage(c):
            s = Y + self.krylov(J, c * h, f, 1).scale(c * h)
            if not drop:
                s = s + self.krylov(J, c * h, ft, 2).scale(c * c * h * h)
            return s
        def R(c, s):
            return self.rem(t, y, f, J, float(t) + c * h, s, None if drop else ft)
        if method == "exprb2":
            r = Y + self.krylov(J, h, f.scale(h), 1)
            return r if drop else r + self.krylov(J, h, ft, 2).scale(h * h)
        if method in ("exprb3", "epi3"):
            s2 = stage(1.)
            return s2 + self.krylov(J, h, R(1., s2), 3).scale(2 * h)
        if method == "pexprb4":
            s2, s3 = stage(.5), stage(1.)
            r2, r3 = R(.5, s2), R(1., s3)
            b3 = r2.scale(16 * h) + r3.scale(-2 * h)
            b4 = r2.scale(-48 * h) + r3.scale(12 * h)
            return s3 + self.comb(J, h, [None, None, None, b3, b4])
        raise ValueError(method)

    def split(self, method, t, y, h, L=None):
        F = self.F
        L = F.L(t, y) if L is None else refs.ld(L)
        Y = Val(y)
        f = Val(F.f(t, y), 20 * EPS * F.fabs(t, y))
        dense = method.endswith("_dense")
        if dense:
            def act(c, b, k):
                ph, e, _ = sqmat(L * LD(c * h), k)
                return Val(ph[k] @ b.v, e[k] * inf(b.v) + refs.inorm(ph[k]) * b.e)
        else:
            def act(c, b, k):
                return self.ksplit(L, c * h, b, k)
        m = method[:4]
        def R(c, s):
            fr = self.rem(t, y, f, L, float(t) + c * h, s)
            fr.e += refs.inorm(F.jac(float(t) + c * h, s.v) - L) * s.e
            return fr
        if m == "exp1":
            return Y + act(1., f, 1).scale(h)
        if m == "exp2":
            c2 = 2. / 3. if dense else 1.
            s2 = Y + act(c2, f, 1).scale(c2 * h)
            r2 = R(c2, s2)
            return Y + act(1., f, 1).scale(h) + act(1., r2, 2).scale(h / c2)
        c = 2. / 3.
        s2 = Y + act(c, f, 1).scale(c * h)
        r2 = R(c, s2)
        s3 = Y + act(c, f, 1).scale(c * h) + act(c, r2, 2).scale(h * 4. / 9. / c)
        r3 = R(c, s3)
        return Y + act(1., f, 1).scale(h) + act(1., r3, 2).scale(1.5 * h)


class KStepper(Stepper):
    """the one-step formulas composed with the repository's own phi-vector products (which C05 and C06 judge): the value does not depend on how accurate the
    products are, so that a single product with other arguments shows. skip: index of one product evaluated with the default subspace options."""

    def __init__(self, *a, skip=None, **k):
        super().__init__(*a, **k)
        self.skip, self.calls = skip, 0

    def _opts(self, default_iom):
        k, self.calls = self.calls, self.calls + 1
        return (100, default_iom) if k == self.skip else (self.m, self.iom if self.iom is not None else default_iom)

    def _phi(self, A, h, b, k, iom):
        import jax.numpy as jnp
        from ormatex_py.ode_sys import MatrixLinOp
        from ormatex_py.matexp_krylov import phi_linop
        m, iom = self._opts(iom)
        v = phi_linop(MatrixLinOp(jnp.asarray(np.asarray(A, float))), float(h), jnp.asarray(np.asarray(b.v, float)), k, m, iom)
        return Val(refs.ld(np.asarray(v)))

    def krylov(self, A, h, b, k):
        return self._phi(A, h, b, k, 100)

    def ksplit(self, A, h, b, k):
        return self._phi(A, h, b, k, 200)

    def comb(self, A, h, bs):
        import jax.numpy as jnp
        from ormatex_py.ode_sys import MatrixLinOp
        from ormatex_py.matexp_krylov import kiops_fixedsteps
        m, iom = self._opts(100)
        n = len(np.asarray(A))
        vb = [jnp.zeros(n) if b is None else jnp.asarray(np.asarray(b.v, float)) for b in bs]
        return Val(refs.ld(np.asarray(kiops_fixedsteps(MatrixLinOp(jnp.asarray(np.asarray(A, float))), float(h), vb, m, iom))))


def integrator(sys, t0, y0, method, **kw):
    from ormatex_py.ode_exp import ExpRBIntegrator, ExpSplitIntegrator, ExpLejaIntegrator
    from ormatex_py.ode_explicit import RKIntegrator
    C = RKIntegrator if method == "rk4" else ExpLejaIntegrator if "leja" in method else ExpSplitIntegrator if method in SPLIT else ExpRBIntegrator
    return C(sys, t0, y0, method=method, **kw)
