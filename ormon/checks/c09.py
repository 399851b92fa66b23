"""C09 Leja actions: converged results are judged against the exact exponential, non-convergence must be flagged."""
import numpy as np
from ormon import refs, gen
from ormon.checks.c08 import running_error

LEVEL_RULE = ("operators (symmetric, skew, normal with box spectrum, non-normal advection, spectrum leaving the box, zero, augmented) x point set (real/ellipse/imaginary, padded) x divided-difference method "
              "x tolerance 1e-3..1e-14 x vector magnitude x step fraction x point budget; non-trivial = nonzero operator and vector")
MIN = {"converged_judged": 500, "nonconverged_seen": 40, "must_converge": 120, "substepped": 2, "stiff_padded": 10, "outside_box": 40, "zero_vector": 8, "leading_only": 60}
ASSUMPTIONS = ["the routines' documented running error estimate is trusted to be a heuristic: cases where the estimate itself, recomputed from exact terms, is fooled are counted (estimator_limited) and not judged; the deterministic aliasing instance is reported as a finding"]


def units(tier):
    k = 3 if tier == "quick" else 10
    u = [(f"{f}_{i}", {"f": f, "i": i}) for f in ("real", "conj", "imag", "subreal", "subconj") for i in range(k)]
    u += [(f"stiffpad_{i}", {"f": "stiffpad", "i": i}) for i in range(2 if tier == "quick" else 8)]
    return u + [("alias", {"f": "alias", "i": 0}), ("giveup", {"f": "giveup", "i": 0})]


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as ml, ode_sys
    {"real": direct, "conj": direct, "imag": direct, "subreal": sub, "subconj": sub, "alias": alias, "stiffpad": stiffpad, "giveup": giveup}[p["f"]](ctx, ml, ode_sys, jnp, p["f"], p["i"])


def coeffs_ref(x, shift, scale):
    """Newton coefficients of exp(shift+scale x): longdouble exponential of the bidiagonal matrix."""
    m = len(x)
    T = np.diag(shift + scale * np.asarray(x, complex)) + scale * np.diag(np.ones(m - 1), -1)
    return refs.expm(T)[:, 0].astype(complex)


def norms(M, shift, scale, x, c):
    """Norms of the Newton basis operators."""
    P = np.eye(M.shape[0], dtype=complex)
    xs = shift + scale * np.asarray(x, complex)
    N = [1.]
    for i in range(1, len(x)):
        P = (M @ P - xs[i - 1] * P) / scale
        N.append(min(np.linalg.norm(P, "fro"), 1e250))
        if N[-1] > 1e200:
            break
    return np.array(N)


def documented(kind, M, u, shift, scale, x, nreal, c, tol):
    """The documented interpolation loop and its running error estimate in extended precision with exact
    coefficients: (degree at which the estimate drops below tol or None, polynomial there, largest term)."""
    L_ = np.longdouble
    M, u, c = refs.ld(M), refs.ld(u), np.asarray(c)
    xs = (shift + scale * np.asarray(x, complex))
    m = len(x)
    nu = float(np.sqrt(np.sum(u * u)))
    nrm = lambda v: float(np.sqrt(np.sum(v * v)))
    big = abs(c[0]) * nu
    p = L_(c[0].real) * u
    sc = L_(scale)
    if kind == "imag":
        est, i = 1e2 * nu, 2
        r, q = (M @ u - shift * u) / sc, u * 0
        while i < m and est < 1e3 * nu and (est > tol * nu or i < scale):
            t = abs(c[i - 1]) * nrm(r)
            q = (M @ r - shift * r) / sc
            p = p + L_(c[i - 1].real) * r + L_(c[i].real) * q
            t = t + abs(c[i]) * nrm(q)
            big = max(big, t)
            r = (M @ q - shift * q) / sc + L_(np.imag(x[i - 1])) ** 2 * r
            est = np.sqrt(est * t)
            i += 2
        return (i if i < m and est <= tol * nu else None), p, big
    est, v, i = 2 * nu, u, 1
    nr = nreal if kind == "conj" else m
    if kind == "conj":
        while i <= nr:
            v = (M @ v - L_(xs[i - 1].real) * v) / sc
            p = p + L_(c[i].real) * v
            big = max(big, abs(c[i].real) * nrm(v))
            i += 1
    while i + 1 < m and est <= 1e10 * nu:
        q = (M @ v - L_(xs[i - 1].real) * v) / sc
        p = p + L_(c[i].real) * q
        t = abs(c[i].real) * nrm(q)
        est = np.sqrt(est * t)
        if kind == "conj":
            v = (M @ q - L_(xs[i - 1].real) * q) / sc + L_(xs[i - 1].imag / scale) ** 2 * v
            p = p + L_(c[i + 1].real) * v
            t2 = abs(c[i + 1].real) * nrm(v)
            est = np.sqrt(est * t2)
            t = max(t, t2)
            i += 2
        else:
            v = q
            i += 1
        big = max(big, t)
        if est < tol * nu:
            return i, p, big
    return None, p, big


def operator(rng, n, fam):
    """-> (M, (a,b,c) box of its spectrum, normal?)"""
    Q = gen.orth(rng, n)
    w = float(10 ** rng.uniform(-1, 1.9))
    if fam == "sym":
        d = -w * rng.uniform(0, 1, n)
        d[0] = -w
        d[-1] = -w * rng.choice([0., .01])
        return Q @ np.diag(d) @ Q.T, (-w, 0., 0.), True
    if fam == "symshift":
        w = min(w, 15.)
        d = rng.uniform(-w, .4 * w, n)
        return Q @ np.diag(d) @ Q.T, (-w, .4 * w, 0.), True
    if fam == "skew":
        w = min(w, 25.)
        M = np.zeros((n, n))
        for j in range(0, n - 1, 2):
            t = w * (1. if j == 0 else rng.uniform(0, 1))
            M[j, j + 1], M[j + 1, j] = t, -t
        return Q @ M @ Q.T, (0., 0., w), True
    if fam == "normal":
        w = min(w, 40.)
        c = w * rng.uniform(.2, 1.)
        M = np.zeros((n, n))
        for j in range(0, n - 1, 2):
            th = rng.uniform(0, 2 * np.pi)
            r = np.sqrt(rng.uniform(0, 1)) if j else 1.
            re, im = -w / 2 + w / 2 * r * np.cos(th), c * r * np.sin(th)
            M[j:j + 2, j:j + 2] = [[re, im], [-im, re]]
        if n % 2:
            M[-1, -1] = -w * rng.uniform(0, 1)
        return Q @ M @ Q.T, (-w, 0., c), True
    # advection-diffusion, upwind: non-normal
    w = min(w, 60.)
    M = w / 4 * (np.diag(-2 * np.ones(n)) + np.diag(1.5 * np.ones(n - 1), -1) + np.diag(.5 * np.ones(n - 1), 1))
    ev = np.linalg.eigvals(M)
    return M, (float(ev.real.min()), 0., max(.15 * w, float(np.abs(ev.imag).max()))), False


def direct(ctx, ml, ode_sys, jnp, kind, i0):
    rng = ctx.rng
    dims = [1, 2, 5, 8, 11]
    for it in range(ctx.n(70, 400)):
        if not ctx.more():
            break
        n = dims[(it + i0) % 5]
        m = [24, 60, 110][(it // 5) % 3]
        fams = {"real": ["sym", "symshift", "sym", "adv", "skew"], "conj": ["normal", "skew", "sym", "adv", "normal"], "imag": ["skew", "skew", "normal"]}[kind]
        fam = fams[it % len(fams)] if it % 7 else fams[0]
        if n == 1 and fam in ("skew", "normal", "adv"):
            fam = "sym"
        M, (a, b, c), normal = operator(rng, n, fam)
        if it % 13 == 6:
            M, (a, b, c), normal = np.zeros((n, n)), (-1., 0., .5), True
        outside = it % 6 == 5
        pad = float(rng.choice([1., 1.2, 1.01]))
        a, c = a * pad, c * pad
        if outside:
            f = rng.uniform(.1, .7)
            a, b, c = a * f, b * f, c * f
        dt = float(rng.choice([1., 1., .5, .0625, 1 / 1.2 ** 2]))
        u = rng.standard_normal(n) * 10 ** rng.uniform(-8, 8)
        if it % 9 == 4 and n > 1:
            w_, V = np.linalg.eigh(M + M.T)
            u = V[:, int(rng.integers(n))] * 10 ** rng.uniform(-3, 3)
        if it % 11 == 7:
            u = np.zeros(n)
        tol = float(10. ** -float(rng.integers(3, 15)))
        npad = 0
        if kind == "real":
            if c > 0 and a == 0:
                a, b = -c, c / 2
            shift, scale = (a + b) / 2, (b - a) / 4
            x = np.asarray(ml.gen_leja_fast(-2, 2, m))
            nr = m
            if it % 3 == 1:
                x, nr, scale, shift = ml.gen_leja_conjugate(m, a, b, 0.)
        elif kind == "conj":
            if c == 0:
                c = max(.1 * abs(a), 1e-2)
            x, nr, scale, shift = ml.gen_leja_conjugate(m, a, b, c)
            npad = int(rng.integers(0, 4))
            x = np.asarray(ml.leja_seq_pad_zeros(jnp.asarray(x), npad)) if npad else x
        else:
            c = max(c, 1.)
            if fam == "normal":
                a = min(a, -.1)
            x = np.asarray(ml.gen_complex_conj_leja_fast(2., m), dtype=complex)
            nr, shift, scale = 1, (a / 2 if fam == "normal" else 0.), c / 2
        meth = ["taylor", "pade", "taylor", "recursive"][it % 4]
        if scale <= 0 or (meth == "recursive" and npad > 1):
            meth = "taylor"
        desc = f"{kind} {fam} n={n} m={len(x)} box=[{a:.3g},{b:.3g}]x{c:.3g} dt={dt:.3g} |u|={np.linalg.norm(u):.2e} tol={tol:g} dd={meth} pad={npad} outside={outside}"
        ctx.case((kind, fam, n, m, a, c, dt, u[:2].tolist(), tol, meth, npad), np.linalg.norm(u) > 0 and np.any(M), desc)
        co = ml.dd_method_dict[meth](jnp.asarray(x), shift, scale, h=1.0)
        lo = ode_sys.MatrixLinOp(jnp.asarray(M))
        U = jnp.asarray(u)
        if kind == "real":
            r = ml.real_leja_expmv(lo, dt, U, shift, scale, jnp.asarray(x), co, tol) if it % 2 else \
                ml.complex_conj_leja_expmv(lo, dt, U, shift, scale, jnp.asarray(x), len(x), co, tol)
        elif kind == "conj":
            if nr == len(x) - npad:
                r = ml.complex_conj_leja_expmv(lo, dt, U, shift, scale, jnp.asarray(x), npad + nr, co, tol)
            else:
                r = ml.complex_conj_leja_expmv(lo, dt, U, shift, scale, jnp.asarray(x), npad + nr, co, tol)
        else:
            r = ml.complex_conj_imag_leja_expmv(lo, dt, U, shift, scale, jnp.asarray(x), co, tol)
        w, iters, conv = np.asarray(r[0]), int(r[1]), bool(r[2])
        ctx.ok(1 <= iters <= len(x) + 1, "iters", f"{iters} iterations for {len(x)} points")
        ctx.count("outside_box", int(outside))
        nu = np.linalg.norm(u)
        if nu == 0:
            ctx.count("zero_vector")
            ctx.ok(np.all(w == 0), "zero", f"action on the zero vector is {w[:3]}")
            if kind != "imag":
                ctx.ok(conv, "zero_conv", "zero vector reported as not converged")
            continue
        judge(ctx, "real" if kind == "conj" and npad + nr == len(x) else kind, M * dt, u, shift, scale, x, npad + nr, meth, tol, w, conv, desc, outside, iters)


def bounds(M, u, shift, scale, x, meth):
    """-> coefficients, norms of the basis operators, cumulative rounding bound per degree."""
    x = np.asarray(x)
    m = len(x)
    c = coeffs_ref(x, shift, scale)
    N = norms(M, shift, scale, x, c)
    L = len(N)
    nu = np.linalg.norm(u)
    lW = np.max(np.real(shift + scale * x))
    size = max(np.exp(lW), np.max(np.abs(c)))
    s2 = max(2., 2. * (np.max(np.abs(scale * (x - np.mean(x)))) + abs(scale)))
    if meth == "recursive":
        ce = running_error(np.asarray(x, complex), shift, scale, 1.0)[:L] * 4
    else:
        ce = np.full(L, 3 * m * refs.EPS * s2 * size * (1 + abs(shift) * .1))
        if meth == "pade":
            ce = ce + refs.expm_err_bound(shift * np.eye(m) + scale * (np.diag(x) + np.diag(np.ones(m - 1), -1))) / 10
    # rounding grows with the products of the operator over the remaining points
    step = max(1., (np.linalg.norm(M, 2) + np.max(np.abs(shift + scale * x))) / scale / 2)
    R = nu * np.cumsum((np.abs(c[:L]) * 20 * (len(u) + np.arange(L)) * refs.EPS * step + ce) * N)
    return c, N, R


def judge(ctx, kind, M, u, shift, scale, x, nr, meth, tol, w, conv, desc, outside, iters):
    nu = np.linalg.norm(u)
    m = len(x)
    c, N, R = bounds(M, u, shift, scale, x, meth)
    L = len(N)
    if conv:
        E = refs.expm(M)
        want = (E @ refs.ld(u)).astype(float)
        g = max(1., np.linalg.norm(np.asarray(E, float), 2))
        r = R[min(iters + 1, L - 1)] if L > iters else np.inf
        if not ctx.ok(np.all(np.isfinite(w)), "nonfinite", f"converged but non-finite {desc}"):
            return
        err = np.linalg.norm(w - want)
        bound = 10 * tol * nu * g + r
        if r > .1 * nu * g:
            ctx.count("rounding_limited")
            return
        ctx.count("converged_judged")
        if err > bound:
            first, p, _ = documented(kind, M, u, shift, scale, x, nr, c, tol)
            if first is not None and first <= iters + 2 and np.linalg.norm(p.astype(float) - want) > .3 * err:
                ctx.count("estimator_limited")
                return
            ctx.violate("false_convergence", f"reported converged but relative error {err/nu:.3e}, tolerance {tol:g}, bound {bound/nu:.2e}: {desc}")
            return
        ctx.track("converged", err / bound)
    else:
        ctx.count("nonconverged_seen")
    # must converge: the documented estimate is far below tol with points to spare
    if L == m and R[-1] < tol * nu / 10:
        sure, p, big = documented(kind, M, u, shift, scale, x, nr, c, tol / 100)
        if sure is not None and sure < m - 6 and big < (30 if kind == "imag" else 1e6) * nu:
            ctx.count("must_converge")
            if ctx.ok(conv, "not_converged", f"terms are below the tolerance at degree {sure} of {m} but convergence was not reported: {desc}"):
                ctx.ok(iters <= sure + 4, "late", f"stopped at {iters}, terms negligible at {sure}: {desc}")


def sub(ctx, ml, ode_sys, jnp, kind, i0):
    rng = ctx.rng
    conjk = kind == "subconj"
    for it in range(ctx.n(45, 250)):
        if not ctx.more():
            break
        n = [1, 3, 6, 9][(it + i0) % 4]
        fam = (["normal", "adv", "sym", "skew"] if conjk else ["sym", "adv", "sym", "symshift"])[it % 4]
        if n == 1 and fam != "symshift":
            fam = "sym"
        # strongly damped spectrum: a rejected substep has a small polynomial value as well
        contract = it % 7 in (2, 4)
        if contract:
            n = max(n, 2)
            a, b = -float(rng.uniform(35, 75)), 0.
            q = np.linalg.qr(rng.standard_normal((n, n)))[0]
            A = q @ np.diag(rng.uniform(a, a / 6, n)) @ q.T
            c, fam = 5. * conjk, "contract"
        else:
            A, (a, b, c), normal = operator(rng, n, fam)
        dt = float(rng.choice([1., .1, 2., 10.]))
        A = A / dt
        p = int(rng.integers(1, 5))
        vb = [rng.standard_normal(n) * 10 ** rng.uniform(-2, 2) for _ in range(p + 1)]
        if it % 5 == 3:
            vb[0] = np.zeros(n)
        if it % 4 == 2:
            vb[1] = np.zeros(n)
        aug = bool(it % 3)
        if aug:
            lo, v, nn = ml.build_a_tilde(ode_sys.MatrixLinOp(jnp.asarray(A)), dt, [jnp.asarray(q) for q in vb])
            ctx.ok(nn == n and v.shape == (n + p,), "atilde", f"build_a_tilde n={nn} v {v.shape}")
            Md = np.zeros((n + p, n + p))
            Md[:n, :n] = A * dt
            for j in range(1, p + 1):
                Md[:n, n + p - j] = vb[j]
            Md[n:n + p - 1, n + 1:] = np.eye(p - 1)
            vv = np.concatenate([vb[0], np.zeros(p - 1), [1.]])
            want = sum(refs.phi_apply(A * dt, q, j) for j, q in enumerate(vb)).astype(float)
            c = max(c, .1)
        else:
            Md, vv, nn = A * dt, vb[0] if np.any(vb[0]) else vb[1] + 1., n
            if it % 2 and n > 1:
                nn = int(rng.integers(1, n))
            lo, v = ode_sys.MatrixLinOp(jnp.asarray(Md)), jnp.asarray(vv)
            want = (refs.expm(Md) @ refs.ld(vv)).astype(float)[:nn]
        m = [18, 26, 40, 80][(it // 4) % 4]
        tol = float(10. ** -float(rng.integers(4, 14)))
        tau0 = float(rng.choice([1., 2., .37, .05, .5]))
        substep = bool(it % 6 != 5)
        meth = ["taylor", "pade"][it % 2]
        zp = 0
        if contract:
            aug = False
            m, tol, substep, tau0 = int(rng.integers(26, 48)), 10. ** -float(rng.integers(6, 10)), True, 1.
            Md, vv, nn = A * dt, rng.standard_normal(n), n
            lo, v = ode_sys.MatrixLinOp(jnp.asarray(Md)), jnp.asarray(vv)
            want = (refs.expm(Md) @ refs.ld(vv)).astype(float)
        if conjk:
            if fam == "sym" and it % 2:
                c = 0.
            c = c * 1.1
            x, nr, scale, shift = ml.gen_leja_conjugate(m, 1.2 * a, b, c)
            zp = int(rng.integers(0, 4)) if not contract else int(rng.integers(0, 2))
        else:
            x = np.asarray(ml.gen_leja_fast(-2, 2, m))
            shift, scale, nr = (1.2 * a + b) / 2, (b - 1.2 * a) / 4, m
        desc = f"{kind} {fam} n={n} p={p if aug else 0} keep={nn} m={m} box=[{1.2*a:.3g},{b:.3g}]x{c:.3g} dt={dt} tau0={tau0} substep={substep} tol={tol:g} dd={meth} zeros={zp}"
        ctx.case((kind, fam, n, p, aug, m, a, tol, tau0, zp, vv[:2].tolist()), True, desc)
        try:
            if conjk:
                w, iters, conv, mx = ml.complex_conj_leja_expmv_substep(lo, tau0, v, jnp.asarray(x), nr, nn, shift, scale, tol, substep, zp, meth)
            else:
                w, iters, conv, mx = ml.real_leja_expmv_substep(lo, tau0, v, jnp.asarray(x), nn, shift, scale, tol, substep, meth)
        except RuntimeError as e:
            ctx.ok("ubstep" in str(e) or "onverge" in str(e), "error_kind", f"unexpected error {e}")
            ctx.count("nonconverged_seen")
            # giving up is legitimate only if some substep size in reach does not converge
            xx = np.concatenate([np.linspace(1e-12, 1e-12 * zp, zp), x]) if zp else x
            c_, N, R = bounds(Md * .3, vv, shift, scale, xx, meth)
            first, _, big = documented("conj" if conjk and zp + nr < len(xx) else "real", Md * .3, vv, shift, scale, xx, zp + nr, c_, tol / 100)
            ctx.ok(not (first is not None and R[-1] < 1e-2 * tol * np.linalg.norm(vv) and len(N) == len(xx) and first < len(xx) - 6), "gave_up", f"gave up although a third of the step converges at degree {first}: {desc}")
            continue
        w = np.asarray(w)
        conv = bool(conv)
        ctx.count("leading_only", int(aug or nn < n))
        if not ctx.ok(w.shape == (nn,), "leading", f"returned {w.shape}, requested {nn} leading components: {desc}"):
            continue
        if not substep:
            ctx.ok(mx == 1.0, "no_substep", f"reported substep {mx} without substepping")
        else:
            ctx.ok(conv, "substep_conv", f"returned without convergence: {desc}")
            ctx.ok(0 < mx <= min(1., tau0) * (1 + 1e-12), "max_tau", f"largest accepted substep {mx} not in (0, {min(1.,tau0)}]: {desc}")
            ctx.count("substepped", int(mx < min(1., tau0) * .999))
            ctx.count("contractive_rejected", int(contract and mx < .999))
        if not conv:
            ctx.count("nonconverged_seen")
            continue
        if not ctx.ok(np.all(np.isfinite(w)), "nonfinite", f"converged but non-finite: {desc}"):
            continue
        xx = np.concatenate([np.linspace(1e-12, 1e-12 * zp, zp), x]) if zp else np.asarray(x)
        ns = 1.5 / max(float(mx), 1e-3) + 20
        # growth and rounding over the substeps
        g, r = 1., 0.
        nv = np.linalg.norm(vv)
        for f in (1.0, float(mx), float(mx) / 3):
            E = np.asarray(refs.expm(Md * f), float)
            g = max(g, np.linalg.norm(E, 2))
        big = max(nv, max(np.linalg.norm(np.asarray(refs.expm(Md * f) @ refs.ld(vv), float)) for f in (.25, .5, .75, 1.)))
        c_, N, R = bounds(Md * float(mx), vv, shift, scale, xx, meth)
        r = R[-1] / nv * big if len(N) == len(xx) else np.inf
        bound = (10 * tol * big + r) * ns * g
        if r > 1e-3 * big:
            ctx.count("rounding_limited")
            continue
        err = np.linalg.norm(w - want)
        ctx.count("converged_judged")
        if err > bound:
            # would the documented loop in exact arithmetic accept an equally wrong substep?
            fooled = False
            for q in range(14):
                f = float(mx) / 1.2 ** q
                first, pq, _ = documented("conj" if conjk and zp + nr < len(xx) else "real", Md * f, vv, shift, scale, xx, zp + nr, c_, tol)
                d = np.linalg.norm((pq - refs.expm(Md * f) @ refs.ld(vv)).astype(float))
                fooled |= first is not None and d > 5 * tol * nv
            if fooled:
                ctx.count("estimator_limited")
                continue
        ctx.track("substep", err / bound)
        ctx.ok(err <= bound, "substep_value", f"error {err:.3e} exceeds {bound:.3e} (tol {tol:g}, scale of the solution {big:.2e}): {desc}")


def alias(ctx, ml, ode_sys, jnp, kind, i0):
    """exp takes the value 1 at the first five imaginary points when the half width is 4 pi."""
    for k, tol in ((1, 1e-3), (1, 1e-2)):
        w = 4 * np.pi * k * 1.0005
        x = jnp.asarray(np.asarray(ml.gen_complex_conj_leja_fast(2., 60), dtype=complex))
        S = np.array([[0, w * .77], [-w * .77, 0]])
        u = np.array([1., .5])
        co = ml.dd_method_dict["pade"](x, 0., w / 2, h=1.0)
        ctx.case(("alias", k, tol), True, f"imaginary Leja action, half width 4 pi, tol {tol}")
        p, i, cv = ml.complex_conj_imag_leja_expmv(ode_sys.MatrixLinOp(jnp.asarray(S)), 1.0, jnp.asarray(u), 0., w / 2, x, co, tol)
        e = np.linalg.norm(np.asarray(p) - np.asarray(refs.expm(S), float) @ u) / np.linalg.norm(u)
        ctx.ok(not bool(cv) or e < 10 * tol, "imag_alias" if int(i) <= 6 else "false_convergence", f"converged at {int(i)} with relative error {e:.2e}")


def giveup(ctx, ml, ode_sys, jnp, kind, i0):
    """Too few points for the spectrum: must raise or flag, never return quietly."""
    rng = ctx.rng
    for it in range(ctx.n(8, 30)):
        w = 10 ** rng.uniform(2.5, 5)
        n = 5
        A = gen.orth(rng, n) @ np.diag(-w * np.linspace(.01, 1, n)) @ gen.orth(rng, n).T
        A = (A + A.T) / 2
        A = A - (max(0, np.linalg.eigvalsh(A).max())) * np.eye(n)
        m = int(rng.choice([4, 6]))
        u = rng.standard_normal(n)
        for substep in (True, False):
            for conjk in (True, False):
                tol = 1e-12
                desc = f"{'conj' if conjk else 'real'} m={m} |A|={w:.1e} substep={substep}"
                ctx.case(("giveup", m, w, substep, conjk), True, desc)
                lo, v = ode_sys.MatrixLinOp(jnp.asarray(A)), jnp.asarray(u)
                a = float(np.linalg.eigvalsh(A).min())
                try:
                    if conjk:
                        x, nr, sc, sh = ml.gen_leja_conjugate(m, a, 0., abs(a) / 5)
                        r = ml.complex_conj_leja_expmv_substep(lo, 1.0, v, jnp.asarray(x), nr, n, sh, sc, tol, substep)
                    else:
                        r = ml.real_leja_expmv_substep(lo, 1.0, v, jnp.asarray(ml.gen_leja_fast(-2, 2, m)), n, a / 2, -a / 4, tol, substep)
                except RuntimeError:
                    ctx.count("nonconverged_seen")
                    continue
                err = np.linalg.norm(np.asarray(r[0]) - np.asarray(refs.expm(A) @ refs.ld(u), float))
                if not bool(r[2]):
                    ctx.count("nonconverged_seen")
                else:
                    ctx.ok(err < 1e-6 * np.linalg.norm(u), "quiet_failure", f"reported converged with error {err:.2e}: {desc}")


def stiffpad(ctx, ml, ode_sys, jnp, kind, i0):
    """Leading padded zeros whose coefficients underflow must not be taken for convergence."""
    rng = ctx.rng
    m = 280
    for it in range(ctx.n(14, 60)):
        w = float(rng.uniform(100, 950))
        zp = it % 4
        tol = float(10. ** -float(rng.integers(5, 10)))
        n = 6
        Q = gen.orth(rng, n)
        A = Q @ np.diag(-w * np.concatenate([[1e-3, 1.], rng.uniform(0, 1, n - 2) ** 3])) @ Q.T
        u = rng.standard_normal(n) * 10 ** rng.uniform(-4, 4)
        x, nr, sc, sh = ml.gen_leja_conjugate(m, -1.1 * w, 0., .1 * w)
        desc = f"stiff w={w:.0f} zeros={zp} tol={tol:g} |u|={np.linalg.norm(u):.2e}"
        ctx.case(("stiffpad", w, zp, tol), True, desc)
        try:
            r = ml.complex_conj_leja_expmv_substep(ode_sys.MatrixLinOp(jnp.asarray(A)), 1.0, jnp.asarray(u), jnp.asarray(x), nr, n, sh, sc, tol, bool(it % 2), zp, "taylor")
        except RuntimeError:
            ctx.count("nonconverged_seen")
            continue
        if not bool(r[2]):
            ctx.count("nonconverged_seen")
            continue
        err = np.linalg.norm(np.asarray(r[0]) - np.asarray(refs.expm(A) @ refs.ld(u), float)) / np.linalg.norm(u)
        ctx.count("converged_judged")
        ctx.count("stiff_padded", int(zp > 0))
        ctx.ok(err <= 300 * tol + 1e-8, "false_convergence", f"reported converged with relative error {err:.2e}: {desc}")
