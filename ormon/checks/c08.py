"""C08 Divided differences: every returned coefficient is compared with a multi-precision divided-difference table."""
import numpy as np
from scipy.special import factorial, gammaln
from ormon import refs, gen

LEVEL_RULE = ("point sets (real fast Leja, conjugate ellipse, imaginary, real segment of conjugate generator, zero padded, equispaced, clustered) x count x shift/scale x step fraction x method; "
              "every coefficient judged against a multi-precision table of the same points; non-trivial = at least 2 points")
MIN = {"coefficients": 4000, "complex_sets": 40, "padded_sets": 30, "fraction_h": 60, "taylor": 60, "pade": 60, "recursive": 60, "expm_taylor": 60, "phi_variants": 40}
ASSUMPTIONS = ["reference tables computed with mpmath at >= 160 digits from the double precision points", "one-norm of the exponent below 3e4 for the Pade method (platform exponential)"]


def units(tier):
    k = 5 if tier == "quick" else 20
    u = [(f"dd_{i}", {"f": "dd", "i": i}) for i in range(k)]
    u += [(f"exp_{i}", {"f": "expm_taylor", "i": i}) for i in range(2 if tier == "quick" else 6)]
    u += [(f"phi_{i}", {"f": "phi", "i": i}) for i in range(2 if tier == "quick" else 6)] + [("phijax", {"f": "phijax", "i": 0})]
    return u


def run(ctx, name, p):
    from ormatex_py import matexp_leja as ml, matexp_poly as mp
    {"dd": dd, "expm_taylor": expt, "phi": phi, "phijax": phijax}[p["f"]](ctx, ml, mp, p["i"])


def table(x, f, extra=0):
    """Newton coefficients of f on x, multi-precision."""
    import mpmath as m
    with m.workdps(160 + 2 * len(x) + extra):
        cx = np.iscomplexobj(x) and np.any(np.imag(x) != 0)
        xs = [m.mpc(float(v.real), float(v.imag)) for v in np.asarray(x, complex)] if cx else [m.mpf(float(v)) for v in np.real(x)]
        a = [f(m, v) for v in xs]
        for k in range(1, len(xs)):
            for b in range(k, len(xs)):
                a[b] = (a[b] - a[k - 1]) / (xs[b] - xs[k - 1])
        return np.array([complex(v) for v in a])


def fexp(shift, scale, h):
    return lambda m, z: m.exp(m.mpf(h) * (m.mpf(shift) + m.mpf(scale) * z))


def mphi(m, k, z):
    if k == 0:
        return m.exp(z)
    if abs(z) < m.mpf("1e-3"):
        return sum(z ** i / m.factorial(i + k) for i in range(90))
    return (mphi(m, k - 1, z) - 1 / m.factorial(k - 1)) / z


def points(ctx, ml, mp, f, n):
    rng = ctx.rng
    pad = 0
    if f == 0:
        x = np.asarray(ml.gen_leja_fast(-2., 2., max(n, 3)))
    elif f == 1:
        x = np.asarray(ml.gen_leja_conjugate(n, -2, rng.uniform(0, 2), rng.uniform(.3, 4))[0])
    elif f == 2:
        x = np.asarray(ml.gen_complex_conj_leja_fast(2., max(5, n)), dtype=np.complex128)
    elif f == 3:
        x = np.asarray(ml.gen_leja_conjugate(n, -4, 0, 0.)[0])
    elif f == 4:
        x0 = np.asarray(ml.gen_leja_conjugate(n, -3, 0, rng.uniform(.5, 2))[0])
        pad = int(rng.integers(1, 5))
        x = np.asarray(mp.leja_seq_pad_zeros(x0, pad))
        padcheck(ctx, x0, x, pad)
    elif f == 5:
        x0 = np.asarray(ml.gen_leja_fast(-2., 2., max(n, 3)))
        pad = int(rng.integers(0, 4))
        x = np.asarray(mp.leja_seq_pad_zeros(x0, pad))
        padcheck(ctx, x0, x, pad)
    elif f == 6:
        x = np.linspace(-2, 2, min(n, 20))[ctx.rng.permutation(min(n, 20))]
        x = np.asarray(mp.leja_seq_reordering(x))
    else:
        x = rng.uniform(-2, 2, n) + 1j * rng.uniform(-2, 2, n)
        x = np.concatenate([[.5, -1.], np.stack([x, x.conj()], 1).ravel()])[:max(n, 2)]
    return x, pad


def padcheck(ctx, x0, x, pad):
    ctx.count("padded_sets")
    ctx.case(("pad", pad, len(x0), x0[:3].tolist()), True, f"leja_seq_pad_zeros(len {len(x0)}, {pad})")
    if ctx.ok(x.shape == (len(x0) + pad,), "pad_count", f"{x.shape} for {len(x0)}+{pad}"):
        ctx.ok(np.array_equal(x[pad:], x0), "pad_keep", "supplied points changed or reordered")
        ctx.ok(np.all(np.abs(x[:pad]) < 1e-9) and len(np.unique(x[:pad])) == pad, "pad_zeros", f"padding {x[:pad]}")


def running_error(x, shift, scale, h):
    """Recursive table with a running error bound."""
    z = h * (shift + scale * x)
    a = np.exp(z)
    e = (8 + 4 * np.abs(z) + 4 * h * (abs(shift) + np.abs(scale * x))) * refs.EPS * np.abs(a)
    m = len(x)
    for k in range(1, m):
        d = x[k:] - x[k - 1]
        ed = 2 * refs.EPS
        num = a[k:] - a[k - 1]
        e[k:] = (e[k:] + e[k - 1] + 4 * refs.EPS * (np.abs(a[k:]) + np.abs(a[k - 1]))) / np.abs(d) + 8 * (ed) * np.abs(num / d)
        a[k:] = num / d
    return e


def dd(ctx, ml, mp, i0):
    import jax.numpy as jnp
    rng = ctx.rng
    fns = {"taylor": ml.dd_method_dict["taylor"], "pade": ml.dd_method_dict["pade"], "recursive": ml.dd_method_dict["recursive"]}
    ns = [2, 3, 4, 7, 12, 25, 40, 60, 90, 140]
    for it in range(ctx.n(28, 160)):
        if not ctx.more():
            break
        f = (it + i0) % 8
        n = ns[(it // 8 + 3 * i0 + it) % (8 if not ctx.thorough else 10)] + (f == 4)
        if f == 7:
            n = min(n, 12)
        n = max(n, 2)
        x, pad = points(ctx, ml, mp, f, n)
        scale = float(10 ** rng.uniform(-3, 2.0))
        w = int(rng.integers(5))
        shift = [0., -2 * scale, -2 * scale * rng.uniform(.5, 1.), rng.uniform(-3, 3), 2 * min(scale, 20.)][w]
        if f == 2 or f == 7:
            scale = min(scale, 20.)
        h = [1., 1., .5, 1 / 1.2 ** 3, float(rng.uniform(.01, 1))][int(rng.integers(5))]
        m = len(x)
        lW = float(np.max(np.real(h * (shift + scale * x))))
        if lW > 200 or np.min(np.real(h * (shift + scale * x))) < -600:
            continue
        W = table(x, fexp(shift, scale, h), 12 * pad * pad)
        size = max(np.exp(lW), np.max(np.abs(W)))
        cx = np.iscomplexobj(x)
        nz = h * (np.max(np.abs(scale * x)) + abs(scale) + abs(shift))
        s2 = max(2., 2. * (np.max(np.abs(scale * (x - np.mean(x)))) + abs(scale)))
        for meth, fn in fns.items():
            if meth == "pade" and nz > 3e4:
                continue
            if meth == "recursive" and len(np.unique(x)) < m:
                continue
            desc = f"{meth} f={f} m={m} pad={pad} shift={shift:.6g} scale={scale:.6g} h={h:.4g}"
            ctx.case((meth, f, m, pad, shift, scale, h), m > 1, desc)
            C = np.asarray(fn(jnp.asarray(x), shift, scale, h=h) if it % 2 else fn(x, shift, scale, h))
            ctx.count(meth)
            ctx.count("coefficients", m)
            ctx.count("complex_sets", int(cx))
            ctx.count("fraction_h", int(h != 1))
            if meth == "recursive":
                tol = running_error(np.asarray(x, complex), shift, scale, h) * 4 + 1e-300
                ctx.close(C.astype(complex), W, tol, "dd_recursive", desc, track="recursive")
            else:
                tol = 30 * m * refs.EPS * s2 * size * (1 + abs(h * shift) * .1)
                if meth == "pade":
                    tol = tol + refs.expm_err_bound(h * (shift * np.eye(m) + scale * (np.diag(x) + np.diag(np.ones(m - 1), -1))))
                ctx.close(C.astype(complex), W, tol, "dd_" + meth, desc, track=meth)
        if it % 4 == 0:
            # the centring factor may not change the result
            C1 = np.asarray(fns["taylor"](jnp.asarray(x), shift, scale, h, mu_scale=0.))
            if nz < 30:
                ctx.close(C1.astype(complex), W, 30 * m * refs.EPS * (2 + 4 * nz) * size * np.exp(2 * nz), "dd_taylor_mu", "taylor without centring")
    # the recursive table for other functions / repeated use
    for it in range(ctx.n(6, 30)):
        n = int(rng.integers(2, 12))
        x = np.sort(rng.uniform(-2, 2, n))[rng.permutation(n)]
        if n > 1 and np.min(np.diff(np.sort(x))) < .05:
            continue
        c = rng.standard_normal(n)
        y = np.zeros(n)
        for k in range(n - 1, -1, -1):
            y = y * (x - x[k]) + c[k]
        ctx.case(("newton", n, x.tolist()), True, f"newton_poly_div_diff of a degree {n-1} Newton polynomial")
        y0 = y.copy()
        cond = np.ones(n)
        got = np.asarray(ml.newton_poly_div_diff(jnp.asarray(x), jnp.asarray(y)))
        ref = table(x, lambda m, z: m.mpf(float(y[int(np.argmin(np.abs(x - float(z))))])))
        S = np.max(np.abs(y)) * np.cumprod(np.concatenate([[1.], 2 / np.full(n - 1, np.min(np.abs(np.subtract.outer(x, x) + 9 * np.eye(n))))]))
        ctx.close(got.astype(complex), ref, 50 * n * refs.EPS * S + 0 * cond, "dd_newton", "Newton coefficients recovered")


def expt(ctx, ml, mp, i0):
    import jax.numpy as jnp
    from scipy.special import gammaln
    rng = ctx.rng
    for it in range(ctx.n(45, 250)):
        n = int(rng.choice([1, 2, 3, 5, 8]))
        kind = rng.choice(list(gen.KINDS))
        A, _ = gen.scaled(rng, kind, n, -1, 1.)
        scale = float(rng.choice([1., .5, -1., 3., .01, -2.5]))
        if refs.inorm(A) * abs(scale) > 6:
            scale = np.sign(scale) * 6 / refs.inorm(A)
        shift = float(rng.choice([0., -1., 2., rng.uniform(-5, 5)]))
        p = int(rng.choice([20, 20, 5, 12, 30]))
        A0 = A.copy()
        ctx.case(("expt", kind, n, scale, shift, p, A.ravel()[:3].tolist()), refs.inorm(A) > 0, f"expm_taylor {kind} n={n} |A|={refs.inorm(A):.3g} shift={shift:.3g} scale={scale:.3g} p={p}")
        ctx.count("expm_taylor")
        got = np.asarray(mp.expm_taylor(jnp.asarray(A), shift, scale, p))
        Z = refs.ld(A) * np.longdouble(scale)
        want = refs.expm(Z) * np.exp(np.longdouble(shift))
        nz = refs.inorm(A) * abs(scale)
        trunc = np.exp((p + 1) * np.log(max(nz, 1e-300)) - gammaln(p + 2) + nz) * np.exp(shift)
        ctx.close(got, want, 1.01 * trunc + 20 * (n + p) * refs.EPS * np.exp(nz + shift) + refs.expm_err_bound(Z) * np.exp(shift), "expm_taylor", "exp(shift) exp(scale A)", track="expm_taylor")
        ctx.ok(np.array_equal(A, A0), "expm_taylor_input", "input modified")


def truncated_power(x, sh, sc, st):
    """st-fold application of the 16-term series table, in extended precision: what the method can reach"""
    m = len(x)
    H = (np.diag(sh + sc * np.asarray(x, np.clongdouble)) + sc * np.diag(np.ones(m - 1), -1).astype(np.clongdouble)) / np.clongdouble(st)
    d = np.subtract.outer(np.arange(m), np.arange(m))
    P, F = np.eye(m, dtype=np.clongdouble), np.eye(m, dtype=np.clongdouble)
    for k in range(1, m + 16):
        P = P @ H / k
        F = F + np.where(k <= d + 15, P, 0)
    F = np.where(d > 0, F, np.diag(np.exp(np.diag(H))))
    y = np.zeros(m, dtype=np.clongdouble)
    y[0] = 1
    for _ in range(st):
        y = F @ y
    return y


def phi(ctx, ml, mp, i0):
    rng = ctx.rng
    for it in range(ctx.n(40, 160)):
        if not ctx.more():
            break
        f = [0, 1, 3, 2][it % 4]
        n = int(rng.choice([3, 5, 8, 14, 20]))
        x, _ = points(ctx, ml, mp, f, n)
        m = len(x)
        img = it % 5 == 2 and f > 0
        if img:
            # purely imaginary point sets, wide in the imaginary direction only
            y = rng.uniform(-2, 2, n // 2)
            x = 1j * np.concatenate([[0.], np.stack([y, -y], 1).ravel()]) if n % 2 or f == 1 else np.asarray(ml.gen_leja_conjugate(n, 0., 0., 2.)[0])
            m = len(x)
            ctx.count("imaginary_sets")
        if np.iscomplexobj(x) and it % 4 == 1 and m > 3:
            # not closed under conjugation: cut inside a pair, or a tiny common imaginary shift
            x = x[:m - 1] if it % 8 == 1 else x + 1j * float(10 ** rng.uniform(-8, -1.5)) * np.max(np.abs(x))
            m = len(x)
            ctx.count("open_sets")
        l = int(rng.integers(0, 4))
        h = [1., .5, float(rng.uniform(.1, 1))][int(rng.integers(3))]
        scale = float(10 ** rng.uniform(-1.5, .9))
        shift = float(rng.choice([0., -2 * scale, rng.uniform(-2, 2)]))
        z = h * (shift + scale * x)
        # dd_phi: coefficients with respect to the mapped points
        ctx.case(("ddphi", f, m, l, shift, scale, h), True, f"leja_coeffs_dd_phi f={f} m={m} l={l} shift={shift:.4g} scale={scale:.4g} h={h:.3g}")
        W = table(z, lambda mm, v: mphi(mm, l, v))
        E = np.exp(np.max(np.real(z)))
        S = max(E, 1., np.max(np.abs(W)))
        s = max(1., 2 * np.max(np.abs(np.subtract.outer(z, z))) / 3.5)
        ctx.count("phi_variants")
        # entry by entry: rounding is relative to the divided differences of exp at the absolute values
        zz = np.concatenate([np.zeros(l), z])
        mu, idx = np.mean(zz), np.arange(m)
        lim = 40 * (m + 5) * refs.EPS * max(1., 2 * np.max(np.abs(zz - mu)) / 3.5) * np.exp(np.real(mu) + np.max(np.abs(zz - mu)) - gammaln(idx + l + 1))
        lim = np.minimum(lim, 200 * (m + 5) * refs.EPS * S * s * 30) + 1e-300
        ctx.close(np.asarray(ml.leja_coeffs_dd_phi(x, shift, scale, h, l)), W, lim, "dd_phi", "phi divided differences on the mapped points", track="dd_phi")
        if np.max(np.abs(z)) <= 2.2 and m > 1:
            # TS(II): 15 Taylor terms
            ctx.case(("tsphi", f, m, l, shift, scale, h), True, f"leja_coeffs_ts_phi f={f} m={m} k={l} shift={shift:.4g} scale={scale:.4g} h={h:.3g}")
            W2 = table(x, lambda mm, v: mphi(mm, l, mm.mpf(h) * (mm.mpf(shift) + mm.mpf(scale) * v)))
            got = np.asarray(mp.leja_coeffs_ts_phi(x, shift, scale, h, l))
            ctx.count("phi_variants")
            zm = np.max(np.abs(z))
            # entry by entry: 15 omitted-term remainder and rounding, both relative to (h scale)^i / i!
            lim = np.exp(np.arange(m) * np.log(h * scale) - gammaln(np.arange(m) + 1.) + zm) * (5 * zm ** 16 / factorial(16) + 1e-14 * m) + 1e-300
            ctx.close(got.astype(complex), W2, lim, "ts_phi", "TS(II) phi divided differences", track="ts_phi")
            if not (it + i0) % 2:
                full = np.asarray(mp.leja_coeffs_ts_phi(x, shift, scale, h, l, full=True))
                ctx.count("full_tables")
                ctx.ok(np.all(np.triu(full, 1) == 0), "ts_full", "entries above the diagonal of the full table")
                for j in sorted({0, 1, m // 2, m - 1}):
                    Wj = table(x[j:], lambda mm, v: mphi(mm, l, mm.mpf(h) * (mm.mpf(shift) + mm.mpf(scale) * v)))
                    ctx.close(full[j:, j].astype(complex), Wj, lim[:m - j], "ts_full", f"full TS(II) table, column {j}", track="ts_full")
        if l == 0 and m <= 14 and not img and (np.all(np.isreal(x)) or f == 1):
            sc = float(rng.uniform(.3, 6))
            sh = -2 * sc if np.all(np.isreal(x)) else 0.
            sc = sc if np.all(np.isreal(x)) else min(sc, 2.)
            ctx.case(("tsss", f, m, sh, sc), True, f"leja_coeffs_ts_ss f={f} m={m} shift={sh:.4g} scale={sc:.4g}")
            zz = sh + sc * x
            W3 = table(zz, lambda mm, v: mm.exp(v))
            ctx.count("phi_variants")
            R, q = np.max(np.abs(zz - np.mean(zz))), 2. ** max(1., np.ceil(np.log2(sc)))
            lim = 5 * np.exp(np.real(np.mean(zz)) + R - gammaln(np.arange(m) + 1.)) * (1e-15 * m * q + (R / q) ** 20 / factorial(20)) + 1e-300
            ctx.close(np.asarray(mp.leja_coeffs_ts_ss(x, sh, sc)), W3, lim, "ts_ss", "TS scaling-squaring on the mapped points", track="ts_ss")
            W4 = table(x, fexp(sh, sc, 1.))
            st = int(np.ceil(sc))
            lim = truncated_power(x, sh, sc, st)
            ctx.case(("tssub", f, m, sh, sc), True, f"leja_coeffs_ts_phi_substep f={f} m={m} shift={sh:.4g} scale={sc:.4g}")
            got = np.asarray(mp.leja_coeffs_ts_phi_substep(x, sh, sc))
            ctx.count("phi_variants")
            ctx.close(got.astype(complex), W4, 1e-9 * max(1., np.max(np.abs(W4))) * 10 ** (st / 3) + 3 * np.max(np.abs(lim - W4)), "ts_substep", "substepped TS(II) divided differences", track="ts_substep")


def phijax(ctx, ml, mp, i0):
    x = np.array([2., -2., 0., 1.])
    for k in (0, 1, 2):
        for shift, scale, h in ((0., .5, 1.), (-.6, .3, .5)):
            ctx.case(("jax", k, shift, scale, h), True, f"leja_coeffs_ts_phi_jax k={k} shift={shift} scale={scale} h={h}")
            W = table(x, lambda mm, v: mphi(mm, k, mm.mpf(h) * (mm.mpf(shift) + mm.mpf(scale) * v)))
            got = np.asarray(ml.leja_coeffs_ts_phi_jax(x, shift, scale, h, k))
            ctx.count("phi_variants")
            j = 0 if k == 0 else 1
            ctx.close(got[j:].astype(complex), W[j:], 2e-6, "ts_phi_jax", "TS(II) phi divided differences (jax)")
            if k:
                # the listed finding is exactly: exp(z0) in place of phi_k(z0)
                known = abs(got[0] - np.exp(h * (shift + scale * x[0]))) < 1e-5
                ctx.close(got[:1].astype(complex), W[:1], 2e-6, "ts_phi_jax_first" if known else "ts_phi_jax", "first coefficient for k > 0 (jax)")
