"""C01 dense phi-function matrices: online monitors on the evaluators' return values and warnings."""
import math, warnings
import numpy as np
from ormon import gen, refs

LEVEL_RULE = ("random square matrices of 16 structural kinds (singular, defective, nilpotent, skew, stiff, rate, ...) and "
              "sizes, scaled over many decades; every dense evaluator and order is called and judged against a longdouble "
              "reference with a propagated a-priori error bound; non-trivial = nonzero matrix with bound below 0.3 of the result norm")
MIN = {"ext": 150, "sq": 150, "inv_judged": 60, "warned": 40, "poly": 60}
ASSUMPTIONS = ["x64 enabled", "longdouble Taylor/squaring reference (cross-checked on scalars by closed forms)"]


def units(tier):
    ns = [1, 2, 3, 4, 6, 9] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 24]
    u = [(f"n{n}", {"n": n}) for n in ns]
    u.append(("scalar", {}))
    u.append(("warn", {}))
    return u


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as M
    if name == "scalar":
        return scalar(ctx, jnp, M)
    if name == "warn":
        return warn(ctx, jnp, M)
    n = p["n"]
    rng = ctx.rng
    for it in range(ctx.n(45, 400)):
        if not ctx.more():
            break
        kind = gen.KINDS[it % len(gen.KINDS)]
        hi = 1.5 if it % 3 else (4.0 if it % 2 else 7.0)
        A, s = gen.scaled(rng, kind, n, -6 if it % 4 == 0 else -1.5, hi)
        judge(ctx, jnp, M, A, kind)


def judge(ctx, jnp, M, A, kind):
    n = A.shape[0]
    rng = ctx.rng
    Z = jnp.asarray(A)
    key = (kind, n, tuple(np.round(A.ravel()[:4], 12)), refs.inorm(A))
    ctx.case(key, refs.inorm(A) > 0, f"{kind} n={n} |A|inf={refs.inorm(A):.3e} A={np.array2string(A.ravel()[:9], precision=6)}")
    # --- extension formula
    kmax = 4
    ph = refs.phis(A, kmax)
    k = int(rng.integers(0, kmax + 1))
    for kk in {k, (k + 1) % (kmax + 1)}:
        Aext = refs.ld(np.zeros(((kk + 1) * n,) * 2)) if kk else refs.ld(A)
        if kk:
            Aext[:n, :n] = A
            Aext[:kk * n, n:] += np.eye(kk * n)
        b = refs.expm_err_bound(Aext)
        if b < 1e-3 * max(1e-3, refs.inorm(ph[kk])):
            ctx.count("ext")
            ctx.close(M.f_phi_k_ext(Z, kk), ph[kk], b, "ext", f"f_phi_k_ext k={kk}", track="ext")
            if kk == k:
                al = M.f_phi_k_ext(Z, kk, return_all=True)
                ctx.close(al, np.array(ph[:kk + 1]), b, "ext_all", f"f_phi_k_ext return_all k={kk}", track="ext_all")
    # --- scaling and squaring
    for kk in range(0, 4):
        pr, bd, N = refs.sq_bounds(A, kk)
        if bd[kk] > 0.3 * refs.inorm(pr[kk]):
            ctx.count("sq_skipped_bound")
            continue
        ctx.count("sq")
        if kk == 3 or kk == k % 4:
            al = list(M.f_phi_k_sq_all(Z, kk))
            ctx.ok(len(al) == kk + 1, "sq_all_len", f"{len(al)} orders returned for k={kk}")
            for j in range(kk + 1):
                ctx.close(inrow(al[j], pr[j]), 0., bd[j], "sq_all", f"f_phi_k_sq_all k={kk} slot {j} (squarings {N})", track=f"sq{kk}{j}")
        else:
            ctx.close(inrow(M.f_phi_k_sq(Z, kk), pr[kk]), 0., bd[kk], "sq", f"f_phi_k_sq k={kk}", track="sq")
            if kk == (k + 1) % 4:
                al = np.asarray(M.f_phi_k_sq(Z, kk, return_all=True))
                if ctx.ok(al.shape == (kk + 1, n, n), "sq_all", f"return_all shape {al.shape}"):
                    for j in range(kk + 1):
                        ctx.close(inrow(al[j], pr[j]), 0., bd[j], "sq_all", f"f_phi_k_sq return_all k={kk} slot {j}")
    # --- polynomial start values (only in their range of use |z|<1/8)
    t = refs.inorm(A)
    if t > 0:
        zs = A * (0.12 / t)
        deg = int(rng.choice([4, 4, 6, 9]))
        kk = int(rng.integers(0, min(4, deg)))
        pz = refs.phis(zs, kk)
        got = M.f_phi_k_poly_all(jnp.asarray(zs), kk, deg)
        ctx.count("poly")
        for j in range(kk + 1):
            tr = 1.02 * 0.12 ** (deg + 1 - j) / math.factorial(deg + 1) / (1 - .12 / (deg + 2)) + 1e-14
            ctx.close(inrow(got[j], pz[j]), 0., tr, "poly", f"f_phi_k_poly_all k={kk} slot {j} deg={deg}", track="poly")
    # --- inverse based: accuracy bound by the triangular solves; warns instead of lying
    kk = int(rng.integers(0, 5))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = np.asarray(M.f_phi_k(Z, kk))
    warned = len([x for x in w if "singular" in str(x.message) or "inaccurate" in str(x.message)]) > 0
    b = inv_bound(A, kk, ph)
    sv = np.linalg.svd(A, compute_uv=False)
    if warned:
        ctx.count("warned_rand")
        r = float(np.min(sv))
        # spurious warning: well conditioned argument must not warn (QR diagonal >= smallest singular value)
        ctx.ok(not (r > 1e-1 and kk <= 4 and r ** kk > 1e-6), "spurious_warn", f"warning for k={kk} although smallest singular value is {r:.3g}")
    elif np.isfinite(b) and b < 1e-2 * refs.inorm(ph[kk]):
        ctx.count("inv_judged")
        ctx.close(inrow(got, ph[kk]), 0., b, "inv", f"f_phi_k k={kk} sigma_min={np.min(sv):.2e}", track="inv")
    val, est = M.f_phi_k_inv(Z, kk, refs.EPS)
    if kk == 0:
        ctx.ok(float(est) <= 1e-10, "inv_est", f"error estimate {est} for k=0")
    if np.isfinite(b) and b < 1e-2 * refs.inorm(ph[kk]):
        ctx.close(inrow(val, ph[kk]), 0., b, "inv", f"f_phi_k_inv k={kk}", track="inv")


def inrow(got, want):
    """scalar infinity-norm error (nan-propagating)"""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        return np.array(np.nan)
    d = np.abs(g.astype(np.result_type(w.dtype, g.dtype)) - w)
    return np.array(float(np.max(np.sum(d, axis=-1))))


def inv_bound(A, k, ph):
    n = A.shape[0]
    with np.errstate(all="ignore"):
        try:
            sv = np.linalg.svd(A, compute_uv=False)
            si = 1.0 / sv[-1] if sv[-1] > 0 else np.inf
        except np.linalg.LinAlgError:
            return np.inf
        e = refs.expm_err_bound(A)
        for j in range(1, k + 1):
            rhs = refs.inorm(ph[j - 1]) + 1.0
            cond = sv[0] * si
            e = 3 * np.sqrt(n) * si * (e + 60 * n * refs.EPS * rhs) + 60 * n * refs.EPS * cond * refs.inorm(ph[j])
    return e


def scalar(ctx, jnp, M):
    """1x1 and diagonal arguments against closed forms (mpmath): tight truncation model, every order."""
    import mpmath as mp
    mp.mp.dps = 40
    rng = ctx.rng

    def phi(z, k):
        z = mp.mpf(float(z))
        if abs(z) < 1e-3:
            return mp.nsum(lambda m: z ** int(m) / mp.factorial(int(m) + k), [0, 25])
        v = mp.exp(z)
        for j in range(k):
            v = (v - 1 / mp.factorial(j)) / z
        return v
    for it in range(ctx.n(90, 900)):
        if not ctx.more():
            break
        z = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 2.7 if it % 2 else 1))
        z = min(z, 30.)
        d = np.array([z, z * rng.uniform(-.5, 1), 0.0]) if it % 3 == 0 else np.array([z])
        A = np.diag(d)
        ctx.case(("scalar", tuple(d)), True, f"diag {d}")
        for k in range(5):
            ref = np.diag([float(phi(x, k)) for x in d])
            b = refs.expm_err_bound(refs.aug(np.diag(d), np.eye(len(d)), k)) if k else refs.expm_err_bound(A)
            ctx.close(M.f_phi_k_ext(jnp.asarray(A), k), ref, b, "ext", f"f_phi_k_ext diag k={k}", track="ext_scalar")
            ctx.count("ext")
            if k < 4:
                pr, bd, N = refs.sq_bounds(A, k)
                ctx.close(inrow(M.f_phi_k_sq(jnp.asarray(A), k), ref), 0., bd[k], "sq", f"f_phi_k_sq diag k={k}", track="sq_scalar")
                ctx.count("sq")


def warn(ctx, jnp, M):
    """singular / nearly singular arguments must warn (k>=1); comfortable ones must not."""
    rng = ctx.rng
    for it in range(ctx.n(80, 600)):
        if not ctx.more():
            break
        n = int(rng.choice([2, 3, 5]))
        k = int(rng.integers(1, 5))
        fam = it % 5
        if fam == 0:      # exactly singular in the QR diagonal
            A = np.diag(rng.standard_normal(n)); A[int(rng.integers(n)), :] = 0
        elif fam == 1:    # zero
            A = np.zeros((n, n))
        elif fam == 2:    # tiny diagonal entry: r_min = t
            A = np.diag(rng.uniform(.5, 2, n)); A[0, 0] = 10 ** (rng.uniform(-15, -8.6) / (k if it % 2 else 1))
        elif fam == 3:    # scaled orthogonal: r_min = t exactly up to rounding
            A = gen.orth(rng, n) * 10 ** (rng.uniform(-14, -8.6) / (k if it % 2 else 1))
        else:
            A = gen.orth(rng, n) * rng.uniform(.7, 2.)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = np.asarray(M.f_phi_k(jnp.asarray(A), k))
        warned = any("singular" in str(x.message) or "inaccurate" in str(x.message) for x in w)
        ctx.case(("warn", fam, n, k, tuple(A.ravel()[:3])), True, f"family {fam} n={n} k={k} A={A.ravel()[:9]}")
        if fam < 4:
            ctx.count("warned", int(warned))
            ctx.ok(warned, "no_warning", f"no accuracy warning for nearly singular argument (family {fam}, k={k})")
        else:
            ctx.count("quiet", int(not warned))
            ctx.ok(not warned, "spurious_warn", f"accuracy warning for a scaled orthogonal argument, k={k}")
            ctx.close(got, refs.phis(A, k)[k], inv_bound(A, k, refs.phis(A, k)), "inv", f"f_phi_k orth k={k}", track="inv")
