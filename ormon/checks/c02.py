"""C02 phi_k(Z)B: monitors on f_phi_k_appl."""
import numpy as np
from ormon import gen, refs

LEVEL_RULE = ("random (Z,B,k): 16 matrix kinds, n 1..10, 1..4 columns or flat vector, B over many decades, k 0..5; judged against "
              "longdouble phi_k(Z)B with the propagated bound of the squaring of the augmented matrix; non-trivial = Z, B nonzero and bound < 0.3 result")
MIN = {"judged": 200, "multi": 60, "zero_block": 10, "columns": 60, "contrast": 60}
ASSUMPTIONS = ["x64 enabled", "longdouble reference"]


def units(tier):
    ks = range(0, 6)
    return [(f"k{k}_{h}", {"k": k, "h": h}) for k in ks for h in range(2 if tier == "quick" else 4)]


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py.matexp_phi import f_phi_k_appl
    k, rng = p["k"], ctx.rng
    shapes = [(1, 1), (2, 3), (3, 0), (4, 2), (5, 1), (6, 4), (8, 0), (10, 2), (3, 3), (2, 0), (7, 1), (1, 3)]
    shapes = shapes[p["h"] % 2::2]
    for it in range(ctx.n(120, 900)):
        if not ctx.more():
            break
        n, m = shapes[it % len(shapes)]
        kind = gen.KINDS[int(rng.integers(len(gen.KINDS)))]
        A, s = gen.scaled(rng, kind, n, -4 if it % 4 == 0 else -1.5, 1.3 if it % 3 else (2.5 if it % 2 else 7.))
        bs = 10 ** rng.uniform(-8, 4) if it % 3 == 0 else 1.0
        B = rng.standard_normal((n, max(m, 1))) * bs
        if it % 9 == 4:
            # integer entries handed over as integers
            B = rng.integers(-5, 6, B.shape).astype(float)
            ctx.count("integer_block")
        if m > 1 and it % 5 == 0:
            B[:, int(rng.integers(m))] = 0
        contrast = m > 1 and it % 5 == 3 and it % 9 != 4
        if contrast:
            # columns of very different magnitude
            cs = np.exp2(-np.floor(rng.uniform(10, 90, m)))
            cs[int(rng.integers(m))] = 1.
            B = rng.uniform(.2, 1., B.shape) * np.sign(rng.standard_normal(B.shape)) * cs
        ctx.case((kind, n, m, k, A.ravel()[:3].tolist(), B.ravel()[:2].tolist()), refs.inorm(A) > 0,
                 f"k={k} {kind} n={n} cols={m or 'flat'} |A|={refs.inorm(A):.3e} |B|={refs.inorm(B):.3e}")
        exact, bound = ref(A, B, k)
        arg = jnp.asarray(B if m else B[:, 0])
        if it % 9 == 4:
            arg = arg.astype(int)
        got = np.asarray(f_phi_k_appl(jnp.asarray(A), arg, k))
        ctx.ok(got.shape == arg.shape, "shape", f"shape {got.shape} for B of shape {arg.shape}")
        if got.shape != arg.shape:
            continue
        g2 = got.reshape(n, -1)
        if bound < 0.3 * refs.inorm(exact) or refs.inorm(exact) == 0:
            ctx.count("judged")
            ctx.close(np.array(rows(g2 - exact)), 0., bound, "action", "f_phi_k_appl", track=f"k{k}")
        if m > 1:
            ctx.count("multi")
            j = int(rng.integers(m))
            e1, b1 = ref(A, B[:, j:j + 1], k)
            # the blocked action of a column vs. the exact action on the column alone
            if bound < 0.3 * max(refs.inorm(e1), 1e-300):
                ctx.count("columns")
                ctx.close(g2[:, j], e1[:, 0], bound, "column", f"column {j} of a {m}-column block")
            g1 = np.asarray(f_phi_k_appl(jnp.asarray(A), jnp.asarray(B[:, j:j + 1]), k))
            ctx.ok(g1.shape == (n, 1), "shape", f"single column block returned {g1.shape}")
            ctx.close(g1[:, 0], g2[:, j], bound + b1, "column", "column alone vs in block", track="col")
            if np.all(B[:, j] == 0):
                ctx.ok(np.all(g2[:, j] == 0), "zero_column", "zero column mapped to nonzero")
        if contrast:
            # powers of two commute with the computation except for the number of squarings
            eu, bu = ref(A, B / cs, k)
            if bu < 1e-2 * float(np.min(np.max(np.abs(eu), axis=0))):
                for j in range(m):
                    ctx.count("contrast")
                    ctx.close(g2[:, j] / cs[j], eu[:, j], 30 * bu, "contrast", f"column {j} of size {cs[j]:.1e} next to larger ones")
        if it % 8 == 0:
            z = np.asarray(f_phi_k_appl(jnp.asarray(A), jnp.zeros_like(arg), k))
            ctx.count("zero_block")
            ctx.ok(np.all(z == 0), "zero_block", f"zero block mapped to {z.ravel()[:4]}")
        if it % 6 == 0 and np.isfinite(bound):
            a = rng.uniform(-2, 2)
            B2 = rng.standard_normal(B.shape) * bs
            e2, b2 = ref(A, B2, k)
            e3, b3 = ref(A, a * B + B2, k)
            l = np.asarray(f_phi_k_appl(jnp.asarray(A), jnp.asarray((a * B + B2) if m else (a * B + B2)[:, 0]), k)).reshape(n, -1)
            r = np.asarray(f_phi_k_appl(jnp.asarray(A), jnp.asarray(B2 if m else B2[:, 0]), k)).reshape(n, -1)
            ctx.count("linear")
            ctx.close(l, a * g2 + r, abs(a) * bound + b2 + b3 + 1e-13 * (abs(a) * refs.inorm(g2) + refs.inorm(r)), "linear", "linearity in B")


def rows(d):
    return float(np.max(np.sum(np.abs(d), axis=1))) if d.size else 0.


def ref(A, B, k):
    """exact action and a bound on the inf-norm error"""
    if k == 0:
        e = refs.expm_err_bound(A)
        X = refs.expm(A) @ refs.ld(B)
        mb = float(np.max(np.sum(np.abs(B), axis=1)))
        return X, e * mb + 20 * A.shape[0] * refs.EPS * refs.inorm(refs.expm(A)) * mb
    X, e, N = refs.appl_bound(A, B, k)
    return X, e
