"""C17 linear operators against dense NumPy algebra."""
import numpy as np
from ormon import refs, iref, gen

LEVEL_RULE = ("every operator class on random matrices (dense, BCOO, BCSR, empty, duplicate-entry sparse), real and complex vectors, nested augmented operators of depth 1-3; "
              "oracle: extended-precision dense block algebra; inputs compared bitwise before/after; non-trivial = n >= 2 with a non-symmetric matrix")
MIN = {"apply": 800, "linearity": 100, "dense": 150, "sparse_pair": 30, "aug": 80, "nested": 20, "nonsquare": 15, "unchanged": 100, "wrapper": 30, "complex": 60}
ASSUMPTIONS = []
EPS = refs.EPS


def units(tier):
    reps = 1 if tier == "quick" else 8
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("basic", "sparse", "aug", "nested", "shape", "wrap", "tilde")]


def vec(rng, n, cplx):
    v = rng.standard_normal(n) * 10. ** rng.uniform(-3, 3)
    return v + 1j * rng.standard_normal(n) if cplx else v


def matrix(rng, n, i):
    M = rng.standard_normal((n, n)) * 10. ** rng.uniform(-3, 3)
    k = i % 5
    if k == 1:
        M = M * (rng.random((n, n)) < .3)
    elif k == 2:
        M = np.triu(M)
    elif k == 3:
        M = M + 1j * rng.standard_normal((n, n))
    elif k == 4:
        M = np.zeros((n, n)) if rng.random() < .4 else np.outer(M[0], M[-1])
    return M


def mv(M, v):
    M, v = np.asarray(M), np.asarray(v)
    if np.iscomplexobj(M) or np.iscomplexobj(v):
        return M.astype(np.clongdouble) @ v.astype(np.clongdouble)
    return refs.ld(M) @ refs.ld(v)


def check(ctx, op, M, what, dense=True, cplx=None, nvec=3):
    """apply op in all ways and compare with the dense matrix M"""
    import jax.numpy as jnp
    rng, n = ctx.rng, len(M)
    for j in range(nvec):
        c = bool(rng.integers(2)) if cplx is None else cplx
        v = vec(rng, n, c)
        if j == 2 and n > 1:
            v[rng.integers(n):] = 0
        if c:
            ctx.count("complex")
        vj = jnp.asarray(v)
        want = mv(M, v)
        tol = 20 * (n + 2) * EPS * float(np.max(np.abs(M) @ np.abs(v))) + 1e-300
        for how, f in (("matvec", op.matvec), ("call", op), ("npcompat", op.matvec_npcompat)):
            got = f(vj)
            ctx.count("apply")
            if how == "npcompat":
                ctx.ok(isinstance(got, np.ndarray), "np_type", f"{what}: matvec_npcompat returned {type(got)}")
                if not c:
                    gn = op.matvec_npcompat(v)
                    ctx.ok(np.array_equal(np.asarray(gn), np.asarray(got)), "np_input", f"{what}: numpy input gives another result")
            got = np.asarray(got)
            if ctx.ok(got.shape == (n,), "shape", f"{what}: {how} returned shape {got.shape}"):
                ctx.close(got, want, tol, how, f"{what}: {how}", track="apply")
        ctx.count("unchanged")
        ctx.ok(np.array_equal(np.asarray(vj), v), "input", f"{what}: vector modified")
    # linearity
    a, b = float(rng.standard_normal()), float(rng.standard_normal())
    x, y = vec(rng, n, False), vec(rng, n, False)
    lhs = np.asarray(op.matvec(jnp.asarray(a * x + b * y)))
    rhs = a * np.asarray(op.matvec(jnp.asarray(x))) + b * np.asarray(op.matvec(jnp.asarray(y)))
    ctx.count("linearity")
    ctx.close(lhs, rhs, 60 * (n + 2) * EPS * float(np.max(np.abs(M) @ (np.abs(a * x) + np.abs(b * y)))) + 1e-300, "linearity", f"{what}: linearity")
    if dense:
        D = np.asarray(op.dense())
        ctx.count("dense")
        ctx.ok(D.shape == M.shape and np.array_equal(D, M), "dense", f"{what}: dense form differs by {np.max(np.abs(D - M)) if D.shape == M.shape else D.shape}")


def run(ctx, name, p):
    import jax
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py import ode_sys
    rng, kind = ctx.rng, p["k"]
    E, D_, M_, Aug = ode_sys.EyeLinOp, ode_sys.DiagLinOp, ode_sys.MatrixLinOp, ode_sys.AugMatrixLinOp

    def sparse_of(M, i):
        if i % 3 == 0:
            return jsp.BCOO.fromdense(jnp.asarray(M)), "bcoo"
        if i % 3 == 1:
            return jsp.BCSR.fromdense(jnp.asarray(M)), "bcsr"
        # duplicated, unsorted coordinates adding up to M
        n = len(M)
        ii, jj = np.nonzero(M)
        w = rng.uniform(.2, .8, len(ii))
        w = np.round(w * 8) / 8
        idx = np.concatenate([np.stack([ii, jj], 1), np.stack([ii, jj], 1)]).reshape(-1, 2)
        dat = np.concatenate([M[ii, jj] * w, M[ii, jj] - M[ii, jj] * w])
        pr = rng.permutation(len(dat))
        return jsp.BCOO((jnp.asarray(dat[pr]), jnp.asarray(idx[pr])), shape=(n, n)), "bcoo_dup"

    if kind == "basic":
        for i in range(ctx.n(60, 400)):
            if not ctx.more():
                break
            n = int([1, 2, 3, 4, 7, 12][i % 6])
            M = matrix(rng, n, int(rng.integers(5)))
            d = np.diag(M).copy()
            ctx.case(("basic", n, i % 5), n > 1, f"identity/diagonal/dense n={n} #{i}")
            check(ctx, E(n), np.eye(n), f"EyeLinOp({n})", nvec=2)
            dj = jnp.asarray(d)
            check(ctx, D_(dj), np.diag(d), f"DiagLinOp n={n}", nvec=2)
            mj = jnp.asarray(M)
            op = M_(mj)
            check(ctx, op, M, f"MatrixLinOp n={n}")
            ctx.ok(np.array_equal(np.asarray(mj), M) and np.array_equal(np.asarray(dj), d), "input", "matrix modified")
            # a second operator of the same shape does not disturb the first
            op2 = M_(jnp.asarray(M.T + 1.))
            check(ctx, op2, M.T + 1., f"second MatrixLinOp n={n}", nvec=1)
            check(ctx, op, M, f"first MatrixLinOp n={n} again", nvec=1)
    elif kind == "sparse":
        for i in range(ctx.n(50, 300)):
            if not ctx.more():
                break
            n = int([1, 2, 3, 5, 9, 12][i % 6])
            M = matrix(rng, n, int(rng.integers(5)))
            if rng.random() < .7:
                M = M * (rng.random((n, n)) < rng.uniform(0, 1))
            sp, k = sparse_of(M, i)
            ctx.case(("sparse", n, k, int(np.count_nonzero(M))), n > 1, f"{k} n={n} nnz={np.count_nonzero(M)} #{i}")
            op, dn = M_(sp), M_(jnp.asarray(M))
            ctx.count("sparse_pair")
            if k == "bcoo_dup":
                D = np.asarray(op.dense())
                ctx.close(D, M, 4 * EPS * np.max(np.abs(M), initial=0.) + 1e-300, "dense", f"{k}: dense form")
                check(ctx, op, M, f"MatrixLinOp({k}) n={n}", dense=False)
            else:
                check(ctx, op, M, f"MatrixLinOp({k}) n={n}")
            v = vec(rng, n, False)
            ctx.close(np.asarray(op.matvec(jnp.asarray(v))), np.asarray(dn.matvec(jnp.asarray(v))), 20 * (n + 2) * EPS * float(np.max(np.abs(M) @ np.abs(v))) + 1e-300, "sparse_dense", f"{k} vs dense storage")
            ctx.ok(np.array_equal(np.asarray(sp.todense()), np.asarray(M_(sp).dense())), "dense", "sparse dense form")
    elif kind in ("aug", "nested"):
        for i in range(ctx.n(60, 300)):
            if not ctx.more():
                break
            n, M = int([3, 1, 2, 5, 4][i % 5]), None
            M = matrix(rng, n, int(rng.integers(5)))
            w = i % 4
            if w == 0:
                op = M_(jnp.asarray(M))
            elif w == 1:
                op, M = D_(jnp.asarray(np.diag(M).copy())), np.diag(np.diag(M))
            elif w == 2:
                op = M_(sparse_of(M, int(rng.integers(2)))[0])
            else:
                op, M = E(n), np.eye(n)
            depth = 1 if kind == "aug" else int(rng.integers(2, 4))
            dims = []
            for d in range(depth):
                pcol = int(rng.integers(1, 5))
                dt = float(rng.choice([1., 0., rng.standard_normal(), -.3]))
                B = rng.standard_normal((len(M), pcol)) * 10. ** rng.uniform(-2, 2)
                K = rng.standard_normal((pcol, pcol)) if rng.random() < .5 else np.eye(pcol, k=1)
                if rng.random() < .2:
                    B = B + 1j * rng.standard_normal(B.shape)
                ks = jnp.asarray(K) if rng.random() < .5 else jsp.BCOO.fromdense(jnp.asarray(K))
                bs = jnp.asarray(B) if rng.random() < .6 else jsp.BCOO.fromdense(jnp.asarray(B))
                op = Aug(op, dt, bs, ks)
                M = np.block([[dt * M, B], [np.zeros((pcol, len(M))), K]])
                dims.append(pcol)
            ctx.case((kind, n, w, tuple(dims)), n > 1, f"augmented operator over {type(op.a_lo).__name__}, dims {dims} #{i}")
            ctx.count("aug" if kind == "aug" else "nested")
            check(ctx, op, M, f"AugMatrixLinOp dims {dims} dt={dt}", dense=False)
            ctx.ok(np.array_equal(np.asarray(bs.todense() if hasattr(bs, "todense") else bs), B), "input", "augmented block modified")
        for (nb, pb), kshape in (((3, 2), (3, 3)), ((3, 2), (2, 3)), ((3, 2), (3, 2)), ((2, 4), (1, 1))):
            ctx.case(("augshape", nb, pb, kshape), True, f"inconsistent blocks B{(nb, pb)} K{kshape}")
            ctx.count("nonsquare")
            try:
                Aug(E(nb), 1., jnp.ones((nb, pb)), jnp.ones(kshape))
                ctx.violate("nonsquare", f"augmented operator accepted B {(nb, pb)} with K {kshape}")
            except (AssertionError, ValueError, TypeError):
                pass
    elif kind == "shape":
        for shape in ((2, 3), (3, 2), (1, 4), (5,), (2, 2, 2), (4, 1), (0, 3)):
            for st in ("dense", "bcoo"):
                ctx.case(("shape", shape, st), True, f"matrix of shape {shape} as {st}")
                ctx.count("nonsquare")
                try:
                    a = jnp.ones(shape)
                    if st == "bcoo":
                        a = jsp.BCOO.fromdense(a)
                    M_(a)
                    ctx.violate("nonsquare", f"MatrixLinOp accepted shape {shape} ({st})")
                except (AssertionError, ValueError, TypeError):
                    pass
    elif kind == "wrap":
        for i in range(ctx.n(36, 200)):
            n = int([3, 2, 1, 5][i % 4])
            S = iref.random_system(rng, n)
            k = ("ad", "custom", "customfd", "fd")[i % 4]
            sys, F = iref.make(S, k), iref.F(S)
            t, u = float(rng.uniform(-2, 2)), rng.standard_normal(n)
            uj = jnp.asarray(u)
            desc = f"system wrappers {k} n={n} #{i}"
            ctx.case(("wrap", k, n), n > 1, desc)
            ctx.count("wrapper")
            fn = np.asarray(sys.frhs(t, uj))
            tol = 60 * n * EPS * (F.fabs(t, u) + 1e-300)
            ctx.close(fn, F.f(t, u), tol, "frhs", f"{desc}: right-hand side")
            ctx.ok(np.array_equal(np.asarray(sys(t, uj)), fn), "alias", f"{desc}: __call__ differs from frhs")
            ctx.ok(np.array_equal(np.asarray(sys(t, uj, None)), fn), "alias", f"{desc}: __call__ with args differs")
            npw = ode_sys.OdeSysNp(sys)
            for nm, x in (("flat jax", uj), ("flat numpy", u.copy()), ("column", u.reshape(-1, 1)), ("row", u.reshape(1, -1))):
                keep = np.array(x)
                g = npw.frhs(t, x)
                ctx.ok(isinstance(g, np.ndarray) and g.shape == (n,), "np_wrapper", f"{desc}: numpy wrapper returned {type(g)} {getattr(g, 'shape', None)} for {nm}")
                ctx.close(np.asarray(g), fn, tol, "np_wrapper", f"{desc}: numpy wrapper value ({nm})")
                ctx.ok(np.array_equal(np.asarray(x), keep), "input", f"{desc}: state modified")
                J = npw.fjac(t, x)
                v = rng.standard_normal(n)
                a, b = np.asarray(J.matvec_npcompat(jnp.asarray(v))), np.asarray(sys.fjac(t, uj).matvec(jnp.asarray(v)))
                ctx.ok(a.shape == (n,) and np.allclose(a, b, rtol=1e-13, atol=1e-13 * (1 + np.max(np.abs(b)))), "np_wrapper_jac", f"{desc}: wrapped Jacobian differs ({nm})")
                ctx.close(np.asarray(J._frhs_cached()), fn, tol, "np_wrapper_jac", f"{desc}: wrapped cached rhs")
            kw = {"gain": 1.7, "src": .3}
            ctx.close(np.asarray(npw.frhs(t, uj, **kw)), iref.F(S, kw).f(t, u), 2 * tol + 1e-13, "np_wrapper_kw", f"{desc}: numpy wrapper arguments")
            fm = sys.fm(t, uj)
            check(ctx, fm, np.eye(n), f"{desc}: mass operator", nvec=1)
            S["L1"] = rng.standard_normal((n, n))
            ss = iref.make(S)
            Lr = np.asarray(iref.F(S).L(t, u), float)
            op = ss.fl(t, uj)
            v = rng.standard_normal(n)
            ctx.close(np.asarray(op.matvec(jnp.asarray(v))), Lr @ v, 60 * n * EPS * (np.max(np.abs(S["L"]).sum(1) + abs(t) * np.abs(S["L1"]).sum(1)) * iref.inf(v)), "split", f"{desc}: split operator")
            ctx.close(np.asarray(op.dense()), Lr, 20 * EPS * np.max(np.abs(S["L"]) + abs(t) * np.abs(S["L1"])), "split_dense", f"{desc}: split operator dense form")
    elif kind == "tilde":
        # the augmented operator built for phi sums is the block matrix of its documentation
        from ormatex_py.matexp_leja import build_a_tilde
        for i in range(ctx.n(30, 200)):
            n, pc = int(rng.integers(1, 6)), int(rng.integers(1, 4))
            A = rng.standard_normal((n, n))
            dt = float(rng.uniform(-1, 1))
            vb = [rng.standard_normal(n) for _ in range(pc + 1)]
            ctx.case(("tilde", n, pc), n > 1, f"build_a_tilde n={n} p={pc}")
            keep = [x.copy() for x in vb]
            vj = [jnp.asarray(x) for x in vb]
            op, v, nn = build_a_tilde(M_(jnp.asarray(A)), dt, vj)
            ctx.count("aug")
            ctx.ok(int(nn) == n and np.shape(v) == (n + pc,), "tilde", f"n={nn}, vector shape {np.shape(v)}")
            # sum of phi-functions = first n entries of exp(A~) v: check through the dense operator of its action
            m = n + pc
            M = np.stack([np.asarray(op.matvec(jnp.asarray(np.eye(m)[:, j]))) for j in range(m)], 1)
            E_ = refs.expm_ld(M) if hasattr(refs, "expm_ld") else None
            ctx.ok(np.allclose(M[:n, :n], dt * A, rtol=1e-14, atol=0) and not np.any(M[n:, :n]), "tilde", "leading blocks of the augmented operator")
            ctx.ok(all(np.array_equal(np.asarray(a), b) for a, b in zip(vj, keep)), "input", "vectors modified")
            check(ctx, op, M, f"augmented phi operator n={n} p={pc}", dense=False, nvec=1)
            from scipy.linalg import expm
            ref = expm(dt * A) @ vb[0]
            for k in range(1, pc + 1):
                Z = np.block([[dt * A, vb[k][:, None], np.zeros((n, k - 1))], [np.zeros((k, n)), np.eye(k, k=1)]])
                ref = ref + expm(Z)[:n, -1]
            got = (expm(M) @ np.asarray(v))[:n]
            ctx.close(got, ref, 1e-11 * (1 + np.max(np.abs(ref)) + sum(np.max(np.abs(x)) for x in vb)), "tilde_value", f"phi sum through the augmented operator n={n} p={pc}")
