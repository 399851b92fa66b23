"""C19 decay / transmutation matrices and the analytic Bateman solution."""
import numpy as np
from ormon import refs, iref

LEVEL_RULE = ("random decay libraries (single, multi-branch, repeated branches, sinks, permuted and extra keys, rates over 14 decades); oracle: exact rational accumulation of the library, "
              "column sums and signs; evolution by the library's own exponentials and integrators monitored for non-negativity and inventory; analytic chain solution vs 60-digit arithmetic; "
              "non-trivial = at least two species and one transfer")
MIN = {"tiny_rates": 15, "integer_times": 4, "matrix": 150, "colsum": 150, "permuted": 100, "transmute": 60, "evolve": 25, "conserve": 8, "analytic": 60, "refused": 6, "system": 15, "builtin": 4}
ASSUMPTIONS = ["60-digit mpmath exponentials as reference for the analytic chain"]
EPS = refs.EPS


def units(tier):
    reps = 1 if tier == "quick" else 8
    return [(f"{k}_{r}", {"k": k, "r": r}) for r in range(reps) for k in ("matrix", "evolve", "analytic", "system", "builtin")]


def library(rng, n, closed=False, lo=-10, hi=4):
    """(library, keymap, exact entries {(dest, src): sum}, leaving rates)"""
    from fractions import Fraction as Fr
    keys = [f"s{i}" for i in range(n)]
    lib, ent, leave = {}, {}, {}

    def put(d, s, v):
        ent[d, s] = ent.get((d, s), Fr(0)) + v

    for i in range(n):
        def rate():
            return float(10. ** rng.uniform(lo, hi)) if rng.random() < .95 else 0.

        def child():
            if not closed and rng.random() < .3:
                return "none"
            c = int(rng.integers(n))
            return keys[c] if c != i else ("none" if not closed else keys[(i + 1) % n])
        if closed and n == 1:
            lib[keys[i]] = ("none", 0.0)
            continue
        w = rng.random()
        if w < .45:
            br = [(child(), rate())]
            lib[keys[i]] = br[0]
        elif w < .55:
            br = [(child(), rate())]
            lib[keys[i]] = (br[0],)
        else:
            br = [(child(), rate()) for _ in range(int(rng.integers(2, 5)))]
            if rng.random() < .3:
                br.append(br[0])          # repeated branch: adds up
            lib[keys[i]] = tuple(br)
        for c, r in br:
            put(i, i, -Fr(r))
            if c == "none":
                leave[i] = leave.get(i, Fr(0)) + Fr(r)
            else:
                put(keys.index(c), i, Fr(r))
    return lib, keys, ent, leave


def mat_of(ent, n):
    M = np.zeros((n, n))
    for (d, s), v in ent.items():
        M[d, s] = float(v)
    return M


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py.progression import bateman_sys as B
    rng, kind = ctx.rng, p["k"]
    if kind == "matrix":
        for i in range(ctx.n(260, 2000)):
            if not ctx.more():
                break
            n = int([3, 1, 2, 5, 12, 8][i % 6])
            # every eighth library: microscopic cross sections (cm^2), every other eighth: huge rates
            lo, hi = (-60, -18) if i % 8 == 2 else (15, 60) if i % 8 == 4 else (-10, 4)
            ctx.count("tiny_rates", int(i % 8 == 2))
            lib, keys, ent, leave = library(rng, n, closed=i % 4 == 3, lo=lo, hi=hi)
            M = mat_of(ent, n)
            desc = f"n={n} library {str(lib)[:300]}"
            nt = n > 1 and any(d != s for d, s in ent)
            ctx.case(("matrix", n, len(ent), i % 4 == 3), nt, desc)
            ctx.count("matrix")
            keep = dict(lib)
            got = np.asarray(B.gen_bateman_matrix(keys, lib))
            ctx.ok(lib == keep, "input", f"{desc}: library modified")
            tol = 8 * EPS * np.abs(M) + 1e-300
            ctx.close(got, M, tol, "matrix", desc, track="matrix")
            # physics of the matrix, from the library alone
            lv = np.array([float(leave.get(j, 0)) for j in range(n)])
            ctx.count("colsum")
            ctx.close(got.astype(np.longdouble).sum(0), -lv, 20 * n * EPS * np.abs(M).sum(0) + 1e-300, "colsum", f"{desc}: column sums vs leaving rates")
            off = got - np.diag(np.diag(got))
            ctx.ok(np.all(off >= 0) and np.all(np.diag(got) <= 0), "sign", f"{desc}: negative transfer or positive loss")
            # order of the species list and extra library entries are irrelevant
            pm = rng.permutation(n)
            lib2 = {k: lib[k] for k in rng.permutation(list(lib))}
            lib2["unused"] = ("s0", 1.0)
            g2 = np.asarray(B.gen_bateman_matrix([keys[j] for j in pm], lib2))
            ctx.count("permuted")
            ctx.close(g2, got[np.ix_(pm, pm)], 8 * EPS * np.abs(got[np.ix_(pm, pm)]) + 1e-300, "permuted", f"{desc}: species order {pm}")
            # renamed species
            ren = {k: f"x{j}_{k}" for j, k in enumerate(keys)}
            ren["none"] = "none"
            lib3 = {ren[k]: ((ren[v[0]], v[1]) if not isinstance(v[0], tuple) else tuple((ren[c], r) for c, r in v)) for k, v in lib.items()}
            g3 = np.asarray(B.gen_bateman_matrix([ren[k] for k in keys], lib3))
            ctx.ok(np.array_equal(g3, got), "renamed", f"{desc}: renaming species changes the matrix")
            if i % 2 == 0:
                phi = float(rng.choice([1., 0., 10. ** rng.uniform(-5, 15)]))
                tr = np.asarray(B.gen_transmute_matrix(keys, lib, phi) if i % 4 else B.gen_transmute_matrix(keys, lib, phi=phi))
                ctx.count("transmute")
                ctx.close(tr, -phi * M, 12 * EPS * np.abs(phi * M) + 1e-300, "transmute", f"{desc}: flux {phi}")
                ctx.close(np.asarray(B.gen_transmute_matrix(keys, lib)), -M, tol, "transmute_default", f"{desc}: default flux")
        for lib, keys in (({"a": ("b", 1.)}, ["a"]), ({"a": (("b", 1.), ("none", 2.))}, ["a"]), ({"a": ("none", 1.)}, ["a", "b"])):
            ctx.case(("missing", str(keys)), True, f"missing species {lib} {keys}")
            ctx.count("refused")
            try:
                r = B.gen_bateman_matrix(keys, lib)
                ctx.violate("missing", f"library {lib} with species {keys} accepted: {r}")
            except (KeyError, ValueError, IndexError, AssertionError):
                pass
    elif kind == "evolve":
        from ormatex_py.matexp_phi import f_phi_k_sq, f_phi_k_appl
        from ormatex_py.integrate_wrapper import integrate
        from ormatex_py.ode_sys import MatrixLinOp
        from ormatex_py.matexp_krylov import matexp_linop
        meths = ["exp2_dense", "exprb2", "exprb2_dense", "exp_pfd", "epi2", "exp1"]
        for i in range(ctx.n(36, 250)):
            if not ctx.more():
                break
            n = int([3, 2, 5, 8][i % 4])
            closed = i % 2 == 0
            lib, keys, ent, leave = library(rng, n, closed=closed, lo=-4, hi=1)
            M = mat_of(ent, n)
            A = np.asarray(B.gen_bateman_matrix(keys, lib))
            u0 = rng.uniform(0, 1, n) * 10. ** rng.uniform(-6, 2, n)
            tot = u0.sum()
            h = float(10. ** rng.uniform(-2, 1)) * 4 / max(np.abs(M).sum(0).max(), 1e-3)
            ref = np.asarray(refs.expm(refs.ld(M) * h) @ refs.ld(u0), float)
            desc = f"{'closed' if closed else 'open'} n={n} h|A|={h * np.abs(M).sum(0).max():.3g} #{i}"
            ctx.case(("evolve", n, closed, i % 6), n > 1, desc)
            outs = {"f_phi_k_sq": np.asarray(f_phi_k_sq(jnp.asarray(A) * h, 0)) @ u0, "f_phi_k_appl": np.asarray(f_phi_k_appl(jnp.asarray(A) * h, jnp.asarray(u0), 0)),
                    "matexp_linop": np.asarray(matexp_linop(MatrixLinOp(jnp.asarray(A)), h, jnp.asarray(u0), n))}
            m = meths[i % 6]
            r = integrate(B.TestBatemanSysJac(keys, lib), jnp.asarray(u0), 0., h / 4, 4, m, **({"max_krylov_dim": n + 1} if m in ("exprb2", "epi2", "exp1") else {}))
            outs[m] = np.asarray(r.y[-1])
            for k, v in outs.items():
                ctx.count("evolve")
                # the scaling-and-squaring evaluation carries its documented truncation error
                tol = (3e-6 if k == "f_phi_k_sq" or k.endswith("_dense") else 1e-6) * tot
                ctx.close(v, ref, tol, "evolve", f"{desc}: {k}", track="evolve")
                ctx.ok(np.all(v >= -tol), "negative", f"{desc}: {k} concentration {v.min():.3e} of total {tot:.3e}")
                if closed:
                    ctx.count("conserve")
                    ctx.ok(abs(v.sum() - tot) <= tol, "conserve", f"{desc}: {k} inventory {v.sum()} from {tot}")
                else:
                    ctx.ok(v.sum() <= tot + tol, "gain", f"{desc}: {k} inventory grew {tot} -> {v.sum()}")
    elif kind == "analytic":
        import mpmath as mp
        mp.mp.dps = 60
        for i in range(ctx.n(90, 600)):
            if not ctx.more():
                break
            n = int([3, 1, 2, 4, 6, 8][i % 6])
            span = float(rng.uniform(.5, 10))
            lam = 10. ** (rng.uniform(-span, span / 2, n))
            # distinct rates: neighbours in size at least 5% apart
            s = np.sort(lam)
            while n > 1 and np.min(s[1:] / s[:-1]) < 1.05:
                lam = 10. ** (rng.uniform(-span, span / 2, n))
                s = np.sort(lam)
            if i % 5 == 4:
                lam[-1] = 0.      # stable end of the chain
            keys = [f"c{j}" for j in range(n)]
            lib = {keys[j]: (keys[j + 1] if j + 1 < n else "none", float(lam[j])) for j in range(n)}
            M = np.asarray(B.gen_bateman_matrix(keys, lib))
            n0 = float(rng.choice([1., 0., 10. ** rng.uniform(-8, 8)]))
            T = 3 / max(lam.min(), 1e-12 * lam.max()) if lam.min() > 0 else 3 / lam[lam > 0].min() if n > 1 else 5.
            t = np.sort(np.concatenate([[0.], T * 10. ** rng.uniform(-6, 0, 4), [T]]))
            if i % 3 == 0:
                t = rng.permutation(t)
            if i % 7 == 3 and T > 6:      # integer time points
                t = np.unique(t.astype(np.int64))
                ctx.count("integer_times")
            desc = f"chain n={n} span={span:.1f} decades n0={n0:.3g} #{i}"
            ctx.case(("analytic", n, i % 5 == 4), n > 1, desc)
            ctx.count("analytic")
            Mk = M.copy()
            N = B.analytic_bateman_single_parent(t, M if i % 2 else jnp.asarray(M), n0)
            if not ctx.ok(np.shape(N) == (len(t), n), "shape", f"{desc}: shape {np.shape(N)}"):
                continue
            ctx.ok(np.array_equal(M, Mk), "input", f"{desc}: matrix modified")
            L = [mp.mpf(float(x)) for x in lam]
            want, tol = np.zeros((len(t), n)), np.zeros((len(t), n))
            for a, tt in enumerate(t):
                for b in range(n):
                    pr = mp.mpf(1)
                    for j in range(b):
                        pr *= L[j]
                    sm, mx = mp.mpf(0), mp.mpf(0)
                    for k in range(b + 1):
                        d = mp.mpf(1)
                        for j in range(b + 1):
                            if j != k:
                                d *= L[j] - L[k]
                        term = mp.e ** (-L[k] * mp.mpf(float(tt))) / d
                        sm += term
                        mx += abs(term) * (1 + L[k] * mp.mpf(float(tt)))
                    want[a, b] = float(n0 * pr * sm)
                    tol[a, b] = float(n0 * pr * mx) * 8 * (n + 2) * EPS + 1e-300
            # the closed form itself is the matrix exponential: cross-check where it is well conditioned
            if n <= 4 and span < 4:
                a = int(rng.integers(len(t)))
                Z = mp.matrix(M.tolist()) * mp.mpf(float(t[a]))
                e0 = mp.matrix([1] + [0] * (n - 1))
                if float(mp.mnorm(Z, 1)) < 1e3:
                    ex = mp.expm(Z) * e0
                    ctx.count("expm_ref")
                    ctx.close(want[a], np.array([float(n0 * x) for x in ex]), 1e-12 * (abs(n0) + 1e-300), "oracle", f"{desc}: closed form vs matrix exponential (oracle self-check)")
            ctx.close(N, want, tol, "analytic", desc, track="analytic")
        bad = [("branch", np.array([[-1., 0], [.5, -2.]])), ("small branch", np.array([[-1e-9, 0], [.5e-9, -2e-9]])), ("tiny branch", np.array([[-3e-12, 0, 0], [1e-12, -2e-11, 0], [0, 2e-11, -1e-10]])),
               ("not square", np.ones((2, 3))), ("wrong sign", np.array([[-1., 0], [-1., -2.]]))]
        for nm, A in bad:
            ctx.case(("refuse", nm), True, f"analytic solution of a matrix that is not a full-branch chain: {nm}")
            ctx.count("refused")
            try:
                r = B.analytic_bateman_single_parent(np.array([0., 1.]), A, 1.)
                ctx.violate("refuse", f"{nm} {A.tolist()} accepted, result {r[-1]}")
            except (AssertionError, ValueError):
                pass
    elif kind == "system":
        from ormon.checks.c17 import check
        for i in range(ctx.n(24, 150)):
            n = int([3, 2, 5, 1][i % 4])
            lib, keys, ent, leave = library(rng, n, lo=-3, hi=2)
            M = mat_of(ent, n)
            s = B.TestBatemanSysJac(keys, lib)
            u, t = rng.uniform(-1, 1, n), float(rng.uniform(-3, 3))
            uj = jnp.asarray(u)
            desc = f"decay system n={n} #{i}"
            ctx.case(("system", n), n > 1, desc)
            ctx.count("system")
            tol = 20 * n * EPS * np.max(np.abs(M) @ np.abs(u)) + 1e-300
            ctx.close(np.asarray(s.frhs(t, uj)), M @ u, tol, "system_rhs", f"{desc}: rhs")
            J = s.fjac(t, uj)
            for what, op in (("Jacobian", J), ("split", s.fl(t, uj))):
                v = rng.standard_normal(n)
                ctx.close(np.asarray(op.matvec(jnp.asarray(v))), M @ v, 20 * n * EPS * np.max(np.abs(M) @ np.abs(v)) + 1e-300, "system_op", f"{desc}: {what}")
                ctx.close(np.asarray(op.dense()), M, 8 * EPS * np.abs(M) + 1e-300, "system_op", f"{desc}: {what} dense")
            ctx.close(np.asarray(J._fdt()), np.zeros(n), 0., "system_fdt", f"{desc}: time derivative")
            ctx.close(np.asarray(J._frhs_cached()), M @ u, tol, "system_rhs", f"{desc}: cached rhs")
    elif kind == "builtin":
        from ormatex_py.progression import bateman_nonlin_sys as NB
        L = np.log(2.)
        for nm, lib, keys in (("decay_lib_0", B.decay_lib_0, None), ("decay_lib_test", B.decay_lib_test, None), ("decay_lib_1", B.decay_lib_1, None), ("nonlin", NB.decay_lib, NB.keymap)):
            keys = keys or list(lib)
            M = np.asarray(B.gen_bateman_matrix(keys, lib))
            ctx.case(("builtin", nm), True, f"built-in library {nm}")
            ctx.count("builtin")
            R = np.zeros(M.shape)
            for k, v in lib.items():
                i = keys.index(k)
                for c, r in (v if isinstance(v[0], tuple) else (v,)):
                    R[i, i] -= r
                    if c != "none":
                        R[keys.index(c), i] += r
            ctx.close(M, R, 8 * EPS * np.abs(R) + 1e-300, "builtin", nm)
            ctx.ok(np.all(M.sum(0) <= 1e-15), "builtin_gain", f"{nm}: a column has a positive sum {M.sum(0)}")
            if nm == "nonlin":
                ctx.close(np.asarray(NB.bateman_mat), R, 8 * EPS * np.abs(R) + 1e-300, "builtin", "bateman_mat of the nonlinear system")
        # documented half-lives
        M = np.asarray(B.gen_bateman_matrix(list(B.decay_lib_1), B.decay_lib_1))
        k = list(B.decay_lib_1)
        for par, ch, hl in (("te_135", "i_135", 19.), ("i_135", "xe_135", 6.57 * 3600), ("xe_135", "cs_135", 9.14 * 3600)):
            i, j = k.index(par), k.index(ch)
            ctx.ok(abs(M[i, i] * hl + L) < 1e-13 and abs(M[j, i] * hl - L) < 1e-13, "half_life", f"{par}: decay constant {M[i, i]}, half life {hl} s")
