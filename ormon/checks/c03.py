"""C03 partial-fraction tables: every table is exercised through f_phi_k_pfd."""
import json, math, os
import numpy as np
from ormon import gen, refs

LEVEL_RULE = ("every named table x k=0..3 x scalars over the negative axis / moderate positive reals / matrices with complex spectrum and 1..3 "
              "columns; judged against the exact rational function (mpmath Pade poles and residues, published CRAM/real-pole values) evaluated in "
              "longdouble; non-trivial = nonzero argument and block")
MIN = {"pade": 200, "cram": 100, "real": 60, "uniform": 100, "recursion": 100, "integer_block": 60, "large": 60}
ASSUMPTIONS = ["reference CRAM/real-pole table values are the published ones (harness copy)", "mpmath root finding for Pade denominators"]
EMIN = {"cram_2": 7.3903149e-3, "cram_4": 8.6562331e-5, "cram_6": 1.0085010e-6, "cram_8": 1.1722771e-8, "cram_10": 1.3612525e-10,
        "cram_12": 1.6127702e-12, "cram_14": 4.2e-14, "cram_16": 5.2e-15}
# sup error of the real-pole tables for phi_1 on the negative axis
EREAL = {"2": .0286, "3": .0447, "6": .00439, "7": .01155, "9": .00338, "12": .00436}
PADES = [(i, i) for i in range(2, 17, 2)] + [(i - 1, i) for i in range(2, 17, 2)] + [(i - 2, i) for i in range(2, 17, 2)] + [(0, i) for i in range(4, 17, 2)]


def units(tier):
    u = [("cram", {}), ("real", {}), ("low", {})]
    g = 6
    u += [(f"pade{i}", {"t": PADES[i::g]}) for i in range(g)]
    return u


def pade_poles(m, n):
    import mpmath as mp
    mp.mp.dps = 60
    f = mp.factorial
    q = [f(m + n - j) * f(n) / (f(m + n) * f(j) * f(n - j)) * (-1) ** j for j in range(n + 1)]
    pc = [f(m + n - j) * f(m) / (f(m + n) * f(j) * f(m - j)) for j in range(m + 1)]
    r = mp.polyroots(q[::-1], maxsteps=2000, extraprec=400)
    res = [mp.polyval(pc[::-1], x) / mp.polyval([j * q[j] for j in range(n, 0, -1)], x) for x in r]
    # long double conversion through two doubles
    def cl(z):
        def l(x):
            h = float(x)
            return np.longdouble(h) + np.longdouble(float(x - mp.mpf(h)))
        return np.clongdouble(l(z.real) + 0j) + np.clongdouble(1j) * np.clongdouble(l(z.imag))
    c0 = pc[-1] / q[-1] if m == n else 0.
    return [cl(x) for x in r], [cl(x) for x in res], float(c0)


def rational(Z, B, k, ps, cs, c0, half):
    """sum over poles in extended precision. half: tables list one pole per conjugate pair (2 Re)"""
    Zl, Bl = refs.ld(Z), refs.ld(B)
    n = Z.shape[0]
    out = np.zeros(Bl.shape, dtype=np.clongdouble)
    sens = sens_t = 0.0
    for p, c in zip(ps, cs):
        M = (Zl - p * np.eye(n)).astype(np.clongdouble)
        X = refs.ldsolve(M, Bl)
        w = (2 if half else 1) * c / p ** k
        out = out + (w * X).real if half else out + w * X
        inv = refs.inorm(refs.ldsolve(M, np.eye(n)))
        nx = refs.inorm(X)
        sens += float(abs(w)) * nx * (refs.inorm(M) * inv * 4 * n + 8 + k)
        sens_t += float(abs(w)) * nx * (1 + k + float(abs(p)) * inv)
    out = out.real
    if k == 0:
        out = out + c0 * Bl
    return out, sens * refs.EPS * 4 + refs.EPS * 4 * abs(c0) * refs.inorm(B), sens_t


def phi_scalar(z, k):
    import mpmath as mp
    mp.mp.dps = 40
    z = mp.mpf(float(z))
    if abs(z) < 1e-2:
        return sum(z ** j / mp.factorial(j + k) for j in range(25))
    v = mp.exp(z)
    for j in range(k):
        v = (v - 1 / mp.factorial(j)) / z
    return v


def args(ctx, rng, it):
    """(Z,B,desc)"""
    fam = it % 4
    if fam == 0:
        n = 1
        z = -10 ** rng.uniform(-4, 3)
        Z = np.array([[z]])
    elif fam == 1:
        n = 3
        Z = np.diag(np.r_[-10 ** rng.uniform(-2, 4), -rng.uniform(0, 3), 0.0])
    elif fam == 2:
        # now and then a larger system
        n = int(rng.choice([2, 4])) if it % 12 != 6 else int(rng.choice([16, 28, 40]))
        Z = gen.scaled(rng, str(rng.choice(["randn", "osc", "skew", "stable", "jordan", "rates"])), n, -1, 1.)[0]
    else:
        n = 4
        Z = gen.scaled(rng, str(rng.choice(["stiff", "rates", "negdef", "singular", "triu"])), n, -1, 2.5)[0]
    m = [1, 2, 3][it % 3]
    B = rng.standard_normal((n, m))
    flat = m == 1 and it % 2 == 0
    if it % 8 == 5:
        # integer entries, also more columns than rows
        B = rng.integers(-4, 5, (n, m if n > 1 else 3)).astype(float)
        flat = False
    return Z, B, flat


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py.matexp_phi import f_phi_k_pfd
    golden = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "pfd_golden.json")))
    if name.startswith("pade"):
        tabs = [(f"pade_{m}_{n}", "pade", pade_poles(m, n), False, 2e-13 if n <= 6 else 2e-14) for m, n in p["t"]]
    else:
        sel = {"cram": [t for t in golden if t.startswith("cram")], "real": ["2", "3", "6", "7", "9", "12"], "low": ["IE", "CN"]}[name]
        tabs = []
        for t in sel:
            g = golden[t]
            tabs.append((t, name, ([np.clongdouble(complex(*x)) for x in g["p"]], [np.clongdouble(complex(*x)) for x in g["c"]], g["c0"]), True, 3e-14))
    call = lambda Z, B, k, t: np.asarray(f_phi_k_pfd(jnp.asarray(Z), jnp.asarray(B), k, t))
    for t, fam, (ps, cs, c0), half, trel in tabs:
        for it in range(ctx.n(24, 200)):
            if not ctx.more():
                return
            k = (it + it // 4) % 4
            if it % 6 == 5:
                k = 4 + (it // 6) % 3
                ctx.count("high_order")
            Z, B, flat = args(ctx, ctx.rng, it)
            ctx.case((t, k, Z.ravel()[:4].tolist(), B.ravel()[:2].tolist()), refs.inorm(Z) > 0, f"{t} k={k} n={len(Z)} cols={'flat' if flat else B.shape[1]} Z={Z.ravel()[:4]}")
            Bx = B[:, 0] if flat else B
            got = call(Z, Bx.astype(int) if it % 8 == 5 else Bx, k, t)
            ctx.count("integer_block" if it % 8 == 5 else "large" if len(Z) >= 12 else "float_block")
            if not ctx.ok(got.shape == Bx.shape, "shape", f"{got.shape} for block {Bx.shape}"):
                continue
            want, rnd, sens = rational(Z, B, k, ps, cs, c0, half)
            tol = rnd + trel * sens
            g2 = got.reshape(B.shape)
            if fam == "real" and k == 0:
                E, b = refs.expm(Z) @ refs.ld(B), refs.expm_err_bound(Z)
                if float(np.max(np.abs(g2 - want))) <= tol:
                    off = float(np.max(np.abs(g2 - E)))
                    if off > 0.1 * refs.inorm(B):
                        ctx.violate("realpole_k0_offset", f"{t}: exp action off by {off:.3g} (|B|={refs.inorm(B):.3g})")
                else:
                    ctx.close(g2, E, .1 * refs.inorm(B), "table", f"{t} k=0")
                ctx.count("real")
                continue
            ctx.count(fam)
            ctx.close(g2, want, tol, "table", f"{t} k={k} vs its rational function", track=fam)
            # recursion between orders, on the code's own values
            if k >= 1 and it % 3 != 0:
                lo = call(Z, B, k - 1, t)
                z0 = call(np.zeros_like(Z), B, k - 1, t)
                if k > 1 or fam != "real":
                    w2, r2, s2 = rational(Z, B, k - 1, ps, cs, c0, half)
                    w0, r0, s0 = rational(np.zeros_like(Z), B, k - 1, ps, cs, c0, half)
                    ctx.count("recursion")
                    ctx.close(refs.ld(Z) @ g2, lo - z0, tol * refs.inorm(Z) + r2 + r0 + 1e-14 * (refs.inorm(lo) + refs.inorm(z0)), "recursion", f"{t} k={k}: Z r_k - (r_(k-1) - r_(k-1)(0))", track="rec")
        # uniform approximation quality on the negative axis, many points through diagonal arguments
        if fam in ("cram", "real"):
            k = 0 if fam == "cram" else 1
            for it in range(ctx.n(12, 100)):
                z = -10 ** ctx.rng.uniform(-3, 5, 6)
                z[0] = 0. if it % 4 == 0 else -ctx.rng.uniform(0, 30)
                got = call(np.diag(z), np.ones(6), k, t)
                want = np.array([float(phi_scalar(x, k)) for x in z])
                rnd = sum(abs(2 * complex(c) / complex(q) ** k) / np.abs(z - complex(q)) for q, c in zip(ps, cs)) * refs.EPS * 40
                E = EMIN[t] if fam == "cram" else EREAL[t]
                ctx.case(("uniform", t, z.tolist()), True, f"{t} uniform error at {z}")
                ctx.count("uniform", 6)
                ctx.close(got, want, 1.02 * E + rnd, "uniform", f"{t} approximates phi_{k} on the negative axis", track="uniform_" + t)
