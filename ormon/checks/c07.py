"""C07 Leja sequence generators: every emitted point is judged against the set it must come from and the greedy rule."""
import numpy as np
from ormon import refs

LEVEL_RULE = ("generator x requested count x interval/box (symmetric, one-sided, asymmetric, degenerate axis, shifted far from 0); each emitted point judged: "
              "membership, distinctness, start points, greedy rule recomputed from the emitted prefix, conjugate pairing, box mapping; non-trivial = set not a single point")
MIN = {"points_judged": 8000, "greedy_steps": 4000, "asymmetric": 20, "conj_pairs": 1500, "rejected_boxes": 20, "reorderings": 60}
ASSUMPTIONS = ["real intervals have lengths for which the product of distances stays representable (1e-280..1e280)"]


def units(tier):
    k = 3 if tier == "quick" else 12
    return [(f"{f}_{i}", {"f": f, "i": i}) for f in ("real", "circle", "box", "imag", "reorder") for i in range(k)]


def run(ctx, name, p):
    from ormatex_py import matexp_leja as ml, matexp_poly as mp
    {"real": real, "circle": circle, "box": box, "imag": imag, "reorder": reorder}[p["f"]](ctx, ml, mp, p["i"])


def logd(y, xs):
    with np.errstate(divide="ignore"):
        return np.sum(np.log(np.abs(np.subtract.outer(np.atleast_1d(y), xs))), axis=1)


def real(ctx, ml, mp, i0):
    rng = ctx.rng
    if i0 == 0:
        ctx.case(("default",))
        ctx.close(ml.gen_leja_fast(), ml.gen_leja_fast(-2., 2., 100), 0, "defaults", "gen_leja_fast() is [-2,2], 100 points")
    for it in range(ctx.n(24, 90)):
        n = int(rng.choice([3, 4, 5, 6, 7, 8, 13, 20, 40, 77, 100, 160, 280])) if it else 280
        w = rng.uniform(1.5, 7.)
        a, b = [(-2., 2.), (-w, 0.), (0., w), (-w * .75, w * .25), (-w * .1, w * .9), (50., 50. + w), (-50. - w, -50.), (-w / 2, w / 2)][it % 8]
        if it % 5 == 4:
            a, b = b, a
        asym = abs(a + b) > 1e-12
        ctx.case(("real", a, b, n), True, f"gen_leja_fast({a},{b},{n})")
        z = np.asarray(ml.gen_leja_fast(a, b, n))
        if not ctx.ok(z.shape == (n,) and np.all(np.isfinite(z)), "real_count", f"{z.shape} points / non-finite"):
            continue
        ctx.count("asymmetric", int(asym))
        ctx.count("points_judged", n)
        lo, hi, L = min(a, b), max(a, b), abs(b - a)
        ctx.ok(np.all((z >= lo - 1e-13 * L) & (z <= hi + 1e-13 * L)), "real_member", "point outside the interval")
        ctx.ok(len(np.unique(z)) == n, "real_distinct", "repeated points")
        ctx.ok(sorted(z[:2].tolist()) == [lo, hi], "real_start", f"starts {z[:2]}")
        ctx.ok(abs(z[2] - (a + b) / 2) <= 1e-13 * (L + abs(a)), "real_mid", f"third point {z[2]}")
        for i in range(3, n):
            s = np.sort(z[:i])
            c = (s[1:] + s[:-1]) / 2
            lp = logd(c, z[:i])
            j = int(np.argmin(np.abs(c - z[i])))
            ctx.count("greedy_steps")
            if not ctx.ok(abs(c[j] - z[i]) <= 1e-12 * (L + abs(a)), "real_candidate", f"point {i} = {z[i]} is not a midpoint of neighbouring points"):
                break
            if not ctx.ok(lp[j] >= lp.max() - 1e-10 * (i + 1) * (1 + abs(a) / L), "real_greedy", f"point {i} = {z[i]} does not maximise the product of distances (log deficit {lp.max()-lp[j]:.3g}, best {c[int(np.argmax(lp))]})"):
                break


def circle(ctx, ml, mp, i0):
    rng = ctx.rng
    for it in range(ctx.n(20, 60)):
        n = int(rng.integers(2, 300)) if it > 4 else [2, 3, 4, 64, 257][it]
        for conj in (False, True):
            ctx.case(("circle", n, conj), True, f"gen_leja_circle({n},{conj})")
            z = np.asarray(ml.gen_leja_circle(n, conjugate=conj))
            if not ctx.ok(z.shape == (n,) and np.all(np.isfinite(z)), "circle_count", f"{z.shape}"):
                continue
            ctx.count("points_judged", n)
            ctx.ok(np.max(np.abs(np.abs(z) - 1)) < 1e-13, "circle_member", "point off the unit circle")
            ang = np.sort(np.mod(np.angle(z) + 1e-9, 2 * np.pi))
            gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
            ctx.ok(gaps.min() > np.pi / (2 * n), "circle_distinct", f"points coincide: gap {gaps.min()}")
            # every dyadic prefix is the full set of roots of unity: no arc left unsampled
            k = 1
            while 2 ** k <= n:
                m = 2 ** k
                ctx.ok(np.max(np.abs(z[:m] ** m - 1)) < 1e-11 * m, "circle_prefix", f"first {m} points are not the {m}-th roots of unity")
                k += 1
            ctx.ok(abs(z[0] - 1) < 1e-14 and abs(z[1] + 1) < 1e-14, "circle_start", f"{z[:2]}")
            if not conj:
                grid = np.exp(2j * np.pi * np.arange(0, 1024) / 1024)
                for i in list(range(2, min(n, 40))) + [n - 1] * (n > 40):
                    ctx.count("greedy_steps")
                    best = logd(grid, z[:i]).max()
                    if not ctx.ok(logd(z[i], z[:i])[0] >= best - 1e-3, "circle_greedy", f"point {i} does not maximise the distance product on the circle"):
                        break
            else:
                pairs(ctx, z, 2, "circle")


def pairs(ctx, z, nr, who, tol=1e-13):
    for i in range(nr, len(z) - 1, 2):
        ctx.count("conj_pairs")
        if not ctx.ok(abs(z[i + 1] - np.conj(z[i])) < tol * (1 + abs(z[i])) and abs(z[i].imag) > 0, f"{who}_pair", f"points {i},{i+1} = {z[i]},{z[i+1]} are not a conjugate pair"):
            return
    ctx.ok(np.all(np.abs(np.imag(z[:nr])) < tol * 10), f"{who}_real", f"leading {nr} points are not real: {z[:nr]}")


def box(ctx, ml, mp, i0):
    rng = ctx.rng
    for it in range(ctx.n(45, 200)):
        n = int(rng.choice([2, 3, 4, 5, 6, 7, 9, 16, 17, 33, 64, 100, 255, 280]))
        f = it % 9
        sz = 10 ** rng.uniform(-6, 4)
        a, b, c = [(-sz, 0., sz), (-sz, 0., 0.), (0., 0., sz), (-sz, sz, sz * .3), (-sz, 0., 20 * sz), (-sz, .5 * sz, 3e-4 * sz),
                   (-sz, 0., sz * 1e-5), (-sz * 1e-5, 0., sz), (3 * sz, 5 * sz, sz)][f]
        if n == 2 and (b - a) / (b - a + 2 * c) * 2 <= 1e-4:
            n = 3
        ctx.case(("box", a, b, c, n), True, f"gen_leja_conjugate({n},{a},{b},{c})")
        z, nr, sc, sh = ml.gen_leja_conjugate(n, a, b, c)
        z = np.asarray(z)
        ctx.count("points_judged", n)
        if not ctx.ok(z.shape == (n,) and np.all(np.isfinite(z)), "box_count", f"{z.shape} points"):
            continue
        hx = (b - a) / 2
        ctx.ok(abs(sh - (a + b) / 2) <= 1e-14 * (abs(a) + abs(b)) and abs(sc - (hx + c) / 2) <= 1e-14 * (hx + c), "box_map", f"shift {sh} scale {sc}")
        y = sh + sc * z.astype(complex)
        S = hx + c
        x, v = (y.real - sh), y.imag
        ctx.ok(len(np.unique(np.round(z / 1e-9) * 1e-9)) == n, "box_distinct", "repeated points")
        hr, hi = 2 * hx / S, 2 * c / S
        if hi <= 1e-4:
            ctx.ok(nr == n and not np.iscomplexobj(z), "box_nreal", f"n_real={nr} of {n} for the real segment")
            ctx.ok(np.max(np.abs(x)) <= hx * (1 + 1e-12), "box_member", "point outside the segment")
            ctx.ok(sorted(np.round(z[:2] / hr, 12).tolist()) == [-1., 1.], "box_start", f"starts {z[:2]}")
            th = np.sort(np.arccos(np.clip(z / hr, -1, 1)))
            ctx.ok(np.max(np.diff(th)) <= 2 * np.pi / (n - 1) + 1e-6, "box_cover", f"part of the segment unsampled: angular gap {np.max(np.diff(th)):.3g} with {n} points")
            prefix(ctx, z / hr, "box_prefix")
        elif hr <= 1e-4:
            ctx.ok(nr == 1, "box_nreal", f"n_real={nr} for the imaginary segment")
            ctx.ok(np.max(np.abs(v)) <= c * (1 + 1e-12) and np.all(z.real == 0), "box_member", "point off the imaginary segment")
            ctx.ok(abs(z[0]) < 1e-14 and sorted(np.round(z[1:3].imag / hi, 12).tolist()) == [-1., 1.][:len(z[1:3])] or n < 3, "box_start", f"starts {z[:3]}")
            pairs(ctx, z, 1, "box")
            if n % 2:
                th = np.sort(np.arccos(np.clip(z.imag / hi, -1, 1)))
                ctx.ok(np.max(np.diff(th)) <= 2 * np.pi / (n - 1) + 1e-6, "box_cover", f"part of the segment unsampled: angular gap {np.max(np.diff(th)):.3g} with {n} points")
        else:
            ctx.ok(nr == 2, "box_nreal", f"n_real={nr} for an ellipse")
            ctx.ok(np.max(np.abs((x / hx) ** 2 + (v / c) ** 2 - 1)) < 1e-10 * (1 + abs(sh) / hx), "box_member", "point off the ellipse")
            ctx.ok(sorted(np.round(x[:2] / hx, 8).tolist()) == [-1., 1.], "box_start", f"starts {z[:2]}")
            pairs(ctx, z, 2, "box")
            th = np.sort(np.angle(x / hx + 1j * v / c))
            g = np.diff(np.append(th, th[0] + 2 * np.pi))
            ctx.ok(np.max(g) <= 4 * np.pi / n + 1e-6, "box_cover", f"part of the ellipse unsampled: angular gap {np.max(g):.3g} with {n} points")
    for it in range(ctx.n(10, 40)):
        s = 10 ** rng.uniform(-3, 3)
        a, b, c = [(s, -s, 0.), (s, -s, .5 * s), (-s, s, -.3 * s), (-s, s, -3 * s), (2 * s, s, -s), (s, -s, 5 * s), (1., -1., 1.)][it % 7]
        ctx.case(("bad", a, b, c), True, f"gen_leja_conjugate(20,{a},{b},{c}) must be rejected")
        try:
            r = ml.gen_leja_conjugate(20, a, b, c)
            ctx.violate("box_invalid", f"empty box accepted: {r[0][:3]}")
        except ValueError:
            ctx.count("rejected_boxes")


def prefix(ctx, t, mech):
    """cos(theta) set: prefixes of size 2^k+1 are the Chebyshev extrema."""
    k = 1
    while 2 ** k + 1 <= len(t):
        m = 2 ** k
        want = np.cos(np.pi * np.arange(m + 1) / m)
        if not ctx.close(np.sort(t[:m + 1]), np.sort(want), 1e-11, mech, f"first {m+1} points of the real segment sequence"):
            return
        k += 1


def imag(ctx, ml, mp, i0):
    rng = ctx.rng
    for it in range(ctx.n(14, 60)):
        n = int(rng.choice([5, 6, 7, 8, 12, 21, 40, 64, 99, 100, 150, 200, 280]))
        beta = float(rng.choice([2., -2., 1., rng.uniform(1.5, 3)]))
        ctx.case(("imag", beta, n), True, f"gen_complex_conj_leja_fast({beta},{n})")
        z = np.asarray(ml.gen_complex_conj_leja_fast(beta, n))
        if not ctx.ok(z.shape == (n - 1,), "imag_count", f"{z.shape} points for request {n} (zero is counted once)"):
            continue
        ctx.count("points_judged", n - 1)
        ctx.ok(np.all(z.real == 0) and np.max(np.abs(z.imag)) <= abs(beta) * (1 + 1e-6), "imag_member", "point off i[-beta,beta]")
        ctx.ok(len(np.unique(np.round(z.imag / 1e-7))) == n - 1, "imag_distinct", f"{n-1-len(np.unique(z))} repeated points")
        ctx.ok(z[0] == 0 and abs(abs(z[1]) - abs(beta)) < 1e-6, "imag_start", f"{z[:3]}")
        pairs(ctx, z.astype(complex), 1, "imag", 1e-7)
        # magnitudes appear in fast Leja order of the real sequence
        x = np.abs(np.asarray(ml.gen_leja_fast(-abs(beta), abs(beta), 2 * n)))
        _, fi = np.unique(np.round(x, 6), return_index=True)
        order = x[np.sort(fi)]
        order = order[order > 1e-9]
        ctx.close(np.abs(z[1::2]), order[:len(z[1::2])], 1e-5, "imag_order", "magnitudes follow the fast Leja order")


def reorder(ctx, ml, mp, i0):
    rng = ctx.rng
    for it in range(ctx.n(24, 100)):
        n = int(rng.choice([1, 2, 3, 5, 10, 30, 60]))
        f = it % 4
        x = rng.uniform(-2, 2, n) if f == 0 else (rng.standard_normal(n) + 1j * rng.standard_normal(n) if f == 1 else
             (np.asarray(ml.gen_leja_conjugate(max(n, 3), -2, 1, 1.5)[0]) if f == 2 else -np.abs(rng.standard_normal(n)) * rng.choice([.5, 1., 3.])))
        x = x[rng.permutation(len(x))]
        n = len(x)
        x0 = x.copy()
        ctx.case(("reorder", x[:4].tolist(), n), n > 1, f"leja_seq_reordering of {n} points {x[:3]}")
        z = np.asarray(mp.leja_seq_reordering(x))
        ctx.count("reorderings")
        ctx.count("points_judged", n)
        ctx.ok(np.array_equal(x, x0), "reorder_input", "input modified")
        if not ctx.ok(z.shape == (n,) and np.array_equal(np.sort_complex(z), np.sort_complex(x)), "reorder_perm", "not a permutation of the input"):
            continue
        for i in range(1, n):
            ctx.count("greedy_steps")
            rest = z[i:]
            lp = logd(rest, z[:i])
            if not ctx.ok(lp[0] >= lp.max() - 1e-10 * (i + 1), "reorder_greedy", f"point {i} is not the greedy choice"):
                break
