"""C25 study drivers: what they return, print and write is the error of the solution they computed."""
import contextlib, io, os, re, runpy, sys, tempfile
import numpy as np
from ormon import refs

LEVEL_RULE = ("the bundled drivers run as a user runs them (module run as a script with random arguments, or imported and called); the computed trajectories are recorded at "
              "the integrate() call, exact or 1e-12 reference solutions are evaluated independently at the recorded times and nodes, and every returned, printed and written "
              "number is compared; non-trivial = a run whose error is resolved by the printed digits")
MIN = {"drivers": 12, "lv": 3, "advdiff": 4, "rad3": 3, "files": 4, "bateman": 3, "ellipse": 6, "rad2": 1, "rad9": 2, "chains": 2, "lejadetail": 1, "sweeps": 3, "lines": 150, "spectrum": 2, "numbers": 120}
ASSUMPTIONS = ["scipy DOP853 at rtol 1e-12 for the population model", "closed-form advected Gaussians and exact decay chains", "nodal mass weights of the driver's own discretisation (monitored by C21)"]


def units(tier):
    reps = 1 if tier == "quick" else 6
    u = []
    for r in range(reps):
        u += [(f"rad9_{i}_{r}", {"k": "rad9", "i": i, "r": r}) for i in range(2)]
        u += [(f"sweeps_{i}_{r}", {"k": "sweeps", "i": i, "r": r}) for i in range(3)]
        u += [(f"lejadetail_{r}", {"k": "lejadetail", "i": r, "r": r})]
        u += [(f"lv_{i}_{r}", {"k": "lv", "i": i, "r": r}) for i in range(3)]
        u += [(f"advdiff_{i}_{r}", {"k": "advdiff", "i": i, "r": r}) for i in range(3)]
        u += [(f"rad3_{i}_{r}", {"k": "rad3", "i": i, "r": r}) for i in range(2)]
        u += [(f"rad2_{r}", {"k": "rad2", "i": 0, "r": r}), (f"chains_{r}", {"k": "chains", "i": 0, "r": r})]
        u += [(f"bateman_{r}", {"k": "bateman", "i": 0, "r": r}), (f"ellipse_{r}", {"k": "ellipse", "i": 0, "r": r})]
    return u


@contextlib.contextmanager
def recorded(stand_in=None):
    """record every integrate() call: (system, y0, t0, dt, nsteps, method, options, result); a stand-in may
    replace the integration when only the driver's treatment of the solution is judged (large sweeps)"""
    from ormatex_py import integrate_wrapper as iw
    calls, orig = [], iw.integrate

    def rec(sys_, y0, t0, dt, nsteps, method="epi2", **kw):
        res = (stand_in or orig)(sys_, y0, t0, dt, nsteps, method, **kw)
        calls.append(dict(kw=kw, sys=sys_, y0=np.asarray(y0), t0=float(t0), dt=float(dt), n=int(nsteps), method=method,
                          t=np.array([float(x) for x in res.t]), y=np.array([np.asarray(v) for v in res.y])))
        return res
    out = io.StringIO()
    iw.integrate = rec
    try:
        with contextlib.redirect_stdout(out):
            yield calls, out
    finally:
        iw.integrate = orig


@contextlib.contextmanager
def figures(lite=False):
    """record every figure when it is written: name, and per axes the lines (label, x, y), scattered points, title"""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    figs, orig, tl = [], Figure.savefig, Figure.tight_layout

    def sv(self, fname, *a, **kw):
        figs.append(dict(name=str(fname), axes=[dict(
            title=x.get_title(), ylabel=x.get_ylabel(), lines=[(str(l.get_label()), np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in x.lines],
            points=[np.array(q.get_offsets(), float) for q in x.collections]) for x in self.axes]))
        kw["dpi"] = 20
        if lite:                    # sweeps: recorded, not drawn
            return None
        return orig(self, fname, *a, **kw)
    Figure.savefig = sv
    if lite:
        Figure.tight_layout = lambda self, *a, **kw: None
    try:
        yield figs
    finally:
        Figure.savefig, Figure.tight_layout = orig, tl


def line(ctx, ax, label, x, y, tol, mech, what):
    """the axes hold exactly one line with this label and it shows y over x"""
    got = [l for l in ax["lines"] if l[0] == label]
    if not ctx.ok(len(got) == 1, mech + "_label", f"{what}: lines {[l[0] for l in ax['lines']][:8]}, expected one {label!r}"):
        return
    ctx.count("lines")
    if ctx.ok(got[0][1].shape == np.shape(x) and got[0][2].shape == np.shape(y), mech, f"{what}: line {label!r} has {got[0][1].shape} points, expected {np.shape(x)}"):
        num(ctx, got[0][1], x, 1e-12 * (1 + np.max(np.abs(x))), mech, f"{what}: abscissae of line {label!r}")
        num(ctx, got[0][2], y, tol, mech, f"{what}: values of line {label!r}")


def run(ctx, name, p):
    cwd = os.getcwd()
    d = tempfile.mkdtemp(dir=cwd)
    os.chdir(d)
    try:
        with figures(lite=p["k"] == "sweeps") as figs:
            globals()[p["k"]](ctx, p["i"], p["r"], figs)
    finally:
        os.chdir(cwd)


def num(ctx, got, want, tol, mech, what):
    ctx.count("numbers", int(np.size(want)))
    return ctx.close(np.asarray(got, dtype=float), np.asarray(want, dtype=float), tol, mech, what, track=mech)


def lv(ctx, i, r, figs):
    from scipy.integrate import solve_ivp
    from ormatex_py.progression import lotka_volterra as L
    rng = ctx.rng
    method = [["epi2", "exprb2"], ["epi3", "pexprb4"], ["implicit_esdirk3", "exprb3"]][i][r % 2]
    auto = bool((i + r) % 2)
    ctx.case(("lv", method, auto), True, f"lotka_volterra.main({method!r}, autonomous={auto})")
    with recorded() as (calls, out):
        err_dt, fit, label = L.main(method, do_plot=(i == 0), autonomous=auto)
    ctx.count("drivers")
    ctx.count("lv")

    def f(t, x):
        h = 0. if auto else .4 * (np.sin(.2 * t) + 1)
        return [x[0] - x[0] * x[1], x[0] * x[1] - x[1] - h * x[1]]
    err_dt = np.asarray(err_dt)
    if not ctx.ok(err_dt.shape == (len(calls), 2), "shape", f"{err_dt.shape} rows for {len(calls)} runs"):
        return
    sol = solve_ivp(f, (0, 20.5), [.1, .2], method="DOP853", rtol=1e-12, atol=1e-14, dense_output=True, max_step=.1)
    for k, c in enumerate(calls):
        ctx.ok(err_dt[k, 0] == c["dt"] and c["method"] == method, "dt", f"row {k}: dt {err_dt[k, 0]}, run with {c['dt']} {c['method']}")
        ctx.ok(abs(c["t"][-1] - 20.) < 1e-9 and c["t"][0] == 0, "final_time", f"run {k} covers {c['t'][0]}..{c['t'][-1]}")
        want = float(np.mean(np.abs(c["y"][:, 0] - sol.sol(c["t"])[0])))
        num(ctx, err_dt[k, 1], want, 1e-3 * want + 1e-9, "lv_error", f"{method} autonomous={auto}: reported mean error at dt={c['dt']}")
    if i == 0:
        pl = [f for f in figs if "_dt_" in f["name"]]
        if ctx.ok(len(pl) == len(calls), "lv_plot", f"{len(pl)} trajectory plots for {len(calls)} runs"):
            for f, c in zip(pl, calls):
                tr = sol.sol(c["t"])
                line(ctx, f["axes"][0], "prey", c["t"], c["y"][:, 0], 0., "lv_plot", f["name"])
                line(ctx, f["axes"][0], "pred", c["t"], c["y"][:, 1], 0., "lv_plot", f["name"])
                ctx.ok(f"{c['dt']:.4f}" in f["axes"][0]["title"] + f["axes"][-1]["title"] and str(c["dt"]) in f["name"], "lv_plot", f"{f['name']}: step size {c['dt']} in name and title")
                for lab, k in (("prey true", 0), ("pred true", 1)):
                    g = [l for l in f["axes"][0]["lines"] if l[0] == lab]
                    if ctx.ok(len(g) == 1 and g[0][1][0] == 0 and abs(g[0][1][-1] - 20.) < 1e-9, "lv_plot", f"{f['name']}: line {lab!r}"):
                        q = slice(None, None, 97)
                        num(ctx, g[0][2][q], sol.sol(g[0][1][q])[k], 1e-6, "lv_plot", f"{f['name']}: line {lab!r}")
                if ctx.ok(len(f["axes"]) == 2 and len(f["axes"][1]["lines"]) == 1, "lv_plot", f"{f['name']}: no difference plot"):
                    d = f["axes"][1]["lines"][0]
                    num(ctx, d[1], c["t"], 1e-12, "lv_plot", "abscissae of the difference")
                    num(ctx, d[2], c["y"][:, 0] - tr[0], 1e-8, "lv_plot", f"{f['name']}: prey difference")
        cv = [f for f in figs if f["name"].endswith("_conv.png")]
        if ctx.ok(len(cv) == 1 and len(cv[0]["axes"][0]["points"]) == 1, "lv_plot", "no convergence plot"):
            num(ctx, cv[0]["axes"][0]["points"][0], err_dt, 1e-12, "lv_plot", "points of the convergence plot")
    s, b = np.polyfit(np.log(err_dt[:, 0]), np.log(err_dt[:, 1]), 1)
    num(ctx, np.log(np.asarray(fit)), s * np.log(err_dt[:, 0]) + b, 1e-3, "lv_fit", "trend values")
    got = re.findall(r"est conv order:\s*([-+.\deE]+)", out.getvalue())
    if ctx.ok(len(got) == 1, "lv_order", "no convergence order printed"):
        num(ctx, float(got[0]), s, 1e-3, "lv_order", "printed convergence order")
    lab = re.findall(r"=\s*([-+.\deE]+)\s*$", label)
    if ctx.ok(len(lab) == 1 and method in label, "lv_order", f"label {label!r}"):
        num(ctx, float(lab[0]), s, 6e-3 * abs(s), "lv_order", "convergence order in the label")


def advdiff(ctx, i, r, figs):
    rng = ctx.rng
    for it in range(2 if not ctx.thorough else 3):
        per = bool((i + it) % 2)
        nona = bool(not per and (i + it + r) % 4 == 2)
        ic = ["gauss", "square", "gauss", "gauss"][(i + 2 * it + r) % 4] if not nona else "gauss"
        mr, pord = int(rng.integers(4, 6)), int(rng.integers(1, 4))
        ns = int(rng.integers(4, 12))
        tf = float(rng.choice([.4, .8, 1.0, 1.6]))
        method = str(rng.choice(["epi3", "epi2", "exprb2", "rk4", "implicit_esdirk3"][:3]))
        nu = float(rng.choice([1e-12, 1e-3]))
        argv = ["x", "-ic", ic, "-mr", str(mr), "-p", str(pord), "-nsteps", str(ns), "-tf", str(tf), "-method", method, "-nu", repr(nu)] + ["-per"] * per + ["-nonautonomous"] * nona
        ctx.case(("advdiff", tuple(argv)), True, "advection_diffusion_1d " + " ".join(argv[1:]))
        old = sys.argv
        sys.argv = argv
        try:
            with recorded() as (calls, out):
                runpy.run_module("ormatex_py.progression.advection_diffusion_1d", run_name="__main__")
        finally:
            sys.argv = old
        ctx.count("drivers")
        ctx.count("advdiff")
        c = calls[-1]
        n = c["y"].shape[1]
        ctx.ok(c["n"] == ns and abs(c["dt"] * ns - tf) < 1e-12 and c["method"] == method, "arguments", f"driver ran {c['n']} steps of {c['dt']} with {c['method']}")
        # nodes of the mesh, from the arguments alone
        import skfem as fem
        from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM
        mesh = fem.MeshLine1().with_boundaries({"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], 1.)}).refined(mr)
        if per:
            mesh = fem.MeshLine1DG.periodic(mesh, mesh.boundaries["right"], mesh.boundaries["left"])
        xs = np.asarray(AdDiffSEM(mesh, p=pord, params={"nu": nu, "vel": .5}).basis.doflocs[0])
        w = np.asarray(c["sys"].Ml)
        if not ctx.ok(len(xs) == n == len(w), "nodes", f"{len(xs)} nodes, {n} unknowns"):
            continue

        def dist(a, b):
            d = np.abs(a % 1 - b % 1) if per or nona else np.abs(a - b)
            return np.where(d > .5, 1 - d, d) if per or nona else d
        prof = (lambda x: np.exp(-(dist(x, .3) / .1) ** 2)) if ic == "gauss" else (lambda x: np.where(dist(.25, x) < .15, 1., 0.))
        T = c["t"][-1]
        # initial state
        free = np.setdiff1d(np.arange(n), np.asarray(c["sys"].dirichlet_bd))
        num(ctx, c["y"][0][free], prof(xs)[free], 1e-13, "ad_initial", "initial profile at the nodes")
        err = prof(xs - .5 * T) - c["y"][-1]
        q = np.argsort(xs, kind="stable")
        fg = [f for f in figs if f["name"].startswith("adv_diff_1d_")]
        figs.clear()
        if ctx.ok(len(fg) == 1 and len(fg[0]["axes"]) == 1 and method in fg[0]["name"], "ad_plot", f"plots {[f['name'] for f in fg]}"):
            ax = fg[0]["axes"][0]
            for k, t in ((0, 0.), (-1, T)):
                line(ctx, ax, f"t={t:.4f}", xs[q], c["y"][k][q], 0., "ad_plot", fg[0]["name"])
                if ic != "square":
                    line(ctx, ax, f"exact t={t:.4f}", xs[q], prof(xs[q] - .5 * t), 1e-12, "ad_plot", fg[0]["name"])
        if ic == "square":
            # nodes on the jump: rounding decides, both values are legitimate
            e1 = np.minimum(np.abs(dist(.25, xs - .5 * T) - .15), 1)
            if np.min(e1) < 1e-9:
                ctx.count("jump_node")
                continue
        wantv = dict(L1=float(np.sum(np.abs(err) * w)), L2=float(np.sqrt(np.sum(err ** 2 * w))), Linf=float(np.max(np.abs(err))))
        sx = np.sort(xs)
        wantv["mesh_spacing"] = sx[1] - sx[0]
        txt = out.getvalue()
        for k, v in wantv.items():
            g = re.findall(k + r"\s*[=:]\s*([-+.\deE]+)", txt)
            if ctx.ok(len(g) >= 1, "ad_print", f"{k} not printed"):
                num(ctx, float(g[-1]), v, 1e-4 * abs(v) + 1e-12, "ad_" + k, f"printed {k}")
        g = re.findall(r"CFL\s*[=:]\s*([-+.\deE]+)", txt)
        ctx.ok(len(g) >= 1, "ad_print", "CFL not printed")
        for q in g:
            num(ctx, float(q), c["dt"] * .5 / wantv["mesh_spacing"], 6e-5, "ad_cfl", "printed CFL number")


def rad3(ctx, i, r, figs):
    from ormatex_py.progression import rad_1d_3s as R
    rng = ctx.rng
    outdir = "./rad_1d_3s_out/"
    for it in range(2):
        os.makedirs(outdir, exist_ok=True)
        per = bool((i + it) % 2 == 0)
        mr, pord = int(rng.integers(4, 6)), int(rng.integers(1, 4))
        nu = float(rng.choice([2e-3, 5e-3, 1e-3]))
        tf = float(rng.choice([.2, .4, .5])) if not per else float(rng.choice([.3, 2.5, 4.]) if it == 0 else rng.choice([.5, 1., 2.]))
        if per:
            nu = min(nu, .009 / tf)     # all but two images of the wave are below 1e-10
        # step sizes that divide the end time, and some that do not
        dt = tf / int(rng.integers(2, 6)) if (i + it + r) % 3 else tf / float(rng.integers(2, 6) + rng.uniform(.1, .4))
        method, kw = [("epi3", {}), ("exprb2", {}), ("exprb2_pfd", {"pfd_method": "cram_16"}), ("epi2", {})][(i + 2 * it + r) % 4]
        jac = bool(it == 0)
        ctx.case(("rad3", per, mr, pord, nu, tf, dt, method), True, f"rad_1d_3s.main(dt={dt:.4g}, {method}, periodic={per}, mr={mr}, p={pord}, tf={tf}, jac_plot={jac}, nu={nu})")
        for q in os.listdir(outdir):
            os.unlink(os.path.join(outdir, q))
        with recorded() as (calls, out):
            mae, mre = R.main(dt, method, per, mr, pord, tf=tf, jac_plot=jac, nu=nu, **kw)
        ctx.count("drivers")
        ctx.count("rad3")
        c = calls[-1]
        ns = int(round(tf / dt))
        ctx.ok(c["n"] == ns and c["dt"] == dt and c["method"] == method, "arguments", f"driver ran {c['n']} steps of {c['dt']} with {c['method']}")
        xs = np.asarray(c["sys"].xs)
        si = np.argsort(xs, kind="stable")
        var, vel, wc = .05 ** 2, .5, .4
        B = np.asarray(c["sys"].bat_mat)

        def exact(t):
            s2 = var + 2 * nu * t
            d = (xs - wc - vel * t)
            g = sum(np.exp(-(d % 1 - q) ** 2 / (2 * s2)) for q in (-1, 0, 1, 2)) if per else np.exp(-d ** 2 / (2 * s2))
            frac = np.asarray(refs.expm(B * t), float)[:, 0]
            return frac[:, None] * (g * np.sqrt(var / s2))[None, :]
        want_mae, want_mre, ts = [], [], []
        for k in (0, -1):
            u = c["y"][k].reshape(3, -1)
            e = u - exact(c["t"][k])
            ts.append((u, exact(c["t"][k]), c["t"][k]))
        want_mae, want_mre = np.mean(np.abs(e), axis=1), np.mean(np.abs(e), axis=1) / np.max(ts[-1][1], axis=1)
        tol = 1e-9 * (1 + np.max(ts[-1][1], axis=1))
        num(ctx, np.asarray(mae), want_mae, tol, "rad3_mae", "returned mean absolute errors")
        num(ctx, np.asarray(mre), want_mre, tol / np.max(ts[-1][1], axis=1), "rad3_mre", "returned relative errors")
        num(ctx, c["y"][0].reshape(3, -1), ts[0][1], 1e-12, "rad3_initial", "initial profile at the nodes")
        txt = out.getvalue()
        m = re.search(r"MAEs at t=([-+.\deE]+) ===\s*\n([^\n]*)", txt)
        if ctx.ok(m is not None, "rad3_print", "error table not printed"):
            num(ctx, float(m.group(1)), c["t"][-1], 1e-4 * tf, "rad3_print", "printed final time")
            row = [float(x) for x in m.group(2).replace(",", " ").split()]
            if ctx.ok(len(row) == 3, "rad3_print", f"error row {m.group(2)!r}"):
                num(ctx, row, want_mae, 1e-4 * want_mae + tol, "rad3_print", "printed errors")
        files = sorted(f for f in os.listdir(outdir) if f.endswith(".txt"))
        if ctx.ok(len(files) == 2, "rad3_files", f"data files {files}"):
            seen = 0
            for f in files:
                head = open(os.path.join(outdir, f)).readline().lstrip("# ").strip().split(",")
                D = np.loadtxt(os.path.join(outdir, f), delimiter=",")
                ctx.count("files")
                names = [h.strip() for h in head]
                if not ctx.ok(D.shape == (len(xs), 7) and len(names) == 7 and len(set(names)) == 7, "rad3_header", f"{f}: shape {D.shape}, columns {names}"):
                    continue
                k = 0 if f"{0.:.2f}_" in f and f"_{ts[0][2]:.2f}_" in f and f"_{ts[1][2]:.2f}_" not in f else 1
                seen |= 1 << k
                u, ex, _ = ts[k]
                cols = dict(zip(names, D.T))
                num(ctx, cols.get("x", D[:, 0]), xs[si], 1e-12, "rad3_file", f"{f} column x")
                for s in range(3):
                    for nm, val in ((f"u{s}_calc", u[s]), (f"u{s}_analytic", ex[s])):
                        if ctx.ok(nm in cols, "rad3_header", f"{f}: no column {nm} in {names}"):
                            # nodes of equal position (none) keep their order; rows follow the sorted nodes
                            num(ctx, cols[nm], val[si], 1e-9 * (1 + np.max(np.abs(val))), "rad3_file", f"{f} column {nm}")
            ctx.ok(seen == 3, "rad3_files", f"initial and final data files {files}")
        pl = [f for f in figs if "_s3_" in f["name"] and "eig" not in f["name"]]
        eg = [f for f in figs if "eigplot" in f["name"]]
        figs.clear()
        if ctx.ok(len(pl) == 2 and all(len(f["axes"]) == 3 for f in pl), "rad3_plot", f"plots {[f['name'] for f in pl]}"):
            for f, (u, ex, t) in zip(pl, ts):
                for s in range(3):
                    line(ctx, f["axes"][s], f"t={t:.4f}, species={s}", xs[si], u[s][si], 0., "rad3_plot", f["name"])
                    line(ctx, f["axes"][s], f"t={t:.4f}, true", xs[si], ex[s][si], 1e-9 * (1 + np.max(np.abs(ex[s]))), "rad3_plot", f["name"])
                    g = re.search(r"MAE:\s*([-+.\deE]+)", f["axes"][s]["title"])
                    w = float(np.mean(np.abs(u[s] - ex[s])))
                    if ctx.ok(g is not None, "rad3_plot", f"title {f['axes'][s]['title']!r}"):
                        num(ctx, float(g.group(1)), w, 1e-3 * w + 1e-9, "rad3_plot", f"{f['name']}: error in the title")
        if jac and ctx.ok(len(eg) == 1 and len(eg[0]["axes"][0]["points"]) == 1, "jac_plot", "no spectrum plot"):
            pts = eg[0]["axes"][0]["points"][0]
            ev = np.linalg.eigvals(dt * np.asarray(c["sys"].fjac(0., c["y"][-1]).dense()))
            num(ctx, np.sort(1 - pts[:, 0]), np.sort(ev.real), 1e-5 * np.max(np.abs(ev)), "jac_plot", "real parts of the plotted spectrum")
            num(ctx, np.sort(pts[:, 1]), np.sort(ev.imag), 1e-5 * np.max(np.abs(ev)), "jac_plot", "imaginary parts of the plotted spectrum")
        if jac:
            g = re.search(r"CFL:\s*([-+.\deE]+)/([-+.\deE]+)", txt)
            J = dt * np.asarray(c["sys"].fjac(0., c["y"][-1]).dense())
            ctx.count("spectrum")
            if ctx.ok(g is not None, "jac_print", "no spectrum printed"):
                num(ctx, float(g.group(2)), np.max(np.abs(J).sum(1)), 1e-4 + 1e-6 * np.max(np.abs(J).sum(1)), "jac_norm", "printed norm of dt*J")
                ev = np.abs(np.linalg.eigvals(J))
                num(ctx, float(g.group(1)), ev.max(), 1e-4 + 1e-5 * ev.max(), "jac_eig", "printed largest eigenvalue of dt*J")
            with contextlib.redirect_stdout(io.StringIO()):
                mx, mn = R.plot_dt_jac_spec(c["sys"], c["y"][-1], 0., 2 * dt, figname="eigplot")
            num(ctx, mx, 2 * ev.max(), 1e-5 * ev.max(), "jac_eig", "largest eigenvalue of dt*J")
            num(ctx, mn, 2 * ev.min(), 1e-6 * ev.max(), "jac_eig", "smallest eigenvalue of dt*J")
            ctx.ok(os.path.exists("eigplot.png"), "rad3_files", "spectrum plot not written")


def bateman(ctx, i, r, figs):
    from ormatex_py.progression import bateman_sys as B
    rng = ctx.rng
    A = np.array([[-.1, 0, 0], [.1, -10., 0], [0, 10., -1e-3]])
    for it, method in enumerate(["epi2", "exprb2_pfd", "exp2_dense", "implicit_euler", "exp_pfd", "epi3"]):
        dt = float(rng.choice([1., .1, 5., 10., .3, 25., .7, 2.]))
        tf = float(f"{dt * int(rng.integers(2, 13)):.10g}")
        tab = str(rng.choice(["cram_16", "cram_12"]))
        ctx.case(("bateman", method, dt, tf), True, f"analytic_bateman_s3({method!r}, dt={dt}, tf={tf}, pfd_method={tab!r})")
        plot = it == 0
        with recorded() as (calls, out):
            t_res, y_res, t, y_true = B.analytic_bateman_s3(method, do_plot=plot, dt=dt, tf=tf, pfd_method=tab)
        ctx.count("drivers")
        ctx.count("bateman")
        c = calls[-1]
        ns = int(round(tf / dt))
        num(ctx, np.asarray(t_res), dt * np.arange(ns + 1), 1e-12 * tf, "bt_times", "times of the computed solution")
        num(ctx, np.asarray(t), dt * np.arange(ns + 1), 1e-12 * tf, "bt_times", "times of the analytic solution")
        num(ctx, np.asarray(y_res), c["y"], 0., "bt_values", "returned computed solution")
        want = np.array([np.asarray(refs.expm(A * q), float)[:, 0] for q in dt * np.arange(ns + 1)])
        num(ctx, np.asarray(y_true), want, 1e-13 + 1e-10 * want, "bt_true", "returned analytic solution")
        if "pfd" in method or method.startswith("ep") or "dense" in method:
            # linear system: these methods are exact up to their evaluator
            lim = 1e-6 if method != "exprb2_pfd" else 1e-5
            num(ctx, np.asarray(y_res), want, lim, "bt_solution", f"{method} solution of the linear chain")
        if plot:
            ctx.ok(any(f.endswith(".png") and method in f for f in os.listdir(".")), "bt_files", "plot not written")
            tt = dt * np.arange(ns + 1)
            if ctx.ok(len(figs) == 1, "bt_plot", f"plots {[f['name'] for f in figs]}"):
                for s in range(3):
                    line(ctx, figs[0]["axes"][0], f"c_{s}", tt + 1, c["y"][:, s] + 1e-16, 1e-15, "bt_plot", figs[0]["name"])
                    line(ctx, figs[0]["axes"][0], f"c_{s} true", tt + 1, want[:, s] + 1e-16, 1e-13 + 1e-10 * want[:, s], "bt_plot", figs[0]["name"])
            figs.clear()


def stand_in(sys_, y0, t0, dt, nsteps, method="epi2", **kw):
    """a solution that depends on everything the driver passes and differs from the exact one"""
    from ormatex_py.integrate_wrapper import IntegrateResult
    import jax.numpy as jnp
    h = sum(map(ord, method + str(kw.get("pfd_method", "")))) % 17
    t = t0 + dt * np.arange(nsteps + 1)
    y = np.asarray(y0)
    ys = [y * (1 + .1 * np.sin(q)) + (dt ** 1.5 * (1 + .2 * h)) * (.3 + np.cos(q * (1 + .1 * h) + np.arange(y.size)) ** 2) * (k > 0) for k, q in enumerate(t)]
    return IntegrateResult([float(q) for q in t], [jnp.asarray(v) for v in ys], {}, 0)


def sweeps(ctx, i, r, figs):
    """method sweeps: every printed row, scattered point and line belongs to the run it is labelled with"""
    [sweep_bateman, sweep_lv, sweep_rad3][i](ctx, r, figs)
    figs.clear()


def table(txt, head):
    """rows of numbers following a line that contains head"""
    ls, out = txt.split("\n"), []
    for k, l in enumerate(ls):
        if head in l:
            rows = []
            for q in ls[k + 1:]:
                v = re.findall(r"[-+]?\d[.\deE+-]*|nan|inf", q)
                if not v or re.search(r"[A-DF-Za-df-z=]", q.replace("nan", "").replace("inf", "")):
                    break
                rows.append([float(x) for x in v])
            out.append(rows)
    return out


def sweep_bateman(ctx, r, figs):
    from ormatex_py.progression import bateman_sys as B
    ctx.case(("sweep", "bateman", r), True, "bateman_sys.run_sweep()")
    with recorded(stand_in) as (calls, out):
        B.run_sweep()
    ctx.count("drivers")
    ctx.count("sweeps")
    A = np.array([[-.1, 0, 0], [.1, -10., 0], [0, 10., -1e-3]])
    ex = {}
    per = {}
    for c in calls:
        for q in (c["t"][-1],):
            if q not in ex:
                ex[q] = np.asarray(refs.expm(A * q), float)[:, 0]
        e = np.abs(c["y"][-1] - ex[c["t"][-1]]) / ex[c["t"][-1]]
        per.setdefault(c["method"], {}).setdefault((round(c["t"][-1], 9), c["dt"]), e)
    conv = [f for f in figs if "converg" in f["name"]]
    txt = out.getvalue()
    tabs = re.split(r"=== Method:\s*", txt)[1:]
    if not ctx.ok(len(tabs) == len(per) and len(conv) == 1, "sweep_print", f"{len(tabs)} tables for {len(per)} methods, {len(conv)} convergence plots"):
        return
    seen = set()
    for tb in tabs:
        m = tb.split("\n")[0].strip()
        arr = re.search(r"\[\[(.*?)\]\]", tb, re.S)
        rows = np.array([float(x) for x in re.findall(r"[-+]?\d[.\deE+-]*", arr.group(1) if arr else "")])
        if not ctx.ok(len(rows) and len(rows) % 4 == 0, "sweep_print", f"table {tb[:200]!r}"):
            continue
        rows = rows.reshape(-1, 4)
        if not ctx.ok(m in per and m not in seen, "sweep_print", f"table of {m!r}, methods run {sorted(per)}"):
            continue
        seen.add(m)
        tf = max(k[0] for k in per[m] if k[0] <= 101.)
        want = sorted((dt, e) for (t, dt), e in per[m].items() if t == tf)
        if ctx.ok(len(want) == len(rows), "sweep_print", f"{m}: {len(rows)} rows for {len(want)} runs"):
            rows = rows[np.argsort(rows[:, 0])]
            for row, (dt, e) in zip(rows, want):
                num(ctx, row[0], dt, 1e-6 * dt, "sweep_dt", f"{m}: step size of a row")
                num(ctx, row[1:], e, 1e-6 * e + 1e-10, "sweep_err", f"{m}: printed relative errors at dt={dt}")
            line(ctx, conv[0]["axes"][0], m, [d for d, _ in want], [e[1] for _, e in want], 1e-9 * (1 + max(e[1] for _, e in want)), "sweep_plot", conv[0]["name"])
    ctx.ok(re.search(r"t_f\$=0*100\.0+", conv[0]["axes"][0]["title"]) is not None, "sweep_plot", f"title {conv[0]['axes'][0]['title']!r}")


def sweep_lv(ctx, r, figs):
    from scipy.integrate import solve_ivp
    from ormatex_py.progression import lotka_volterra as L
    auto = bool(ctx.rng.integers(2))
    ctx.case(("sweep", "lv", auto), True, f"lotka_volterra.sweep_methods(autonomous={auto})")
    # the gold solution is the same for all methods of the sweep: compute it once
    import diffrax
    memo, ods = {}, diffrax.diffeqsolve

    def solve(term, solver, t0, t1, dt0, y0, **kw):
        key = (type(term.vector_field).__name__, t0, t1, dt0, tuple(np.asarray(y0).tolist()))
        if key not in memo:
            memo[key] = ods(term, solver, t0, t1, dt0, y0, **kw)
        return memo[key]
    diffrax.diffeqsolve = solve
    try:
        with recorded(stand_in) as (calls, out):
            L.sweep_methods(autonomous=auto)
    finally:
        diffrax.diffeqsolve = ods
    ctx.count("drivers")
    ctx.count("sweeps")

    def f(t, x):
        h = 0. if auto else .4 * (np.sin(.2 * t) + 1)
        return [x[0] - x[0] * x[1], x[0] * x[1] - x[1] - h * x[1]]
    sol = solve_ivp(f, (0, 20.5), [.1, .2], method="DOP853", rtol=1e-12, atol=1e-14, dense_output=True, max_step=.1)
    per = {}
    gold = {}
    for c in calls:
        if c["dt"] not in gold:
            gold[c["dt"]] = sol.sol(c["t"])[0]
        per.setdefault(c["method"], []).append((c["dt"], float(np.mean(np.abs(c["y"][:, 0] - gold[c["dt"]])))))
    cv = [f for f in figs if "sweep" in f["name"]]
    if not ctx.ok(len(cv) == 1 and len(cv[0]["axes"][0]["points"]) == len(per) == len(cv[0]["axes"][0]["lines"]), "sweep_plot",
                  f"{len(per)} methods, plots {[(f['name'], len(f['axes'][0]['points']), len(f['axes'][0]['lines'])) for f in cv]}"):
        return
    ctx.ok(any(type(c["sys"]).__name__ == ("LotkaVolterra" if auto else "LotkaVolterraNonauto") for c in calls), "sweep_system", "system of the sweep")
    pts = cv[0]["axes"][0]["points"]
    for m, rows in per.items():
        rows = np.array(sorted(rows))
        s, b = np.polyfit(np.log(rows[:, 0]), np.log(rows[:, 1]), 1)
        ok = [p for p in pts if p.shape == rows.shape and np.allclose(p[np.argsort(p[:, 0])], rows, rtol=1e-3, atol=1e-9)]
        ctx.ok(len(ok) >= 1, "sweep_plot", f"{m}: no scattered points at its errors {rows[:, 1]}")
        ln = [l for l in cv[0]["axes"][0]["lines"] if re.match(re.escape(m) + r",", l[0])]
        if ctx.ok(len(ln) == 1, "sweep_label", f"{m}: lines {[l[0] for l in cv[0]['axes'][0]['lines']]}"):
            k = np.argsort(ln[0][1])
            num(ctx, ln[0][1][k], rows[:, 0], 1e-12, "sweep_plot", f"{m}: abscissae")
            num(ctx, np.log(ln[0][2][k]), s * np.log(rows[:, 0]) + b, 2e-3, "sweep_plot", f"{m}: trend line")
            g = re.search(r"=\s*([-+.\deE]+)\s*$", ln[0][0])
            if ctx.ok(g is not None, "sweep_label", ln[0][0]):
                num(ctx, float(g.group(1)), s, 6e-3 * abs(s) + 1e-3, "sweep_label", f"{m}: order in the label")


def sweep_rad3(ctx, r, figs):
    rng = ctx.rng
    mr, pord, per, tf = int(rng.integers(2, 4)), int(rng.integers(1, 3)), bool(rng.integers(2)), float(rng.choice([.5, 1.]))
    nu = 2e-3
    args = ["-sweep", "-mr", mr, "-p", pord, "-tf", tf, "-nu", nu] + ["-per"] * per
    ctx.case(("sweep", "rad3", tuple(map(str, args))), True, "rad_1d_3s " + " ".join(map(str, args)))
    calls, txt = script(ctx, "rad_1d_3s", args, stand_in)
    ctx.count("sweeps")
    fin = [f for f in figs if f["name"].endswith("_dt_err.png")]
    tabs = re.split(r"=== Method:\s*", txt)[1:]
    per_m = {}
    for c in calls:
        xs = np.asarray(c["sys"].xs)
        T = c["t"][-1]
        var = .05 ** 2
        s2 = var + 2 * nu * T
        d = xs - .4 - .5 * T
        g = sum(np.exp(-(d % 1 - q) ** 2 / (2 * s2)) for q in (-2, -1, 0, 1, 2, 3)) if c_per(c) else np.exp(-d ** 2 / (2 * s2))
        frac = np.asarray(refs.expm(np.asarray(c["sys"].bat_mat) * T), float)[:, 0]
        ex = frac[:, None] * (g * np.sqrt(var / s2))[None, :]
        e = np.mean(np.abs(c["y"][-1].reshape(3, -1) - ex), axis=1)
        tab = c["kw"].get("pfd_method", "") if "pfd" in c["method"] else ""
        per_m.setdefault((c["method"], tab), []).append((c["dt"], e, e / np.max(ex, axis=1)))
    if not ctx.ok(len(tabs) == len(per_m) and len(fin) == 1, "sweep_print", f"{len(tabs)} tables for {len(per_m)} methods, {len(fin)} plots"):
        return
    for tb in tabs:
        words = tb.split("\n")[0].split()
        key = (words[0], words[1] if len(words) > 1 else "")
        if not ctx.ok(key in per_m, "sweep_print", f"table of {key}, runs {sorted(per_m)}"):
            continue
        want = per_m[key]
        for head, k in (("dt, MAE", 1), ("dt, MRE", 2)):
            rows = table(tb, head)
            if ctx.ok(len(rows) == 1 and len(rows[0]) == len(want) and all(len(q) == 4 for q in rows[0]), "sweep_print", f"{key} {head}: rows {rows}"):
                for q, w in zip(rows[0], want):
                    num(ctx, q, np.concatenate([[w[0]], w[k]]), 1e-4 * np.concatenate([[w[0]], w[k]]) + 1e-9, "sweep_err", f"{key} {head} at dt={w[0]}")
        ln = [l for l in fin[0]["axes"][0]["lines"] if l[0].split(":", 1)[-1].split() == [x for x in key if x]]
        if ctx.ok(len(ln) == 1, "sweep_label", f"{key}: lines {[l[0] for l in fin[0]['axes'][0]['lines']]}"):
            ctx.count("lines")
            num(ctx, ln[0][1], [w[0] for w in want], 1e-12, "sweep_plot", f"{key}: step sizes")
            num(ctx, ln[0][2], [w[2][2] for w in want], [1e-8 * (1 + w[2][2]) for w in want], "sweep_plot", f"{key}: relative errors of the last species")


def c_per(c):
    """is the transport system of a recorded run periodic (no boundary nodes)?"""
    return len(np.asarray(c["sys"].dirichlet_bd)) == 0


def script(ctx, mod, args, solver=None):
    """run a driver module as a script; its recorded calls and output"""
    old = sys.argv
    sys.argv = ["x"] + [str(a) for a in args]
    try:
        with recorded(solver) as (calls, out):
            runpy.run_module("ormatex_py.progression." + mod, run_name="__main__")
    finally:
        sys.argv = old
    ctx.count("drivers")
    return calls, out.getvalue()


def sem_nodes(width, mr, per, pord):
    import skfem as fem
    from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM
    mesh = (fem.MeshLine1(np.array([[0., width]])) if width != 1 else fem.MeshLine1()).with_boundaries(
        {"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], width)}).refined(mr)
    if per:
        mesh = fem.MeshLine1DG.periodic(mesh, mesh.boundaries["right"], mesh.boundaries["left"])
    return np.asarray(AdDiffSEM(mesh, p=pord, params={"nu": 1e-8, "vel": .5}).basis.doflocs[0])


def rad2(ctx, i, r, figs):
    rng = ctx.rng
    mr, pord, per = int(rng.integers(3, 5)), int(rng.integers(1, 4)), bool((i + r) % 2)
    method = ["exprb2", "epi2", "epi3", "exprb3"][int(rng.integers(4))]
    ctx.case(("rad2", mr, pord, per, method), True, f"rad_1d_2s -mr {mr} -p {pord} {'-per' * per} -method {method}")
    calls, txt = script(ctx, "rad_1d_2s", ["-mr", mr, "-p", pord, "-method", method] + ["-per"] * per)
    ctx.count("rad2")
    c = calls[-1]
    xs = sem_nodes(1, mr, per, pord)
    ctx.ok(c["method"] == method, "arguments", f"driver ran {c['method']}")
    if not ctx.ok(c["y"].shape[1] == 2 * len(xs), "nodes", f"{c['y'].shape[1]} unknowns for {len(xs)} nodes"):
        return
    g = np.exp(-((xs - .3) / .1) ** 2)
    num(ctx, c["y"][0].reshape(2, -1), np.array([g, .2 * g]), 1e-14, "rad2_initial", "initial profiles at the nodes")
    q = np.argsort(xs, kind="stable")
    fg = [f for f in figs if len(f["axes"]) == 1]
    if ctx.ok(len(fg) == 1, "rad2_plot", f"plots {[f['name'] for f in figs]}"):
        ctx.ok(len(fg[0]["axes"][0]["lines"]) >= 2, "rad2_plot", "no lines")
        for lab, x, y in fg[0]["axes"][0]["lines"]:
            m = re.fullmatch(r"t=([-+.\deE]+), species=(\d+)", lab)
            if ctx.ok(m is not None and int(m.group(2)) < 2, "rad2_label", f"line {lab!r}"):
                k = int(np.argmin(np.abs(c["t"] - float(m.group(1)))))
                ctx.count("lines")
                if ctx.ok(abs(c["t"][k] - float(m.group(1))) < 6e-5 and x.shape == xs.shape, "rad2_label", f"line {lab!r}: no such time"):
                    num(ctx, x, xs[q], 1e-13, "rad2_plot", f"abscissae of {lab!r}")
                    num(ctx, y, c["y"][k].reshape(2, -1)[int(m.group(2))][q], 0., "rad2_plot", f"values of {lab!r}")


def rad9(ctx, i, r, figs):
    rng = ctx.rng
    mr, pord, per = 3, int(rng.integers(1, 4)), bool((i + r) % 2)
    method = ["exprb2", "epi2", "epi3"][int(rng.integers(3))]
    dt, ns = [(.3, 3), (1., 3), (.7, 4), (.1, 7), (1.3, 2), (.25, 4)][int(rng.integers(6))]
    multi = True
    ctx.case(("rad9", pord, per, method, dt, ns), True, f"rad_1d_9s -fine -multi_plot -mr {mr} -p {pord} {'-per' * per} -dt {dt} -nsteps {ns} -method {method}")
    os.makedirs("rad_1d_9s_out", exist_ok=True)
    calls, txt = script(ctx, "rad_1d_9s", ["-mr", mr, "-p", pord, "-method", method, "-dt", dt, "-nsteps", ns, "-fine", "-multi_plot"] + ["-per"] * per)
    ctx.count("rad9")
    if not ctx.ok(len(calls) == 2, "rad9_runs", f"{len(calls)} runs"):
        return
    fine, c = calls
    ctx.ok(c["method"] == method and c["dt"] == dt and c["n"] == ns, "arguments", f"driver ran {c['n']} steps of {c['dt']} with {c['method']}")
    xs = sem_nodes(5., mr, per, pord)
    if not ctx.ok(c["y"].shape[1] == 9 * len(xs) == fine["y"].shape[1], "nodes", f"{c['y'].shape[1]} unknowns for {len(xs)} nodes"):
        return
    ctx.ok(np.array_equal(fine["y"][0], c["y"][0]), "rad9_initial", "baseline starts from another state")
    q = np.argsort(xs, kind="stable")
    fg = [f for f in figs if len(f["axes"]) == 9]
    if not ctx.ok(len(fg) == ns + 2, "rad9_plot", f"plots {[f['name'] for f in fg]}"):
        return
    for f, k in zip(fg, [ns] + list(range(ns + 1))):
        t = c["t"][k]
        kf = int(np.argmin(np.abs(fine["t"] - t)))
        if not ctx.ok(abs(fine["t"][kf] - t) < 1e-9, "rad9_baseline_time", f"-dt {dt} -nsteps {ns}: baseline (steps of {fine['dt']:g} to t={fine['t'][-1]:g}) has no solution at t={t:g}"):
            return
        u, uf = c["y"][k].reshape(9, -1), fine["y"][kf].reshape(9, -1)
        for s in range(9):
            ax = [a for a in f["axes"] if a["ylabel"] == f"$u_{{{s}}}$ [mol/cc]"]
            if not ctx.ok(len(ax) == 1, "rad9_label", f"{f['name']}: axes {[a['ylabel'] for a in f['axes']]}"):
                return
            line(ctx, ax[0], f"t={t:.4f}, $u_{{{s}}}$", xs[q], u[s][q], 0., "rad9_plot", f["name"])
            line(ctx, ax[0], f"t={fine['t'][kf]:.4f}, baseln $u_{{{s}}}$", xs[q], uf[s][q], 0., "rad9_baseline", f["name"])
            g = re.search(r"Rel\.Err=\s*([-+.\deEnainf]+)", ax[0]["title"])
            w = float(np.mean(np.abs(u[s] - uf[s])) / abs(np.mean(uf[s])))
            if ctx.ok(g is not None and method in ax[0]["title"], "rad9_label", f"title {ax[0]['title']!r}"):
                num(ctx, abs(float(g.group(1))), w, 1e-3 * w + 1e-12, "rad9_error", f"{f['name']}: relative error of species {s} in the title")
    sp = re.findall(r"Mesh Spacing:\s*([-+.\deE]+)", txt)
    if ctx.ok(len(sp) == 1, "rad9_print", "mesh spacing not printed"):
        num(ctx, float(sp[0]), np.sort(xs)[2] - np.sort(xs)[0], 1e-4 * xs.max(), "rad9_print", "printed mesh spacing")


def chains(ctx, i, r, figs):
    """the two decay-chain scripts"""
    rng = ctx.rng
    method = ["epi3", "exprb2", "epi2"][int(rng.integers(3))]
    ctx.case(("bateman_sys", method), True, f"bateman_sys -method {method}")
    calls, txt = script(ctx, "bateman_sys", ["-method", method])
    c = calls[-1]
    rows = [[float(x) for x in m] for m in re.findall(r"^\s*([-+.\deE]+), ([-+.\deE]+), ([-+.\deE]+), ([-+.\deE]+)\s*$", txt, re.M)]
    ctx.count("chains")
    if ctx.ok(len(rows) >= 2, "bs_print", "no table printed"):
        for row in rows:
            k = int(np.argmin(np.abs(c["t"] - row[0])))
            ctx.ok(abs(c["t"][k] - row[0]) <= 6e-5 * abs(row[0]) + 1e-9, "bs_print", f"printed time {row[0]}")
            num(ctx, row[1:], c["y"][k], 6e-5 * np.abs(c["y"][k]) + 1e-300, "bs_print", f"printed row t={row[0]}")
    if ctx.ok(len(figs) == 1, "bs_plot", f"plots {[f['name'] for f in figs]}"):
        for s in range(3):
            line(ctx, figs[0]["axes"][0], f"c_{s}", c["t"], c["y"][:, s], 0., "bs_plot", figs[0]["name"])
    figs.clear()
    from ormatex_py.progression import bateman_nonlin_sys as bn
    ctx.case(("bateman_nonlin", method), True, f"bateman_nonlin_sys -method {method}")
    calls, txt = script(ctx, "bateman_nonlin_sys", ["-method", method])
    c = calls[-1]
    ctx.count("chains")
    if ctx.ok(len(figs) == 1, "bn_plot", f"plots {[f['name'] for f in figs]}"):
        for s, nm in enumerate(bn.keymap):
            line(ctx, figs[0]["axes"][0], f"species: {nm}", c["t"], c["y"][:, s], 0., "bn_plot", figs[0]["name"])
        ctx.ok(method in figs[0]["axes"][0]["title"] and str(c["dt"]) in figs[0]["axes"][0]["title"], "bn_plot", f"title {figs[0]['axes'][0]['title']!r}")


def lejadetail(ctx, i, r, figs):
    """convergence plot of the Leja polynomials on the spectrum of a 3-species system"""
    from ormatex_py import matexp_leja as ml
    from ormatex_py.progression import rad_1d_3s as R
    import jax.numpy as jnp
    rng = ctx.rng

    class Lin:
        """a system with a prescribed linear Jacobian"""
        def __init__(self, J):
            self.J = J

        def fjac(self, t, y, **kw):
            from ormatex_py.ode_sys import MatrixLinOp
            return MatrixLinOp(jnp.asarray(self.J))
    n = 6
    J = np.zeros((n, n))
    for k in range(0, n, 2):
        al, be = -float(rng.uniform(.2, 6)), float(rng.uniform(.1, 3))
        J[k:k + 2, k:k + 2] = [[al, be], [-be, al]]
    y, dt = rng.standard_normal(n), float(rng.uniform(.3, 1.5))
    ev = np.linalg.eig(dt * J)[0]
    given = bool(i % 2)
    kw = {"leja_c": float(np.max(np.abs(ev.imag)) * 1.3)} if given else {}
    a, cc = float(np.min(ev.real)), kw.get("leja_c", float(np.max(np.abs(ev.imag))))
    lst = [8, 24] if not ctx.thorough else [4, 8, 12, 24, 36, 50]
    ctx.case(("lejadetail", a, cc, given), True, f"plot_leja_conv_detail on {n} eigenvalues in [{a:.3g}, 0] x i[-{cc:.3g}, {cc:.3g}], leja_c {'given' if given else 'default'}")
    os.makedirs("ld", exist_ok=True)
    with contextlib.redirect_stdout(io.StringIO()):
        R.plot_leja_conv_detail(Lin(J), jnp.asarray(y), 0., dt, outdir="ld", n_leja_list=lst, **kw)
    ctx.count("drivers")
    ctx.count("lejadetail")
    fg = [f for f in figs if f["name"].endswith("leja_converge.png")]
    if not ctx.ok(len(fg) == 1 and len(fg[0]["axes"]) == 2, "ld_plot", f"plots {[f['name'] for f in figs][-3:]}"):
        return
    from ormatex_py.matexp_poly import leja_coeffs_exp_dd, leja_coeffs_exp, dd_exp_taylor
    from ormatex_py.ode_sys import DiagLinOp
    for lab, x, ye in fg[0]["axes"][0]["lines"]:
        l2 = [l for l in fg[0]["axes"][1]["lines"] if l[0] == lab]
        c_ = 0. if "ReLPM" in lab else cc
        nz = 1 if "l_1" in lab else 0
        meth = leja_coeffs_exp if "pade" in lab else dd_exp_taylor if "dd_{ts}" in lab else leja_coeffs_exp_dd
        if not ctx.ok(len(l2) == 1 and len(x) >= 1, "ld_plot", f"line {lab!r}"):
            continue
        ctx.count("lines", 2)
        for k in range(len(x)):
            X, nr, scale, shift = ml.gen_leja_conjugate(n=lst[k], a=a, b=0., c=c_)
            if nz:
                X = ml.leja_seq_pad_zeros(X, nz)
            X = jnp.asarray(X)
            w, m, conv = ml.complex_conj_leja_expmv(DiagLinOp(jnp.asarray(ev)), 1., jnp.asarray(y.astype(complex)), shift, scale, X, nz + nr, meth(X, shift, scale), 1e-30, 1e50)
            e = np.abs(np.asarray(w) - np.exp(ev) * y)
            big = 1 + float(np.max(np.abs(w)))
            num(ctx, x[k], float(m), 0, "ld_degree", f"{lab}: degree shown for {lst[k]} points")
            num(ctx, ye[k], np.max(e), 1e-7 * np.max(e) + 1e-13 * big, "ld_error", f"{lab}: largest error shown for {lst[k]} points")
            num(ctx, l2[0][2][k], np.sqrt(np.sum(e ** 2)), 1e-7 * np.max(e) + 1e-13 * big * n, "ld_error", f"{lab}: 2-norm error shown for {lst[k]} points")


def ellipse(ctx, i, r, figs):
    from ormatex_py import matexp_leja as ml
    import jax.numpy as jnp
    rng = ctx.rng
    for it in range(8):
        a, c = -float(rng.uniform(.5, 12)), float(rng.uniform(.3, 6)) if it % 3 else 0.
        n = int(rng.integers(2, 9))
        re_, im = rng.uniform(a, 0, n), rng.uniform(-c, c, n) * .9 if c else np.zeros(n)
        eig = np.concatenate([re_ + 1j * im, re_ - 1j * im])
        nl = int(rng.choice([8, 16, 30, 44, 60]))
        nz = int(rng.integers(0, 3))
        meth = ["taylor", "pade", "recursive"][it % 3] if nl < 20 else ["taylor", "pade"][it % 2]
        tol = float(rng.choice([1e-30, 1e-6, 1e-10]))
        v = None if it % 2 else jnp.asarray(rng.standard_normal(2 * n))
        ctx.case(("ellipse", a, c, n, nl, nz, meth, tol), True, f"plot_leja_conjugate_ellipse_error(a={a:.3g}, c={c:.3g}, {2 * n} eigenvalues, n_leja={nl}, zeros={nz}, {meth}, tol={tol:g}, v={'given' if v is not None else None})")
        out = io.StringIO()
        os.makedirs("e", exist_ok=True)
        # the approximation the driver measures: what the public routine returns for the same arguments
        x, nr, scale, shift = ml.gen_leja_conjugate(n=nl, a=a, b=0., c=c)
        if nz:
            x = ml.leja_seq_pad_zeros(x, nz)
        x = jnp.asarray(x)
        from ormatex_py.matexp_poly import leja_coeffs_exp_dd, leja_coeffs_exp, dd_exp_taylor
        cf = {"pade": leja_coeffs_exp, "recursive": leja_coeffs_exp_dd, "taylor": dd_exp_taylor}[meth](x, shift, scale)
        u = np.ones(2 * n, complex) if v is None else np.asarray(v).astype(complex)
        from ormatex_py.ode_sys import DiagLinOp
        w, k, conv = ml.complex_conj_leja_expmv(DiagLinOp(jnp.asarray(eig)), 1., jnp.asarray(u), shift, scale, x, nz + nr, cf, tol, 1e50)
        e = np.abs(np.asarray(w) - np.exp(eig) * u)
        with contextlib.redirect_stdout(out):
            it_, mx, l2 = ml.plot_leja_conjugate_ellipse_error(a=a, b=0., c=c, eigJ=jnp.asarray(eig), leja_n_zeros=nz, n_leja=nl, dd_method=meth, leja_tol=tol, v=v, dirname="e")
        ctx.count("drivers")
        ctx.count("ellipse")
        big = 1 + float(np.max(np.abs(w)))
        num(ctx, int(it_), int(k), 0, "el_iter", "reported degree")
        num(ctx, mx, np.max(e), 1e-9 * np.max(e) + 1e-14 * big, "el_max", "reported largest error on the spectrum")
        num(ctx, l2, np.sqrt(np.sum(e ** 2)), 1e-9 * np.max(e) + 1e-14 * big * n, "el_l2", "reported 2-norm error on the spectrum")
        txt = out.getvalue()
        for lab, val in (("max eig error", np.max(e)), ("l2 eig error", np.sqrt(np.sum(e ** 2)))):
            g = re.findall(lab + r":\s*([-+.\deE]+)", txt)
            if ctx.ok(len(g) == 1, "el_print", f"{lab} not printed"):
                num(ctx, float(g[0]), val, 1e-5 * val + 1e-13 * big, "el_print", f"printed {lab}")
        ctx.ok(len([f for f in os.listdir("e") if f.endswith(".png")]) >= 1, "el_files", "plots not written")
        for f in os.listdir("e"):
            os.unlink(os.path.join("e", f))
