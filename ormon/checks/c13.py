"""C13 integrator state machine: trial / accept / reject / reset histories against a shadow model."""
import numpy as np
from ormon import gen, refs, iref
from ormon.checks.c11 import leja_problem

LEVEL_RULE = ("random operation sequences (trial with new/old/negative step sizes, repeated trial, accept newest or an older trial result, discard, accept of a "
              "caller-made result, reset to other times/states) on every method; a shadow model of time/state/history, a fresh twin replaying the operations "
              "since the last reset and the long-double one-step formula judge every operation; non-trivial = sequence with accepts, rejects and resets")
MIN = {"plateau_steps": 200, "retry_trials": 300, "retry_changed": 120, "long_steps": 400, "long_after_reset": 180, "trials": 400, "accepts": 200, "rejects": 60, "resets": 40, "repeat": 60, "twin": 300, "formula": 200, "dtchange": 100, "full_history": 20, "close_dt": 30, "reset_same_time": 20, "reset_same_state": 20}
ASSUMPTIONS = ["long double one-step references", "Leja warm-start data (eigenvector, substep size) may persist as long as results agree to tolerance"]


def units(tier):
    reps = 1 if tier == "quick" else 6
    ms = iref.RB + ["exp_pfd", "rk4"] + iref.SPLIT
    long = [["epi2_leja_re"], ["epi2_leja_im"], ["epi3_leja_im"]] + [ms[i::4] for i in range(4)]
    return [(f"long_{r}_{i}", {"long": x}) for r in range(reps) for i, x in enumerate(long)] + [(f"still_{r}_{i}", {"still": x}) for r in range(reps) for i, x in enumerate(long)] + [(f"{m}_{r}", {"m": m, "r": r}) for r in range(reps) for m in ["epi2_leja_im", "epi3_leja_im", "epi2_leja_re"] + iref.RB + ["exp_pfd", "rk4"] + iref.SPLIT]


def long_run(ctx, m, jnp):
    """one integrator for many accepted steps on a quadratically damped system, with resets to states with a very different Jacobian; every step against the
    formula on the accepted history and, after each reset, against a fresh integrator. Leja methods estimate their interval themselves."""
    rng, leja = ctx.rng, "leja" in m
    for it in range(ctx.n(2 if leja else 1, 4)):
        if not ctx.more():
            return
        n = 3
        S = iref.blank(n)
        c = .03 * rng.standard_normal((n, n))
        S["A"] = rng.uniform(.5, 2) * (-np.diag([1., .45, .15]) + (c + c.T) / 2)
        S["L"] = S["A"] + .1 * rng.standard_normal((n, n))
        if m != "exp_pfd":
            S["Q"], S["P"] = -np.eye(n), np.eye(n)
            S["b"], S["s"], S["w"], S["ph"] = rng.uniform(.1, .2, n), .05 * rng.standard_normal(n), rng.uniform(.5, 3, n), rng.uniform(0, 6, n)
        opts = dict(leja_tol=1e-12) if leja else {}
        sys, st = iref.make(S), iref.Stepper(S, None, "ad", **opts)
        I = iref.integrator(sys, 0., jnp.asarray([.4, .3, .2]), m, **opts)
        y, order = np.array([.4, .3, .2]), iref.ORDER[m]
        hist = [(0., y)]
        h = float(rng.uniform(.05, .3))
        for leg, amp in enumerate([None, 80. if leja else 15., .3, 6., 30. if leja else 10.]):
            twin = None
            if amp is not None:
                y = amp * np.array([1., .6, .3]) * rng.uniform(.9, 1.1, n)
                tb = float(rng.choice([hist[0][0], rng.uniform(-2, 3)]))
                I.reset_ic(tb, jnp.asarray(y))
                hist = [(tb, y)]
                twin = iref.integrator(sys, tb, jnp.asarray(y), m, **opts)
                h = float(rng.uniform(.1, 2) / (1 + amp)) if not leja else float(rng.uniform(.3, 14) / (1 + amp))
                ctx.count("long_resets")
            for k in range((12 if leja else 26) if amp is None else 5):
                desc = f"{m} leg {leg} amplitude {amp} step {k} h={h:.3g} t={hist[0][0]:.4g}"
                ctx.case(("long", m, it, leg, k), True, desc)
                try:
                    r = I.step(h)
                except RuntimeError as e:
                    if leja and "not converged" in str(e):
                        ctx.count("leja_notconv")
                        break
                    raise
                want = st.step(m, hist, h)
                sc = 1 + float(np.max(np.abs(hist[0][1])))
                ctx.count("long_steps")
                ctx.count("long_after_reset", int(amp is not None))
                ok = ctx.close(r.y, want.v, 3 * want.e + 1e-12 * sc, "long_formula", desc, track="long")
                if twin is not None:
                    rt = twin.step(h)
                    ok &= ctx.close(r.y, np.asarray(rt.y), (1e-8 if leja else 1e-13) * sc, "long_twin", f"{desc}: vs an integrator constructed at the reset")
                    twin.accept_step(r)
                if not ok or not np.all(np.isfinite(np.asarray(r.y))):
                    return
                I.accept_step(r)
                hist = ([(float(r.t), np.asarray(r.y))] + hist)[:order]
                if m != "exp_pfd" and (np.min(hist[0][1]) < -.05 or np.max(hist[0][1]) > 1 + 2 * (amp or 1)):
                    break
                ctx.ok(len(I.y_hist) == len(hist) and len(I.t_hist) == len(hist) and np.array_equal(np.asarray(I.state), hist[0][1]) and float(I.time) == hist[0][0], "long_state", desc)
                if k % 7 == 6:
                    h = h * float(rng.choice([.5, 1.3, 1 + 1e-5]))


def plateau(ctx, m, jnp):
    """a state that hardly moves, relative to its size, from step to step: every step against the formula and against an integrator constructed at that state
    (one-step methods) -- nothing of an earlier linearisation may be used."""
    rng, leja = ctx.rng, "leja" in m
    n = 3
    for it in range(ctx.n(1, 3)):
        S = iref.blank(n)
        amp = float(10 ** rng.uniform(1., 2.))
        S["A"] = .1 * rng.standard_normal((n, n))
        S["L"] = S["A"] - 2 * amp * np.eye(n)
        S["s"], S["w"], S["ph"] = amp / 30 * rng.uniform(.5, 1, n), amp * rng.uniform(.3, 2, n), rng.uniform(0, 6, n)
        if m == "exp_pfd":
            S["A"] -= 2 * amp * np.eye(n)
            S["b"] = S["s"] = S["s"] * 0
        else:
            S["Q"], S["P"] = -np.eye(n), np.eye(n)
            S["b"] = amp * amp * rng.uniform(.99, 1.01, n)
        opts = dict(leja_tol=1e-12) if leja else {}
        sys, st = iref.make(S), iref.Stepper(S, None, "ad", **opts)
        y, order = np.sqrt(np.abs(S["b"])) if m != "exp_pfd" else np.ones(n), iref.ORDER[m]
        I = iref.integrator(sys, 0., jnp.asarray(y), m, **opts)
        hist = [(0., y)]
        for k in range(ctx.n(14, 30)):
            h = float(rng.choice([.3, .6, 1.2]) / (2 * amp))
            desc = f"{m} plateau amplitude {amp:.3g} step {k} h={h:.3g}"
            ctx.case(("plateau", m, it, k), True, desc)
            try:
                r = I.step(h)
            except RuntimeError as e:
                if leja and "not converged" in str(e):
                    ctx.count("leja_notconv")
                    break
                raise
            want = st.step(m, hist, h)
            sc = 1 + float(np.max(np.abs(hist[0][1])))
            ctx.count("plateau_steps")
            ok = ctx.close(r.y, want.v, 3 * want.e + 1e-12 * sc, "plateau_formula", desc, track="plateau")
            if order <= 2 and not m.startswith("epi3") and m not in iref.SPLIT and k % 3 == 1:
                rf = iref.integrator(sys, hist[0][0], jnp.asarray(hist[0][1]), m, **opts).step(h)
                ok &= ctx.close(r.y, np.asarray(rf.y), (1e-9 if leja else 1e-12) * sc, "plateau_fresh", f"{desc}: vs an integrator constructed at this state")
            if not ok:
                return
            I.accept_step(r)
            hist = ([(float(r.t), np.asarray(r.y))] + hist)[:order]


def retry(ctx, m, jnp):
    """trial steps repeated from one state with other right-hand-side arguments and step sizes (coupling iterations): every trial equals the first trial of
    an integrator with the same accepted history."""
    rng, leja = ctx.rng, "leja" in m
    n = 3
    for it in range(ctx.n(1, 3)):
        if leja:
            S = leja_problem(rng, n, m)
            opts = dict(leja_tol=1e-12)
        else:
            S = iref.random_system(rng, n, nonlin=.3)
            S["c"] *= .2
            S["T"] *= .2
            S["A"] = S["A"] - .5 * np.eye(n)
            opts = {}
        sys = iref.make(S)
        y0 = rng.standard_normal(n)
        nj = max(refs.inorm(iref.F(S).jac(0., y0)), .3)
        kws = [None, {}, {"gain": 1.25}, {"gain": .5}, {"src": float(rng.uniform(.3, 1))}, {"gain": .8, "src": -.4}]
        I = iref.integrator(sys, 0., jnp.asarray(y0), m, **opts)
        acc, prev = [], None
        for k in range(ctx.n(3, 6)):
            hs = [float(x) for x in rng.uniform(.1, .5, 2) / nj]
            last = None
            for j in range(ctx.n(5, 8)):
                h, kw = hs[int(rng.integers(2))], kws[int(rng.integers(len(kws)))]
                if j == 1 and last is not None:          # the same size with other arguments
                    h, kw = last[0], kws[(last[1] + int(rng.integers(2, 5))) % 6]
                desc = f"{m} retry step {k} trial {j} h={h:.3g} arguments {kw} after {last}"
                ctx.case(("retry", m, it, k, j, h, str(kw)), True, desc)
                T = iref.integrator(sys, 0., jnp.asarray(y0), m, **opts)
                for r in acc:
                    T.accept_step(r)
                try:
                    a = I.step(h) if kw is None else I.step(h, frhs_kwargs=dict(kw))
                    b = T.step(h) if kw is None else T.step(h, frhs_kwargs=dict(kw))
                except RuntimeError as e:
                    if leja and "not converged" in str(e):
                        ctx.count("leja_notconv")
                        break
                    raise
                ctx.count("retry_trials")
                if last is not None and (kws[last[1]] or {}) != (kw or {}):
                    ctx.count("retry_changed")
                sc = 1 + float(np.max(np.abs(np.asarray(b.y))))
                if not np.isfinite(sc) or sc > 50:
                    break
                if not ctx.close(a.y, np.asarray(b.y), (1e-8 if leja else 1e-12) * sc, "retry", desc, track="retry"):
                    return
                last = (h, kws.index(kw))
                res = a
            else:
                I.accept_step(res)
                acc.append(res)
                continue
            break


def run(ctx, name, p):
    import jax.numpy as jnp
    from ormatex_py.ode_sys import StepResult
    if "still" in p:
        for m in p["still"]:
            plateau(ctx, m, jnp)
            retry(ctx, m, jnp)
        return
    if "long" in p:
        for m in p["long"]:
            long_run(ctx, m, jnp)
        return
    m, rng = p["m"], ctx.rng
    leja = "leja" in m
    order = iref.ORDER[m]
    for seq in range(ctx.n(2 if leja else 4, 8)):
        if not ctx.more():
            break
        n = int([3, 2, 1, 4][seq % 4])
        opts = {}
        if leja:
            n = max(n, 2)
            S = leja_problem(rng, n, m)
            opts = dict(leja_tol=1e-13)
            na = refs.inorm(iref.F(S).jac(0., np.ones(n)))
            opts["leja_a"] = -2. * na
            if m.endswith("im"):
                opts["leja_c"] = 1.5 * na
        elif m == "exp_pfd":
            S = iref.blank(n)
            S["A"] = gen.scaled(rng, "negdef", n, -1, 1)[0]
        else:
            S = iref.random_system(rng, n, nonlin=.3)
            S["c"] *= .2
            S["T"] *= .2
            S["A"] = S["A"] - .5 * np.eye(n)
        if m in iref.SPLIT and seq % 2:
            S["L1"] = .2 * rng.standard_normal((n, n))
        sys = iref.make(S)
        st = iref.Stepper(S, None, "ad", **opts)
        t0, y0 = float(rng.uniform(-2, 2)), rng.standard_normal(n)
        nj = max(refs.inorm(st.F.jac(t0, y0)), .3)
        dts = [float(x) for x in rng.uniform(.05, .6, 3) / nj] + ([-float(rng.uniform(.05, .3)) / nj] if not leja else [])
        # a step size that differs little from another one (adaptive controllers, rounding of the last step)
        dts.append(dts[0] * (1 + float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-6, -2.5))))
        opt0 = dict(opts)
        I = iref.integrator(sys, t0, jnp.asarray(y0), m, **opts)
        ctx.ok(opts == opt0, "options", "constructor changed the option dictionary")
        model = {"t": t0, "h": [(t0, np.array(y0))]}
        log = []               # operations since the last (re)start, replayed by twins
        base = (t0, np.array(y0))
        pend = []              # trial results (model hist snapshot)
        twin = None
        last_dt = None
        acc_no = 0
        nreset = 0
        desc = []

        def check_state(what):
            h = model["h"]
            ok = ctx.ok(float(I.time) == model["t"] and float(I.t) == model["t"], "time", f"{what}: time {I.time}/{I.t}, expected {model['t']}")
            s = I.state
            ok &= ctx.ok(s is not None and np.shape(s) == (n,) and np.array_equal(np.asarray(s), h[0][1]), "state", f"{what}: state {s}, expected {h[0][1]}")
            ok &= ctx.ok(len(I.t_hist) == len(h) and len(I.y_hist) == len(h), "hist_len", f"{what}: history lengths {len(I.t_hist)},{len(I.y_hist)}, expected {len(h)} (order {order})")
            if ok:
                ok &= ctx.ok([float(x) for x in I.t_hist] == [x[0] for x in h], "t_hist", f"{what}: {list(I.t_hist)} expected {[x[0] for x in h]}")
                ok &= ctx.ok(all(np.array_equal(np.asarray(a), b[1]) for a, b in zip(I.y_hist, h)), "y_hist", f"{what}: state history differs")
            return ok

        def push(t, y):
            model["t"] = t
            model["h"] = ([(t, np.array(y))] + model["h"])[:order]

        ops = ["trial"] * 6 + ["repeat"] * 2 + ["accept"] * 5 + ["discard"] * 2 + ["reset"] * 2 + ["own"]
        nops = ctx.n(16 if leja else 26, 30)
        alive = True
        for k in range(nops):
            op = str(rng.choice(ops))
            if desc and desc[-1].startswith(("reset", "own")):
                op = "trial"            # with the step size of the last trial
            if k == nops // 2 and not any(d.startswith("reset") for d in desc):
                op = "reset"
            if k in (4, 10) and pend:
                op = "reset"            # directly after a trial step
            if op in ("accept", "discard", "repeat") and not pend:
                op = "trial"
            if op == "trial":
                h = dts[int(rng.integers(len(dts)))]
                if last_dt in (dts[0], dts[-1]) and rng.uniform() < .5:
                    h = dts[0] if last_dt == dts[-1] else dts[-1]
                    ctx.count("close_dt")
                if last_dt in dts and desc and desc[-1].startswith(("reset", "own")) and rng.uniform() < .7:
                    h = last_dt
            if op == "trial" or op == "repeat":
                if op == "repeat":
                    h, prev, snap = pend[-1]
                    if snap != acc_no:
                        op, prev = "trial", None
                else:
                    prev = None
                ctx.case((m, seq, k, op, h, model["t"]), True, f"{m} n={n} seq={seq} ops={' '.join(desc[-12:])} -> {op}({h:.4g})")
                snap_y = [np.array(x[1]) for x in model["h"]]
                try:
                    r = I.step(h)
                except RuntimeError as e:
                    if leja and "not converged" in str(e):
                        ctx.count("leja_notconv")
                        alive = False
                        break
                    raise
                ctx.count("trials")
                desc.append(f"{op}({h:.3g})")
                if not check_state("after a trial step"):
                    alive = False
                    break
                y = np.asarray(r.y)
                t1 = model["t"] + h
                ctx.ok(abs(float(r.t) - t1) <= 8 * refs.EPS * (abs(t1) + abs(h)) and float(r.dt) == h, "result_time", f"result t={r.t} dt={r.dt}, expected {t1}, {h}")
                if not ctx.ok(y.shape == (n,) and np.all(np.isfinite(y)), "result", f"result {y}"):
                    alive = False
                    break
                sc = 1 + float(np.max(np.abs(y)))
                if prev is not None:
                    ctx.count("repeat")
                    ctx.close(y, np.asarray(prev.y), (1e-8 if leja else 1e-13) * sc, "repeat", "repeated trial with the same step size")
                # the result must not alias the stored state
                if last_dt is not None and h != last_dt:
                    ctx.count("dtchange")
                last_dt = h
                log.append(("step", h))
                # twin: freshly constructed at the last (re)start, replaying the same operations
                if twin is None:
                    twin = iref.integrator(sys, base[0], jnp.asarray(base[1]), m, **opts)
                    done = 0
                rt = None
                for o in log[done:]:
                    if o[0] == "step":
                        rt = twin.step(o[1])
                    else:
                        twin.accept_step(o[1])
                done = len(log)
                ctx.count("twin")
                ctx.close(y, np.asarray(rt.y), (1e-8 if leja else 1e-13) * sc, "fresh_twin", "result vs a freshly constructed integrator replaying the operations since the last reset")
                # formula on the model history
                if (k % 2 == 0 or h in (dts[0], dts[-1])) and not (m.endswith("dense") and np.any(S["L1"])) and np.max(np.abs(y)) < 50:
                    w = st.step(m, model["h"], h)
                    ctx.count("formula")
                    ctx.close(y, w.v, 3 * w.e + 1e-12 * sc, "formula", "trial result vs one-step formula on the accepted history", track=m)
                pend.append((h, r, acc_no))
            elif op == "accept":
                h, r, _ = pend[-1] if rng.uniform() < .8 else pend[int(rng.integers(len(pend)))]
                if np.max(np.abs(np.asarray(r.y))) > 20:
                    pend.clear()
                    continue
                ctx.case((m, seq, k, op, model["t"]), True, f"{m} n={n} seq={seq} ops={' '.join(desc[-12:])} -> accept(t={r.t:.4g})")
                I.accept_step(r)
                log.append(("accept", r))
                push(float(r.t), np.asarray(r.y))
                desc.append("accept")
                pend.clear()
                ctx.count("accepts")
                ctx.count("full_history", int(len(model["h"]) == order and order > 1))
                alive = check_state("after accept_step")
            elif op == "own":
                # a caller-made result (external controller)
                # (a state jump at the same time for one-step methods: an event)
                jump = not m.startswith("epi3") and rng.uniform() < .5
                t1, y1 = model["t"] + (0. if jump else float(rng.uniform(.01, .3))), np.array(model["h"][0][1]) + .05 * rng.standard_normal(n)
                r = StepResult(t1, t1 - model["t"], jnp.asarray(y1), -1.)
                ctx.case((m, seq, k, op, model["t"]), True, f"{m} n={n} seq={seq} ops={' '.join(desc[-12:])} -> accept caller-made result")
                I.accept_step(r)
                log.append(("accept", r))
                push(t1, y1)
                pend.clear()
                desc.append("own")
                ctx.count("accepts")
                alive = check_state("after accepting a caller-made result")
            elif op == "discard":
                pend.clear()
                desc.append("discard")
                ctx.count("rejects")
                alive = check_state("after discarding a trial")
            elif op == "reset":
                # new time and state / the same time or the same state only / the current point / the first point again
                nreset += 1
                kind = (nreset + seq) % 5
                tb = [float(rng.uniform(-2, 3)), model["t"], float(rng.uniform(-2, 3)), model["t"], t0][kind]
                yb = [rng.standard_normal(n), rng.standard_normal(n), np.array(model["h"][0][1]), np.array(model["h"][0][1]), np.array(y0)][kind]
                ctx.count(["reset_new", "reset_same_time", "reset_same_state", "reset_same_point", "reset_first_point"][kind])
                ctx.case((m, seq, k, op, tb), True, f"{m} n={n} seq={seq} ops={' '.join(desc[-12:])} -> reset(t={tb:.4g})")
                I.reset_ic(tb, jnp.asarray(yb))
                model = {"t": tb, "h": [(tb, np.array(yb))]}
                base, log, twin = (tb, np.array(yb)), [], None
                pend.clear()
                desc.append(f"reset({tb:.3g})")
                ctx.count("resets")
                alive = check_state("after reset_ic")
            acc_no = len([o for o in log if o[0] == "accept"]) + 1000 * sum(d.startswith("reset") for d in desc)
            if not alive:
                break
