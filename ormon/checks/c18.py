"""C18 schedules, concurrency, faults and purity: results must equal the ones obtained alone and sequentially."""
import json, os, subprocess, sys, threading, time
import numpy as np
from ormon import refs, iref, gen

LEVEL_RULE = ("right-hand sides with a host hook (log, sleep, gate, raise) on every eager evaluation; the two stage computations of the parallel method are gated into both completion "
              "orders, released together, and delayed at random; 1-6 integrators run in threads / round-robin / nested and are compared with the same integrator alone; every evaluation of a step of every "
              "method raises once; functions are called repeatedly with other calls in between, in another process in reverse order; distinct (thread, event) interleavings are counted; "
              "non-trivial = injected delay, fault or concurrent partner actually hit")
MIN = {"schedules": 40, "gated": 12, "faults": 80, "after_fault": 80, "concurrent": 30, "interleaved": 30, "repeat": 40, "purity": 60, "fresh": 8, "stage_fault": 8, "interleavings": 12, "line_schedules": 20}
ASSUMPTIONS = ["hooks act on eager (untraced) evaluations; jitted evaluations contain no host code to schedule"]
HOOKS = {}
_cls = {}


class Fault(Exception):
    pass


def units(tier):
    reps = 1 if tier == "quick" else 6
    ms = [m for m in iref.RB + ["exp_pfd", "rk4"] + iref.SPLIT + iref.LEJA]
    g = [ms[i::4] for i in range(4)]
    u = []
    for r in range(reps):
        u += [(f"sched_{r}_{i}", {"k": "sched", "i": i}) for i in range(2)]
        u += [(f"fault_{r}_{i}", {"k": "fault", "ms": x}) for i, x in enumerate(g)]
        u += [(f"stagefault_{r}", {"k": "stagefault"}), (f"threads_{r}_0", {"k": "threads", "i": 0}), (f"threads_{r}_1", {"k": "threads", "i": 1}), (f"interleave_{r}", {"k": "interleave"}),
              (f"repeat_{r}", {"k": "repeat"}), (f"fresh_{r}", {"k": "fresh"})]
    return u


def hooked(jac="customfd"):
    """system class whose eager evaluations call HOOKS[hid](kind, t, u)"""
    if jac in _cls:
        return _cls[jac]
    import equinox as eqx, jax
    base = iref.classes()[jac]

    class H(base):
        hid: int = eqx.field(static=True)

        def __init__(self, S, hid):
            super().__init__(S)
            self.hid = hid

        def _hit(self, kind, t, u):
            if isinstance(t, jax.core.Tracer) or isinstance(u, jax.core.Tracer):
                return
            f = HOOKS.get(self.hid)
            if f is not None:
                f(kind, float(t), np.asarray(u))

        def _frhs(self, t, u, **kw):
            self._hit("rhs", t, u)
            return super()._frhs(t, u, **kw)

        def _fl(self, t, u, **kw):
            self._hit("fl", t, u)
            return super()._fl(t, u, **kw)

        def fjac(self, t, u, **kw):
            self._hit("jac", t, u)
            return super().fjac(t, u, **kw)
    _cls[jac] = H
    return H


def problem(rng, m, n):
    """(S, constructor options, step size)"""
    from ormon.checks.c11 import leja_problem
    opts = {}
    if "leja" in m:
        n = max(n, 2)
        S = leja_problem(rng, n, m)
        na = refs.inorm(iref.F(S).jac(0., np.ones(n)))
        opts = dict(leja_tol=1e-11, leja_a=-2. * na)
        if m.endswith("im"):
            opts["leja_c"] = 1.5 * na
    elif m == "exp_pfd":
        S = iref.blank(n)
        S["A"] = gen.scaled(rng, "negdef", n, -1, 1)[0]
    else:
        S = iref.random_system(rng, n, nonlin=.3)
        S["A"] = S["A"] - .5 * np.eye(n)
    nj = max(refs.inorm(iref.F(S).jac(0., np.ones(n))), .3)
    return S, opts, float(rng.uniform(.1, .5)) / nj


def same(ctx, got, want, mech, what, tol=1e-13):
    got, want = np.asarray(got), np.asarray(want)
    ctx.close(got, want, tol * (1 + np.max(np.abs(want), initial=0.)), mech, what)


def snapshot(I):
    return float(I.time), np.array(I.state), [float(x) for x in I.t_hist], [np.array(x) for x in I.y_hist]


def snap_eq(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2] == b[2] and len(a[3]) == len(b[3]) and all(np.array_equal(x, y) for x, y in zip(a[3], b[3]))


def guarded(ctx, f, what, limit=90.):
    """run f in a thread; a call that does not return is a violation"""
    box = {}

    def go():
        try:
            box["r"] = f()
        except BaseException as e:  # noqa
            box["e"] = e
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(limit)
    if th.is_alive():
        ctx.violate("hang", f"{what}: step did not return within {limit:.0f} s")
        return None, None
    return box.get("r"), box.get("e")


class Log:
    """thread-safe event log; signature = order of (thread, event) with threads numbered by first appearance"""

    def __init__(self):
        self.ev, self.lk = [], threading.Lock()

    def add(self, what):
        with self.lk:
            self.ev.append((threading.get_ident(), what))

    def sig(self):
        ids = {}
        return tuple((ids.setdefault(a, len(ids)), b) for a, b in self.ev)


class jitter:
    """schedule fuzzer: random delays at line granularity in every thread executing integrator code, with a signature of the thread switches"""
    FILES = ("ode_exp.py", "ode_sys.py", "ode_explicit.py", "matexp_krylov.py", "integrate_wrapper.py", "arnoldi_jax.py")

    def __init__(self, rng, prob=.15, scale=.002):
        self.sl = [float(x) for x in rng.exponential(scale, 8192) * (rng.random(8192) < prob)]
        self.i, self.last, self.sw = int(rng.integers(8192)), None, []

    def local(self, frame, event, arg):
        if event == "line":
            self.i += 1
            d = self.sl[self.i % 8192]
            me = threading.get_ident()
            if me != self.last:
                self.last = me
                if len(self.sw) < 4096:
                    self.sw.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if d:
                time.sleep(d)
        return self.local

    def top(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if f.endswith(self.FILES) and "ormatex_py" in f else None

    def __enter__(self):
        threading.settrace(self.top)
        sys.settrace(self.top)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        threading.settrace(None)


def drive(I, h, steps, hs=None):
    out = []
    for k in range(steps):
        r = I.step(h if hs is None else hs[k])
        I.accept_step(r)
        out.append((float(r.t), np.asarray(r.y)))
    return out


def run(ctx, name, p):
    import jax
    import jax.numpy as jnp
    rng, kind = ctx.rng, p["k"]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        globals()["k_" + kind](ctx, rng, p, jnp)
    finally:
        sys.setswitchinterval(old)
        HOOKS.clear()


# ------------------------------------------------------------------ parallel stages
def k_sched(ctx, rng, p, jnp):
    H = hooked("customfd" if p["i"] == 0 else "custom")
    sigs = set()
    for i in range(ctx.n(4, 12)):
        if not ctx.more():
            break
        n = int([3, 1, 5, 2][i % 4])
        S, opts, h = problem(rng, "pexprb4", n)
        hid = 1000 + i
        y0, t0 = rng.standard_normal(n), float(rng.uniform(-1, 1))
        steps = 3

        def fresh():
            return iref.integrator(H(S, hid), t0, jnp.asarray(y0), "pexprb4", **opts)
        HOOKS.pop(hid, None)
        alone = drive(fresh(), h, steps)
        for sched in ["two_first", "three_first", "together", "crossed"] + ["random"] * ctx.n(5, 20):
            log = Log()
            st = {"k": 0}
            ev2, ev3, bar = threading.Event(), threading.Event(), threading.Barrier(2)
            I = fresh()
            ok = True
            seen = {"order": []}

            def stage(t):
                d = (t - st["t"]) / h
                return 2 if abs(d - .5) < .1 else 3 if abs(d - 1) < .1 else 0

            def hook(kd, t, u):
                s = stage(t)
                log.add((kd, s))
                main = threading.get_ident() == st["main"]
                if sched == "random":
                    time.sleep(float(st["sl"][st["k"] % 64]))
                    st["k"] += 1
                elif main or kd != "rhs":
                    return
                elif sched in ("two_first", "crossed"):
                    if s == 3 and not ev2.wait(1.):
                        st["timeout"] = True
                elif sched == "three_first":
                    if s == 2 and not ev3.wait(1.):
                        st["timeout"] = True
                elif sched == "together":
                    try:
                        bar.wait(1.)
                    except threading.BrokenBarrierError:
                        st["timeout"] = True
                if s == 2:
                    if sched == "crossed":
                        time.sleep(.004)
                    ev2.set()
                if s == 3:
                    ev3.set()
                seen["order"].append(s)
            st["main"] = threading.get_ident()
            HOOKS[hid] = hook
            for k in range(steps):
                st["t"], st["k"], st["sl"] = float(I.time), 0, rng.exponential(.003, 64) * (rng.random(64) < .6)
                ev2.clear(), ev3.clear(), bar.reset()
                st.pop("timeout", None)
                st["main"] = None
                box, err = {}, None

                def go():
                    st["main"] = threading.get_ident()
                    return I.step(h)
                r, e = guarded(ctx, go, f"{sched}")
                if e is not None:
                    raise e
                if r is None:
                    ok = False
                    break
                I.accept_step(r)
                ctx.case(("sched", n, sched, k, p["i"]), True, f"pexprb4 schedule {sched}, step {k}, n={n}")
                ctx.count("schedules")
                if sched != "random" and "timeout" not in st and len(seen["order"]) >= 2:
                    ctx.count("gate_" + sched)
                ctx.count("gated")
                same(ctx, np.append(np.asarray(r.y), float(r.t)), np.append(alone[k][1], alone[k][0]), "schedule", f"schedule {sched} (stage order seen {seen['order'][-4:]}), step {k}")
                sigs.add((sched == "random", log.sig()))
                log.ev.clear()
            HOOKS.pop(hid, None)
            if not ok:
                return
        # delays between arbitrary statements of the integrator code, in both stage threads
        for rep in range(ctx.n(6, 30)):
            with jitter(rng, .3, .003) as jt:
                I = fresh()
                got, e = guarded(ctx, lambda: drive(I, h, steps), "line schedule")
            if e is not None:
                raise e
            if got is None:
                return
            ctx.count("line_schedules")
            ctx.track("thread_switches", len(jt.sw))
            sigs.add(tuple(jt.sw))
            for k in range(steps):
                ctx.case(("lines", n, rep, k, p["i"]), True, f"pexprb4 with random delays between statements, step {k}, n={n}")
                ctx.count("schedules")
                same(ctx, np.append(got[k][1], got[k][0]), np.append(alone[k][1], alone[k][0]), "schedule", f"delays between statements, step {k}")
    ctx.count("interleavings", len(sigs))


# ------------------------------------------------------------------ faults
def k_fault(ctx, rng, p, jnp):
    for m in p["ms"]:
        for jac in ("customfd", "ad"):
            if not ctx.more():
                return
            n = 3
            S, opts, h = problem(rng, m, n)
            hid = 2000
            H = hooked(jac)
            y0, t0 = rng.standard_normal(n), float(rng.uniform(-1, 1))
            I = iref.integrator(H(S, hid), t0, jnp.asarray(y0), m, **opts)
            ref = iref.integrator(H(S, hid), t0, jnp.asarray(y0), m, **opts)
            tol = 1e-8 if "leja" in m else 1e-13
            for stepno in range(3):
                # count the evaluations of the fault-free step on the twin
                log = Log()
                HOOKS[hid] = lambda kd, t, u: log.add(kd)
                want = ref.step(h)
                N = len(log.ev)
                HOOKS.pop(hid, None)
                before = snapshot(I)
                ks = list(range(1, N + 1))
                if N > 6 and not ctx.thorough:
                    ks = sorted(set(int(x) for x in rng.choice(ks, 6, replace=False)))
                for k in ks:
                    cnt = {"n": 0}
                    lk = threading.Lock()

                    def hook(kd, t, u):
                        with lk:
                            cnt["n"] += 1
                            hit = cnt["n"] == k
                        if hit:
                            raise Fault(f"injected fault at evaluation {k} ({kd})")
                    HOOKS[hid] = hook
                    ctx.case(("fault", m, jac, stepno, k), True, f"{m} ({jac} Jacobian): fault at evaluation {k} of {N} of step {stepno}")
                    r, e = guarded(ctx, lambda: I.step(h), f"{m} fault {k}/{N}")
                    HOOKS.pop(hid, None)
                    ctx.count("faults")
                    if e is None and r is None:
                        return
                    if cnt["n"] >= k:
                        ctx.ok(e is not None, "swallowed", f"{m}: right-hand side raised at evaluation {k} of {N} but step returned {getattr(r, 'y', None)}")
                    ctx.ok(snap_eq(before, snapshot(I)), "fault_state", f"{m}: time/state/history changed by a failed step (evaluation {k}): {snapshot(I)[:3]} expected {before[:3]}")
                    if k in (ks[0], ks[-1]) or rng.random() < .4:
                        got, e = guarded(ctx, lambda: I.step(h), f"{m} after fault {k}/{N}")
                        ctx.count("after_fault")
                        if e is not None:
                            ctx.violate("unusable", f"{m}: step after a failed step raised {type(e).__name__}: {e}")
                        elif got is not None:
                            same(ctx, got.y, want.y, "after_fault", f"{m}: step after a fault at evaluation {k} of {N}", tol)
                            ctx.ok(float(got.t) == float(want.t), "after_fault", f"{m}: time {got.t} expected {want.t}")
                got = I.step(h)
                I.accept_step(got)
                ref.accept_step(want)
                same(ctx, I.state, ref.state, "after_fault", f"{m}: accepted state after faults, step {stepno}", tol)


def k_stagefault(ctx, rng, p, jnp):
    H = hooked("custom")
    for i in range(ctx.n(6, 30)):
        n = int(rng.integers(1, 5))
        S, opts, h = problem(rng, "pexprb4", n)
        hid = 3000 + i
        y0, t0 = rng.standard_normal(n), float(rng.uniform(-1, 1))
        I = iref.integrator(H(S, hid), t0, jnp.asarray(y0), "pexprb4", **opts)
        ref = iref.integrator(H(S, hid), t0, jnp.asarray(y0), "pexprb4", **opts)
        want = drive(ref, h, 3)
        for stepno in range(3):
            for fs, delay in (((2,), 3), ((3,), 2), ((2, 3), None), ((2,), None), ((3,), None)):
                tb = float(I.time)
                before = snapshot(I)
                release = threading.Event()

                def hook(kd, t, u):
                    s = 2 if abs((t - tb) / h - .5) < .1 else 3 if abs((t - tb) / h - 1) < .1 else 0
                    if kd != "rhs":
                        return
                    if s == delay:
                        release.wait(.25)      # still running while the other stage fails
                    if s in fs:
                        raise Fault(f"stage {s}")
                HOOKS[hid] = hook
                ctx.case(("stage", fs, delay, stepno), True, f"pexprb4 fault in stage {fs}, other stage delayed {delay}, step {stepno}")
                r, e = guarded(ctx, lambda: I.step(h), f"stage fault {fs}")
                HOOKS.pop(hid, None)
                ctx.count("stage_fault")
                if r is None and e is None:
                    return
                ctx.ok(e is not None, "swallowed", f"stages {fs} raised, step returned {getattr(r, 'y', None)}")
                ctx.ok(snap_eq(before, snapshot(I)), "fault_state", f"failed stage {fs} changed the integrator: {snapshot(I)[:3]}")
                got, e = guarded(ctx, lambda: I.step(h), f"after stage fault {fs}")
                release.set()
                if e is not None:
                    ctx.violate("unusable", f"step after failed stage {fs} raised {type(e).__name__}: {e}")
                elif got is not None:
                    same(ctx, got.y, want[stepno][1], "after_fault", f"step after failed stage {fs} (other stage still running: {delay})")
            I.accept_step(I.step(h))
            same(ctx, I.state, want[stepno][1], "after_fault", "accepted state")


# ------------------------------------------------------------------ concurrent integrators
def configs(rng, k, same_sys=False):
    ms = [str(x) for x in rng.choice(["pexprb4"] * 4 + iref.RB + iref.SPLIT + ["rk4", "exp_pfd"] + iref.LEJA, k)]
    out = []
    for m in ms:
        n = 3
        S, opts, h = problem(rng, m, n)
        out.append((m, S, opts, h, rng.standard_normal(n), float(rng.uniform(-1, 1))))
    return out


def k_threads(ctx, rng, p, jnp):
    sigs = set()
    for i in range(ctx.n(5, 25)):
        if not ctx.more():
            break
        k = int([2, 6, 4, 3, 5][i % 5])
        cf = configs(rng, k)
        if i % 2:                     # several integrators on one system object and equal settings
            cf = [cf[0]] * (k // 2) + cf[k // 2:]
            cf = [(m, S, o, h, y + .1 * j, t) for j, (m, S, o, h, y, t) in enumerate(cf)]
        H = hooked("customfd" if p["i"] else "custom")
        objs = {}
        HOOKS.clear()

        def build(j):
            m, S, o, h, y, t = cf[j]
            s = objs.setdefault(id(S), H(S, 4000 + i))
            return iref.integrator(s, t, jnp.asarray(y), m, **o)
        steps = 4
        alone = [drive(build(j), cf[j][3], steps) for j in range(k)]
        for rep in range(2):
            log = Log()
            sl = [float(x) for x in rng.exponential(.002, 4096) * (rng.random(4096) < .4)]
            cnt = {"n": 0}

            def hook(kd, t, u):
                log.add(kd)
                cnt["n"] += 1
                time.sleep(sl[cnt["n"] % 4096])
            HOOKS[4000 + i] = hook
            res, errs = [None] * k, [None] * k
            go = threading.Barrier(k)

            def worker(j):
                try:
                    I = build(j)
                    go.wait(30)
                    res[j] = drive(I, cf[j][3], steps)
                except BaseException as e:  # noqa
                    errs[j] = e
            with jitter(rng, .05 if rep else 0., .002) as jt:
                th = [threading.Thread(target=worker, args=(j,), daemon=True) for j in range(k)]
                [t.start() for t in th]
                dead = time.monotonic() + 120
                [t.join(max(.1, dead - time.monotonic())) for t in th]
            HOOKS.clear()
            sigs.add((log.sig(), tuple(jt.sw)))
            ctx.track("thread_switches", len(jt.sw))
            for j in range(k):
                m = cf[j][0]
                ctx.case(("threads", m, k, bool(i % 2), p["i"]), True, f"{m} concurrently with {k - 1} others {[c[0] for c in cf]}")
                ctx.count("concurrent")
                if th[j].is_alive():
                    ctx.violate("hang", f"{m}: concurrent run did not finish")
                    return
                if errs[j] is not None:
                    ctx.violate("concurrent_error", f"{m} raised {type(errs[j]).__name__}: {errs[j]} only when run concurrently")
                    continue
                for s in range(steps):
                    same(ctx, np.append(res[j][s][1], res[j][s][0]), np.append(alone[j][s][1], alone[j][s][0]), "concurrent", f"{m} step {s} with {k - 1} concurrent integrators vs alone")
    ctx.count("interleavings", len(sigs))


def k_interleave(ctx, rng, p, jnp):
    from ormatex_py.integrate_wrapper import integrate
    H = hooked("ad")
    for i in range(ctx.n(6, 30)):
        if not ctx.more():
            break
        k = int(rng.integers(2, 7))
        cf = configs(rng, k)
        if i % 2:
            cf = [(cf[0][0], cf[0][1], o2, h, y, t) if c[0] == cf[0][0] else c for c, (m, S, o2, h, y, t) in zip(cf, cf)]
            cf[-1] = (cf[0][0], cf[0][1], cf[0][2], cf[0][3] * .5, cf[-1][4], cf[0][5] + .3)     # same method and system, other start and step
        steps = 4
        sysm = [H(c[1], 5000) for c in cf]

        def build(j):
            m, S, o, h, y, t = cf[j]
            return iref.integrator(sysm[j], t, jnp.asarray(y), m, **o)
        alone = [drive(build(j), cf[j][3], steps) for j in range(k)]
        order = list(np.repeat(np.arange(k), steps))
        rng.shuffle(order)
        I = [build(j) for j in range(k)]
        got = [[] for _ in range(k)]
        for j in order:
            r = I[j].step(cf[j][3])
            # other integrators are also constructed and thrown away in between
            if rng.random() < .2:
                build(int(rng.integers(k)))
            I[j].accept_step(r)
            got[j].append((float(r.t), np.asarray(r.y)))
        for j in range(k):
            m = cf[j][0]
            ctx.case(("interleave", m, k), True, f"{m} interleaved with {[c[0] for c in cf]}, order {order}")
            ctx.count("interleaved")
            for s in range(steps):
                same(ctx, np.append(got[j][s][1], got[j][s][0]), np.append(alone[j][s][1], alone[j][s][0]), "interleaved", f"{m} step {s} interleaved vs alone")
    # a right-hand side that itself integrates another system with the same method
    for m in ("pexprb4", "exprb2", "rk4", "exp2", "epi3"):
        S, opts, h = problem(rng, m, 2)
        S2, opts2, h2 = problem(rng, m, 2)
        H2 = hooked("customfd")
        y0 = rng.standard_normal(2)
        HOOKS.clear()
        alone = drive(iref.integrator(H2(S, 6000), 0., jnp.asarray(y0), m, **opts), h, 2)
        inner_alone = drive(iref.integrator(H2(S2, 6001), 0., jnp.asarray(y0), m, **opts2), h2, 2)
        inner = []

        def hook(kd, t, u):
            if kd == "rhs" and len(inner) < 12:
                inner.append(drive(iref.integrator(H2(S2, 6001), 0., jnp.asarray(y0), m, **opts2), h2, 2))
        HOOKS[6000] = hook
        I = iref.integrator(H2(S, 6000), 0., jnp.asarray(y0), m, **opts)
        ctx.case(("nested", m), True, f"{m} inside a right-hand side integrated by {m}")
        got, e = guarded(ctx, lambda: drive(I, h, 2), f"nested {m}")
        HOOKS.clear()
        if e is not None:
            raise e
        if got is None:
            return
        ctx.count("interleaved")
        ctx.count("nested_runs", len(inner))
        for s in range(2):
            same(ctx, got[s][1], alone[s][1], "nested", f"outer {m} step {s}")
            for x in inner:
                same(ctx, x[s][1], inner_alone[s][1], "nested", f"inner {m} step {s}")


# ------------------------------------------------------------------ purity and repeated calls
def catalogue(rng, jnp):
    """(name, function of fresh argument copies, argument arrays/containers owned by the caller)"""
    from ormatex_py import matexp_phi as P, matexp_krylov as K, matexp_leja as L, matexp_poly as Q, ode_sys, ode_utils
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py.arnoldi_jax import arnoldi_lop
    n = int(rng.integers(2, 6))
    A = -np.eye(n) + .5 * rng.standard_normal((n, n))
    b = rng.standard_normal(n)
    z = rng.standard_normal(5)
    M = ode_sys.MatrixLinOp
    c = []
    for k in (0, 1, 3):
        c += [(f"f_phi_k_sq {k}", lambda A, k=k: P.f_phi_k_sq(A, k), [A]), (f"f_phi_k_ext {k}", lambda A, k=k: P.f_phi_k_ext(A, k), [A]),
              (f"f_phi_k_appl {k}", lambda A, b, k=k: P.f_phi_k_appl(A, b, k), [A, b]), (f"f_phi_k {k}", lambda A, k=k: P.f_phi_k(A, k), [A])]
    c += [("f_phi_k_sq_all", lambda A: P.f_phi_k_sq_all(A, 3), [A]), ("f_phi_k_poly_all", lambda A: P.f_phi_k_poly_all(A, 2, 4), [A]),
          ("f_phi_k_pfd", lambda A, b: P.f_phi_k_pfd(A, b, 1, "cram_16"), [A, b]),
          ("matexp_linop", lambda A, b: K.matexp_linop(M(A), .5, b, n), [A, b]), ("phi_linop", lambda A, b: K.phi_linop(M(A), .5, b, 2, n), [A, b]),
          ("kiops", lambda A, b, v: K.kiops_fixedsteps(M(A), .5, v, max_krylov_dim=n + 3), [A, b, [b.copy(), 2 * b, b[::-1].copy()]]),
          ("arnoldi", lambda A, b: arnoldi_lop(M(A), 1., b, n, 100), [A, b]),
          ("leja fast", lambda: L.gen_leja_fast(-3., 1., 25), []), ("leja fast 2", lambda: L.gen_leja_fast(-2., 2., 40), []),
          ("leja conj", lambda: L.gen_leja_conjugate(20, -2., 0., 1.), []), ("leja circle", lambda: L.gen_leja_circle(21, True), []), ("leja imag", lambda: L.gen_complex_conj_leja_fast(2., 21), []),
          ("power_iter", lambda A, b: L.power_iter(M(A), b, 10), [A, b]), ("leja_shift_scale", lambda A: L.leja_shift_scale(M(A), n), [A]),
          ("build_a_tilde", lambda A, v: (lambda r: (r[0].matvec(jnp.ones(n + 2)), r[1], r[2]))(L.build_a_tilde(M(A), .3, v)), [A, [b.copy(), 2 * b, 3 * b]]),
          ("dd_phi", lambda x: Q.leja_coeffs_dd_phi(x, -1., .5, 1., 1), [np.asarray(L.gen_leja_fast(-2., 2., 14))]),
          ("ts_phi", lambda x: Q.leja_coeffs_ts_phi(x, -1., .5, 1., 0), [np.asarray(L.gen_leja_fast(-2., 2., 14))]),
          ("stack_u", lambda U: ode_utils.stack_u(U, n), [rng.standard_normal((4, n))]), ("flatten_u", lambda U: ode_utils.flatten_u(U), [rng.standard_normal((4, n))])]
    for m in ("exprb2", "exprb3", "pexprb4", "epi3", "exp2", "exp3_dense", "exprb2_dense", "rk4", "euler", "dopri5"):
        S, opts, h = problem(rng, m, 3)
        kw = dict(opts, max_krylov_dim=20) if m in ("exprb2", "epi3") else dict(opts)
        c.append((f"integrate {m}", lambda y, o, S=S, h=h, m=m: (lambda r: (np.asarray([float(x) for x in r.t]), np.asarray([np.asarray(x) for x in r.y])))(integrate(iref.make(S), y, .3, h, 3, m, **o)),
                  [rng.standard_normal(3), kw]))
    return c


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [np.asarray(x)]


def k_repeat(ctx, rng, p, jnp):
    import copy
    for i in range(ctx.n(1, 4)):
        cat = catalogue(rng, jnp)
        first = {}
        order = np.concatenate([rng.permutation(len(cat)), rng.permutation(len(cat))])
        for j in order:
            if not ctx.more():
                break
            nm, f, args = cat[j]
            # numpy and jax arguments owned by the caller
            variants = [True]
            if not nm.startswith(("kiops", "arnoldi", "build", "power", "leja_shift", "matexp", "phi_l", "integrate")):
                variants.append(False)
            for jx in variants:
                own = [jnp.asarray(a) if jx and isinstance(a, np.ndarray) else ([jnp.asarray(q) for q in a] if jx and isinstance(a, list) else copy.deepcopy(a)) for a in args]
                keep = [copy.deepcopy(a) if isinstance(a, dict) else ([np.array(q) for q in a] if isinstance(a, list) else np.array(a)) for a in own]
                ctx.case(("repeat", nm, jx), True, f"{nm} ({'jax' if jx else 'numpy'} arguments), call {'again' if j in first else 'first'}")
                r = flat(f(*own))
                ctx.count("purity")
                for a, k in zip(own, keep):
                    eq = (a == k) if isinstance(a, dict) else (len(a) == len(k) and all(np.array_equal(np.asarray(x), y) for x, y in zip(a, k))) if isinstance(a, list) else np.array_equal(np.asarray(a), k)
                    ctx.ok(eq, "modified", f"{nm}: caller's argument changed: {k} -> {a}")
                if j in first:
                    ctx.count("repeat")
                    ctx.ok(len(r) == len(first[j]), "repeat", f"{nm}: number of results changed")
                    for x, y in zip(r, first[j]):
                        same(ctx, x, y, "repeat", f"{nm}: repeated call differs", 1e-14)
                else:
                    first[j] = r
            # results handed out earlier are not modified by later calls: kept as copies and compared at the end
        held = [(cat[j][0], flat(cat[j][1](*cat[j][2]))) for j in rng.permutation(len(cat))[:12]]
        copies = [[np.array(x) for x in r] for _, r in held]
        for j in rng.permutation(len(cat))[:20]:
            f = cat[j][1](*cat[j][2])
        for (nm, r), c in zip(held, copies):
            ctx.count("repeat")
            ctx.ok(all(np.array_equal(a, b) for a, b in zip(r, c)), "held", f"{nm}: an earlier result was modified by later calls")


SUB = r"""
import sys, json
sys.path.insert(0, {root!r}); sys.path.insert(0, {repo!r})
import jax; jax.config.update("jax_enable_x64", True)
import numpy as np, jax.numpy as jnp, os
so = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from ormon.checks import c18
res = c18.fresh_results({seed}, {rev})
os.write(so, json.dumps(res).encode())
"""


def fresh_results(seed, rev):
    import jax.numpy as jnp
    rng = np.random.default_rng(seed)
    cat = [c for c in catalogue(rng, jnp)]
    idx = list(range(len(cat)))
    if rev:
        idx = idx[::-1]
    out = {}
    for j in idx:
        nm, f, args = cat[j]
        own = [jnp.asarray(a) if isinstance(a, np.ndarray) else ([jnp.asarray(q) for q in a] if isinstance(a, list) else a) for a in args]
        out[nm] = [[np.real(x).astype(float).ravel().tolist(), np.imag(x).astype(float).ravel().tolist()] for x in flat(f(*own))]
    return out


def k_fresh(ctx, rng, p, jnp):
    """a process that calls the catalogue in reverse order gets the same results as this one, whatever ran before"""
    from ormon.core import REPO, ROOT
    seed = int(rng.integers(1 << 30))
    procs = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", SUB.format(root=ROOT, repo=REPO, seed=seed, rev=rev)], stdout=subprocess.PIPE, stderr=subprocess.PIPE) for rev in (False, True)]
    here = fresh_results(seed, bool(rng.integers(2)))
    again = fresh_results(seed, bool(rng.integers(2)))
    outs = []
    for q in procs:
        o, e = q.communicate(timeout=400)
        if q.returncode:
            raise RuntimeError(e.decode()[-1500:])
        outs.append(json.loads(o))
    for nm in here:
        ctx.case(("fresh", nm), True, f"{nm}: this process twice, fresh process, fresh process in reverse call order")
        for k, o in enumerate([again] + outs):
            ctx.count("fresh")
            ok = len(o[nm]) == len(here[nm])
            for a, b in zip(o[nm], here[nm]):
                for x, y in zip(a, b):
                    x, y = np.array(x), np.array(y)
                    ok = ok and x.shape == y.shape and (x.size == 0 or np.max(np.abs(x - y)) <= 1e-13 * (1 + np.max(np.abs(y))))
            ctx.ok(ok, "history", f"{nm}: result depends on earlier calls (variant {k})")
