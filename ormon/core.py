"""Runner: parent process schedules units of a check over worker processes,
collects what the monitors observed, applies the known-findings file, writes
the evidence file and decides the verdict.

A check module (ormon/checks/<id>.py) provides
   LEVEL_RULE : str                      how cases are made / what is non-trivial
   units(tier) -> [(name, params), ...]  JSON-able work units
   run(ctx, name, params)                runs one unit in a worker
   MIN : {counter: minimum}              monitor-reached requirements (else inconclusive)
"""
import hashlib, importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback, queue

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("ORMON_REPO", "/repo")


# ----------------------------------------------------------------- worker side
class Ctx:
    """What a unit uses to report."""

    def __init__(self, prop, tier, seed, unit):
        import numpy as np
        self.prop, self.tier, self.seed, self.unit = prop, tier, seed, unit
        h = hashlib.sha256(f"{prop}|{unit}|{seed}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "big"))
        self.evals = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.viol = []
        self.maxima = {}
        self.t0 = time.monotonic()
        self.soft = 200.0 if tier == "quick" else 1500.0
        self.case_desc = None
        self.viol_per_mech = {}

    thorough = property(lambda self: self.tier == "thorough")

    def more(self):
        """False once the unit's soft time budget is used (ends loops early)."""
        return time.monotonic() - self.t0 < self.soft

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, key, nontrivial=True, desc=None):
        """One judged case. key: hashable identity of the case."""
        self.evals += 1
        if nontrivial:
            self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])
        if desc is None:
            desc = repr(key)
        self.case_desc = desc
        if len(self.samples) < 2:
            self.samples.append(f"[{self.unit}] {desc}"[:400])

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def track(self, name, val):
        """Record the largest observed value of a monitored quantity."""
        try:
            v = float(val)
        except Exception:
            return
        if v != v:
            v = float("inf")
        if v > self.maxima.get(name, -1.0):
            self.maxima[name] = v

    def violate(self, mech, msg, case=None):
        """mech: short mechanism key (used by the known-findings file)."""
        c = self.viol_per_mech.get(mech, 0)
        self.viol_per_mech[mech] = c + 1
        self.count("violations_raw")
        if c < 3:
            self.viol.append({"mech": mech, "msg": str(msg)[:1500], "case": str(case if case is not None else self.case_desc)[:3000]})

    def ok(self, cond, mech, msg, case=None):
        self.count("assertions")
        if not bool(cond):
            self.violate(mech, msg() if callable(msg) else msg, case)
            return False
        return True

    def close(self, got, want, tol, mech, what="", case=None, track=None):
        """Monitor: |got-want| <= tol (max norm), same shape, finite."""
        import numpy as np
        self.count("comparisons")
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.violate(mech, f"{what}: shape {g.shape}, expected {w.shape}", case)
                return False
            if g.size == 0:
                return True
            if not np.all(np.isfinite(np.asarray(g, dtype=complex) if np.iscomplexobj(g) else np.asarray(g, dtype=float))):
                self.violate(mech, f"{what}: non-finite result {np.asarray(g).ravel()[:6]}", case)
                return False
            ct = np.clongdouble if (np.iscomplexobj(g) or np.iscomplexobj(w)) else np.longdouble
            d = np.abs(g.astype(ct) - w.astype(ct))
            t = np.asarray(tol, dtype=np.longdouble)
            ratio = float(np.max(d / np.maximum(t, np.longdouble(1e-300))))
            if track:
                self.track(track, ratio)
            if not (ratio <= 1.0):
                self.violate(mech, f"{what}: error {float(np.max(d)):.3e} exceeds bound {float(np.max(t)):.3e} (ratio {ratio:.3g}); got {g.ravel()[:5]} want {np.asarray(w, dtype=complex if ct is np.clongdouble else float).ravel()[:5]}", case)
                return False
            return True
        except (TypeError, ValueError) as e:
            self.violate(mech, f"{what}: uncomparable result {type(got)}: {e}", case)
            return False

    def result(self):
        return {"unit": self.unit, "evals": self.evals, "keys": len(self.keys), "counters": self.counters,
                "samples": self.samples, "viol": self.viol, "maxima": self.maxima,
                "wall": time.monotonic() - self.t0}


def _repo_frame(tb):
    """Innermost-frame attribution: was the exception raised while executing repository code?"""
    repo = os.path.realpath(REPO) + os.sep
    for f in reversed(traceback.extract_tb(tb)):
        fn = os.path.realpath(f.filename)
        if fn.startswith(repo):
            return f"{os.path.relpath(fn, repo)}:{f.lineno} in {f.name}"
        if fn.startswith(HERE + os.sep):
            # harness frame reached before a repo frame when walking inward-out: harness error,
            # unless it is a user callback (handled by the checks themselves)
            return None
    return None


class Reach:
    """which lines of the repository the monitored executions ran (sys.monitoring: each line reports once)"""

    def __init__(self):
        self.hit, self.codes, self.sent = {}, {}, {}
        self.root = os.path.realpath(REPO) + os.sep
        m = getattr(sys, "monitoring", None)
        if m is None or m.get_tool(m.COVERAGE_ID) is not None:
            return
        ev = m.events
        m.use_tool_id(m.COVERAGE_ID, "ormon")

        def start(code, off):
            if code.co_filename.startswith(self.root):
                f = code.co_filename[len(self.root):]
                self.codes.setdefault(f, set()).add(code.co_qualname)
                m.set_local_events(m.COVERAGE_ID, code, ev.LINE)
            return m.DISABLE

        def line(code, no):
            self.hit.setdefault(code.co_filename[len(self.root):], set()).add(no)
            return m.DISABLE
        m.register_callback(m.COVERAGE_ID, ev.PY_START, start)
        m.register_callback(m.COVERAGE_ID, ev.LINE, line)
        m.set_events(m.COVERAGE_ID, ev.PY_START)

    def new(self):
        """lines first reached since the last call"""
        out = {}
        for f, ls in list(self.hit.items()):
            d = set(ls) - self.sent.setdefault(f, set())
            if d:
                self.sent[f] |= d
                out[f] = sorted(d)
        return out


def worker_main():
    proto_out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    proto_in = os.fdopen(os.dup(0), "r", buffering=1)
    cfg = json.loads(proto_in.readline())
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import faulthandler
    faulthandler.enable()
    import jax
    jax.config.update("jax_enable_x64", True)
    reach = Reach()
    import ormatex_py
    assert os.path.realpath(ormatex_py.__file__ or ormatex_py.__path__[0]).startswith(os.path.realpath(REPO)), "wrong ormatex_py"
    mod = importlib.import_module(f"ormon.checks.{cfg['prop'].lower()}")
    proto_out.write(json.dumps({"ready": True}) + "\n")
    for line in proto_in:
        job = json.loads(line)
        ctx = Ctx(cfg["prop"], cfg["tier"], cfg["seed"], job["name"])
        try:
            mod.run(ctx, job["name"], job["params"])
        except BaseException as e:  # noqa
            fr = _repo_frame(e.__traceback__)
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                fr = None
            elif fr is None and ctx.case_desc is not None and not isinstance(e, (ImportError, NameError)):
                # the monitors themselves cannot digest what the code under test returned (wrong
                # type, missing part): on a tree where the property holds they never raise
                fr = "monitor code: " + txt[-600:]
            if fr is not None:
                ctx.violate(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e} raised at {fr}")
            else:
                r = ctx.result()
                r["error"], r["reach"] = txt, reach.new()
                proto_out.write(json.dumps(r) + "\n")
                continue
        proto_out.write(json.dumps(dict(ctx.result(), reach=reach.new())) + "\n")


# ----------------------------------------------------------------- parent side
def load_known(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"^finding:\s+property=(\S+)\s+mech=(\S+)\s+(.*)$", ln.strip())
            if m and m.group(1) == prop:
                out.append({"mech": m.group(2), "what": m.group(3)})
    return out


def main(argv):
    prop = argv[0].upper()
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
    only = argv[argv.index("--unit") + 1] if "--unit" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        tier, seed = replay["tier"], replay["seed"]
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"ormon_{prop}_")
    try:
        return _main(prop, tier, seed, replay, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, only, scratch, t0):
    mod = importlib.import_module(f"ormon.checks.{prop.lower()}")
    units = [(n, p) for n, p in mod.units(tier)]
    if replay:
        units = [(n, p) for n, p in units if n == replay["unit"]]
    if only:
        units = [(n, p) for n, p in units if n == only]
    if not units:
        print("no units")
        return 3
    nw = min(len(units), int(os.environ.get("ORMON_WORKERS", "8")))
    limit = 840.0 if tier == "quick" else 6 * 3600.0
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), PYTHONPATH=ROOT,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               HOME=os.environ.get("HOME", "/root"), TF_CPP_MIN_LOG_LEVEL="3", PYTHONHASHSEED="0",
               ORMON_SCRATCH=scratch)
    q = queue.Queue()
    for u in units:
        q.put(u)
    results, errors, lock = [], [], threading.Lock()
    listed = {k["mech"] for k in load_known(prop)}
    procs = []

    def start(i):
        cwd = os.path.join(scratch, f"w{i}_{time.monotonic_ns()}")
        os.makedirs(cwd)
        err = open(os.path.join(cwd, "stderr"), "w")
        p = subprocess.Popen([sys.executable, "-m", "ormon.core", "--worker"], cwd=cwd, env=env, text=True,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, bufsize=1)
        p.errfile = err.name
        procs.append(p)
        p.stdin.write(json.dumps({"prop": prop, "tier": tier, "seed": seed}) + "\n")
        p.stdin.flush()
        ln = p.stdout.readline()
        if not ln:
            raise RuntimeError("worker failed to start: " + open(p.errfile).read()[-2000:])
        return p

    def drive(i):
        p = None
        while True:
            try:
                name, params = q.get_nowait()
            except queue.Empty:
                break
            try:
                if p is None or p.poll() is not None:
                    p = start(i)
                p.stdin.write(json.dumps({"name": name, "params": params}) + "\n")
                p.stdin.flush()
                ln = p.stdout.readline()
                if not ln:
                    p.wait()
                    e = f"unit {name}: worker died rc={p.returncode}: " + open(p.errfile).read()[-1500:]
                    with lock:
                        errors.append(e)
                    p = None
                    continue
                r = json.loads(ln)
                with lock:
                    results.append(r)
                    if r.get("error"):
                        errors.append(f"unit {name}: {r['error']}")
                if os.environ.get("ORMON_FAILFAST") and any(v["mech"] not in listed for v in r["viol"]):
                    # development aid (mutation runs): stop at the first violating unit
                    while not q.empty():
                        q.get_nowait()
                    for w in list(procs):
                        if w is not p:
                            w.kill()
            except Exception as e:  # noqa
                with lock:
                    errors.append(f"unit {name}: {e}")
                p = None
        if p is not None:
            try:
                p.stdin.close()
                p.wait(timeout=20)
            except Exception:
                p.kill()

    ths = [threading.Thread(target=drive, args=(i,), daemon=True) for i in range(nw)]
    for t in ths:
        t.start()
    timed_out = False
    for t in ths:
        t.join(max(1.0, limit - (time.monotonic() - t0)))
        timed_out |= t.is_alive()
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    with lock:
        res, errs = list(results), list(errors)

    # ---- aggregate
    counters, maxima, samples, viols, reach = {}, {}, [], [], {}
    evals = keys = 0
    for r in sorted(res, key=lambda r: r["unit"]):
        evals += r["evals"]
        keys += r["keys"]
        for f, ls in r.get("reach", {}).items():
            reach.setdefault(f, set()).update(ls)
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, 0.0), v)
        samples += r["samples"][:1]
        for v in r["viol"]:
            viols.append(dict(v, unit=r["unit"]))
    known = load_known(prop)
    fired = {}
    new = []
    for v in viols:
        k = next((k for k in known if k["mech"] == v["mech"]), None)
        if k:
            fired.setdefault(k["mech"], (k, v))
        else:
            new.append(v)
    short = []
    if not replay and not only:
        for c, m in getattr(mod, "MIN", {}).items():
            # (half of it on a slow or loaded machine, where soft time budgets end loops early)
            if counters.get(c, 0) < max(1, m // 2):
                short.append(f"{c}={counters.get(c, 0)}<{m}")
    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": keys, "rule": mod.LEVEL_RULE,
                       "samples": samples[:12] or ["none"], "counters": counters,
                       "worst_error_to_bound_ratios": {k: round(v, 6) for k, v in sorted(maxima.items())} if all(v == v and v != float("inf") for v in maxima.values()) else {k: str(v) for k, v in maxima.items()},
                       "units": {r["unit"]: {"evaluations": r["evals"], "wall_s": round(r["wall"], 1)} for r in res},
                       "repository_lines_executed": {f: len(ls) for f, ls in sorted(reach.items())},
                       "known_findings_observed": sorted(fired), "harness_errors": len(errs), "timed_out": timed_out},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(new)}
    if os.environ.get("ORMON_REACH"):
        json.dump({f: sorted(ls) for f, ls in reach.items()}, open(os.environ["ORMON_REACH"] + f".{prop}.json", "w"))
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not replay and not only:
        tmp = os.path.join(evdir, f".{prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(evdir, f"{prop}.json"))
    print(f"{prop} tier={tier} seed={seed}: {evals} evaluations, {keys} distinct, counters={json.dumps(counters)}, wall={wall:.1f}s")
    for k, v in sorted(maxima.items()):
        print(f"  worst {k}: {v:.3g}")
    # known findings are announced whenever they are listed (listed == reproduces or not is shown)
    for k in known:
        f = fired.get(k["mech"])
        print(f"KNOWN-FINDING: property={prop} mech={k['mech']} {k['what']}" + ("" if f else " (not reproduced in this run)"))
    if new:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:20]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            json.dump({"property": prop, "tier": tier, "seed": seed, "unit": v["unit"], "mech": v["mech"], "msg": v["msg"], "case": v["case"]}, open(path, "w"), indent=1)
            print(f"  [{v['unit']}] {v['mech']}: {v['msg']}\n      case: {v['case'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if timed_out:
        print("INCONCLUSIVE: watchdog expired")
        return 2
    if errs:
        for e in errs[:5]:
            print("HARNESS-ERROR", e)
        return 2
    if short:
        print("INCONCLUSIVE: monitors not reached enough:", "; ".join(short))
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker_main()
    else:
        sys.exit(main(sys.argv[1:]))
