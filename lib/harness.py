"""Runner shared by every check: generates cases with Hypothesis, spreads them
over processes, shrinks a failure, writes the replay file and the evidence."""
import argparse, hashlib, importlib, json, math, multiprocessing as mp, os
import signal, sys, tempfile, time, traceback, zlib, shutil, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_CPU_S = 120           # a case that burns this much CPU never returns in practice
SHRINK_S = 40


def _setup_paths():
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if PYVENV not in sys.path:
        sys.path.append(PYVENV)       # at the END: numpy/scipy stay the library's own
    if "MPLCONFIGDIR" not in os.environ:
        d = tempfile.mkdtemp(prefix="verif_mpl_")
        os.environ["MPLCONFIGDIR"] = d
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))


_setup_paths()


class Violation(Exception):
    """The code under test broke the property on this case."""


class CpuTimeout(BaseException):
    pass


# quick counts are written for a few seconds of run time; these properties take a multiple of them
MORE = {"C01": 16, "C02": 16, "C03": 16, "C04": 12, "C05": 10, "C06": 10, "C07": 10, "C08": 10, "C09": 8, "C10": 10, "C11": 10, "C12": 10, "C13": 8, "C14": 10, "C15": 10, "C16": 8, "C17": 8, "C18": 8,
        "C19": 16, "C20": 8, "C21": 10, "C22": 10, "C23": 6, "C24": 4, "C25": 8, "C26": 6, "C27": 8, "C28": 6, "C29": 3, "C30": 6, "C31": 2, "C32": 8, "C33": 2, "C34": 6, "C35": 2, "C36": 2, "C37": 4}


class Sub:
    """One generated-input sub-check of a property.

    strat(tier)   -> Hypothesis strategy producing a JSON-able case
    check(case)   -> truthy if the case was non-trivial; raises Violation
    quick/thorough: number of cases
    """
    def __init__(self, name, strat, check, quick=200, thorough=None, what=""):
        self.name, self.strat, self.check = name, strat, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.what = what


# ------------------------------------------------------------------ oracles
def fail(msg):
    raise Violation(msg)


def call(label, fn, *a, **k):
    """Call the library; an exception on input inside the property's domain breaks it."""
    try:
        return fn(*a, **k)
    except (Violation, CpuTimeout):
        raise
    except RecursionError as e:
        fail(f"{label}: RecursionError")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb)
                      if "actuarialmath" in f.filename), "?")
        fail(f"{label}: raised {type(e).__name__}: {e} at {where}")


def tofloat(label, v):
    import numpy as np
    if isinstance(v, bool) or v is None:
        fail(f"{label}: expected a number, got {v!r}")
    if isinstance(v, complex):
        fail(f"{label}: expected a real number, got {v!r}")
    try:
        if isinstance(v, np.ndarray):
            if v.size != 1:
                fail(f"{label}: expected a scalar, got array {v!r}")
            v = v.reshape(-1)[0]
        f = float(v)
    except Violation:
        raise
    except Exception:
        fail(f"{label}: expected a number, got {v!r}")
    if math.isnan(f):
        fail(f"{label}: got nan")
    return f


def num(label, fn, *a, **k):
    f = tofloat(label, call(label, fn, *a, **k))
    if math.isinf(f):
        fail(f"{label}: got {f}")
    return f


def close(a, b, rtol=1e-9, atol=1e-9):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def eq(label, got, want, rtol=1e-9, atol=1e-9):
    got = tofloat(label, got)
    if not close(got, want, rtol, atol):
        fail(f"{label}: got {got!r}, expected {want!r} (diff {got - want:.3g}, rtol={rtol:g}, atol={atol:g})")
    return got


def between(label, got, lo, hi, tol=1e-9):
    if not (lo - tol <= got <= hi + tol):
        fail(f"{label}: got {got!r}, must lie in [{lo!r}, {hi!r}]")


def same(label, got, want):
    if got != want:
        fail(f"{label}: got {got!r}, expected {want!r}")


# ------------------------------------------------------------------ running
def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def h(case):
    return hashlib.md5(canon(case).encode()).hexdigest()[:16]


_arm_n = 0


def guarded(sub, case):
    """Run one case under a CPU watchdog."""
    def onalarm(*_):
        raise CpuTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return sub.check(json.loads(canon(case)))
    except CpuTimeout:
        fail(f"did not return within {CASE_CPU_S} s of CPU time")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")


def _silence():
    """The library prints in places; keep stdout for our own lines."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def run_task(args):
    (modname, subname, n, seed, tier, deadline, known) = args
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.environ["MPLCONFIGDIR"]   # nothing is written in cwd
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    try:
        from hypothesis.configuration import set_hypothesis_home_dir
        set_hypothesis_home_dir(os.environ["MPLCONFIGDIR"])
    except ImportError:
        pass
    from hypothesis.errors import Flaky
    from hypothesis.internal.conjecture import engine
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        # independent cases instead of clumps of near-duplicates (measured: classes otherwise go missing)
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == subname)
    out = {"sub": subname, "evals": 0, "nontrivial": set(), "samples": [],
           "violation": None, "error": None, "known": {}, "cut": False, "cpu": 0.}
    st = {"first": None, "failing": set(), "best": None}
    t0 = time.process_time()

    def body(case):
        now = time.time()
        hc = h(case)
        if st["first"] is None:
            if now > deadline:
                out["cut"] = True
                return
        elif now - st["first"] > SHRINK_S and hc not in st["failing"]:
            return                                  # shrinking budget used up
        if st["first"] is None:
            out["evals"] += 1
        try:
            nt = guarded(sub, case)
        except Violation as e:
            m = match_known(known, subname, case, str(e))
            if m is not None:
                out["known"].setdefault(m, str(e)[:300])
                return
            if st["first"] is None:
                st["first"] = now
            st["failing"].add(hc)
            st["best"] = (case, str(e))
            raise
        if nt and st["first"] is None:
            if hc not in out["nontrivial"]:
                out["nontrivial"].add(hc)
                if len(out["samples"]) < 2 and out["evals"] > 3:
                    out["samples"].append({"sub": subname, "case": case})

    test = settings(max_examples=n, database=None, deadline=None,
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    derandomize=False)(given(sub.strat(tier))(body))
    test = hseed(seed)(test)
    try:
        test()
    except Violation as e:
        out["violation"] = st["best"] or (None, str(e))
    except BaseException as e:
        if st["best"] is not None:
            out["violation"] = st["best"]
        else:
            out["error"] = traceback.format_exc()[-3000:]
    out["cpu"] = time.process_time() - t0
    return out


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == prop]


def match_known(known, subname, case, msg):
    """A finding names the sub-check and the exact failing condition: fields of the
    case that must hold and a substring of the violation message."""
    for i, f in enumerate(known):
        if f.get("sub") not in (None, subname):
            continue
        if f.get("message") and f["message"] not in msg:
            continue
        if all(case.get(k) == v for k, v in f.get("case", {}).items()):
            return i
    return None


def selftest():
    """setup_cmd: nothing to build (the library is pure Python); check that the tools are there"""
    import hypothesis, numpy, scipy, pandas, matplotlib             # noqa: F401
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            compile(open(os.path.join(VERIF, "checks", f)).read(), f, "exec")
    print("ok: hypothesis", hypothesis.__version__)
    return 0


def main(argv):
    if argv == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    modname = f"checks.{a.prop.lower()}"
    real_out = os.fdopen(os.dup(1), "w", buffering=1)

    def say(s):
        real_out.write(s + "\n"); real_out.flush()
    try:
        import warnings
        warnings.simplefilter("ignore")
        try:
            import actuarialmath                       # noqa: F401
        except Exception as e:                          # the tree does not even import
            path = write_replay(a.prop, "import", {}, f"import of the library failed: {e!r}", seed)
            say(f"  {traceback.format_exc()[-800:]}")
            say(f"VIOLATION property={a.prop} replay={path}")
            return 1
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        return 2

    if a.replay:
        rep = json.load(open(a.replay))
        sub = next(s for s in mod.SUBS if s.name == rep["sub"])
        try:
            guarded(sub, rep["case"])
        except Violation as e:
            say(f"  {rep['sub']}: {e}")
            say(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        say(f"replay {a.replay}: property held")
        return 0

    known = load_known(a.prop)
    budget = 420 if tier == "quick" else 3600 * 1.5
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    deadline = t0 + budget
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    tasks = []
    for s in subs:
        n = max(1, int((s.quick * MORE.get(a.prop, 1) if tier == "quick" else max(s.thorough, 4 * s.quick * MORE.get(a.prop, 1))) * a.scale))
        shards = min(max(1, n // 40), max(1, a.jobs if tier == "quick" else 2 * a.jobs))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            sd = (seed * 1000003 + zlib.crc32(f"{a.prop}/{s.name}/{k}".encode())) % (2**32)
            tasks.append((modname, s.name, m, sd, tier, deadline, known))
    # interleave shards so that a violation in any sub-check surfaces early
    tasks.sort(key=lambda t: (zlib.crc32(str(t[3]).encode())))
    sys.stdout.flush()
    results, stopped = [], False
    # single-threaded native libs + fork keeps start-up cheap
    ctx = mp.get_context("fork")
    violation = error = None
    with ctx.Pool(min(a.jobs, len(tasks)), initializer=_silence) as pool:
        it = pool.imap_unordered(run_task, tasks)
        for r in it:
            results.append(r)
            if r["error"] and not error:
                error = (r["sub"], r["error"])
            if r["violation"] and not violation:
                violation = (r["sub"], r["violation"])
                pool.terminate()
                break
    evals = sum(r["evals"] for r in results)
    nts = set()
    per = {}
    for r in results:
        nts |= {r["sub"] + x for x in r["nontrivial"]}
        d = per.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "cpu_s": 0.})
        d["evaluations"] += r["evals"]
        d["nontrivial"] += len(r["nontrivial"])
        d["cpu_s"] = round(d["cpu_s"] + r["cpu"], 2)
    samples, seen = [], {}
    for r in results:
        for s in r["samples"]:
            if seen.get(s["sub"], 0) < 2:
                seen[s["sub"]] = seen.get(s["sub"], 0) + 1
                samples.append(s)
    knownhit = {}
    for r in results:
        for i, m in r["known"].items():
            knownhit.setdefault(i, m)
    cuts = sorted({r["sub"] for r in results if r["cut"]})
    what = {s.name: s.what for s in subs}
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nts),
                       "rule": getattr(mod, "RULE", "") or "see DESIGN.md",
                       "samples": samples, "per_subcheck": per,
                       "subchecks": what, "cut_by_time_budget": cuts},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": 1 if violation else 0,
          "wall_s": round(time.time() - t0, 2)}
    if not a.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for i, f in enumerate(known):
        if f.get("repro"):                     # the recorded failing input is replayed on every run
            sub = next((s for s in mod.SUBS if s.name == f["sub"]), None)
            try:
                if sub is not None:
                    guarded(sub, f["repro"])
            except Violation as e:
                knownhit.setdefault(i, str(e))
        if i in knownhit:
            say(f"KNOWN-FINDING: property={a.prop} {f['what']}")
    if violation:
        sub, (case, msg) = violation
        path = write_replay(a.prop, sub, case, msg, seed)
        say(f"  {sub}: {msg}")
        say(f"  case: {canon(case)[:1500]}")
        say(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if error:
        say(f"harness error in {error[0]}:\n{error[1]}")
        return 2
    say(f"{a.prop}: held on {evals} cases ({len(nts)} distinct non-trivial) in {ev['wall_s']} s"
        + (f"; time budget cut {cuts}" if cuts else ""))
    if os.environ.get("VERIF_PROFILE"):
        for k, v in sorted(per.items()):
            say(f"   {k}: {v}")
    return 0


def write_replay(prop, sub, case, msg, seed):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{h(case)}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": case, "message": msg, "seed": seed,
                   "how": f"python3 /verif/run.py {prop} --replay {path}"}, f, indent=1, default=str)
    return path
