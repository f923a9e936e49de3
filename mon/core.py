"""Verdicts, budgets, evidence and the case loop shared by every check."""
import hashlib, json, multiprocessing, os, random, signal, sys, threading, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AM_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
WORKERS = min(8, os.cpu_count() or 4)


class Stop(Exception):
    """Enough violations seen: the worker ends."""


class Inconclusive(Exception):
    """The case could not be judged (a watchdog fired, a step could not be observed)."""


class HarnessError(Exception):
    """The machinery itself failed; never a verdict about the code."""


def load_findings():
    """known-findings.txt: 'finding: property=<id> sig=<signature> <text>' and 'fixed: ...' lines."""
    found = {}
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path, encoding="utf-8") if os.path.exists(path) else ():
        if line.startswith("finding: "):
            parts = line[9:].strip().split(" ", 2)
            found[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2] if len(parts) > 2 else ""
    return found


class Ctx:
    def __init__(self, prop, worker=0, deadline=None):
        self.prop, self.worker = prop, worker
        self.tier, self.seed = TIER, SEED
        self.start = time.monotonic()
        self.deadline = deadline if deadline is not None else self.start + 20
        self.evaluations = 0
        self.distinct = set()
        self.samples, self.violations, self.findings, self.counts = [], [], {}, {}
        self.inconclusive = 0
        self.current = None
        self.max_violations = 1
        self.known = load_findings()

    @property
    def quick(self): return self.tier == "quick"

    def expired(self): return time.monotonic() >= self.deadline

    def scale(self, quick, thorough): return quick if self.quick else thorough

    def seen(self, key, sample=None, nontrivial=True, n=1):
        """One judged execution. `key` identifies it; only non-trivial distinct keys are counted as such."""
        self.evaluations += n
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 6: self.samples.append(sample)

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def peak(self, name, n):
        name = "max_" + name
        self.counts[name] = max(self.counts.get(name, 0), n)

    def violation(self, what, replay, sig=None):
        """`sig`: the exact known-finding signature this failure has, if it is one of the listed ones."""
        if sig is not None and (self.prop, sig) in self.known:
            self.findings[sig] = what
            return
        self.violations.append({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier,
                                "case": self.current, "replay": replay})
        if len(self.violations) >= self.max_violations: raise Stop()

    def check(self, ok, what, replay, sig=None):
        if not ok: self.violation(what() if callable(what) else what, replay() if callable(replay) else replay, sig)
        return ok


def case_rng(prop, worker, i): return random.Random("%d:%s:%s:%s" % (SEED, prop, worker, i))


def _result(ctx):
    return {"evaluations": ctx.evaluations, "distinct": ctx.distinct, "samples": ctx.samples, "violations": ctx.violations,
            "findings": ctx.findings, "counts": ctx.counts, "inconclusive": ctx.inconclusive}


def _run_cases(ctx, module, only=None):
    env = module.setup(ctx) if hasattr(module, "setup") else None
    try:
        if only is not None:
            kind, worker, i = only
            ctx.current = only
            if kind == "directed": module.directed(ctx, env, worker, getattr(module, "WORKERS", WORKERS))
            else: module.case(ctx, case_rng(ctx.prop, worker, i), env)
            return
        if hasattr(module, "directed"):
            ctx.current = ["directed", ctx.worker, 0]
            try: module.directed(ctx, env, ctx.worker, getattr(module, "WORKERS", WORKERS))
            except Inconclusive: ctx.inconclusive += 1
        limit = getattr(module, "MAX_CASES", {}).get(TIER)
        i = 0
        while hasattr(module, "case") and not ctx.expired() and (limit is None or i < limit):
            ctx.current = ["case", ctx.worker, i]
            try: module.case(ctx, case_rng(ctx.prop, ctx.worker, i), env)
            except Inconclusive: ctx.inconclusive += 1
            i += 1
    finally:
        if hasattr(module, "teardown"): module.teardown(env)


# what an oracle raises on an observation that does not have the form it must have
UNREADABLE = (KeyError, IndexError, ValueError, TypeError, AttributeError)


def _unreadable(ctx, module, e):
    """An observation the monitor could not read: a violation if the same case gives it again from a fresh start, else trouble of the harness."""
    first, case = traceback.format_exc(), list(ctx.current or ["directed", ctx.worker, 0])
    again = Ctx(ctx.prop, ctx.worker, time.monotonic() + 60)
    try: _run_cases(again, module, case)
    except Stop:
        ctx.violations += again.violations
        return None
    except UNREADABLE as f:
        if type(f) is type(e):
            ctx.violations.append({"property": ctx.prop, "what": "what was observed does not have the form it must have: %s" % traceback.format_exc().strip().split("\n")[-1], "seed": ctx.seed, "tier": ctx.tier, "case": case, "replay": {"first": first, "again": traceback.format_exc()}})
            return None
    except BaseException: pass
    ctx.violations += again.violations
    return first


def _worker(prop, module, worker, deadline, path):
    import pickle
    ctx = Ctx(prop, worker, deadline)
    error = None
    try: _run_cases(ctx, module)
    except Stop: pass
    except UNREADABLE as e:
        error = _unreadable(ctx, module, e)
    except BaseException: error = traceback.format_exc()
    with open(path + ".tmp", "wb") as f: pickle.dump((_result(ctx), error), f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def _end(pid):
    """Ends a worker and what is left of its group, while its number cannot be another's yet."""
    for kill in (os.killpg, os.kill):
        try: kill(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
    os.waitpid(pid, 0)


def execute(prop, module):
    """Runs the workload of a property in parallel, writes evidence, prints the verdict, returns the exit code."""
    import pickle, shutil, tempfile
    t0 = time.monotonic()
    if hasattr(module, "build"): module.build()
    budget = getattr(module, "BUDGET", {"quick": 20, "thorough": 240})[TIER]
    deadline = time.monotonic() + budget
    n = getattr(module, "WORKERS", WORKERS)
    tmp = tempfile.mkdtemp(prefix="amcheck.")
    alive = set()
    try:
        for w in range(n):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                _worker(prop, module, w, deadline, "%s/%d" % (tmp, w))
            alive.add(pid)
        hard = deadline + getattr(module, "GRACE", 200)
        while alive and time.monotonic() < hard:
            for pid in list(alive):
                if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT):
                    _end(pid)
                    alive.discard(pid)
            time.sleep(0.02)
        results, errors = [], []
        for w in range(n):
            path = "%s/%d" % (tmp, w)
            if os.path.exists(path):
                r, error = pickle.load(open(path, "rb"))
                results.append(r)
                if error: errors.append(error)
            else: errors.append("worker %d gave no result (still running at the hard limit)" % w)
    finally:
        for pid in alive: _end(pid)
        shutil.rmtree(tmp, ignore_errors=True)
    return conclude(prop, module, results, errors, time.monotonic() - t0)


def conclude(prop, module, results, errors, wall):
    violations = [v for r in results for v in r["violations"]]
    findings, counts, distinct, samples = {}, {}, set(), []
    for r in results:
        findings.update(r["findings"])
        distinct |= r["distinct"]
        samples += r["samples"][:3]
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
    evaluations = sum(r["evaluations"] for r in results)
    inconclusive = sum(r["inconclusive"] for r in results)
    known = load_findings()
    evidence = {"property": prop, "tier": TIER, "seed": SEED, "level": getattr(module, "LEVEL", "exploration"),
                "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": module.RULE,
                             "samples": samples[:8], "inconclusive": inconclusive, "observed": dict(sorted(counts.items()))},
                "assumptions": getattr(module, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(violations)}
    if findings: evidence["coverage"]["known_findings"] = sorted(findings)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)
    for sig in sorted(findings):
        print("KNOWN-FINDING: property=%s sig=%s %s" % (prop, sig, known.get((prop, sig), findings[sig])))
    if violations:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:3]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(path, "w") as f: json.dump(v, f, indent=1, ensure_ascii=True, default=str)
            print("# %s: %s" % (prop, str(v["what"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for e in sorted(set(errors))[:3]: print(e, file=sys.stderr)
    if errors: return 3
    floor = getattr(module, "FLOOR", 1)
    if len(distinct) < floor or inconclusive > max(20, evaluations // 2):
        print("inconclusive: %d distinct cases observed (floor %d), %d inconclusive" % (len(distinct), floor, inconclusive), file=sys.stderr)
        return 4
    print("%s held on %d executions (%d distinct non-trivial), %.1f s; observed %s" % (prop, evaluations, len(distinct), wall, dict(sorted(counts.items()))))
    return 0


def replay(prop, module, path):
    v = json.load(open(path))
    if hasattr(module, "build"): module.build()
    kind, worker, i = v["case"]
    global SEED
    SEED = v["seed"]
    ctx = Ctx(prop, worker, time.monotonic() + 600)
    ctx.seed = SEED
    try: _run_cases(ctx, module, (kind, worker, i))
    except Stop: pass
    return conclude(prop, module, [_result(ctx)], [], time.monotonic() - ctx.start)
