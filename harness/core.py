"""Driver shared by all checks: runs workload cases against the code in /repo in worker processes, collects what the
monitors saw, and turns it into a three-valued verdict (held / violated / no answer).

A property module provides
  ID, RULE                       property id; how cases are made and which count as non-trivial
  cases(tier, rng) -> [dict]     workload, JSON-serialisable; a case may carry "_w" (relative cost)
  run(case, M)                   executes one case against the repository; M is a Monitor
  REQUIRED                       {event name: minimum count} without which the verdict is "no answer"
"""
import sys, os, json, time, signal, traceback, hashlib, random, multiprocessing as mp, resource, importlib, tempfile, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CPU_CASE = 240.0         # CPU seconds for one call into the repository; calls normally take well under a second
MODULES = ("latticeFunctions", "baseConstruction", "interactions", "hamiltonianConstruction", "davidson",
           "initialComputations", "embedding", "postProcessing")


class Violation(Exception):
    pass


class RepoHang(BaseException):
    pass


class RepoError(Exception):
    """An exception that escaped from repository code."""
    def __init__(self, where, exc, tb):
        super().__init__("%s raised %s: %s" % (where, type(exc).__name__, exc))
        self.exc, self.where, self.tb = exc, where, tb


def _alarm(signum, frame):
    raise RepoHang()


CALLED = [0]     # calls into the repository since the case started


def call(fn, *a, **k):
    """Calls into the repository: escaping exceptions become RepoError, excessive CPU time RepoHang."""
    signal.setitimer(signal.ITIMER_PROF, CPU_CASE)
    CALLED[0] += 1
    try:
        return fn(*a, **k)
    except RepoHang:
        raise
    except Violation:
        raise
    except Exception as e:
        raise RepoError(getattr(fn, "__name__", str(fn)), e, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Guard:
    """A module of the repository whose functions are called through `call`."""
    def __init__(self, name):
        self._name = name
        self._cache = {}

    @property
    def mod(self):
        return importlib.import_module(self._name)

    def __getattr__(self, attr):
        obj = getattr(self.mod, attr)
        if not callable(obj):
            return obj
        def wrapped(*a, **k):
            return call(getattr(self.mod, attr), *a, **k)
        wrapped.__name__ = self._name + "." + attr
        return wrapped


class Monitor:
    """Collects observations of one worker."""
    def __init__(self):
        self.events, self.keys, self.samples, self.evals, self.known = {}, set(), [], 0, {}

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def input(self, key=None, sample=None, n=1):
        """One input tried; key (hashable) identifies it, None for a trivial one."""
        self.evals += n
        if key is not None:
            h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
            if h not in self.keys:
                self.keys.add(h)
                if sample is not None and len(self.samples) < 3:
                    self.samples.append(sample)

    def check(self, cond, msg, *details):
        self.ev("oracle evaluations")
        if not cond:
            raise Violation(msg + "".join("\n    " + (d if isinstance(d, str) else repr(d))[:1500] for d in details))

    def raises(self, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except RepoError as e:
            self.check(isinstance(e.exc, exc), "wrong error for an invalid request", str(e))
            return
        self.check(False, "an invalid request was accepted", getattr(fn, "__name__", "?"), a[1:], r)

    def known_finding(self, key, text):
        self.known.setdefault(key, text)


def setup_repo():
    sys.dont_write_bytecode = True
    try:                                # tqdm shares a semaphore among forked processes: one that is killed while holding it would block the others
        import tqdm, threading
        tqdm.tqdm.monitor_interval = 0
        tqdm.tqdm.set_lock(threading.RLock())
    except (ImportError, AttributeError):
        pass
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in MODULES[:6]:
        importlib.import_module(m)


class Reach:
    """Lines of the repository executed by this worker (sys.monitoring; every line reports once, so it costs next to nothing)."""
    def __init__(self):
        self.lines = set()
        self.files = {os.path.realpath(os.path.join(REPO, f + ".py")): f for f in MODULES}
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, "reach")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self.line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def line(self, code, no):
        f = self.files.get(code.co_filename)
        if f and code.co_name != "<module>": self.lines.add((f, code.co_qualname.split(".<locals>")[0], no))
        return sys.monitoring.DISABLE


def code_lines():
    """Executable lines per function of the repository."""
    out = {}
    def walk(code, f):
        name = code.co_qualname.split(".<locals>")[0]
        if code.co_name != "<module>" and code.co_flags & 2:
            out.setdefault((f, name), set()).update(l for _, _, l in code.co_lines() if l and l > code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"): walk(c, f)
    for f in MODULES:
        p = os.path.join(REPO, f + ".py")
        if os.path.exists(p): walk(compile(open(p).read(), p, "exec"), f)
    return out


def silence():
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def _seed_case(seed, idx):
    import numpy as np
    np.random.seed((seed * 1000003 + idx * 7919 + 17) % (2 ** 32))
    random.seed(seed * 1000003 + idx)


def _worker(modname, work, seed, conn, quiet=True):
    if quiet:
        silence()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, _alarm)
    M = Monitor()
    res = dict(status="ok")
    scratch = tempfile.mkdtemp(prefix="verif-w-")
    os.chdir(scratch)
    idx = -1
    reach = None
    try:
        reach = Reach() if hasattr(sys, "monitoring") else None
        setup_repo()
        mod = importlib.import_module(modname)
        for n, (idx, case) in enumerate(work):
            _seed_case(seed, idx)
            CALLED[0] = 0
            t0 = time.process_time()
            mod.run(case, M)
            dt = time.process_time() - t0
            M.ev("cases")
            if dt > res.get("slowest", (0, 0))[0]:
                res["slowest"] = (round(dt, 2), idx)
    except Violation as e:
        res.update(status="violation", index=idx, message=str(e))
    except RepoError as e:
        res.update(status="violation", index=idx, message=str(e) + "\n" + e.tb[-3000:])
    except RepoHang:
        res.update(status="violation", index=idx, message="a call into the repository used more than %d s of CPU time "
                   "without returning\n%s" % (CPU_CASE, traceback.format_exc()[-2500:]))
    except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError) as e:
        # the monitors read something the repository returned or wrote and it is not what it should be
        res.update(status="violation" if CALLED[0] else "error", index=idx, message="a result cannot be read: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    except BaseException:
        res.update(status="error", index=idx, message=traceback.format_exc()[-4000:])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(reach=reach.lines if reach else set(), events=M.events, keys=M.keys, samples=M.samples, evals=M.evals, known=M.known)
    try:
        conn.send(res)
        conn.close()
    except Exception:
        pass
    os._exit(0)


def split(cases, n):
    """Deterministic round-robin, heavy cases first so that workers finish together; order inside a worker is shuffled by index hash."""
    order = sorted(range(len(cases)), key=lambda i: (-cases[i].get("_w", 1), i))
    loads, parts = [0.0] * n, [[] for _ in range(n)]
    for i in order:
        j = loads.index(min(loads))
        loads[j] += cases[i].get("_w", 1)
        parts[j].append(i)
    for p in parts:
        p.sort(key=lambda i: hashlib.md5(str(i).encode()).digest())
    return [[(i, cases[i]) for i in p] for p in parts if p]


def run_parts(modname, parts, seed, timeout):
    ctx = mp.get_context("fork")
    jobs = []
    for work in parts:
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, work, seed, w), daemon=True)
        p.start()
        w.close()
        jobs.append((p, r, work))
    results, pending, t0 = [], list(jobs), time.time()
    while pending and time.time() - t0 < timeout:
        ready = mp.connection.wait([j[1] for j in pending], timeout=1.0)
        for j in list(pending):
            if j[1] in ready:
                try:
                    res = j[1].recv()
                except EOFError:
                    res = dict(status="error", message="worker died", events={}, keys=set(), samples=[], evals=0, known={})
                res["work"] = j[2]
                results.append(res)
                pending.remove(j)
        if any(r["status"] == "violation" for r in results):
            break
    for p, r, work in pending:
        p.kill()
        if not any(x["status"] == "violation" for x in results):
            results.append(dict(status="error", message="wall-clock budget of %d s exhausted" % timeout, events={}, keys=set(),
                                samples=[], evals=0, known={}, work=work))
    for p, r, work in jobs:
        p.join(5)
    return results


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out[d["key"]] = d["what"]
    return out


def main(pid, tier, seed, replay=None):
    global CPU_CASE
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    modname = pid.lower()
    mod = importlib.import_module(modname)
    if replay:
        rp = json.load(open(replay))
        seed, tier = rp["seed"], rp["tier"]
        parts = [[(i, c) for i, c in rp["work"]]]
    else:
        cases = mod.cases(tier, random.Random("%s/%d" % (pid, seed)))
        cases = json.loads(json.dumps(cases))
        parts = split(cases, min(NPROC, len(cases)))
    if tier != "quick": CPU_CASE *= 8
    results = run_parts(modname, parts, seed, 840 if tier == "quick" else 7200)
    events, keys, samples, evals, known = {}, set(), [], 0, {}
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        keys |= r["keys"]
        samples += r["samples"]
        evals += r["evals"]
        known.update(r["known"])
    reach, executable = set().union(*(r.get("reach", ()) for r in results)), code_lines()
    per = {}
    for f, name, no in reach:
        if no in executable.get((f, name), ()): per.setdefault(f + "." + name, set()).add(no)
    reached = {k: "%d of %d lines" % (len(v), len(executable[tuple(k.split(".", 1))])) for k, v in sorted(per.items())}
    if os.environ.get("VERIF_REACH"):
        with open(os.environ["VERIF_REACH"], "w") as f: json.dump(sorted(reach), f)
    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    listed = known_findings(pid)
    unlisted = {k: v for k, v in known.items() if k not in listed}
    slow = max([r.get("slowest", (0, 0)) for r in results] or [(0, 0)])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:6] or ["none"],
                            events=dict(sorted(events.items())), functions_reached=reached, slowest_case_cpu_s=slow[0], workers=len(parts)),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol) + len(unlisted))
    if not replay and REPO == "/repo":      # runs on other trees (VERIF_REPO) leave no evidence
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

    def save_replay(work, message):
        d = os.path.join(VERIF, "replays") if REPO == "/repo" else os.path.join(tempfile.gettempdir(), "verif-replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=pid, tier=tier, seed=seed, message=message, work=work)
        h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(body, f, default=str)
        return path

    for k, v in sorted(known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    if viol or unlisted:
        if viol:
            r = viol[0]
            pos = [n for n, (i, c) in enumerate(r["work"]) if i == r["index"]][0]
            path = replay or save_replay(r["work"][:pos + 1], r["message"])
            print("case: " + json.dumps(r["work"][pos][1])[:1500])
            print(r["message"][:6000])
        else:
            k, v = sorted(unlisted.items())[0]
            path = replay or save_replay([], v)
            print(k + ": " + v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print("NO ANSWER property=%s: %s" % (pid, errs[0]["message"]))
        return 2
    if not replay:
        for k, n in mod.REQUIRED.items():
            if events.get(k, 0) < n:
                print("NO ANSWER property=%s: monitor event %r seen %d times, needs %d" % (pid, k, events.get(k, 0), n))
                return 2
    print("HELD property=%s tier=%s seed=%d: %d inputs (%d distinct non-trivial), %d oracle evaluations, %.1f s (slowest case %.1f s CPU)"
          % (pid, tier, seed, evals, len(keys), events.get("oracle evaluations", 0), time.time() - t0, slow[0]))
    return 0


if __name__ == "__main__":
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    sys.modules.setdefault("core", sys.modules["__main__"])
    sys.exit(main(pid, tier, int(os.environ.get("VERIF_SEED", "1")), replay))
