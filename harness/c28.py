from common import *
from c18 import exotic
import random, sys, os, signal, resource, select, time, copy
import scipy.sparse as sp
ID = "C28"
RULE = ("Saves of all kinds over an earlier result of the same computation (or none, or without the folder) are broken off: killed or interrupted before every line and before every file operation they "
        "execute (all of them, one process each), at random instants, by a limit on the size of files (as a full disk: error, or death in the middle of the write) and by values that cannot be written; "
        "sweeps are killed at random points. After each failure every result file is loaded and compared bit for bit with the earlier and the new result, and the save is repeated. Separate processes save two "
        "results alternately under the same name while this one loads it. Non-trivial: each distinct (kind, point of failure, what was there before).")
REQUIRED = {"killed at a line": 600, "interrupted at a line": 600, "killed at a file operation": 60, "killed at a random instant": 100, "died of the size limit": 150, "failed by the size limit": 150, "values that cannot be written": 60,
            "earlier result kept": 800, "new result complete": 100, "saves repeated": 150, "loads during saves": 600, "changes seen by the reader": 60, "sweeps killed": 40, "completed sectors": 40, "folder created": 60}
ASSUMPTIONS = ["what a dying process leaves is what the operating system keeps of a process killed by a signal; a loss of power is not simulated", "files under other names than those of results may be left behind by a failed save"]
VARIANTS = [(d, e, g) for d in (False, True) for e in (False, True) for g in (False, True)]


def cases(tier, rng):
    big = 1 if tier == "quick" else 8
    out = []
    for kind in ["plain", "plain", "ring", "ring", "blocks", "blocks", "blocks"] * big:
        for before in ("earlier", "earlier", "none", "no folder"):
            if before == "no folder" and kind == "plain": continue
            out.append(dict(what="points", kind=kind, before=before, seed=rng.randrange(10 ** 9), _w=8))
    for what, k, w in (("limits", 16, 3), ("unwritable", 8, 1), ("instants", 16, 3), ("race", 12, 3), ("sweep", 16, 5)):
        for i in range(k * big): out.append(dict(what=what, kind=rng.choice(["plain", "ring", "blocks"]), before=rng.choice(["earlier", "earlier", "none"]), seed=rng.randrange(10 ** 9), _w=w))
    return out


# computations ---------------------------------------------------------------------------------------------------------------

def computation(rng, M, L, h, b, terms, nb):
    d = dim(L.n, h, b)
    cfg = L.config(bC, lF, h, b)
    data = iC.Data(cfg, itr.Interactions(**{k: round(rng.uniform(-2, 2), 3) for k in m.COUPLINGS}), dav.Diagonalization(nb, 100, 1e-3, 0), switches(terms))
    A = np.diag([exotic(rng, M) for _ in range(d)])
    if rng.random() < .7: A = A + np.diag([exotic(rng, M) for _ in range(d - 1)], 1)
    with np.errstate(all="ignore"): A = np.where(np.isfinite(A), A, 1.0)
    vects = np.array([[exotic(rng, M) for _ in range(nb)] for _ in range(d)])
    return iC.DataComputations(data, [m.to_det(x) for x in m.states(L.n, h, b)], sp.csr_matrix(A), dav.Eigenstates([exotic(rng, M) for _ in range(nb)], [], vects), iC.Times(rng.random(), rng.random(), rng.random()))


def some_lattice(rng, low=1, high=60):
    while True:
        s = rng.choice(m.shapes(9))
        L = lattice('periodic', s)
        h, b = random_filling(rng, L.n)
        if L.n <= 9 and low <= dim(L.n, h, b) <= high: return L, h, b


class Saved:
    """The results in a folder: for every file name the contents that may be found in it."""
    def __init__(self, case, M, S, low=1, high=60):
        self.M, self.S, rng = M, S, random.Random(case["seed"])
        self.kind = case["kind"]
        self.flags = rng.choice(VARIANTS)
        L, h, b = some_lattice(rng, low, high)
        terms = [t for t in m.TERMS if rng.random() < .7] if rng.random() < .7 else list(m.TERMS)
        self.where = "%s %s, %s sites, %d holes, %d down, terms %s" % (self.kind, self.flags if self.kind == "blocks" else "", L.n, h, b, "+".join(terms))
        self.old, self.new = (computation(rng, M, L, h, b, terms, rng.randint(1, 4)) for _ in range(2))
        self.text, self.expected = {}, {}
        folder = {"plain": "", "ring": "Peripheral_embedding", "blocks": "Embedding_blocks"}[self.kind]
        # other results, which no save of this computation may touch
        for k in range(3):
            kind = rng.choice(["plain", "ring", "blocks"]) if case["before"] != "no folder" else "plain"
            L2, h2, b2 = some_lattice(rng, 1, 12)
            if (L2.n, b2, h2) == (L.n, b, h): continue
            self.record(computation(rng, M, L2, h2, b2, list(m.TERMS), 1), kind, rng.choice(VARIANTS))
        self.others = dict(self.text)
        self.name = self.record(self.old, self.kind, self.flags)
        if case["before"] != "earlier":
            os.remove(self.path())
            self.text[self.name] = None
            if case["before"] == "no folder" and folder: os.rmdir("initialComputations/" + folder)
        self.folder = folder
        self.nofolder = case["before"] == "no folder" and bool(folder)
        self.next = snap(self.new)
        if self.kind != "plain": self.next["times"] = None

    def path(self, name=None):
        return "initialComputations/" + (name or self.name)

    def record(self, d, kind, flags):
        _, out = self.S.written(saver(kind, flags, raw=False), d)
        self.M.check(len(out) == 1, "saving wrote %d files" % len(out), out)
        with open(self.path(out[0])) as f: self.text[out[0]] = f.read()
        s = snap(d)
        if kind != "plain": s["times"] = None
        self.expected[out[0]] = s
        return out[0]

    def save(self):
        saver(self.kind, self.flags)(self.new)

    def restore(self, clean=False):
        for f, t in self.text.items():
            if t is None:
                if os.path.exists(self.path(f)): os.remove(self.path(f))
            else:
                with open(self.path(f), "w") as out: out.write(t)
        if clean or self.nofolder:
            for f in self.S.files():
                if self.text.get(f) is None: os.remove(self.path(f))
        if self.nofolder and os.path.isdir("initialComputations/" + self.folder): os.rmdir("initialComputations/" + self.folder)

    def verify(self, how, returned=False):
        """After a failure: every result is the earlier one or the complete new one."""
        M = self.M
        for f in self.others:
            with open(self.path(f)) as g: M.check(g.read() == self.text[f], "a save that was broken off (%s) changed another result, %s: %s" % (how, f, self.where))
        if not os.path.exists(self.path()):
            M.check(self.text[self.name] is None and not returned, "a save that was broken off (%s) removed the earlier result %s: %s" % (how, self.name, self.where))
            M.ev("no result, as before")
            return
        try:
            got = snap(iC.load_data(self.name))
        except Exception as e:
            M.check(False, "a save that was broken off (%s) left a result that cannot be loaded, %s: %s" % (how, self.name, self.where), str(e)[:500], open(self.path()).read()[:200])
        if got == self.next:
            M.ev("new result complete")
            return
        M.check(not returned, "a save ended without error but %s does not contain its result (%s): %s" % (self.name, how, self.where))
        M.check(self.text[self.name] is not None and got == self.expected[self.name], "a save that was broken off (%s) left a result that is neither the earlier nor the new one, %s: %s" % (how, self.name, self.where))
        M.ev("earlier result kept")

    def again(self):
        saver(self.kind, self.flags, raw=False)(self.new)
        same_snap(self.M, snap(iC.load_data(self.name)), self.next, "result saved again after a failure (%s)" % self.where)
        self.M.ev("saves repeated")


def saver(kind, flags, raw=True):
    iCm, embm = (iC.mod, emb.mod) if raw else (iC, emb)
    if kind == "plain": return lambda d: iCm.save_data(d)
    if kind == "ring": return lambda d: embm.save_data_peripheral_embedding(d)
    return lambda d: embm.save_data_embedding_blocks(d, *flags)


# failures -------------------------------------------------------------------------------------------------------------------

OPS = ("open", "os.rename", "os.mkdir", "os.remove", "os.truncate", "os.link", "os.rmdir", "shutil.move", "shutil.copyfile", "tempfile.mkstemp")


def child(fn):
    """fn(report) in a forked process: (status, what it reported)."""
    sys.stdout.flush(), sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.setitimer(signal.ITIMER_REAL, 0)
            code = fn(lambda x: os.write(w, (x + "\n").encode())) or 0
        except BaseException as e:
            try: os.write(w, ("! %r\n" % e).encode())
            except BaseException: pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data, end = b"", time.time() + 200
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise RuntimeError("a process that saves results does not end")
        part = os.read(r, 65536)
        if not part: break
        data += part
    os.close(r)
    return os.waitpid(pid, 0)[1], data.decode(errors="replace").split("\n")[:-1]


def die():
    os.kill(os.getpid(), signal.SIGKILL)
    time.sleep(10)


class Points:
    """Counts the lines of the repository and the file operations executed; acts at one of them."""
    def __init__(self, lines=None, ops=None, act=None, report=None):
        self.n = self.ops = 0
        self.at, self.at_op, self.act, self.report = lines, ops, act, report
        self.repo = os.path.realpath(iC.mod.__file__).rsplit(os.sep, 1)[0] + os.sep
        self.on = False

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.repo): return None
        if event == "line" and self.on:
            if self.n == self.at:
                self.on = False
                self.report("%s:%s" % (f[len(self.repo):], frame.f_code.co_name))
                self.act()
            self.n += 1
        return self.trace

    def hook(self, event, args):
        if self.on and event in OPS:
            if self.ops == self.at_op:
                self.on = False
                self.report("operation %s" % event)
                self.act()
            self.ops += 1

    def run(self, fn):
        if self.at_op is not None or self.act is None: sys.addaudithook(self.hook)
        self.on = True
        sys.settrace(self.trace)
        try: fn()
        finally:
            sys.settrace(None)
            self.on = False


def interrupt():
    raise KeyboardInterrupt("injected")


def run(case, M):
    with Scratch("initialComputations/Peripheral_embedding", "initialComputations/Embedding_blocks") as S:
        globals()["run_" + case["what"]](case, M, S, random.Random(case["seed"] + 1))


def run_points(case, M, S, rng):
    R = Saved(case, M, S)
    if R.nofolder and os.path.isdir("initialComputations/" + R.folder): os.rmdir("initialComputations/" + R.folder)

    def count(report):
        p = Points(act=None, report=report)
        p.run(R.save)
        report("%d %d" % (p.n, p.ops))
    status, said = child(count)
    M.check(status == 0, "saving fails: " + R.where, said)
    lines, ops = map(int, said[-1].split())
    R.verify("not at all", returned=True)
    R.restore(clean=True)
    if R.nofolder: M.ev("folder created")
    todo = [("killed at a line", dict(lines=k, act=die)) for k in range(lines)] + [("interrupted at a line", dict(lines=k, act=interrupt)) for k in range(lines)] + \
           [("killed at a file operation", dict(ops=k, act=die)) for k in range(ops)] + [("interrupted at a file operation", dict(ops=k, act=interrupt)) for k in range(ops)]
    rng.shuffle(todo)
    for what, how in todo:
        status, said = child(lambda report: Points(report=report, **how).run(R.save))
        if what.startswith("killed"): M.check(os.WIFSIGNALED(status) or status == 0, "harness: the process was not killed", status, said)
        place = (said or ["?"])[0]
        M.ev(what)
        if R.nofolder: M.ev("folder created")
        R.verify("%s, %s number %d" % (what, place, how.get("lines", how.get("ops"))), returned=status == 0)
        M.input((R.kind, case["before"], what, place, how.get("lines", how.get("ops"))), dict(save=R.where, failure=what, place=place, before=case["before"]))
        if rng.random() < .15: R.again()
        R.restore(clean=rng.random() < .3)


def run_limits(case, M, S, rng):
    R = Saved(case, M, S)
    child(lambda report: R.save())
    size = os.path.getsize(R.path())
    R.restore(clean=True)
    for k in range(26):
        limit = rng.choice([0, 1, size - 1, size, rng.randrange(size), rng.randrange(size), rng.randrange(min(size, 9000)), size // 4096 * 4096, size // 8192 * 8192])
        deadly = k % 2 == 0

        def go(report):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if deadly else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            R.save()
        status, said = child(go)
        what = "died of the size limit" if os.WIFSIGNALED(status) else "failed by the size limit" if status else "fits into the size limit"
        M.ev(what)
        R.verify("%s of %d bytes of %d" % (what, limit, size), returned=status == 0)
        M.input((R.kind, case["before"], what, limit, size), dict(save=R.where, failure=what, limit=limit, size=size))
        if rng.random() < .2: R.again()
        R.restore(clean=rng.random() < .3)


def run_unwritable(case, M, S, rng):
    for _ in range(10):
        R = Saved(case, M, S)
        good = R.new
        bad = copy.deepcopy(good)
        where = rng.choice(["eigvals", "spins", "determinants", "couplings", "tol", "times", "eigvects", "hamiltonian"])
        x = rng.choice([object(), {1}, lambda: 0, 1j, b"bytes"])
        if where == "eigvals": bad.eigenstates.eigvals = list(bad.eigenstates.eigvals) + [x]
        elif where == "spins": bad.eigenstates.spins = [x]
        elif where == "determinants": bad.determinants[-1] = bad.determinants[-1] + [x]
        elif where == "couplings": bad.data.interactions.VNNNper = x
        elif where == "tol": bad.data.diagonalization.tol = x
        elif where == "times" and R.kind == "plain": bad.times.teigenstates = x
        elif where == "eigvects": bad.eigenstates.eigvects = None
        else: bad.hamiltonian = x
        R.new = bad
        try:
            R.save()
            failed = False
        except Exception:
            failed = True
        R.new = good
        M.check(failed, "harness: %r was written as %s" % (x, where)) if where in ("eigvects", "hamiltonian") else None
        if not failed: continue
        M.ev("values that cannot be written")
        R.verify("%r as %s" % (type(x), where))
        M.input((R.kind, case["before"], where, repr(type(x))), dict(save=R.where, failure="cannot be written", value=repr(type(x)), place=where))
        R.again()


def run_instants(case, M, S, rng):
    R = Saved(case, M, S, 20, 126)
    t = time.time()
    status, said = child(lambda report: R.save())
    M.check(status == 0, "saving fails: " + R.where, said)
    span = 1.3 * (time.time() - t)
    R.restore(clean=True)
    for _ in range(24):
        sys.stdout.flush()
        delay = rng.uniform(0, span)
        pid = os.fork()
        if pid == 0:
            try:
                for _ in range(1000):
                    R.save()
                    if R.text[R.name] is not None and rng.random() < .5: saver(R.kind, R.flags)(R.old)
            finally: os._exit(0)
        time.sleep(delay)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        M.ev("killed at a random instant")
        R.verify("killed after %.2f ms" % (1e3 * delay))
        M.input((R.kind, case["before"], "instant", case["seed"], _), dict(save=R.where, failure="killed at a random instant"))
        R.restore(clean=rng.random() < .3)
    R.again()


def run_race(case, M, S, rng):
    R = Saved(dict(case, before="earlier"), M, S, 8, 126)
    results = (R.old, R.new)
    allowed = (R.expected[R.name], R.next)
    pids = []
    stop = time.time() + 60
    try:
        for k in range(rng.choice([1, 2, 2])):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                i = k
                try:
                    while time.time() < stop:
                        saver(R.kind, R.flags)(results[i % 2])
                        i += 1
                        if i % 7 == 0: time.sleep(.002)
                    os._exit(0)
                except BaseException as e:
                    with open("../writer-failed", "w") as f: f.write(repr(e))
                finally: os._exit(5)
            pids.append(pid)
        last, loads, changes = None, 0, 0
        end, hard = time.time() + 1.2, time.time() + 30
        while time.time() < end or (time.time() < hard and (loads < 80 or changes < 8)):
            try: got = snap(iC.load_data(R.name))
            except Exception as e:
                M.check(False, "a result cannot be loaded while it is saved by another process (%s): %s" % (R.name, R.where), str(e)[:500])
            M.check(got in allowed, "a result loaded while it is saved by another process is neither the earlier nor the new one (%s): %s" % (R.name, R.where))
            k = allowed.index(got)
            changes += last is not None and k != last
            last = k
            loads += 1
            M.input((R.kind, len(pids), case["seed"], changes))
        for pid in pids:
            M.check(os.waitpid(pid, os.WNOHANG)[0] == 0, "saving fails while another process saves or loads the same result: " + R.where, open("../writer-failed").read() if os.path.exists("../writer-failed") else "")
        M.ev("loads during saves", loads)
        M.ev("changes seen by the reader", changes)
        M.ev("writers", len(pids))
    finally:
        for pid in pids:
            try: os.kill(pid, signal.SIGKILL)
            except ProcessLookupError: pass
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
        if os.path.exists("../writer-failed"): os.remove("../writer-failed")


def run_sweep(case, M, S, rng):
    while True:
        s = rng.choice(m.shapes(6))
        n = m.lattice_sites('periodic', s)
        h = rng.randint(0, n)
        if 2 <= n <= 6 and n - h >= 2 and max(dim(n, h, b) for b in range(n - h + 1)) <= 40: break
    L = lattice('periodic', s)
    terms = list(m.TERMS)
    where = "%d sites (%s), %d holes" % (n, s, h)

    def data(c):
        return iC.Data(L.config(bC, lF, h, 0), itr.Interactions(**c), dav.Diagonalization(2, 30, 1e-3, 0), switches(terms, b_spin_multipicities=False))
    c1, c2 = ({k: round(rng.uniform(-1, 1), 3) for k in m.COUPLINGS} for _ in range(2))
    earlier = rng.random() < .7
    iC.perform_configurations_computations(data(c1))
    names = S.files()
    if not earlier:
        for f in names: os.remove("initialComputations/" + f)
    old = {f: open("initialComputations/" + f).read() for f in S.files()}
    for _ in range(4):
        total = 40 + 60 * (n - h + 1)
        at, inside = rng.randrange(total), rng.random() < .6
        sector, delay = rng.randrange(n - h + 1), rng.uniform(0, .03)

        def go(report):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1), os.dup2(dn, 2)
            p = Points(lines=at % 45 if inside else -1, act=die, report=report)
            done, real = [0], iC.mod.save_data

            def saving(d):
                if inside and done[0] == sector:
                    p.run(lambda: real(d))
                else: real(d)
                done[0] += 1
                report("saved")
            iC.mod.save_data = saving
            compute = iC.mod.perform_initial_computations

            def computing(d):
                report("start")
                return compute(d)
            iC.mod.perform_initial_computations = computing
            if not inside:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, delay)
            iC.mod.perform_configurations_computations(data(c2))
            report("end")
        status, said = child(go)
        saved = max(said.count("saved"), said.count("start") - 1)
        M.check(os.WIFSIGNALED(status) or said[-1:] == ["end"], "a sweep fails: " + where, said[-3:])
        if os.WIFSIGNALED(status): M.ev("sweeps killed")
        new = 0
        for f in set(S.files()) & set(names):
            with open("initialComputations/" + f) as g: text = g.read()
            if old.get(f) == text: continue
            try: r = iC.load_data(f)
            except Exception as e: M.check(False, "a sweep that was killed left a result that cannot be loaded, %s: %s" % (f, where), str(e)[:500], text[:200])
            b = r.data.configuration.nbeta
            st = m.states(n, h, b)
            M.check([tuple(d) for d in r.determinants] == [tuple(m.to_det(x)) for x in st] and len(r.eigenstates.eigvals) == min(2, len(st)) and np.asarray(r.eigenstates.eigvects).shape == (len(st), min(2, len(st))),
                    "a sweep that was killed left an incomplete result, %s: %s" % (f, where))
            check_matrix(M, dense(M, r.hamiltonian, len(st)), m.matrix(L, h, b, c2, terms, None), "result of a sweep that was killed, %s: %s" % (f, where), st)
            new += 1
        M.check(all(f in S.files() for f in old), "a sweep that was killed removed earlier results: " + where, sorted(old), S.files())
        M.check(new >= saved, "a sweep that was killed has not saved the sectors it had finished: " + where, "%d sectors finished, %d saved" % (saved, new), S.files())
        M.ev("completed sectors", new)
        M.input((s, h, earlier, inside, sector, at, case["seed"]), dict(sweep=where, saved=saved, new=new))
        for f in S.files(): os.remove("initialComputations/" + f)
        for f, t in old.items():
            with open("initialComputations/" + f, "w") as g: g.write(t)
    iC.perform_configurations_computations(data(c2))
    M.check(len({iC.load_data(f).data.configuration.nbeta for f in set(S.files()) & set(names)}) == n - h + 1, "a sweep after a killed one does not save every sector: " + where)
