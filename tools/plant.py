"""Builds and confirms the planted bugs of tools/plants.py.

usage: plant.py [--checks] [--no-tests] [--jobs N] [id ...]
For each: a scratch copy of /repo gets the change; the demonstration must pass on /repo and fail on the copy, the stable tests
must pass on the copy, and only lines of the original repository may be replaced. Kept in seeded/<id>/ once confirmed.
--checks: also run the quick check of the property against the copy (VERIF_REPO), seeds 1 and 2.
"""
import sys, os, json, subprocess, shutil, xml.etree.ElementTree as ET, concurrent.futures, stat
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
BASE = "f7b9052"
SCRATCH = "/tmp/plants"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
PRELUDE = '''import os, sys, copy, io, contextlib, tempfile, shutil, itertools, traceback
sys.excepthook = lambda *a: traceback.print_exception(*a, file=sys.__stderr__)
sys.path.insert(0, os.getcwd())
import numpy as np
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    import latticeFunctions as lF, baseConstruction as bC, interactions as itr, davidson as dav
    import hamiltonianConstruction as hC, initialComputations as iC, embedding as emb
quiet = contextlib.ExitStack()
quiet.enter_context(contextlib.redirect_stdout(io.StringIO()))
quiet.enter_context(contextlib.redirect_stderr(io.StringIO()))
TERMS = ("bt", "bz", "bij", "bSD", "btN", "bV")


def conf(nbh, nbv, side, nholes, nbeta, **k):
    return bC.Configuration(lF.build_rectangular_bond_matrix(nbh, nbv, side), nholes, nbeta, nbh=nbh, nbv=nbv, nblocs_side=side, **k)


def couplings(**k):
    return itr.Interactions(**dict(dict.fromkeys(("t", "J", "Jhpar", "Jhper", "hSDper", "hSDpar", "tNNN", "tnNNN", "VNN", "VNNNper"), 0.), **k))


def switches(*on, **k):
    return iC.BoolInteractions(**{t: t in on for t in TERMS}, **k)


def ham(c, inter, *on):
    return hC.build_hamiltonian(c, inter, bC.construct_basis(c), switches(*on)).toarray()


GENERIC = dict(t=-.55, J=.123, Jhpar=.156, Jhper=.104, hSDper=-.041, hSDpar=-.08, tNNN=.112, tnNNN=-.047, VNN=1.77, VNNNper=.79)


def scratch(*folders):
    d = tempfile.mkdtemp()
    os.chdir(d)
    for f in ("initialComputations",) + folders: os.makedirs(f)
    return d


'''


def run(cmd, cwd, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def plant(p, tests=True, checks=False):
    out = []
    d = os.path.join(SCRATCH, p["id"])
    subprocess.run(["rm", "-rf", d]); os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    for f, old, new in p["edits"]:
        path = os.path.join(d, f)
        s = open(path, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1: return p["id"], "FAIL", ["%s: found %d times: %r" % (f, s.count(old), old[:80])]
        open(path, "w", newline="").write(s.replace(old, new))
        try: compile(open(path).read(), path, "exec")
        except SyntaxError as e: return p["id"], "FAIL", [str(e)]
    diff = subprocess.run(["git", "diff", "--no-color"], cwd=d, stdout=subprocess.PIPE).stdout
    # lines replaced must be original ones
    files, orig = {}, 0
    for line in subprocess.run(["git", "diff", "-U0", "--no-color"], cwd=d, stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if line.startswith("--- a/"): cur = line[6:].strip()
        if line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for k in range(start, start + n):
                if cur not in files:
                    files[cur] = subprocess.run(["git", "blame", "-s", "HEAD", "--", cur], cwd=d, stdout=subprocess.PIPE, text=True, errors="replace").stdout.splitlines()
                if not files[cur][k - 1].lstrip("^").startswith(BASE[:6]): return p["id"], "FAIL", ["line %d of %s is not original: %s" % (k, cur, files[cur][k - 1])]
                orig += 1
    if not orig: return p["id"], "FAIL", ["replaces no original line"]
    s = os.path.join(VERIF, "seeded", p["id"])
    os.makedirs(s, exist_ok=True)
    open(os.path.join(s, "patch.diff"), "wb").write(diff)
    open(os.path.join(s, "demo.py"), "w").write(PRELUDE + p["demo"].strip("\n") + "\n")
    open(os.path.join(s, "demo.sh"), "w").write('#!/bin/bash\n# Run in /repo: exit 0 when the behaviour is right.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(s, "demo.sh"), 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(s, "meta.json"), "w"), indent=1)
    state = "OK"
    def bad(msg):
        nonlocal state
        state = "FAIL"; out.append(msg)
    r, o = run(["bash", os.path.join(s, "demo.sh")], "/repo", 300)
    if r: bad("demo on the unchanged tree: %d\n%s" % (r, o[-1500:]))
    r, o = run(["bash", os.path.join(s, "demo.sh")], d, 300)
    if r == 0: bad("demo passes with the change")
    else: out.append("demo: " + (o.strip().splitlines() or ["?"])[-1][:160])
    if tests and state == "OK":
        x = os.path.join(d, "report.xml")
        env = dict(ENV, PYTHONPATH=d)
        r, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "-n", "2", "-p", "no:randomly", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], d, 900, env)
        r, o = run(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(d, "res.json"), "junit:" + x], d)
        res = json.load(open(os.path.join(d, "res.json")))
        passed = set(res.get("passed", []))
        missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if missing: bad("stable tests fail: %s" % missing)
    if checks and state == "OK":
        for seed in ("1", "2"):
            for prop in [p["property"]] + p.get("also", []):
                r, o = run([os.path.join(VERIF, "bin/check"), prop], VERIF, 900, dict(ENV, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_NO_EVIDENCE="1"))
                caught = r == 1 and "VIOLATION property=%s" % prop in o
                out.append("check %s seed %s: %s" % (prop, seed, "caught" if caught else "MISSED (exit %d) %s" % (r, o.strip().splitlines()[-1:])))
    if state != "OK": subprocess.run(["rm", "-rf", s])
    subprocess.run(["rm", "-rf", d])
    return p["id"], state, out


def main():
    import plants
    a = sys.argv[1:]
    tests, checks, jobs = "--no-tests" not in a, "--checks" in a, 3
    if "--jobs" in a:
        jobs = int(a[a.index("--jobs") + 1]); del a[a.index("--jobs"):a.index("--jobs") + 2]
    ids = [x for x in a if not x.startswith("--")]
    todo = [p for p in plants.PLANTS if not ids or p["id"] in ids or p["property"] in ids]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(plant, p, tests, checks) for p in todo]):
            i, st, out = f.result()
            print(st, i); [print("    " + o) for o in out]
            if checks and st == "OK":
                path = os.path.join(HERE, "catches.json")
                c = json.load(open(path)) if os.path.exists(path) else {}
                got = [o.split()[1] for o in out if o.startswith("check ") and o.endswith(": caught")]
                tried = [o.split()[1] for o in out if o.startswith("check ")]
                c[i] = "; ".join("%s %d of %d seeds" % (q, got.count(q), tried.count(q)) for q in dict.fromkeys(tried))
                json.dump(c, open(path, "w"), indent=1, sort_keys=True)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
