from common import *
import random, time, importlib
ID = "C25"
RULE = ("Complete computations, several in a row in one process and sometimes on one data object, over lattices of the three numbering schemes, fillings, selections, couplings, tolerances, "
        "requested pairs and supplied or random starts. Each is compared with the reference basis, Hamiltonian, exact spectrum and total spin; equivalent descriptions (other subblocks, "
        "transposed rectangle, two blocks side by side as one rectangle) must give the same spectrum. Earlier results are compared with their snapshots at the end. Non-trivial: a Hamiltonian that is not diagonal.")
REQUIRED = {"computations": 600, "residuals within the tolerance": 500, "lowest states found": 70, "spin numbers": 400, "equivalent lattices": 80, "supplied starts": 60, "earlier results kept": 150,
            "restricted": 60, "more pairs than rows": 40, "reused data": 50, "lattice_type periodic": 60, "lattice_type clusters": 40, "lattice_type peripheral": 30, "bases beyond 300 determinants": 6}
ASSUMPTIONS = ["convergence is probabilistic: of six random starts, if some converge, one must reach the lowest states of a connected lattice with moderate couplings"]

tally = dict(runs=0, converged=0)


def cases(tier, rng):
    q = tier == "quick"
    return [dict(delay=k, seed=rng.randrange(10 ** 9)) for k in range(3)] * (1 if q else 3) + [dict(runs=3, dmax=70 if q else 250, smax=130 if q else 600, seed=rng.randrange(10 ** 9)) for _ in range(280 if q else 1500)] + [
        dict(runs=1, dmin=500, dmax=1400 if q else 2500, smax=130, seed=rng.randrange(10 ** 9), _w=20) for _ in range(8 if q else 60)]


def draw(rng, dmax, dmin=0):
    while True:
        kind = rng.choice(KINDS + ('periodic',))
        s = rng.choice(m.shapes(12))
        n = m.lattice_sites(kind, s)
        if n > 14: continue
        h = rng.randint(0, n)
        b = rng.randint(0, n - h)
        if dmin <= dim(n, h, b) <= dmax and (dim(n, h, b) > 1 or rng.random() < .05): return kind, s, h, b


def moderate(rng, special=0):
    c = mild_couplings(rng, digits=6, zero=0, special=special)
    c.update(t=rng.choice([1, -1, 1.5]), J=round(rng.choice([-1, 1, 1]) * rng.uniform(.1, 1), 5))
    return c


def dets_of(st):
    return [tuple(m.to_det(x)) for x in st]


def examine(M, r, data, before, L, h, b, c, terms, R, nb, tol, spins, where):
    """The invariants every result must satisfy; returns whether all residuals are within the tolerance."""
    st = m.states(L.n, h, b)
    d = len(st)
    M.check([tuple(x) for x in r.determinants] == dets_of(st), "the computation does not return the basis: " + where)
    A = m.matrix(L, h, b, c, terms, R)
    check_matrix(M, dense(M, r.hamiltonian, d), A, "Hamiltonian of the computation: %s, couplings %s" % (where, c), st)
    e, v = np.asarray(r.eigenstates.eigvals, float), np.asarray(r.eigenstates.eigvects)
    k = min(nb, d)
    M.check(e.shape == (k,) and v.shape == (d, k), "number of eigenpairs: " + where, e.shape, v.shape, k)
    scale = 1 + np.abs(A).max() * np.sqrt(d)
    exact = np.linalg.eigvalsh(A)
    M.check(np.isfinite(e).all() and np.isfinite(v).all() and (np.diff(e) >= -1e-12 * scale).all(), "eigenvalues are not finite and ascending: " + where, e.tolist())
    M.check(np.abs(v.T @ v - np.eye(k)).max() < 1e-8, "eigenvectors are not orthonormal: " + where)
    M.check(np.abs((v * (A @ v)).sum(0) - e).max() < 1e-8 * scale, "an energy is not the expectation value in its vector: " + where, e.tolist())
    M.check((e >= exact[:k] - 1e-8 * scale).all(), "an energy is below the exact one of its rank: " + where, e.tolist(), exact[:k].tolist())
    ok = bool((np.linalg.norm(A @ v - v * e, axis=0) <= tol * (1 + 1e-6) + 1e-12 * scale).all())
    if ok: M.ev("residuals within the tolerance")
    elif k == d: M.check(False, "all states were requested and the residuals are above the tolerance: " + where, e.tolist(), exact.tolist())
    M.check(len(r.eigenstates.spins) == (k if spins else 0), "number of spin numbers: " + where, r.eigenstates.spins, k)
    if spins:
        S = m.s2_matrix(L.n, h, b)
        for j, s in enumerate(r.eigenstates.spins):
            x = 2 * (np.sqrt(max(0.0, v[:, j] @ S @ v[:, j]) + .25) - .5)
            if abs(x - np.floor(x) - .5) < .02: continue
            M.check(isinstance(s, (int, float)) and s == np.rint(x) / 2, "spin number of eigenstate %d: %s" % (j, where), "reported %r, from the total spin of the vector %r" % (s, x / 2), e.tolist())
            M.ev("spin numbers")
    same_snap(M, snap_config(data.configuration), before[0], "the computation changed the configuration: " + where)
    M.check({k: getattr(data.interactions, k) for k in m.COUPLINGS} == c, "the computation changed the couplings: " + where)
    M.check({k: getattr(data.bool_interactions, k) for k in SWITCHES} == before[1], "the computation changed the selection: " + where)
    dg = data.diagonalization
    M.check((dg.nb_val, dg.stp, dg.tol, dg.dim_max) == before[2] and (before[3] is None) == (dg.initial_guess is None) and (before[3] is None or np.array_equal(before[3], dg.initial_guess)),
            "the computation changed the diagonalisation parameters: " + where)
    same_snap(M, snap_config(r.data.configuration), before[0], "configuration of the result: " + where)
    M.check({k: getattr(r.data.interactions, k) for k in m.COUPLINGS} == c and {k: getattr(r.data.bool_interactions, k) for k in SWITCHES} == before[1], "couplings or selection of the result: " + where)
    t = r.times
    M.check(all(np.isfinite(x) and x >= 0 for x in (t.tbasis, t.thamiltonian, t.teigenstates)), "computation times: " + where, vars(t))
    M.ev("computations")
    return ok, e, exact, A


PHASES = (("baseConstruction", "construct_basis", "tbasis"), ("hamiltonianConstruction", "build_hamiltonian", "thamiltonian"), ("davidson", "modified_davidson_algorithm", "teigenstates"))


def delayed(case, M):
    """One phase is slowed down by a busy wait: the time reported for this phase contains it, and no time is counted twice."""
    module, name, attribute = PHASES[case["delay"]]
    mod = importlib.import_module(module)
    original = getattr(mod, name, None)
    if original is None: return
    waited = []

    def slow(*a, **k):
        stop = time.perf_counter() + .3
        while time.perf_counter() < stop: pass
        waited.append(1)
        return original(*a, **k)
    L = lattice('periodic', (2, 1, 2))
    data = iC.Data(L.config(bC, lF, 1, 1), itr.Interactions(**moderate(random.Random(case["seed"]))), dav.Diagonalization(1, 50, 1e-6, 0), switches(m.TERMS))
    setattr(mod, name, slow)
    try:
        start = time.time()
        t = iC.perform_initial_computations(data).times
        whole = time.time() - start
    finally:
        setattr(mod, name, original)
    if len(waited) == 1:     # the computation called it through its module, once
        M.check(getattr(t, attribute) > .29, "the time reported for %s does not contain its delay of 0.3 s" % name, vars(t))
        M.check(t.tbasis + t.thamiltonian + t.teigenstates < whole + .05, "with a delay of 0.3 s in %s the times reported add up to more than the computation took" % name, vars(t), whole)
        M.ev("delayed phases")
        M.input(("delay", name), dict(delayed=name, times=vars(t)))


def run(case, M):
    if "delay" in case: return delayed(case, M)
    rng = random.Random(case["seed"])
    kept, data = [], None
    for _ in range(case["runs"]):
        kind, s, h, b = draw(rng, case["dmax"], case.get("dmin", 0))
        L = lattice(kind, s)
        n, d = L.n, dim(L.n, h, b)
        special = rng.random() < .2
        c = moderate(rng, special)
        terms = tuple(rng.choice([("bt", "bz", "bij"), m.TERMS, m.TERMS, ("bt", "bz", "bij", "bV"), None]) or [t for t in m.TERMS if rng.random() < .6])
        R = sorted(rng.sample(range(n), rng.randint(1, n))) if rng.random() < .2 else None
        nb = rng.choice([1, 1, 2, 3, 5, d, d + 2]) if d <= 40 else rng.choice([1, 2, 3, 5])
        tol, stp = rng.choice([1e-3, 1e-6, 1e-8, 1e-10]), rng.choice([400, 400, 400, 60])
        spins = rng.random() < .6 and d * nb * n <= 12 * case["smax"]
        guess = None
        if rng.random() < .3:
            guess = np.array([[rng.gauss(0, 1) for _ in range(min(nb, d))] for _ in range(d)])
            M.ev("supplied starts")
        where = "%s W=%d H=%d, %d holes, %d down, terms %s, restriction %s, %d pairs, tol %g" % (kind, L.W, L.H, h, b, "+".join(terms), R, nb, tol)
        cfg = L.config(bC, lF, h, b, restriction=None if R is None else list(R) if rng.random() < .5 else (list(R), list(R)))
        if data is not None and rng.random() < .4:      # the objects of the previous computation
            data.configuration = cfg
            for k, x in c.items(): setattr(data.interactions, k, x)
            for t in m.TERMS: setattr(data.bool_interactions, t, t in terms)
            data.bool_interactions.b_spin_multipicities = spins
            data.diagonalization.__dict__.update(nb_val=nb, stp=stp, tol=tol, dim_max=0, initial_guess=None if guess is None else guess.copy())
            kept = []
            M.ev("reused data")
        else:
            data = iC.Data(cfg, itr.Interactions(**c), dav.Diagonalization(nb, stp, tol, 0, None if guess is None else guess.copy()), switches(terms, b_spin_multipicities=spins, bV_embedding=rng.random() < .3))
        before = (snap_config(cfg), {k: getattr(data.bool_interactions, k) for k in SWITCHES}, (nb, stp, tol, 0), guess)
        if R: M.ev("restricted")
        if nb > d: M.ev("more pairs than rows")
        M.ev("lattice_type " + kind)
        r, announced = heard(iC.perform_initial_computations, data)
        ok, e, exact, A = examine(M, r, data, before, L, h, b, c, terms, R, nb, tol, spins, where)
        if announced == [True]:
            M.check(ok, "the computation announces convergence with residuals above the tolerance: " + where, e.tolist(), exact.tolist())
            M.ev("announced convergence")
        if d > 300: M.ev("bases beyond 300 determinants")
        tally["runs"] += stp == 400 and d <= 300 and not special
        tally["converged"] += ok and stp == 400 and d <= 300 and not special
        M.check(tally["runs"] < 15 or tally["converged"] * 2 > tally["runs"], "most computations do not reach the tolerance in 400 steps", "%d of %d" % (tally["converged"], tally["runs"]), where)
        for r0, s0, w0 in kept:
            same_snap(M, snap(r0), s0, "a later computation changed an earlier result: %s then %s" % (w0, where))
            M.ev("earlier results kept")
        kept.append((r, snap(r), where))
        k = min(nb, d)
        scale = 1 + np.abs(exact).max()
        M.input((kind, tuple(s), h, b, terms, tuple(R or ()), nb, round(c["J"], 5)) if (A - np.diag(np.diag(A))).any() else None, dict(computation=where, energies=e[:5].tolist()))
        if R is None and terms in (("bt", "bz", "bij"), m.TERMS) and rng.random() < .5 and 0 < h < n and nb <= 5 and d <= 300 and not special:
            data.diagonalization.initial_guess = None
            data.bool_interactions.b_spin_multipicities = False
            data.diagonalization.tol = 1e-6
            tried = []
            kept = []
            for attempt in range(6):
                r = iC.perform_initial_computations(data)
                e = np.asarray(r.eigenstates.eigvals)
                v = np.asarray(r.eigenstates.eigvects)
                if np.linalg.norm(A @ v - v * e, axis=0).max() > 1.1e-6: continue
                tried.append(e.tolist())
                if np.abs(e - exact[:k]).max() < 1e-4 * scale:
                    M.ev("lowest states found")
                    break
            else:
                M.check(len(tried) < 2, "no start that converges reaches the lowest states: " + where, tried, exact[:k].tolist())
        if d <= 40 and rng.random() < .5:
            equivalent(M, rng, L, s, h, b, c, terms, R, exact, where)


def equivalent(M, rng, L, s, h, b, c, terms, R, exact, where):
    """Complete spectra of other descriptions of the same lattice."""
    kind, W, H = L.kind, L.W, L.H
    xy = [L.xy[x] for x in R] if R is not None else None
    others = []
    for t in m.shapes(25):
        w, hh = t[0] * t[2], t[1] * t[2]
        if (w, hh) == (W, H) and t != s: others.append((kind, t, lambda p: p, "other subblocks"))
        if kind != 'clusters' and (w, hh) == (H, W) and W != H: others.append((kind, t, lambda p: (p[1], p[0]), "transposed"))
        if kind == 'clusters' and (w, hh) == (2 * W, H): others.append(('periodic', t, lambda p: p, "one rectangle"))
        if kind == 'periodic' and (2 * w, hh) == (W, H): others.append(('clusters', t, lambda p: p, "two blocks"))
    for kind2, t, f, name in rng.sample(others, min(2, len(others))):
        G = lattice(kind2, t)
        R2 = None if R is None else sorted(G.at[f(p)] for p in xy)
        d = len(exact)
        data = iC.Data(G.config(bC, lF, h, b, restriction=R2), itr.Interactions(**c), dav.Diagonalization(d, 400, 1e-8, 0), switches(terms, b_spin_multipicities=False))
        e = np.asarray(iC.perform_initial_computations(data).eigenstates.eigvals, float)
        M.check(e.shape == (d,) and np.abs(e - exact).max() < 1e-6 * (1 + np.abs(exact).max()), "%s (%s %s) has another spectrum than %s" % (name, kind2, t, where), e.tolist(), exact.tolist())
        M.ev("equivalent lattices")
        M.ev("equivalence: " + name)
