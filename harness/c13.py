from common import *
import scipy.sparse as sp
import random, zlib
ID = "C13"
RULE = ("Eigensolver runs on t-J Hamiltonians (reference matrices) of many lattices and fillings and on dense, degenerate, diagonal, block and "
        "tiny symmetric matrices; every ratio of requested pairs to dimension, random and supplied guesses, tight and loose tolerances, step "
        "and search-space limits. Multiplications by the matrix are counted on the matrix itself, so that a stop before the step limit is "
        "seen. Oracles: exact dense spectrum, residuals, orthonormality, ordering, Ritz values of the guess. Non-trivial: dimension above one "
        "and a matrix that is not diagonal.")
ASSUMPTIONS = ["convergence to the lowest eigenvalues is probabilistic: of several random starts with a tight tolerance one must reach them, and more than "
               "half of the generic runs must reach the tolerance (observed: more than 85 %)"]
REQUIRED = {"runs": 1500, "stopped by the tolerance": 700, "stopped by the step limit": 100, "supplied guesses": 400, "more guesses than pairs": 60, "lowest states found": 120,
            "all states requested": 100, "more states than rows requested": 50, "search-space limits": 150, "selections of lowest pairs": 400,
            "orthonormalisations": 400, "projections": 60, "other units of energy": 60, "dense lowest states": 60, "matrices beyond 300 rows": 4}
tally = dict(runs=0, converged=0)


class Counted(sp.csr_matrix):
    """A sparse matrix that counts its products."""
    products, depth = 0, 0

    def _count(self, f, *a):
        if Counted.depth == 0: Counted.products += 1
        Counted.depth += 1
        try:
            return f(*a)
        finally:
            Counted.depth -= 1

    def dot(self, other):
        return self._count(super().dot, other)

    def __matmul__(self, other):
        return self._count(super().__matmul__, other)

    def __mul__(self, other):
        return self._count(super().__mul__, other)

    def _mul_multivector(self, other):
        return self._count(super()._mul_multivector, other)


def cases(tier, rng):
    q = tier == "quick"
    out = [dict(what="tj", seed=rng.randrange(10 ** 9), _w=3) for _ in range(240 if q else 2500)]
    out += [dict(what="any", seed=rng.randrange(10 ** 9), _w=2) for _ in range(420 if q else 4000)]
    out += [dict(what="helpers", seed=rng.randrange(10 ** 9), _w=1) for _ in range(120 if q else 1000)]
    if q: out += [dict(what="tj", big=1, seed=rng.randrange(10 ** 9), _w=20) for _ in range(5)]
    if not q: out += [dict(what="tj", big=1, seed=rng.randrange(10 ** 9), _w=30) for _ in range(120)]
    return out


def tj(rng, dmax, dmin=1):
    kind = rng.choice(KINDS)
    while True:
        s = rng.choice([s for s in m.shapes(12) if 2 <= m.lattice_sites(kind, s) <= 12])
        L = lattice(kind, s)
        fs = [f for f in extreme_fillings(L.n, dmax) if dim(L.n, *f) > dmin]
        if fs: break
    h, b = rng.choice(fs)
    c = {k: round(rng.uniform(-1.5, 1.5), 6) for k in m.COUPLINGS}
    c.update(t=rng.choice([1, -1, 1.5]), J=rng.choice([-1, 1, 1]) * rng.uniform(.1, 1))
    if rng.random() < .5: c.update(Jhpar=c["J"], Jhper=c["J"])
    terms = rng.choice([("bt", "bz", "bij"), m.TERMS, ("bt", "bz", "bij", "bV"), ("bt", "bz", "bij", "bSD")])
    return m.matrix(L, h, b, c, terms), dict(kind=kind, shape=s, holes=h, down=b, terms=terms, couplings=c)


def any_matrix(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 13, 20, 40, 80])
    X = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    A = (X + X.T) / 2
    kind = rng.choice(["dense", "dominant", "diagonal", "degenerate", "zero", "identity", "block", "sparse", "scaled", "two levels", "two levels"])
    if kind == "two levels":       # Ritz values come arbitrarily close to diagonal elements
        n = rng.randint(3, 14)
        return np.diag([rng.randint(0, 1) * 1.193 for _ in range(n)]) * rng.choice([1, -1, .37, 3.1]), dict(kind=kind, n=n)
    if kind == "dominant": A += np.diag(np.arange(n) * 4.0)
    if kind == "diagonal": A = np.diag(np.rint(3 * np.diag(A)) if rng.random() < .5 else np.diag(A))
    if kind == "degenerate":
        Q = np.linalg.qr(X)[0]
        A = Q @ np.diag(np.sort(np.array([float(rng.randint(-2, 2)) for _ in range(n)]))) @ Q.T
        A = (A + A.T) / 2
    if kind == "zero": A *= 0
    if kind == "identity": A = rng.choice([1, -2.5]) * np.eye(n)
    if kind == "block":
        A[: n // 2, n // 2:] = 0
        A = np.triu(A) + np.triu(A, 1).T
    if kind == "sparse":
        A[np.abs(A) < 1.2] = 0
        A = np.triu(A) + np.triu(A, 1).T
    if kind == "scaled": A *= 10.0 ** rng.randint(-3, 3)
    return A, dict(kind=kind, n=n)


DEFAULTS = dict(initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False)


def solve(M, A, exact, nb, guess, stp, tol, dmax, what, verbose=False, unit=1.0):
    S = Counted(A)
    Counted.products = 0
    keep = None if guess is None else guess.copy()
    state = np.random.get_state()
    given = dict(initial_guess=guess, stp=stp, tol=tol, dim_max=dmax, verbose=verbose)
    if (zlib.crc32(repr((what, float(exact.sum()))).encode()) & 3) == 0:     # documented defaults
        r = dav.modified_davidson_algorithm(S, nb, **{k: x for k, x in given.items() if x is not None and (k == "initial_guess" or x != DEFAULTS[k])})
        M.ev("calls relying on defaults")
    else:
        r = dav.modified_davidson_algorithm(S, nb, guess, stp, tol, dmax, verbose)
    used = Counted.products
    if not used:
        # the products escape the counter: the same run with a tolerance that cannot be reached ends elsewhere if this one stopped by itself
        np.random.set_state(state)
        more = dav.modified_davidson_algorithm(S, nb, guess, stp, -1.0, dmax, verbose)
        used = stp if np.array_equal(np.asarray(more.eigvects), np.asarray(r.eigvects)) else stp - 1
    n = A.shape[0]
    want = min(nb, n, dmax or n)
    v, U = np.asarray(r.eigvals, dtype=float), np.asarray(r.eigvects)
    M.check(v.shape == (want,) and U.shape == (n, want), "number of returned eigenpairs: " + what, v.shape, U.shape, want)
    M.check(np.isfinite(v).all() and np.isfinite(U).all() and np.isrealobj(U), "eigenpairs are not finite: " + what, v.tolist())
    scale = unit + np.abs(A).max() * np.sqrt(n)
    M.check((np.diff(v) >= -1e-12 * scale).all(), "eigenvalues are not in ascending order: " + what, v.tolist())
    M.check(np.abs(U.T @ U - np.eye(want)).max() < 1e-8, "eigenvectors are not orthonormal: " + what, (U.T @ U).tolist())
    AU = A @ U
    M.check(np.abs((U * AU).sum(0) - v).max() < 1e-8 * scale, "an eigenvalue is not the expectation value in its vector: " + what, v.tolist())
    M.check((v >= exact[:want] - 1e-8 * scale).all(), "an eigenvalue is below the exact one of the same rank: " + what, v.tolist(), exact[:want].tolist())
    if guess is not None:
        Q = np.linalg.qr(keep)[0]
        start = np.linalg.eigvalsh(Q.T @ A @ Q)[:want]
        M.check((v <= start + 1e-7 * scale).all(), "eigenvalues are above those of the initial guess: " + what, v.tolist(), start.tolist())
        M.check(np.array_equal(keep, guess), "the initial guess was modified: " + what)
        M.ev("supplied guesses")
    M.check(np.array_equal(S.toarray(), A), "the matrix was modified: " + what)
    res = np.linalg.norm(AU - U * v, axis=0)
    ok = bool((res <= tol * (1 + 1e-6) + 1e-12 * scale).all())
    if used < stp:
        M.check(ok, "stopped after %d of %d steps with a residual above the tolerance %g: %s" % (used, stp, tol, what), res.tolist(), v.tolist())
        M.ev("stopped by the tolerance")
    else:
        M.ev("stopped by the step limit")
    M.ev("runs")
    if nb >= n: M.ev("all states requested")
    if nb > n: M.ev("more states than rows requested")
    if dmax: M.ev("search-space limits")
    return v, U, ok


def run(case, M):
    rng = random.Random(case["seed"])
    if case["what"] == "helpers": return helpers(rng, M)
    A, info = (tj(rng, 900, 300) if case.get("big") else tj(rng, 160)) if case["what"] == "tj" else any_matrix(rng)
    n = A.shape[0]
    unit = 1.0
    if case["what"] == "any" and rng.random() < .25:      # the same in another unit of energy
        unit = 10.0 ** rng.choice((-9, -6, -4, 4, 7))
        A = A * unit
        info["unit"] = unit
        M.ev("other units of energy")
    exact = np.linalg.eigvalsh(A)
    diagonal = not (A - np.diag(np.diag(A))).any()
    for _ in range(3 if case["what"] == "tj" else 12 if info["kind"] == "two levels" else 5):
        nb = rng.choice([1, 1, 2, 3, 4, 6, n, n + 2, max(1, n // 2)])
        if nb > 25: nb = rng.randint(1, 12)
        tol = rng.choice([1e-1, 1e-3, 1e-6, 1e-9]) * unit
        stp = rng.choice([1, 2, 3, 8, 30, 100, 150])
        dmax = 0 if rng.random() < .8 else rng.randint(1, n + 3)
        guess = None
        if rng.random() < .45:
            dmax = 0
            k = min(nb, n)
            if rng.random() < .3:
                k = rng.randint(k, min(n, k + 4))
                if k > nb: M.ev("more guesses than pairs")
            r = rng.random()
            guess = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(n)])
            if r < .3: guess = np.linalg.eigh(A)[1][:, :k] + 10.0 ** -rng.randint(2, 6) * guess
            elif r < .5: guess = np.eye(n)[:, rng.sample(range(n), k)]
            elif r < .55: guess = np.linalg.eigh(A)[1][:, rng.sample(range(n), k)]
            elif r < .6: guess = np.linalg.eigh(A)[1][:, n - k:] + 1e-3 * guess
            elif r < .8: guess = guess * 10.0 ** rng.randint(-5, 5)
        if guess is not None: guess = disguised(rng, guess)
        what = "%s, %d pairs requested, tol %g, stp %d, dim_max %d, %s guess" % (info, nb, tol, stp, dmax, "random" if guess is None else "supplied")
        solve(M, A, exact, nb, guess, stp, tol, dmax, what, rng.random() < .1, unit)
        M.input((info.get("kind"), n, float(A.sum()), nb, stp, tol, dmax, guess is None) if n > 1 and not diagonal else None, dict(matrix=str(info), requested=nb, stp=stp, tol=tol))
    if n > 300: M.ev("matrices beyond 300 rows")
    if case["what"] == "tj" and n <= 300:
        nb = rng.choice([1, 1, 2, 3, 5])
        tol = 1e-6
        what = "%s, %d pairs requested, tol %g" % (info, nb, tol)
        k = min(nb, n)
        scale = 1 + np.abs(exact).max()
        tried = []
        for attempt in range(6):
            v, U, ok = solve(M, A, exact, nb, None, 400, tol, 0, what)
            if attempt == 0:
                tally["runs"] += 1
                tally["converged"] += ok
                M.check(tally["runs"] < 15 or tally["converged"] * 2 > tally["runs"], "most generic runs do not reach the tolerance in 400 steps",
                        "%d of %d" % (tally["converged"], tally["runs"]), what)
            if not ok: continue
            tried.append(v.tolist())
            if np.abs(v - exact[:k]).max() < 1e-4 * scale:
                M.ev("lowest states found")
                break
        else:
            M.check(len(tried) < 2, "no start converges to the lowest eigenvalues: " + what, tried, exact[:k].tolist())


def helpers(rng, M):
    for _ in range(5):
        n, rows = rng.randint(1, 12), rng.randint(1, 12)
        vals = [float(rng.randint(-3, 3)) if rng.random() < .6 else rng.gauss(0, 2) for _ in range(n)]
        if rng.random() < .4: vals.sort()
        r = rng.random()
        if r < .15: vals = [rng.randint(-4, 4) for _ in range(n)]
        elif r < .25: vals = [-abs(x) - .5 for x in vals]
        elif r < .3: vals = [np.float64(x) for x in vals]
        vect = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(rows)])
        nb = rng.randint(1, n + 2)
        given = np.array(vals) if rng.random() < .5 else list(vals)
        v, U = dav.get_lowests_eig(given, vect.copy(), nb)
        M.check(list(v) == sorted(vals)[:nb], "get_lowests_eig does not return the lowest values", vals, nb, list(v))
        M.check(U.shape == (rows, min(nb, n)), "get_lowests_eig returns the wrong number of vectors", U.shape)
        left = list(range(n))
        for k, x in enumerate(v):
            hit = [j for j in left if np.array_equal(U[:, k], vect[:, j]) and vals[j] == x]
            M.check(bool(hit), "get_lowests_eig separates a value from its vector, or repeats a vector", vals, nb, k)
            left.remove(hit[0])
        M.check(list(given) == vals, "get_lowests_eig modified its argument")
        M.ev("selections of lowest pairs")
        n = rng.randint(1, 10)
        k = rng.randint(1, n)
        V = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(n)]) @ np.diag([10.0 ** rng.randint(-3, 3) for _ in range(k)])
        for f in (dav.perform_modified_gram_schmidt, dav.gramSchmidt):
            W = V.copy()
            Q = np.asarray(f(W))
            M.check(Q.shape == (n, k) and np.abs(Q.T @ Q - np.eye(k)).max() < 1e-6, "%s does not orthonormalise" % f.__name__, V.tolist(), Q.tolist())
            X = V / np.linalg.norm(V, axis=0)
            M.check(np.abs(Q @ (Q.T @ X) - X).max() < 1e-6, "%s does not keep the spanned space" % f.__name__, V.tolist(), Q.tolist())
            M.check(np.array_equal(W, V), "%s modified its argument" % f.__name__)
            M.ev("orthonormalisations")
    for _ in range(3):
        n = rng.randint(2, 12)
        k = rng.randint(1, n - 1)
        X = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        A = X + X.T if rng.random() < .6 else np.diag(np.rint(2 * X[0]))
        V = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(n)]))[0] if rng.random() < .6 else np.eye(n)[:, rng.sample(range(n), k)]
        P = np.asarray(dav.perform_matrix_orthogonal_projection(disguised(rng, A), disguised(rng, V)))
        N = np.linalg.svd(V)[0][:, k:]
        M.check(P.shape == (n - k, n - k) and np.abs(P - P.T).max() < 1e-8 and np.abs(np.linalg.eigvalsh(P) - np.linalg.eigvalsh(N.T @ A @ N)).max() < 1e-8,
                "the projection of a matrix onto the orthogonal complement of some vectors is not its restriction to that complement", A.tolist(), V.tolist(), P.tolist())
        M.ev("projections")
    for _ in range(2):
        n = rng.randint(1, 14)
        X = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        A = (X + X.T) / 2 + np.diag([rng.gauss(0, 2) for _ in range(n)])
        prec, tol = rng.randint(3, 9), rng.choice([1e-4, 1e-6])
        lam, u = dav.davidson_algorithm(A, 60, tol, prec)
        u = np.asarray(u).reshape(-1)
        e = u @ A @ u
        M.check(abs(u @ u - 1) < 1e-8 and np.linalg.norm(A @ u - e * u) < 2 * tol and abs(e - lam) <= 10.0 ** -prec + 1e-8,
                "the dense algorithm does not return an eigenpair", A.tolist(), lam, u.tolist())
        M.check(abs(e - np.linalg.eigvalsh(A)[0]) < 1e-3, "the dense algorithm does not return the lowest eigenvalue", A.tolist(), lam)
        M.ev("dense lowest states")
