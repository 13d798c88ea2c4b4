from common import *
from c19 import watch
import random
ID = "C20"
RULE = ("Sweeps over all spin sectors, two or three in a row in one folder (other hole numbers, couplings, lattices), on lattices of the three numbering schemes with "
        "and without site restriction, all kinds of selections, fewer or more eigenpairs requested than the sectors have. The files opened for writing are logged during "
        "the sweep; afterwards every file is reloaded and its content compared with the reference sector. Non-trivial: at least three sectors.")
REQUIRED = {"sweeps": 150, "sectors": 700, "complete spectra compared": 450, "opposite sectors": 220, "multiplets found in lower sectors": 220, "more pairs requested than the dimension": 300,
            "restricted sweeps": 40, "lattice_type periodic": 40, "lattice_type clusters": 30, "lattice_type peripheral": 15, "fewer pairs than the dimension": 100, "explicit limits of the search space": 40,
            "sweeps beyond nine sites": 12}
ASSUMPTIONS = ["at most ten electrons, so that the file names of the sectors differ (see C19)"]


def cases(tier, rng):
    out = []
    for i in range(200 if tier == "quick" else 700):
        out.append(dict(sweeps=3, dmax=70 if tier == "quick" else 150, seed=rng.randrange(10 ** 9)))
    return out


def run(case, M):
    rng = random.Random(case["seed"])
    with Scratch() as S:
        for _ in range(case["sweeps"]):
            sweep(case, M, rng, S)


def sweep(case, M, rng, S):
    large = rng.random() < .12
    while True:
        kind = rng.choice(KINDS + ('peripheral',))
        s = rng.choice(m.shapes(12) + [(1, 1, 3)] * 8)
        n = m.lattice_sites(kind, s)
        if n > 12 or (n > 9) != large: continue
        h = rng.randint(max(0, n - 10), n)          # up to ten electrons: their numbers make distinct file names
        biggest = max(dim(n, h, b) for b in range(n - h + 1))
        if biggest <= max(case["dmax"], 135 * large, 80 * (s == (1, 1, 3))) and (n - h >= 2 or rng.random() < .05): break
    L = lattice(kind, s)
    full = rng.random() < .7
    nb = biggest + rng.randint(0, 3) if full else rng.randint(1, 3)
    R = None
    if rng.random() < .35:
        R = sorted(rng.sample(range(n), rng.randint(1, n)))
        M.ev("restricted sweeps")
    c = mild_couplings(rng, zero=.1)
    terms = [t for t in m.TERMS if rng.random() < .6] if rng.random() < .8 else list(m.TERMS)
    if rng.random() < .6 and 'bz' not in terms: terms += [t for t in ('bz',) if 'bij' in terms]
    if rng.random() < .6 and 'bij' not in terms and 'bz' in terms: terms.append('bij')
    tol = 1e-7 if full else rng.choice([1e-7, 1e-5, 1e-3])
    stp = 400 if full else rng.choice([60, 200])
    dim_max = rng.choice([0, 0, biggest + nb + rng.randint(0, 20)])
    if dim_max: M.ev("explicit limits of the search space")
    R2 = R
    if R is not None and rng.random() < .4:     # other target than starting sites: with no terms selected, so that the results do not depend on them
        R2, terms = sorted(rng.sample(range(n), rng.randint(1, n))), []
        M.ev("sweeps with two lists of sites")
    cfg = L.config(bC, lF, h, rng.randint(0, n - h), restriction=None if R is None else (list(R), list(R2)) if R2 is not R or rng.random() < .5 else list(R))
    data = iC.Data(cfg, itr.Interactions(**c), dav.Diagonalization(nb, stp, tol, dim_max), switches(terms, b_spin_multipicities=rng.random() < .5 and biggest * nb <= 150, bV_embedding=rng.random() < .5))
    where = "%s W=%d H=%d, %d holes, terms %s, restriction %s, %d pairs, search space %d" % (kind, L.W, L.H, h, "+".join(terms), R, nb, dim_max)
    want_rest = tuple(tuple(x if x is not None else range(n)) for x in (R, R2))
    template = snap_config(cfg)
    log, announced = heard(watch, iC.perform_configurations_computations, data)
    written = [f for md, f in log if md == "w"]
    M.check(len(written) == len(set(written)) == n - h + 1, "the sweep of %s wrote the files %s" % (where, written))
    M.ev("sweeps")
    if n > 9: M.ev("sweeps beyond nine sites")
    M.ev("lattice_type " + kind)
    spectra = {}
    for f in written:
        r = iC.load_data(f)
        k = r.data.configuration
        b = k.nbeta
        M.check(b not in spectra and 0 <= b <= n - h, "the sector with %d down spins was saved twice or is impossible: %s" % (b, where))
        got = snap_config(k)
        exp = dict(template, nbeta=num(b), nalpha=num(n - h - b), spin_number=num((n - h - 2 * b) / 2), nb_conf=num(dim(n, h, b)), sites_restriction=want_rest, pair=True)
        same_snap(M, got, exp, "saved configuration of the sector with %d down spins of %s" % (b, where))
        M.check(all(getattr(r.data.interactions, x) == c[x] for x in c), "saved couplings differ: " + where)
        M.check(all(getattr(r.data.bool_interactions, t) == (t in terms) for t in m.TERMS), "saved selection differs: " + where)
        M.check((r.data.diagonalization.nb_val, r.data.diagonalization.tol, r.data.diagonalization.dim_max, r.data.diagonalization.stp) == (nb, tol, dim_max, stp), "saved diagonalisation parameters differ: " + where)
        st = m.states(n, h, b)
        M.check([tuple(d) for d in r.determinants] == [tuple(m.to_det(x)) for x in st], "saved basis of the sector with %d down spins differs: %s" % (b, where))
        A = m.matrix(L, h, b, c, terms, R)
        check_matrix(M, dense(M, r.hamiltonian, len(st)), A, "saved Hamiltonian of the sector with %d down spins: %s" % (b, where), st)
        e, v = np.array(r.eigenstates.eigvals, float), np.asarray(r.eigenstates.eigvects)
        count = min(nb, len(st))
        M.check(len(e) == count and v.shape == (len(st), count), "sector with %d down spins of dimension %d: %d eigenvalues, vectors %s, expected %d: %s" % (b, len(st), len(e), v.shape, count, where))
        exact = np.linalg.eigvalsh(A)
        res = np.linalg.norm(A @ v - v * e, axis=0)
        M.check((res <= 1e-6).all() or not full, "saved eigenpairs of the sector with %d down spins are not eigenpairs: %s" % (b, where), res.tolist())
        if len(announced) == len(written) and announced[len(spectra)]:      # files and announcements come in the order of the sectors
            M.check((res <= tol * (1 + 1e-6) + 1e-9).all(), "the sector with %d down spins was announced as converged, its residuals are above the tolerance %g: %s" % (b, tol, where), res.tolist())
            M.ev("sectors announced as converged")
            if len(st) > nb: M.ev("converged sectors with fewer pairs than the dimension")
        M.check((e >= exact[:count] - 1e-8).all(), "saved energies below the exact spectrum: %s" % where, e.tolist(), exact[:count].tolist())
        if len(st) < nb: M.ev("more pairs requested than the dimension")
        if len(st) > nb: M.ev("fewer pairs than the dimension")
        if full:
            M.check(np.allclose(np.sort(e), exact, atol=1e-6), "complete spectrum of the sector with %d down spins: %s" % (b, where), e.tolist(), exact.tolist())
            M.ev("complete spectra compared")
            spectra[b] = np.sort(e)
        else:
            spectra[b] = None
        M.check(len(r.eigenstates.spins) == (count if data.bool_interactions.b_spin_multipicities else 0), "number of saved spins: %s" % where, len(r.eigenstates.spins))
        M.ev("sectors")
    M.check(sorted(spectra) == list(range(n - h + 1)), "sectors saved by the sweep: %s of %s" % (sorted(spectra), where))
    if full:
        for b in range((n - h) // 2 + 1):
            M.check(np.allclose(spectra[b], spectra[n - h - b], atol=2e-6), "opposite spin sectors have different spectra: %s" % where, spectra[b].tolist(), spectra[n - h - b].tolist())
            M.ev("opposite sectors")
        if ("bz" in terms) == ("bij" in terms):
            for b in range((n - h) // 2):
                up, low = list(spectra[b]), list(spectra[b + 1])
                j = 0
                for x in up:            # both sorted: every level of the higher projection has a partner in the lower one
                    while j < len(low) and low[j] < x - 4e-6: j += 1
                    M.check(j < len(low) and abs(low[j] - x) <= 4e-6, "energy %r of projection %s is missing from projection %s: %s" % (x, (n - h - 2 * b) / 2, (n - h - 2 * b - 2) / 2, where), low)
                    j += 1
                M.ev("multiplets found in lower sectors")
    M.input((kind, tuple(s), h, tuple(terms), tuple(R or ()), nb) if n - h >= 2 else None, dict(sweep=where, files=written))
