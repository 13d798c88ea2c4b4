from common import *
import random
ID = "C12"
RULE = ("Hamiltonians assembled with the interacting sites restricted to random subsets (all subsets of a few small lattices), given in the "
        "configuration or at assembly, as a list or as a pair of lists. Oracles: reference operator with restriction, confinement of the "
        "changed sites, invariance under the occupation of outside sites through the reference, unrestricted caller objects. "
        "Non-trivial: proper subset with at least two sites and a non-zero matrix.")
REQUIRED = {"restricted matrices": 800, "confined elements": 3000, "assembly restrictions": 250, "configuration restrictions": 250, "restrictions to all sites": 80, "other restrictions of the same Hamiltonian": 400, "unrestricted after restricted": 80, "rows of large Hamiltonians": 200}


def cases(tier, rng):
    out = []
    lim = {'periodic': 6, 'clusters': 6, 'peripheral': 6} if tier == "quick" else {'periodic': 9, 'clusters': 8, 'peripheral': 10}
    for kind in KINDS:
        for s in m.shapes(25):
            n = m.lattice_sites(kind, s)
            if n < 2 or n > (16 if tier == "quick" else 25): continue
            fs = extreme_fillings(n, 90 if n > 6 else 200)
            fs = [f for f in fs if dim(n, *f) > 1]
            if s[2] > 1 or n > lim[kind]: fs = rng.sample(fs, min(len(fs), 3 if tier == "quick" else 8))
            for h, b in fs:
                out.append(dict(kind=kind, shape=s, h=h, b=b, subsets=5, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n / 20 + 1))
    for kind, s in (('periodic', (2, 2, 1)), ('clusters', (1, 2, 1)), ('peripheral', (1, 1, 1)), ('periodic', (3, 1, 1)), ('periodic', (1, 5, 1))):
        n = m.lattice_sites(kind, s)
        for h, b in fillings(n):
            out.append(dict(kind=kind, shape=s, h=h, b=b, subsets=0, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n / 5 + 1))
    return out + large_cases(tier, rng, ((800, 2500),) * (4 if tier == "quick" else 24))


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    if "large" in case:
        R = sorted(rng.sample(range(L.n), rng.randint(L.n // 2, L.n - 1)))
        return large_matrix(case, M, rng, tuple(t for t in m.TERMS if rng.random() < .5) or ("bt", "bij"), rows=60, R=R)
    h, b = case["h"], case["b"]
    n = L.n
    everything = list(range(n))
    free = L.config(bC, lF, h, b)
    basis = bC.construct_basis(free)
    sts = det_states(basis.determinants, h, b)
    if case["subsets"]:
        subs = []
        for _ in range(case["subsets"]):
            r = rng.random()
            k = rng.randint(1, n) if r < .6 else max(1, n - rng.randint(0, 2))
            R = set(rng.sample(everything, k))
            if r < .3:                      # connected patch: more processes survive
                R = {rng.randrange(n)}
                while len(R) < k:
                    R.add(rng.choice(sorted({q for p in R for q in L.nb[p]} - R) or sorted(set(everything) - R)))
            R = sorted(R)
            if rng.random() < .5: rng.shuffle(R)
            subs.append(R)
        subs.append(everything)
    else:
        subs = [[s for s in everything if w >> s & 1] for w in range(1, 2 ** n)]
    where = "%s W=%d H=%d, %d holes, %d down" % (L.kind, L.W, L.H, h, b)
    c = terms = None
    for R in subs:
        if c is None or rng.random() < .4:      # otherwise another restriction of the same Hamiltonian
            c = m.random_couplings(rng, hard=False)
            terms = tuple(t for t in m.TERMS if rng.random() < .6) or (rng.choice(m.TERMS),)
        else:
            M.ev("other restrictions of the same Hamiltonian")
            if rng.random() < .25:
                A, st = reindex(full_matrix(M, free, basis, c, terms), sts, h, b)
                check_matrix(M, A, m.matrix(L, h, b, c, terms), "no restriction after others with terms %s on %s" % (terms, where), st)
                M.ev("unrestricted after restricted")
        how = rng.choice(("configuration list", "configuration pair", "assembly list", "assembly pair"))
        arg = (list(R), list(R)) if how.endswith("pair") else list(R)
        if how.startswith("configuration"):
            cfg = L.config(bC, lF, h, b, restriction=arg)
            bs = bC.construct_basis(cfg)
            A, st = reindex(full_matrix(M, cfg, bs, c, terms), det_states(bs.determinants, h, b), h, b)
        else:
            A, st = reindex(full_matrix(M, free, basis, c, terms, sites_restriction=arg), sts, h, b)
            M.check(free.sites_restriction == (everything, everything) and basis.configuration is free,
                    "assembling with a restriction changed the caller's configuration or basis", where, R, free.sites_restriction)
            M.check(arg == ((list(R), list(R)) if how.endswith("pair") else list(R)), "the restriction passed by the caller was modified", arg)
        M.ev(how.split()[0] + " restrictions")
        B = m.matrix(L, h, b, c, terms, R)
        check_matrix(M, A, B, "restriction %s (%s) with terms %s on %s" % (R, how, terms, where), st)
        M.ev("restricted matrices")
        inside = set(R)
        for i, j in zip(*np.nonzero(A)):
            if i != j:
                M.check(all(x == y or s in inside for s, (x, y) in enumerate(zip(st[i], st[j]))),
                        "a matrix element changes the occupation of a site outside the restriction %s on %s" % (R, where), st[i], st[j])
                M.ev("confined elements")
        M.input((case["kind"], case["shape"], h, b, tuple(sorted(R)), terms) if 1 < len(R) < n and B.any() else None,
                dict(lattice=where, restriction=R, how=how, terms=terms))
        if len(R) == n:
            A2, _ = reindex(full_matrix(M, free, basis, c, terms), sts, h, b)
            M.check(np.allclose(A, A2, atol=1e-12), "a restriction to all sites differs from no restriction on " + where, terms)
            M.ev("restrictions to all sites")
