from common import *
import random
ID = "C15"
RULE = ("Site probabilities computed by the repository for random, sparse, scaled, complex, basis and eigen-vectors on all fillings of small "
        "lattices of the three numbering schemes. Oracles: squared weights of the reference states; sums over species and sites; "
        "spin reversal; geometrical place of each site in the rectangular array. Non-trivial: several determinants with weight.")
REQUIRED = {"site probabilities": 15000, "rectangular arrays": 600, "non-square arrays": 300, "rejected requests": 300, "complex vectors": 100, "scaled vectors": 120, "vectors beyond 300 components": 16}


def cases(tier, rng):
    out = []
    for kind in KINDS:
        for s in m.shapes(25):
            n = m.lattice_sites(kind, s)
            if n > (14 if tier == "quick" else 25): continue
            fs = extreme_fillings(n, 80 if tier == "quick" else 300)
            if n > 5 or s[2] > 1: fs = rng.sample(fs, min(len(fs), 5 if tier == "quick" else 20))
            out += [dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n * (n if kind == 'periodic' else 3) / 500 + 1) for h, b in fs]
    big = [(kind, s, h, b) for kind in KINDS for s in m.shapes(16) for n in [m.lattice_sites(kind, s)] if 5 < n < 12 for h, b in fillings(n) if 300 < dim(n, h, b) <= (1300 if tier == "quick" else 3000)]
    for kind, s, h, b in rng.sample(big, min(len(big), 16 if tier == "quick" else 80)):
        n = m.lattice_sites(kind, s)
        out.append(dict(kind=kind, shape=s, h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n * (n if kind == 'periodic' else 3) / 500 + 1))
    return out


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    h, b, n = case["h"], case["b"], L.n
    R = some_restriction(rng, n, .2)
    cfg = L.config(bC, lF, h, b, restriction=R)
    basis = bC.construct_basis(cfg)
    st = det_states(basis.determinants, h, b)
    N = len(st)
    if N > 300: M.ev("vectors beyond 300 components", 2)
    where = "%s W=%d H=%d, %d holes, %d down" % (L.kind, L.W, L.H, h, b)
    for _ in range(2):
        v = np.array([rng.gauss(0, 1) for _ in range(N)])
        r = rng.random()
        if r < .2:
            v = np.zeros(N); v[rng.randrange(N)] = rng.choice([1, -1, .3])
        elif r < .4: v[np.array([rng.random() < .6 for _ in range(N)])] = 0
        elif r < .6:
            v = v * 10.0 ** rng.choice([rng.randint(-5, 5), rng.randint(-60, 60)])
            M.ev("scaled vectors")
        elif r < .65: v = np.rint(3 * v)
        elif r < .8:
            v = v * np.exp(1j * np.array([rng.uniform(0, 6.3) for _ in range(N)]))
            M.ev("complex vectors")
        if not v.any(): v[:] = 1
        x = disguised(rng, v.reshape(-1, 1))
        keep = x.copy()
        P = m.site_probabilities(st, v)
        M.input((case["kind"], case["shape"], h, b, tuple(np.round(v, 9))) if np.count_nonzero(v) > 1 else None, dict(lattice=where, vector=str(v[:6])))
        got = {s: bC.get_probability_spin_lattice(basis, x, s) for s in (0, 1, -1)}
        for s in got:
            M.check(len(got[s]) == n and np.abs(np.array(got[s], dtype=float) - P[s]).max() < 1e-10, "probability of %d on %s" % (s, where), list(got[s]), P[s])
            M.check(all(-1e-12 <= p <= 1 + 1e-9 for p in got[s]), "a probability is outside [0,1] on " + where, got[s])
            M.ev("site probabilities", n)
        M.check(np.abs(np.sum([got[s] for s in got], axis=0) - 1).max() < 1e-9, "the three probabilities do not sum to one on " + where)
        M.check(all(abs(sum(got[s]) - k) < 1e-8 for s, k in ((0, h), (-1, b), (1, n - h - b))), "the probabilities over the sites do not sum to the numbers of particles of " + where)
        rev = {s: bC.get_probability_spin_lattice(basis, x, s, True) for s in (0, 1, -1)}
        M.check(all(np.abs(np.array(rev[s]) - P[-s]).max() < 1e-10 for s in rev), "reversed probabilities on " + where, rev, P)
        for flag in (False, True):
            d = bC.get_spins_probabilitites_lattice(basis, x, flag)
            M.check(set(d) == {0, 1, -1} and all(np.abs(np.array(d[s]) - P[-s if flag else s]).max() < 1e-10 for s in d),
                    "get_spins_probabilitites_lattice, reverse_spins=%s on %s" % (flag, where), d, P)
        if L.kind == 'periodic':
            for s in (0, 1, -1):
                A = np.asarray(bC.get_probability_spin_rectangular_lattice(basis, x, s))
                M.check(A.shape == (L.H, L.W), "shape of the probability array of " + where, A.shape)
                for k, (cx, cy) in enumerate(L.xy):
                    M.check(abs(A[L.H - 1 - cy, cx] - P[s][k]) < 1e-10, "the probability of site %d is not at its geometrical place on %s" % (k, where), A.tolist(), P[s])
                M.ev("rectangular arrays")
                if L.W != L.H: M.ev("non-square arrays")
        else:
            M.raises(ValueError, bC.get_probability_spin_rectangular_lattice, basis, x, rng.choice((0, 1, -1)))
            M.ev("rejected requests")
        bad = rng.choice([2, -2, 0.5, -0.5, 3])
        M.raises(ValueError, bC.get_probability_spin_lattice, basis, x, bad)
        M.ev("rejected requests")
        M.check(np.array_equal(x, keep), "a probability function modified its vector on " + where)
