from common import *
import random
from itertools import combinations
ID = "C10"
RULE = ("Hamiltonians assembled by the repository for selections of terms (the two exchange terms together for the spin symmetry), three "
        "numbering schemes, all fillings of small lattices, random couplings. Oracle: invariants - symmetric matrix of the announced "
        "dimension, commutator with an independently built total spin, image under spin reversal, half and quarter turns; sampled rows of some large bases against the reference. Non-trivial: "
        "the matrix is not diagonal.")
REQUIRED = {"matrices": 300, "spin commutators": 200, "reversed sectors": 200, "half turns": 80, "quarter turns": 60, "rows of large Hamiltonians": 200}


def selection(rng, paired):
    t = [x for x in ("bt", "bSD", "btN", "bV") if rng.random() < .55]
    if paired: return tuple(t + (["bz", "bij"] if rng.random() < .7 else []))
    return tuple(t + [x for x in ("bz", "bij") if rng.random() < .5])


def cases(tier, rng):
    out = matrix_cases(tier, rng, per=1, dmax=120)
    for s in [(2, 2, 1), (1, 1, 2), (3, 3, 1), (1, 1, 3), (4, 4, 1), (2, 2, 2), (1, 1, 4)]:
        n = m.lattice_sites('periodic', s)
        fs = extreme_fillings(n, 150 if tier == "quick" else 600)
        for h, b in rng.sample(fs, min(len(fs), 12 if tier == "quick" else 40)):
            out.append(dict(kind='periodic', shape=list(s), h=h, b=b, seed=rng.randrange(10 ** 9), _w=dim(n, h, b) * n / 50 + 1))
    return out + large_cases(tier, rng, ((1000, 3500),) * (4 if tier == "quick" else 24))


def assemble(M, L, h, b, c, terms):
    cfg = L.config(bC, lF, h, b)
    M.check(cfg.nb_conf == dim(L.n, h, b), "announced dimension", cfg.nb_conf, dim(L.n, h, b))
    basis = bC.construct_basis(cfg)
    return reindex(full_matrix(M, cfg, basis, c, terms), det_states(basis.determinants, h, b), h, b)


def permuted(A, st, f, st2):
    """Matrix with rows and columns moved along state -> f(state)."""
    pos = {s: k for k, s in enumerate(st2)}
    p = [pos[f(s)] for s in st]
    B = np.zeros_like(A)
    B[np.ix_(p, p)] = A
    return B


def run(case, M):
    rng = random.Random(case["seed"])
    if "large" in case: return large_matrix(case, M, rng, selection(rng, False) or ("bt",), rows=60)
    L = lattice(case["kind"], case["shape"])
    h, b = case["h"], case["b"]
    for paired in (False, True):
        c = m.random_couplings(rng)
        terms = selection(rng, paired)
        A, st = assemble(M, L, h, b, c, terms)
        where = "%s on %s W=%d H=%d, %d holes, %d down" % (terms, L.kind, L.W, L.H, h, b)
        tol = 1e-9 * (1 + np.abs(A).max())
        bad = np.abs(A - A.T).max()
        M.check(bad < tol, "the Hamiltonian is not symmetric: " + where, c, "largest |H - H^T| = %g" % bad)
        M.ev("matrices")
        offdiag = np.abs(A - np.diag(np.diag(A))).max() > tol
        M.input((case["kind"], case["shape"], h, b, terms) if offdiag else None, dict(lattice=where, couplings=c))
        B, st2 = assemble(M, L, h, L.n - h - b, c, terms)
        flip = lambda s: tuple(-x for x in s)
        M.check(np.abs(permuted(A, st, flip, st2) - B).max() < tol, "spin reversal does not map the Hamiltonian on that of the opposite sector: " + where, c)
        M.ev("reversed sectors")
        if L.kind == 'periodic':
            turns = [(2, "half turns")] + ([(1, "quarter turns"), (3, "quarter turns")] if L.W == L.H else [])
            for k, name in turns:
                img = [m.rotate_xy(L, k, s) for s in range(L.n)]
                def rot(s):
                    v = [0] * L.n
                    for i, x in enumerate(s): v[img[i]] = x
                    return tuple(v)
                M.check(np.abs(permuted(A, st, rot, st) - A).max() < tol, "not invariant under the rotation by %d quarter turns: %s" % (k, where), c)
                M.ev(name)
        if paired:
            S = m.s2_matrix(L.n, h, b)
            C = A @ S - S @ A
            M.check(np.abs(C).max() < 1e-8 * (1 + np.abs(A).max()) * (1 + np.abs(S).max()), "does not commute with the total spin: " + where, c,
                    "largest commutator element %g" % np.abs(C).max())
            M.ev("spin commutators")
